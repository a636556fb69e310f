// C22: compile-time evaluation gives the run-time results.
// For every operation and every operand tuple of a finite list the compiler evaluates the operation in a constant
// expression (the tables below are constexpr); at run time the same operation is executed on the same operands.
#include "common.h"
#include "ops.h"

#ifdef VERIF_NO_CONSTEXPR      // control build: the same program without constant evaluation (used only to attribute a failed build)
#define TABLE const
#else
#define TABLE constexpr
#endif

template <std::size_t N> constexpr std::array<Aeu<N>, 14> magnitudes() {
    std::array<Aeu<N>, 14> r{}; auto set = [&](unsigned i, uint32_t lo, uint32_t mid, uint32_t hi) { for (std::size_t b = 0; b < N / 32; ++b) r[i].setBlock(b, b == 0 ? lo : b == N / 32 - 1 ? hi : mid); };
    set(0, 0, 0, 0); set(1, 1, 0, 0); set(2, 0xffffffffu, 0xffffffffu, 0xffffffffu); set(3, 0, 1, 0); set(4, 0xfffffffeu, 0, 0); set(5, 0, 0, 0x80000000u); set(6, 0xffffffffu, 0xffffffffu, 0x7fffffffu);
    set(7, 10, 0, 0); set(8, 0xdeadbeefu, 0, 0); set(9, 0x9abcdef0u, 0x12345678u, 0xfedcba98u); set(10, 0, 0xffffffffu, 0); set(11, 0xffffffffu, 0, 1); set(12, 7, 0x55555555u, 0); set(13, 0, 0, 1); return r;
}
// the walk: 2^k - 1, 2^k and 2^k + 1 for k on and around every byte and block border (every k for narrow numbers)
template <std::size_t N> constexpr unsigned STEPS = N <= 96 ? 3 * N : 3 * (N / 32) * (N <= 256 ? 9 : 2);
template <std::size_t N> constexpr unsigned WALK = STEPS<N> + 3 * DICTIONARY_SIZE;
template <std::size_t N> constexpr Aeu<N> walk(unsigned j) {
    if (j >= STEPS<N>) { Aeu<N> r{}; j -= STEPS<N>; const uint64_t c = DICTIONARY_LIST[j / 3]; if (j % 3 == 0) { r.setBlock(0, static_cast<uint32_t>(c)); r.setBlock(1, static_cast<uint32_t>(c >> 32)); } else if (j % 3 == 1) r.setBlock(N / 32 - 1, static_cast<uint32_t>(c)); else for (std::size_t b = 0; b < N / 32; ++b) r.setBlock(b, static_cast<uint32_t>(c) + 1); return r; }
    constexpr unsigned in[9] = {0, 1, 7, 8, 9, 15, 16, 24, 31}; const unsigned q = j / 3; const std::size_t k = N <= 96 ? q : N <= 256 ? q / 9 * 32 + in[q % 9] : q / 2 * 32 + (q % 2 ? 31 : q / 2 % 31);
    Aeu<N> r{}; if (j % 3 == 0) for (std::size_t b = 0; b < k / 32; ++b) r.setBlock(b, 0xffffffffu); const uint32_t bit = 1u << (k % 32);
    r.setBlock(k / 32, j % 3 == 0 ? bit - 1 : bit); if (j % 3 == 2) r.setBlock(0, r.getBlock(0) == 1 ? 2u : r.getBlock(0) | 1u); return r;
}
template <class Num> struct List;
template <std::size_t N> struct List<Aeu<N>> { static constexpr unsigned n = 14; static constexpr Aeu<N> at(unsigned i) { return i < n ? magnitudes<N>()[i] : walk<N>(i - n); } };
template <std::size_t N> struct List<Aesi<N>> { static constexpr unsigned n = 27; static constexpr Aesi<N> at(unsigned i) { Aesi<N> r(i < n ? magnitudes<N>()[(i + 1) / 2] : walk<N>(i - n)); if (i % 2) r.inverse(); return r; } };
template <class Num> constexpr auto table() { if constexpr (std::is_same_v<Num, Aeu<Num::getBitness()>>) return ops::uops<Num::getBitness()>(); else return ops::sops<Num::getBitness()>(); }
template <class Num> inline constexpr auto OPS = table<Num>();

#ifdef VERIF_TIER_THOROUGH
#define QT(q, t) (t)
#else
#define QT(q, t) (q)
#endif
struct Tuple { unsigned d, e, a, b, c; uint64_t k; };
template <std::size_t N> constexpr uint64_t K_INDEX[16] = {0, 1, 2, 3, N / 32 - 1, N / 32, N / 8 - 1, N / 8, 31, 32, N - 1, N, N + 7, 0xffffffffull, 0x100000000ull, ~0ull};
template <std::size_t N> constexpr uint64_t K_SHIFT[16] = {0, 1, 31, 32, 33, 63, 64, 65, N - 33, N - 32, N - 31, N - 1, N, N + 1, 2 * N, 0xffffffffull};
constexpr uint64_t K_VALUE[16] = {0, 1, 2, 10, 0x7f, 0x80, 0xff, 0x8000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull};
template <class Num> constexpr unsigned side(unsigned flags) { constexpr auto N = Num::getBitness(); const unsigned n = List<Num>::n; unsigned most = N > 256 && (flags & ops::VERY) ? 0 : N > 256 && (flags & ops::HEAVY) ? 2 : N > 256 ? 5 : flags & ops::VERY ? (N <= 96 ? QT(5u, 9u) : 2u) : flags & ops::HEAVY ? (N <= 96 ? QT(8u, 14u) : N <= 160 ? QT(5u, 9u) : QT(3u, 5u)) : N <= 160 ? n : 9u; if (ops::scalars(flags) > 1) most = flags & ops::HEAVY ? most > 3 ? 3u : most : most > 9 ? 9u : most; return most < n ? most : n; }
template <class Num> constexpr unsigned tuples(unsigned flags) { const unsigned s = side<Num>(flags); return ops::scalars(flags) > 1 ? s * 16 : s * s + (flags & (ops::HEAVY | ops::VERY) ? 0 : WALK<Num::getBitness()>); }
template <class Num> constexpr Tuple tuple(unsigned flags, unsigned i) {
    constexpr auto N = Num::getBitness(); const unsigned s = side<Num>(flags), n = List<Num>::n; auto spread = [&](unsigned x) { return s > 1 ? x * (n - 1) / (s - 1) : 0; };
    if (ops::scalars(flags) > 1) { const unsigned v = spread(i / 16); const uint64_t k = flags & ops::KTXT ? i % 16 : flags & ops::KIDX ? K_INDEX<N>[i % 16] : flags & ops::KSH ? K_SHIFT<N>[i % 16] : K_VALUE[i % 16]; return {v, (v + 3) % n, v, (v * 5 + 2) % n, 1, k}; }
    if (i >= s * s) { const unsigned w = i - s * s; return {n + w, (w * 5 + 1) % n, n + w, n + (w + 3) % WALK<N>, w % n, 0}; }
    const unsigned x = spread(i / s), y = spread(i % s); return {x, (y + 5) % n, x, y, (x * 3 + y) % n, 0};
}
template <class Num> struct Result { Num d, e; uint64_t h; bool legal; };
template <class Num> constexpr Result<Num> evaluate(const ops::Op<Num>& op, unsigned i) {
    const Tuple t = tuple<Num>(op.flags, i); Num d = List<Num>::at(t.d), e = List<Num>::at(t.e); const Num a = List<Num>::at(t.a), b = List<Num>::at(t.b); Num c = List<Num>::at(t.c);
    if ((op.flags & ops::MODC) && !ops::modulus(c)) { c = Num(1u); for (unsigned q = 0; q < t.c; ++q) { c *= Num(t.c + 29u); if (!ops::modulus(c)) { c = Num(t.c + 3u); break; } } }
    if (!ops::legal(op.flags, b, c, t.k)) return {Num{}, Num{}, 0, false};
    ops::Log log; op.f(d, e, a, b, c, t.k, log); return {d, e, log.h, true};
}
template <class Num, std::size_t I> constexpr auto evaluateAll() { std::array<Result<Num>, tuples<Num>(OPS<Num>[I].flags)> r{}; for (unsigned i = 0; i < r.size(); ++i) r[i] = evaluate<Num>(OPS<Num>[I], i); return r; }
template <class Num, std::size_t I> struct CompileTime { static inline TABLE auto value = evaluateAll<Num, I>(); };

template <class Num> std::string showTuple(unsigned flags, unsigned i) { const Tuple t = tuple<Num>(flags, i); auto h = [](unsigned q) { if constexpr (std::is_same_v<Num, Aeu<Num::getBitness()>>) return hexu(List<Num>::at(q)); else return hexs(List<Num>::at(q)); }; return strf("d=%s a=%s b=%s c#%u k=%llx", h(t.d).c_str(), h(t.a).c_str(), h(t.b).c_str(), t.c, static_cast<unsigned long long>(t.k)); }
template <class Num, std::size_t I> void one(const char* type) {
    const auto& op = OPS<Num>[I];
    mc::add(strf("%s: %s", type, op.name), tuples<Num>(op.flags), [](Ctx& c, uint64_t i) {
        const auto& ct = CompileTime<Num, I>::value[i]; static volatile bool barrier = false; unsigned idx = static_cast<unsigned>(i); if (barrier) ++idx;
        const auto rt = evaluate<Num>(OPS<Num>[I], idx); if (!rt.legal) return; c.step(); mc::numState(c, rt.d, 22);
        auto h = [](const Num& q) { if constexpr (std::is_same_v<Num, Aeu<Num::getBitness()>>) return hexu(q); else return hexs(q); };
        if (!ct.legal) { c.fail("the operands are legal at run time only"); return; }
        if (!alike(ct.d, rt.d)) c.fail("compile time gives %s, run time gives %s", h(ct.d).c_str(), h(rt.d).c_str());
        if (!alike(ct.e, rt.e)) c.fail("second result: compile time gives %s, run time gives %s", h(ct.e).c_str(), h(rt.e).c_str());
        if (ct.h != rt.h) c.fail("observers give different answers at compile time and at run time"); },
        [type](uint64_t i) { return strf("%s %s ", type, OPS<Num>[I].name) + showTuple<Num>(OPS<Num>[I].flags, static_cast<unsigned>(i)); });
}
template <class Num, unsigned part, unsigned of, std::size_t... I> void some(const char* type, std::index_sequence<I...>) { ([&] { if constexpr (I % of == part && tuples<Num>(OPS<Num>[I].flags) > 0) one<Num, I>(type); }(), ...); }
template <class Num, unsigned part, unsigned of> void slice(const char* type) { some<Num, part, of>(type, std::make_index_sequence<OPS<Num>.size()>()); }
#define SLICES 5
#if PART < SLICES
static void reg() { slice<Aeu<96>, PART, SLICES>("Aeu<96>"); }
#elif PART < 2 * SLICES
static void reg() { slice<Aesi<96>, PART - SLICES, SLICES>("Aesi<96>"); }
#elif PART < 3 * SLICES
static void reg() { slice<Aeu<256>, PART - 2 * SLICES, SLICES>("Aeu<256>"); }
#elif PART < 4 * SLICES
static void reg() { slice<Aesi<160>, PART - 3 * SLICES, SLICES>("Aesi<160>"); }
#elif PART < 5 * SLICES
static void reg() { slice<Aeu<1024>, PART - 4 * SLICES, SLICES>("Aeu<1024>"); }
#else
static void reg() { slice<Aesi<1056>, PART - 5 * SLICES, SLICES>("Aesi<1056>"); }
#endif
MC_PART(reg);
