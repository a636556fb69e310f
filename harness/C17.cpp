// C17: getString writes the exact numeral and never leaves its buffer.
#include "common.h"
#include <sys/mman.h>
#include <unistd.h>

struct Guarded {      // [no access][room][no access]
    unsigned char* mid; std::size_t room;
    Guarded() { const auto page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE)); room = 16 * page; auto* m = static_cast<unsigned char*>(mmap(nullptr, room + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(m, page, PROT_NONE); mprotect(m + page + room, page, PROT_NONE); mid = m + page; }
};
static Guarded& guarded() { static Guarded g; return g; }

struct Mode { int base; bool upper, show; };
static const std::vector<Mode> MODES{ {10, false, false}, {16, false, false}, {16, true, false}, {8, false, false}, {2, false, false}, {10, false, true}, {16, false, true}, {16, true, true}, {8, false, true}, {2, false, true}, {10, true, false}, {8, true, true}, {2, true, true} };
static std::string numeral(const mpz_class& z, const Mode& m) {
    std::string s = mpz_class(abs(z)).get_str(m.base); if (m.upper) for (auto& c : s) c = static_cast<char>(std::toupper(c));
    if (m.show) s = (m.base == 16 ? "0x" : m.base == 8 ? "0o" : m.base == 2 ? "0b" : "") + s;
    return z < 0 ? "-" + s : s;
}
template <class Ch, class Num> std::size_t call(const Num& n, const Mode& m, Ch* b, std::size_t size) {
    if (m.upper) switch (m.base) { case 2: return n.template getString<2, true>(b, size, m.show); case 8: return n.template getString<8, true>(b, size, m.show); case 10: return n.template getString<10, true>(b, size, m.show); default: return n.template getString<16, true>(b, size, m.show); }
    if (!m.show) switch (m.base) { case 2: return n.template getString<2>(b, size); case 8: return n.template getString<8>(b, size); case 10: return n.template getString<10>(b, size); default: return n.template getString<16>(b, size); }
    switch (m.base) { case 2: return n.template getString<2>(b, size, true); case 8: return n.template getString<8>(b, size, true); case 10: return n.template getString<10>(b, size, true); default: return n.template getString<16>(b, size, true); }
}
// one call with a buffer of exactly `size` characters that ends (or begins) at an unmapped page; canaries on the other side
template <class Ch, class Num> void oneCall(Ctx& c, const Num& n, const mpz_class& z, const Mode& m, std::size_t size, bool atEnd) {
    auto& g = guarded(); constexpr std::size_t CAN = 64; const Ch can = static_cast<Ch>(0x5a);
    Ch* lo = reinterpret_cast<Ch*>(g.mid); Ch* hi = reinterpret_cast<Ch*>(g.mid + g.room);
    Ch* b = atEnd ? hi - size : lo;
    for (std::size_t i = 0; i < size; ++i) b[i] = static_cast<Ch>(0x6b);
    if (atEnd) for (std::size_t i = 1; i <= CAN; ++i) b[-static_cast<std::ptrdiff_t>(i)] = can; else for (std::size_t i = 0; i < CAN; ++i) b[size + i] = can;
    const std::size_t r = call<Ch>(n, m, b, size); c.step();
    if (atEnd) { for (std::size_t i = 1; i <= CAN; ++i) if (b[-static_cast<std::ptrdiff_t>(i)] != can) c.fail("wrote %zu characters before the buffer of %zu", i, size); }
    else for (std::size_t i = 0; i < CAN; ++i) if (b[size + i] != can) c.fail("wrote %zu characters past the end of the buffer of %zu", i + 1, size);
    if (r > size) { c.fail("returned %zu for a buffer of %zu characters", r, size); return; }
    c.state(b, size * sizeof(Ch), 170);
    const std::string want = numeral(z, m);
    if (size >= want.size() + 1) {
        std::string got; for (std::size_t i = 0; i < r; ++i) got += b[i] >= Ch(0) && b[i] < Ch(127) ? static_cast<char>(b[i]) : '?';
        if (r != want.size() + 1 || got.compare(0, r - 1, want) != 0 || b[r - 1] != Ch()) c.fail("buffer of %zu: returned %zu with text \"%s\", expected %zu and \"%s\"", size, r, got.substr(0, 700).c_str(), want.size() + 1, want.substr(0, 700).c_str());
    }
}
enum Sizes { EVERY, NEAR };
template <std::size_t N, class Ch> void calls(std::vector<Pat<N>> p, Sizes sz, unsigned modes) {
    struct Case { unsigned val; bool sgn; unsigned mode; std::size_t len, sizes; uint64_t first; };
    auto A = fam<N>(p); auto S = sfam<N>(p); auto cs = std::make_shared<std::vector<Case>>(); uint64_t total = 0; const auto ms = std::min<std::size_t>(modes, MODES.size());
    for (int sg = 0; sg < 2; ++sg) for (unsigned v = 0; v < (sg ? S->size() : A->size()); ++v) for (unsigned m = 0; m < ms; ++m) {
        const auto len = numeral(sg ? S->z[v] : A->z[v], MODES[m]).size(); const std::size_t k = sz == EVERY ? len + 5 : 8; cs->push_back({v, sg == 1, m, len, k, total}); total += k * 2; }
    auto at = [=](uint64_t i) -> const Case& { return *(std::upper_bound(cs->begin(), cs->end(), i, [](uint64_t x, const Case& e) { return x < e.first; }) - 1); };
    auto size = [=](const Case& e, uint64_t j) -> std::size_t { if (sz == EVERY) return j; switch (j) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return e.len / 2; case 4: return e.len; case 5: return e.len + 1; case 6: return e.len + 2; default: return e.len + 700; } };
    mc::add(strf("%s buffer sizes N=%zu %s", sz == EVERY ? "all" : "decisive", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), total, [=](Ctx& c, uint64_t i) {
        const Case& e = at(i); const uint64_t j = (i - e.first) / 2; const bool end = (i - e.first) % 2 == 0;
        if (e.sgn) { oneCall<Ch>(c, S->v[e.val], S->z[e.val], MODES[e.mode], size(e, j), end); expectSameS(c, S->v[e.val], S->z[e.val], "number"); }
        else { oneCall<Ch>(c, A->v[e.val], A->z[e.val], MODES[e.mode], size(e, j), end); expectSame(c, A->v[e.val], A->z[e.val], "number"); } },
        [=](uint64_t i) { const Case& e = at(i); const auto& m = MODES[e.mode]; return strf("N=%zu %s %s base %d%s%s buffer size %zu", N, e.sgn ? "signed" : "unsigned", hexz(e.sgn ? S->z[e.val] : A->z[e.val]).c_str(), m.base, m.upper ? " uppercase" : "", m.show ? " with prefix" : "", size(e, (i - e.first) / 2)); });
}
// buffers much longer than the numeral: the sizes where a narrower integer type would wrap; a reserved mapping backs them
struct Vast { unsigned char* mem; std::size_t room; Vast() { room = (std::size_t(1) << 34) + (1 << 20); mem = static_cast<unsigned char*>(mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (mem == MAP_FAILED) mem = nullptr; } };
template <std::size_t N, class Ch> void vast(std::vector<Pat<N>> p) {
    static const std::vector<std::size_t> SZ = [] { std::vector<std::size_t> o; for (unsigned b : {7, 8, 9, 10, 11, 12, 15, 16, 24, 31, 32}) for (long d = b < 9 ? 0 : -2; d <= 6; ++d) o.push_back((std::size_t(1) << b) + static_cast<std::size_t>(d)); return o; }();
    auto S = sfam<N>(p); const std::size_t K = SZ.size(), M = MODES.size();
    mc::add(strf("buffers of up to 2^32 characters N=%zu %s", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), S->size() * K * M, [=](Ctx& c, uint64_t i) {
        static Vast v; if (!v.mem) { std::fprintf(stderr, "no room for the mapping\n"); std::abort(); }
        const auto& m = MODES[i % M]; const std::size_t size = SZ[i / M % K]; const auto& a = S->v[i / M / K]; const auto& z = S->z[i / M / K]; const std::string want = numeral(z, m); if (size < want.size() + 1) return;
        Ch* b = reinterpret_cast<Ch*>(v.mem); for (std::size_t j = 0; j < want.size() + 8; ++j) b[j] = Ch('?');
        const std::size_t r = call<Ch>(a, m, b, size); c.step(); bool ok = r == want.size() + 1 && b[want.size()] == Ch(); for (std::size_t j = 0; ok && j < want.size(); ++j) ok = b[j] == static_cast<Ch>(want[j]);
        if (!ok) c.fail("a buffer of %zu characters: returned %zu, expected %zu and \"%s\"", size, r, want.size() + 1, want.c_str()); },
        [=](uint64_t i) { const auto& m = MODES[i % M]; return strf("N=%zu %s base %d%s buffer of %zu characters", N, hexz(S->z[i / M / K]).c_str(), m.base, m.show ? " with prefix" : "", SZ[i / M % K]); });
}
template <std::size_t N> std::vector<Pat<N>> edges() {
    std::vector<Pat<N>> o; for (mpz_class z : {mpz_class(0), mpz_class(1), mpz_class(9), mpz_class(10), mpz_class(15), mpz_class(16), mpz_class(pow2(N) - 1), mpz_class(pow2(N - 1)), mpz_class(pow2(N - 2)), mpz_class(pow2(N) - pow2(32)), mpz_class(pow2(64)), mpz_class(pow2(32)), mpz_class(pow2(N - 32)), mpz_class(pow2(N - 29)), mpz_class(pow2(N - 32) - 1)}) o.push_back(fromMpz<N>(z));
    for (unsigned b : {8u, 10u, 16u}) { mpz_class t = 1; while (t * b < pow2(N)) t *= b; o.push_back(fromMpz<N>(t)); o.push_back(fromMpz<N>(t - 1)); o.push_back(fromMpz<N>(t * (b / 2 - 1) + t / 3)); } return o;
}
template <std::size_t A, std::size_t... K> void widths(std::index_sequence<K...>) { (calls<A + 32 * K, char>(thin(edges<A + 32 * K>(), mc::thorough() ? 30 : 8), NEAR, 9), ...); }
static std::vector<Pat<96>> small() { std::vector<Pat<96>> o; for (uint32_t k = 0; k < (mc::thorough() ? 70000u : 300u); ++k) o.push_back({k, 0, 0}); return o; }
// hexadecimal text of a very wide number (decimal takes minutes per call); small values in the other bases
template <std::size_t N> void giantHex() {
    auto S = sfam<N>(giants<N>(8)); static const std::vector<Mode> M{ {16, false, false}, {16, true, true} };
    mc::add(strf("hexadecimal text N=%zu", N), S->size() * 2, [=](Ctx& c, uint64_t i) { const auto& m = M[i % 2]; const auto& z = S->z[i / 2]; const std::string want = numeral(z, m);
        for (std::size_t extra : {1, 2, 9}) { std::vector<char> b(want.size() + extra, '?'); const std::size_t r = call<char>(S->v[i / 2], m, b.data(), b.size()); c.step(); if (r != want.size() + 1 || want.compare(0, want.size(), b.data(), want.size()) != 0 || b[want.size()] != 0) c.fail("returned %zu, expected %zu, or the text differs", r, want.size() + 1); } },
        [=](uint64_t i) { return strf("N=%zu %s", N, hexz(S->z[i / 2]).substr(0, 60).c_str()); });
    auto T = sfam<N>([] { std::vector<Pat<N>> o; for (const mpz_class& z : {mpz_class(0), mpz_class(7), mpz_class(1234567890), pow2(64), mpz_class(pow2(70) - 1)}) o.push_back(fromMpz<N>(z)); return o; }());
    mc::add(strf("small values N=%zu", N), T->size() * MODES.size(), [=](Ctx& c, uint64_t i) { const auto& m = MODES[i % MODES.size()]; const auto& z = T->z[i / MODES.size()]; oneCall<char>(c, T->v[i / MODES.size()], z, m, numeral(z, m).size() + 1, true); }, [=](uint64_t i) { return strf("N=%zu %s base %d", N, hexz(T->z[i / MODES.size()]).c_str(), MODES[i % MODES.size()].base); });
}
#if PART == 0
static void reg() { calls<96, char>(join(edges<96>(), thin(shapes<96>(1), mc::thorough() ? 400 : 40)), EVERY, 13); calls<96, char>(small(), EVERY, 13); vast<96, char>(edges<96>()); vast<96, wchar_t>(edges<96>()); vast<512, char>(thin(edges<512>(), 6)); }
#elif PART == 1
static void reg() { calls<96, char>(product<96>(mc::thorough() ? L12 : L6), NEAR, 13); calls<128, char>(mc::thorough() ? product<128>(L6) : join(product<128>(L4), shapes<128>(0)), NEAR, 13); widths<160>(std::make_index_sequence<10>()); }
#elif PART == 2
static void reg() { calls<128, wchar_t>(join(edges<128>(), thin(shapes<128>(1), mc::thorough() ? 200 : 15)), EVERY, 13); calls<96, wchar_t>(product<96>(mc::thorough() ? L8 : L4), NEAR, 13); }
#elif PART == 3
static void reg() { calls<256, char>(thin(edges<256>(), mc::thorough() ? 30 : 6), EVERY, 13); calls<256, wchar_t>(edges<256>(), NEAR, 13); calls<512, char>(edges<512>(), NEAR, 10); }
#elif PART == 4
static void reg() { calls<512, wchar_t>(thin(edges<512>(), mc::thorough() ? 30 : 10), NEAR, 13); calls<1024, char>(thin(edges<1024>(), mc::thorough() ? 30 : 4), NEAR, 5); if (mc::thorough()) { calls<512, char>(thin(edges<512>(), 6), EVERY, 9); calls<2048, char>(thin(edges<2048>(), 6), NEAR, 9); } }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { if constexpr (N <= 1088) { calls<N, char>(thin(edges<N>(), N > 512 ? 2 : 4), NEAR, 5); calls<N, wchar_t>(thin(edges<N>(), 2), NEAR, 3); } else if constexpr (N > 65536) giantHex<N>(); }); }
#endif
MC_PART(reg);
