// C26: no undefined behaviour.  The public surface of both number types is executed on exhaustively enumerated operands in
// builds whose undefined behaviour traps: address + undefined-behaviour sanitizer (objects and buffers of exact size on the
// heap), and memory sanitizer (VERIF_MSAN; every result is branched on).  Assertions are on; a hang is a violation.
#include "mc.h"
#include "numstate.h"
#include "ops.h"
#include "C26_use.h"
#if __has_include("dictionary.h")
#include "dictionary.h"
#else
constexpr unsigned DICTIONARY_SIZE = 0; constexpr unsigned long long DICTIONARY_LIST[1]{};
#endif
#include <algorithm>
#include <cstring>
#include <limits>
#include <memory>
#include <string_view>
#include <vector>
using mc::Ctx; using mc::strf;
#define QT(q, t) (mc::thorough() ? (t) : (q))
#ifdef VERIF_MSAN
#define TAG "memory sanitizer: "
constexpr bool MSAN = true;
#else
#define TAG ""
constexpr bool MSAN = false;
#endif
// operands without GMP: (background, low, high, sign) patterns
struct Pattern { uint32_t lo, mid, hi; int sign; };
static const Pattern P0[] = {{0, 0, 0, 0}, {1, 0, 0, 1}, {0xffffffffu, 0xffffffffu, 0xffffffffu, 1}, {0xffffffffu, 0xffffffffu, 0xffffffffu, -1}, {1, 0, 0, -1}, {0, 0, 0x80000000u, 1}, {0, 0, 0x80000000u, -1}, {10, 0, 0, -1}, {0xfffffffeu, 0xffffffffu, 0x7fffffffu, 1}, {0xffffffffu, 0, 0, 1}, {0, 1, 0, 1}, {0x80000000u, 0, 0, -1}, {0, 0xffffffffu, 0, -1}, {0x9abcdef0u, 0x12345678u, 0xfedcba98u, 1}, {7, 0x55555555u, 0, -1}, {0, 0, 1, 1}, {2, 0, 0, 1}, {0xdeadbeefu, 0, 1, -1}, {0xffffffffu, 0xffffffffu, 0, 1}, {0, 0x80000000u, 0, -1}, {3, 0, 0x00010000u, 1}, {0xffff0000u, 0x0000ffffu, 0xffff0000u, 1}};
static const std::vector<Pattern> P = [] { std::vector<Pattern> v(std::begin(P0), std::end(P0)); for (unsigned i = 0; i < DICTIONARY_SIZE; ++i) { const auto lo = static_cast<uint32_t>(DICTIONARY_LIST[i]), hi = static_cast<uint32_t>(DICTIONARY_LIST[i] >> 32); v.push_back({lo, hi, 0, i % 2 ? -1 : 1}); v.push_back({0, hi, lo, 1}); v.push_back({lo, lo, lo, -1}); } return v; }();
static const unsigned NP = static_cast<unsigned>(P.size());
template <class Num> Num make(unsigned i) {
    constexpr std::size_t n = Num::totalBlocksNumber(); const auto& p = P[i % NP]; Num x = [&] { if constexpr (isSigned<Num>) return Num(p.sign); else return Num{}; }();
    if (!isSigned<Num> || p.sign) for (std::size_t b = 0; b < n; ++b) x.setBlock(b, b == 0 ? p.lo : b == n - 1 ? p.hi : p.mid);
    return x;
}
static std::string pat(unsigned i) { const auto& p = P[i % NP]; return strf("[%s low %x middle %x high %x]", p.sign < 0 ? "-" : "+", p.lo, p.mid, p.hi); }
template <class Num> void table(const char* type, unsigned plain, unsigned heavy, unsigned very, bool narrow = false) {
    constexpr std::size_t N = Num::getBitness();
    for (const auto& op : ops::allOps<Num>()) {
        if (MSAN && (op.flags & ops::RUN)) continue;         // streams live in an uninstrumented library
        const unsigned ks = ops::scalars(op.flags), most = op.flags & ops::VERY ? very : op.flags & ops::HEAVY ? heavy : plain, m = most == 22 ? NP : std::min(NP, most); if (!m) continue; const bool few = narrow && ((op.flags & ops::VERY) || (op.flags & (ops::HEAVY | ops::RUN)) == (ops::HEAVY | ops::RUN));
        auto spread = [m, few](uint64_t q) { if (few) { constexpr unsigned SMALL[] = {16, 9, 7, 11, 1}; return SMALL[q % 5]; } return static_cast<unsigned>(m > 1 ? q * (NP - 1) / (m - 1) : 2); };
        mc::add(strf(TAG "%s: %s", type, op.name), uint64_t{m} * m * ks, [=](Ctx& c, uint64_t i) {
            const uint64_t k = ops::scalar<N>(op.flags, static_cast<unsigned>(i % ks)); const unsigned x = spread(i / ks % m), y = spread(i / ks / m);
            auto heap = [](Num v) { return std::unique_ptr<Num>(new Num(v)); };
            auto a = heap(make<Num>(x)), b = heap(make<Num>(y)), d = heap(make<Num>(x + y)), e = heap(make<Num>(y + 3)), m_ = heap(make<Num>(few ? y : x * 3 + y + 1));
            if (op.flags & ops::MODC) { for (std::size_t q = N / 64; q < N / 32; ++q) m_->setBlock(q, 0); if (ops::zero(*m_)) *m_ = Num(2u); }
            if constexpr (isSigned<Num>) { for (auto* q : {&m_}) if (ops::zero(**q)) **q = Num(0); }
            if (!ops::legal(op.flags, *b, *m_, k)) return;
            ops::Log log; op.f(*d, *e, *a, *b, *m_, k, log); c.step(); consume(*d); consume(*e); use(log.h); mc::numState(c, *d, 26); },
            [=](uint64_t i) { const unsigned x = spread(i / ks % m), y = spread(i / ks / m); return strf("%s %s a=%s b=%s d=%s e=%s c=%s k=%llx", type, op.name, pat(x).c_str(), pat(y).c_str(), pat(x + y).c_str(), pat(y + 3).c_str(), pat(x * 3 + y + 1).c_str(), static_cast<unsigned long long>(ops::scalar<N>(op.flags, static_cast<unsigned>(i % ks)))); },
            narrow ? (op.flags & (ops::VERY | ops::HEAVY) ? std::max<uint64_t>(1, (uint64_t{m} * m * ks + 3) / 4) : uint64_t{m} * m * ks) : 0);
    }
}
// ---------------------------------------------------------------- every built-in operand type
template <class B> constexpr B extreme(unsigned i) { using L = std::numeric_limits<B>; const B v[] = {static_cast<B>(0), static_cast<B>(1), L::max(), L::min(), static_cast<B>(L::max() - 1), static_cast<B>(L::min() + 1), static_cast<B>(-1), static_cast<B>(10), static_cast<B>(L::max() / 2 + 1), static_cast<B>(static_cast<B>(1) << (sizeof(B) * 8 - 2 > 30 ? 31 : 6))}; return v[i % 10]; }
template <> constexpr bool extreme<bool>(unsigned i) { return i % 2; }
template <class Num, class B> void builtin(const char* type, const char* name) {
    if constexpr (isSigned<Num> || std::is_unsigned_v<B>)
    mc::add(strf(TAG "%s with %s", type, name), NP * 10, [](Ctx& c, uint64_t i) {
        const B v = extreme<B>(static_cast<unsigned>(i % 10)); const unsigned x = static_cast<unsigned>(i / 10); const Num a = make<Num>(x); Num t = a; const bool one = v != B(0), nz = !a.isZero();
        t += v; consume(t); t = a; t -= v; consume(t); t = a; t *= v; consume(t); if (one) { t = a; t /= v; consume(t); t = a; t %= v; consume(t); consume(Num(a / v)); consume(Num(a % v)); }
        consume(Num(a + v)); consume(Num(v + a)); consume(Num(a - v)); consume(Num(v - a)); consume(Num(a * v)); consume(Num(v * a)); if (nz) { consume(Num(v / a)); consume(Num(v % a)); }
        t = v; consume(t); consume(Num(v)); use(a == v); use(a != v); use(a.compareTo(v) == decltype(a.compareTo(v))::less); use(CMP3(a, v) < 0);
        if constexpr (!isSigned<Num>) { t = a; t &= v; consume(t); t |= v; consume(t); t ^= v; consume(t); consume(Num(a & v)); consume(Num(v | a)); consume(Num(a ^ v)); if constexpr (!std::is_same_v<B, bool>) if (static_cast<uint64_t>(v) < 4096) { consume(Num(a << v)); consume(Num(a >> v)); t <<= v; consume(t); t >>= v; consume(t); } }
        if constexpr (std::is_signed_v<B> || !isSigned<Num>) use(static_cast<uint64_t>(a.template integralCast<B>()));
        c.step(24); mc::numState(c, t, 27); },
        [type, name](uint64_t i) { return strf("%s %s and the built-in value %lld of type %s", type, pat(static_cast<unsigned>(i / 10)).c_str(), static_cast<long long>(extreme<B>(static_cast<unsigned>(i % 10))), name); });
}
template <class Num> void builtins(const char* type) {
#define B(T) builtin<Num, T>(type, #T);
    B(bool) B(char) B(signed char) B(unsigned char) B(short) B(unsigned short) B(int) B(unsigned) B(long) B(unsigned long) B(long long) B(unsigned long long) B(wchar_t) B(char8_t) B(char16_t) B(char32_t)
#undef B
}
// ---------------------------------------------------------------- text in: every string over an alphabet, in a buffer of exactly its length
template <class Num, class Ch> void parse(const char* type, unsigned maxLen) {
    static const Ch A[] = {Ch('0'), Ch('1'), Ch('x'), Ch('b'), Ch('o'), Ch('-'), Ch('9'), Ch('f'), Ch(' '), Ch(0), static_cast<Ch>(-1), Ch('Z')}; constexpr unsigned n = 12;
    uint64_t total = 0, p = 1; for (unsigned l = 0; l <= maxLen; ++l, p *= n) total += p;
    auto decode = [](uint64_t i, std::basic_string<Ch>& s) { unsigned l = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= n; ++l; } for (unsigned q = 0; q < l; ++q, i /= n) s += A[i % n]; };
    mc::add(strf(TAG "%s from %s text", type, sizeof(Ch) == 1 ? "char" : "wchar_t"), total, [decode](Ctx& c, uint64_t i) {
        std::basic_string<Ch> s; decode(i, s); std::unique_ptr<Ch[]> exact(new Ch[s.size()]); std::copy(s.begin(), s.end(), exact.get());
        Num x(exact.get(), s.size()); consume(x); Num y(std::basic_string_view<Ch>(exact.get(), s.size())); consume(y); c.step(2); mc::numState(c, x, 28); },
        [decode, type](uint64_t i) { std::basic_string<Ch> s; decode(i, s); std::string t; for (Ch ch : s) t += strf(" %llx", static_cast<unsigned long long>(ch)); return strf("%s from the characters%s (length %zu)", type, t.c_str(), s.size()); });
    const unsigned most = static_cast<unsigned>(Num::getBitness() + 12);       // long inputs: every length, one repeated digit
    mc::add(strf(TAG "%s from long %s text", type, sizeof(Ch) == 1 ? "char" : "wchar_t"), uint64_t{most} * 8, [](Ctx& c, uint64_t i) {
        static const char* pre[] = {"", "-", "0x", "-0x", "0b", "0o", "0X", " "}; const std::string q = pre[i % 8]; const std::size_t l = i / 8; std::unique_ptr<Ch[]> exact(new Ch[q.size() + l]); std::size_t k = 0; for (char ch : q) exact[k++] = static_cast<Ch>(ch); for (std::size_t j = 0; j < l; ++j) exact[k++] = Ch(i % 8 == 4 || i % 8 == 5 ? '1' : '9');
        Num x(exact.get(), k); consume(x); c.step(); mc::numState(c, x, 29); },
        [type](uint64_t i) { return strf("%s from text with prefix #%llu and %llu digits", type, static_cast<unsigned long long>(i % 8), static_cast<unsigned long long>(i / 8)); });
}
// texts of about 2^16 and 2^17 characters (positions kept in narrower types), leading filler or digits
template <class Num, class Ch> void veryLong(const char* type) {
    mc::add(strf(TAG "%s from very long %s text", type, sizeof(Ch) == 1 ? "char" : "wchar_t"), 4 * 2 * 7, [](Ctx& c, uint64_t i) {
        static const char fill[] = {' ', '-', '1', '0'}; const char f = fill[i % 4]; const std::size_t l = (std::size_t(1) << (i / 4 % 2 ? 17 : 16)) + i / 8 - 3; std::unique_ptr<Ch[]> exact(new Ch[l]); std::fill_n(exact.get(), l, static_cast<Ch>(f)); exact[l - 1] = static_cast<Ch>('7');
        Num x(exact.get(), l); consume(x); c.step(); mc::numState(c, x, 28); },
        [type](uint64_t i) { return strf("%s from %llu characters", type, static_cast<unsigned long long>((uint64_t(1) << (i / 4 % 2 ? 17 : 16)) + i / 8 - 3)); });
}
// ---------------------------------------------------------------- text out: every buffer size, buffers of exactly that size
template <class Num, class Ch, unsigned base> void print(const char* type, unsigned values) {
    constexpr unsigned room = 6 + (base == 16 ? Num::getBitness() / 4 : base == 2 ? Num::getBitness() : base == 8 ? Num::getBitness() / 3 + 1 : Num::getBitness() * 30103 / 100000 + 1);
    mc::add(strf(TAG "%s getString<%u> into %s", type, base, sizeof(Ch) == 1 ? "char" : "wchar_t"), uint64_t{values} * room * 2, [values](Ctx& c, uint64_t i) {
        const Num a = make<Num>(static_cast<unsigned>(i / 2 / room * (NP - 1) / (values > 1 ? values - 1 : 1))); const std::size_t size = i / 2 % room; std::unique_ptr<Ch[]> exact(new Ch[size]);
        const auto n = a.template getString<base>(exact.get(), size, i % 2 != 0); c.step(); if (n > size) c.fail("reports %zu characters for a buffer of %zu", static_cast<std::size_t>(n), size); c.state(n * 64 + base + size); },
        [type, values](uint64_t i) { return strf("%s %s getString<%u> into a buffer of %llu characters, prefix %s", type, pat(static_cast<unsigned>(i / 2 / room * (NP - 1) / (values > 1 ? values - 1 : 1))).c_str(), base, static_cast<unsigned long long>(i / 2 % room), i % 2 ? "on" : "off"); });
}
template <class Num> void texts(const char* type, unsigned len, unsigned values) {
    parse<Num, char>(type, len); parse<Num, wchar_t>(type, len - 1);
    print<Num, char, 2>(type, values); print<Num, char, 8>(type, values); print<Num, char, 10>(type, values); print<Num, char, 16>(type, values); print<Num, wchar_t, 2>(type, values); print<Num, wchar_t, 8>(type, values); print<Num, wchar_t, 10>(type, values); print<Num, wchar_t, 16>(type, values);
}
template <class Num, class Ch, unsigned base> void printFew(const std::string& type) {      // wide numbers: small values and, in base 16, full ones; buffers around every border
    constexpr unsigned full = base == 16 ? Num::getBitness() / 4 : 12;
    mc::add(strf(TAG "%s getString<%u> into %s, some buffer sizes", type.c_str(), base, sizeof(Ch) == 1 ? "char" : "wchar_t"), 4 * 40 * 2, [](Ctx& c, uint64_t i) {
        constexpr unsigned V[] = {0, 7, 16, 11}, W[] = {2, 3, 13, 6}; const Num a = make<Num>(base == 16 ? W[i / 80] : V[i / 80]); const std::size_t j = i / 2 % 40, size = j < 20 ? j : full - 12 + j - 20; std::unique_ptr<Ch[]> exact(new Ch[size]);
        const auto n = a.template getString<base>(exact.get(), size, i % 2 != 0); c.step(); if (n > size) c.fail("reports %zu characters for a buffer of %zu", static_cast<std::size_t>(n), size); c.state(n * 64 + base + size); },
        [type](uint64_t i) { return strf("%s getString<%u>, case %llu", type.c_str(), base, static_cast<unsigned long long>(i)); }, 160);
}
template <class Num> void oneWidth(std::string type) {
    static const std::string label = type; constexpr std::size_t N = Num::getBitness();
    table<Num>(label.c_str(), QT(6, 14), N <= 1056 ? 4 : QT(2, 4), N <= 4096 ? 4 : 2, true); printFew<Num, char, 2>(type); printFew<Num, wchar_t, 8>(type); printFew<Num, char, 10>(type); printFew<Num, wchar_t, 16>(type); printFew<Num, char, 16>(type);
}
#if PART == 0
static void reg() { table<Aeu<96>>("Aeu<96>", 22, 22, QT(10, 22)); builtins<Aeu<96>>("Aeu<96>"); texts<Aeu<96>>("Aeu<96>", QT(4, 5), QT(6, 22)); veryLong<Aeu<96>, char>("Aeu<96>"); veryLong<Aeu<96>, wchar_t>("Aeu<96>"); }
#elif PART == 1
static void reg() { table<Aesi<96>>("Aesi<96>", 22, 22, QT(10, 22)); builtins<Aesi<96>>("Aesi<96>"); texts<Aesi<96>>("Aesi<96>", QT(4, 5), QT(6, 22)); veryLong<Aesi<96>, char>("Aesi<96>"); veryLong<Aesi<96>, wchar_t>("Aesi<96>"); }
#elif PART == 2
static void reg() { table<Aeu<256>>("Aeu<256>", 22, QT(12, 22), QT(4, 10)); builtins<Aeu<256>>("Aeu<256>"); table<Aeu<2048>>("Aeu<2048>", QT(12, 22), QT(3, 5), 0); }
#elif PART == 3
static void reg() { table<Aesi<160>>("Aesi<160>", 22, QT(14, 22), QT(6, 14)); builtins<Aesi<160>>("Aesi<160>"); texts<Aesi<160>>("Aesi<160>", 3, QT(3, 10)); table<Aesi<512>>("Aesi<512>", QT(14, 22), QT(6, 10), QT(2, 4)); }
#else
static void reg() { ops::sweep<PART - 4, 9>([]<class Num>(Num*, const std::string& type) { oneWidth<Num>(type); }); }
#endif
MC_PART(reg);
