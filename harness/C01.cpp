// C01: unsigned addition, subtraction, negation, stepping are exact modulo 2^N.
#include "common.h"

template <std::size_t N> void addSub(Ctx& c, const Aeu<N>& a, const Aeu<N>& b, const mpz_class& x, const mpz_class& y) {
    const mpz_class s = modN(x + y, N), d = modN(x - y, N);
    expectU(c, a + b, s, "a + b");
    expectU(c, a - b, d, "a - b");
    { Aeu<N> t = a; Aeu<N>& r = (t += b); expectU(c, t, s, "a += b"); if (&r != &t) c.fail("a += b does not return a"); }
    { Aeu<N> t = a; Aeu<N>& r = (t -= b); expectU(c, t, d, "a -= b"); if (&r != &t) c.fail("a -= b does not return a"); }
    expectSame(c, a, x, "left operand of + or -"); expectSame(c, b, y, "right operand of + or -");
}
template <std::size_t N> void unary(Ctx& c, const Aeu<N>& a, const mpz_class& x) {
    expectU(c, -a, modN(-x, N), "-a"); expectU(c, +a, x, "+a");
    { Aeu<N> t = a; Aeu<N>& r = ++t; expectU(c, t, modN(x + 1, N), "++a"); if (&r != &t) c.fail("++a does not return a"); }
    { Aeu<N> t = a; Aeu<N>& r = --t; expectU(c, t, modN(x - 1, N), "--a"); if (&r != &t) c.fail("--a does not return a"); }
    { Aeu<N> t = a; const Aeu<N> o = t++; expectU(c, t, modN(x + 1, N), "a after a++"); expectU(c, o, x, "value of a++"); }
    { Aeu<N> t = a; const Aeu<N> o = t--; expectU(c, t, modN(x - 1, N), "a after a--"); expectU(c, o, x, "value of a--"); }
    { Aeu<N> t = a; t += t; expectU(c, t, modN(2 * x, N), "a += a"); t = a; t -= t; expectU(c, t, 0, "a -= a"); }
    expectSame(c, a, x, "operand of a unary operation");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aeu<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    const mpz_class s = modN(x + y, N);
    expectU(c, a + b, s, "a + built-in"); expectU(c, b + a, s, "built-in + a");
    { Aeu<N> t = a; Aeu<N>& r = (t += b); expectU(c, t, s, "a += built-in"); if (&r != &t) c.fail("a += built-in does not return a"); }
    expectU(c, a - Aeu<N>(b), modN(x - y, N), "a - built-in"); expectU(c, b - a, modN(y - x, N), "built-in - a");
    { Aeu<N> t = a; t -= b; expectU(c, t, modN(x - y, N), "a -= built-in"); }
    expectSame(c, a, x, "operand of + built-in");
}
template <std::size_t N, class... Bs> void all(FamP<N> A, FamP<N> B, bool dense) {
    pairs<N>(strf("a+b, a-b N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { addSub<N>(c, a, b, x, y); });
    singles<N>(strf("unary N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { unary<N>(c, a, x); });
    forTypes<Bs...>([&]<class T>() { withBuiltin<N, T>(strf("a+built-in N=%zu", N), A, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
template <std::size_t N> void medium() { auto F = fam<N>(thin(shapes<N>(mc::thorough() ? 3 : 1), mc::thorough() ? 4000 : 420)); all<N, MAIN_UNSIGNED>(F, F, false); }
template <std::size_t N> void large() { auto F = fam<N>(thin(shapes<N>(mc::thorough() ? 2 : 0), mc::thorough() ? 2500 : 300)); all<N, unsigned, unsigned long long>(F, fam<N>(thin(F->p, mc::thorough() ? 1200 : 150)), false); }

#if PART == 0
static void reg() { auto F = fam<96>(product<96>(mc::thorough() ? L16 : L10)); all<96, ALL_UNSIGNED>(F, F, false); }
#elif PART == 1
static void reg() { auto F = fam<128>(join(product<128>(mc::thorough() ? L8 : L5), shapes<128>(3))); all<128, ALL_UNSIGNED>(F, F, true); }
#elif PART == 2
static void reg() { auto F = fam<160>(product<160>(mc::thorough() ? L6 : L4)); all<160, MAIN_UNSIGNED>(F, F, false); auto G = fam<192>(product<192>({0u, 1u, 0xffffffffu})); all<192, MAIN_UNSIGNED>(G, G, false); }
#elif PART == 3
static void reg() { medium<256>(); medium<224>(); medium<288>(); }
#elif PART == 4
static void reg() { medium<512>(); medium<544>(); medium<1024>(); }
#elif PART == 5
static void reg() { large<768>(); large<1312>(); large<1536>(); large<2048>(); large<3072>(); }
#elif PART == 6
static void reg() { large<4096>(); large<6144>(); large<8192>(); }
#elif PART >= 7
static void reg() { everyWidth<PART - 7>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(30)); all<N, unsigned long long>(F, F, false); }); }
#endif
MC_PART(reg);
