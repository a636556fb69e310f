// C02: unsigned multiplication is exact modulo 2^N.
#include "common.h"

template <std::size_t N> void mul(Ctx& c, const Aeu<N>& a, const Aeu<N>& b, const mpz_class& x, const mpz_class& y) {
    const mpz_class m = modN(x * y, N);
    expectU(c, a * b, m, "a * b"); expectU(c, b * a, m, "b * a");
    { Aeu<N> t = a; Aeu<N>& r = (t *= b); expectU(c, t, m, "a *= b"); if (&r != &t) c.fail("a *= b does not return a"); }
    expectSame(c, a, x, "left operand of *"); expectSame(c, b, y, "right operand of *");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aeu<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    const mpz_class m = modN(x * y, N);
    expectU(c, a * b, m, "const a * built-in"); expectU(c, b * a, m, "built-in * a");
    { Aeu<N> t = a; expectU(c, t * b, m, "a * built-in"); expectSame(c, t, x, "operand of * built-in"); }
    { Aeu<N> t = a; Aeu<N>& r = (t *= b); expectU(c, t, m, "a *= built-in"); if (&r != &t) c.fail("a *= built-in does not return a"); }
    expectSame(c, a, x, "operand of * built-in");
}
template <std::size_t N, class... Bs> void all(FamP<N> A, FamP<N> B, FamP<N> S, bool dense) {
    pairs<N>(strf("a*b N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { mul<N>(c, a, b, x, y); });
    singles<N>(strf("a*=a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { Aeu<N> t = a; t *= t; expectU(c, t, modN(x * x, N), "a *= a"); expectU(c, a * a, modN(x * x, N), "a * a"); });
    forTypes<Bs...>([&]<class T>() { withBuiltin<N, T>(strf("a*built-in N=%zu", N), S, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
template <std::size_t N> void medium() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 3 : 1), t ? 3000 : 420)); all<N, MAIN_UNSIGNED>(F, F, F, false); }
template <std::size_t N> void large() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 2 : 0), t ? 1000 : 170)); all<N, unsigned, unsigned long long>(F, fam<N>(thin(F->p, t ? 800 : 100)), F, false); }

#if PART == 0
static void reg() { auto F = fam<96>(product<96>(mc::thorough() ? L16 : L12)); all<96, ALL_UNSIGNED>(F, F, F, false); }
#elif PART == 1
static void reg() { auto F = fam<128>(join(product<128>(mc::thorough() ? L8 : L5), shapes<128>(2))); all<128, ALL_UNSIGNED>(F, F, F, true); }
#elif PART == 2
static void reg() { auto F = fam<160>(product<160>(mc::thorough() ? L6 : L4)); all<160, MAIN_UNSIGNED>(F, F, F, false); auto G = fam<192>(product<192>({0u, 1u, 0xffffffffu})); all<192, MAIN_UNSIGNED>(G, G, G, false); }
#elif PART == 3
static void reg() { medium<256>(); medium<224>(); medium<288>(); }
#elif PART == 4
static void reg() { medium<512>(); medium<544>(); medium<1024>(); }
#elif PART == 5
static void reg() { large<768>(); large<1312>(); large<1536>(); large<2048>(); large<3072>(); }
#elif PART == 6
static void reg() { large<4096>(); large<6144>(); large<8192>(); }
#elif PART >= 7
static void reg() { everyWidth<PART - 7>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(24)); all<N, unsigned long long>(F, F, F, false); }); }
#endif
MC_PART(reg);
