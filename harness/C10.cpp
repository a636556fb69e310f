// C10: signed addition, subtraction, multiplication, negation, stepping are exact when representable.
#include "common.h"

template <std::size_t N> void ok(Ctx& c, const Aesi<N>& got, const mpz_class& want, const char* what) { if (fits(want, N)) expectS(c, got, want, what); else { c.step(); observeS(c, got); } }
template <std::size_t N> void binary(Ctx& c, const Aesi<N>& a, const Aesi<N>& b, const mpz_class& x, const mpz_class& y) {
    const mpz_class s = x + y, d = x - y, m = x * y;
    ok(c, a + b, s, "a + b"); ok(c, a - b, d, "a - b"); ok(c, a * b, m, "a * b");
    { Aesi<N> t = a; if (&(t += b) != &t) c.fail("a += b does not return a"); ok(c, t, s, "a += b"); }
    { Aesi<N> t = a; if (&(t -= b) != &t) c.fail("a -= b does not return a"); ok(c, t, d, "a -= b"); }
    { Aesi<N> t = a; if (&(t *= b) != &t) c.fail("a *= b does not return a"); ok(c, t, m, "a *= b"); }
    expectSameS(c, a, x, "left operand"); expectSameS(c, b, y, "right operand");
}
template <std::size_t N> void unary(Ctx& c, const Aesi<N>& a, const mpz_class& x) {
    ok<N>(c, -a, -x, "-a"); ok<N>(c, +a, x, "+a"); { Aesi<N> t = a; t.inverse(); ok<N>(c, t, -x, "inverse"); }
    { Aesi<N> t = a; if (&++t != &t) c.fail("++a does not return a"); ok<N>(c, t, x + 1, "++a"); }
    { Aesi<N> t = a; if (&--t != &t) c.fail("--a does not return a"); ok<N>(c, t, x - 1, "--a"); }
    { Aesi<N> t = a; const Aesi<N> o = t++; ok<N>(c, t, x + 1, "a after a++"); ok<N>(c, o, x, "value of a++"); }
    { Aesi<N> t = a; const Aesi<N> o = t--; ok<N>(c, t, x - 1, "a after a--"); ok<N>(c, o, x, "value of a--"); }
    { Aesi<N> t = a; t += t; ok<N>(c, t, 2 * x, "a += a"); t = a; t -= t; ok<N>(c, t, 0, "a -= a"); t = a; t *= t; ok<N>(c, t, x * x, "a *= a"); }
    expectSameS(c, a, x, "operand");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aesi<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    const mpz_class s = x + y, d = x - y, m = x * y;
    ok(c, a + b, s, "a + built-in"); ok(c, b + a, s, "built-in + a"); ok(c, a - b, d, "a - built-in"); ok<N>(c, b - a, -d, "built-in - a"); ok(c, a * b, m, "a * built-in"); ok(c, b * a, m, "built-in * a");
    { Aesi<N> t = a; t += b; ok(c, t, s, "a += built-in"); t = a; t -= b; ok(c, t, d, "a -= built-in"); t = a; if (&(t *= b) != &t) c.fail("a *= built-in does not return a"); ok(c, t, m, "a *= built-in"); }
    expectSameS(c, a, x, "operand of a built-in operation");
}
template <std::size_t N, class... Bs> void all(SFamP<N> A, SFamP<N> S, bool dense) {
    pairsS<N>(strf("a+b, a-b, a*b N=%zu", N), A, A, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { binary<N>(c, a, b, x, y); });
    singlesS<N>(strf("unary N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { unary<N>(c, a, x); });
    forTypes<Bs...>([&]<class T>() { withBuiltinS<N, T>(strf("a op built-in N=%zu", N), S, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
template <std::size_t N> void medium(std::size_t k) { const bool t = mc::thorough(); auto p = thin(shapes<N>(t ? 3 : 1), t ? 5 * k : k); all<N, MAIN_INTEGRAL>(sfam<N>(p), sfam<N>(thin(p, 80)), false); }
template <std::size_t N> void large(std::size_t k) { const bool t = mc::thorough(); auto p = thin(shapes<N>(t ? 2 : 0), t ? 4 * k : k); all<N, int, long long>(sfam<N>(p), sfam<N>(thin(p, 60)), false); }
// half-precision magnitudes: every product is representable
template <std::size_t N> void halves(std::size_t k) { std::vector<Pat<N>> p; for (auto& h : thin(shapes<N>(2), 4000)) { mpz_class z = toMpz<N>(h); if (fits(z, N / 2)) p.push_back(h); } p = thin(p, mc::thorough() ? 4 * k : k);
    auto A = sfam<N>(p); pairsS<N>(strf("representable products N=%zu", N), A, A, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { binary<N>(c, a, b, x, y); }); }
#if PART == 0
static void reg() { const bool t = mc::thorough(); all<96, ALL_INTEGRAL>(sfam<96>(product<96>(t ? L10 : L8)), sfam<96>(product<96>(t ? L6 : L5)), false); }
#elif PART == 1
static void reg() { const bool t = mc::thorough(); all<128, MAIN_INTEGRAL>(sfam<128>(join(product<128>(t ? L6 : L4), thin(shapes<128>(2), t ? 900 : 200))), sfam<128>(product<128>(L4)), true); halves<128>(200); }
#elif PART == 2
static void reg() { medium<160>(220); medium<192>(200); medium<256>(250); halves<256>(150); }
#elif PART == 3
static void reg() { medium<512>(220); medium<224>(150); medium<1024>(150); halves<512>(120); halves<1024>(90); }
#elif PART == 4
static void reg() { large<768>(120); large<1312>(100); large<2048>(80); halves<2048>(50); }
#elif PART == 5
static void reg() { large<4096>(50); large<8192>(40); large<3072>(50); halves<4096>(30); }
#elif PART >= 6
static void reg() { everyWidth<PART - 6>([]<std::size_t N>() { all<N, long long>(sfam<N>(sparse<N>(20)), sfam<N>(sparse<N>(10, false)), false); }); }
#endif
MC_PART(reg);
