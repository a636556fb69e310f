// C11: signed division truncates toward zero; the remainder takes the dividend's sign.
#include "common.h"

template <std::size_t N> void div(Ctx& c, const Aesi<N>& a, const Aesi<N>& b, const mpz_class& x, const mpz_class& y, bool allForms = true) {
    if (y == 0) return;
    mpz_class q, r; mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
    { Aesi<N> Q = -a, R = -b; Aesi<N>::divide(a, b, Q, R); expectS(c, Q, q, "quotient of divide"); expectS(c, R, r, "remainder of divide"); }
    { Aesi<N> t = a; if (&(t /= b) != &t) c.fail("a /= b does not return a"); expectS(c, t, q, "a /= b"); }
    { Aesi<N> t = a; if (&(t %= b) != &t) c.fail("a %%= b does not return a"); expectS(c, t, r, "a %= b"); }
    if (allForms) { expectS(c, a / b, q, "a / b"); expectS(c, a % b, r, "a % b"); }
    expectSameS(c, a, x, "dividend"); expectSameS(c, b, y, "divisor");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aesi<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    mpz_class q, r;
    if (y != 0) { mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
        expectS(c, a / b, q, "a / built-in"); expectS(c, a % b, r, "a % built-in");
        { Aesi<N> t = a; if (&(t /= b) != &t) c.fail("a /= built-in does not return a"); expectS(c, t, q, "a /= built-in"); t = a; if (&(t %= b) != &t) c.fail("a %%= built-in does not return a"); expectS(c, t, r, "a %= built-in"); }
        { Aesi<N> Q = a, R = a; Aesi<N>::divide(a, b, Q, R); expectS(c, Q, q, "quotient of divide(a, built-in)"); expectS(c, R, r, "remainder of divide(a, built-in)"); } }
    if (x != 0) { mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), y.get_mpz_t(), x.get_mpz_t()); expectS(c, b / a, q, "built-in / a"); expectS(c, b % a, r, "built-in % a"); }
    expectSameS(c, a, x, "operand of / built-in");
}
template <std::size_t N, class... Bs> void all(SFamP<N> A, SFamP<N> S, bool dense) {
    pairsS<N>(strf("a/b, a%%b N=%zu", N), A, A, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { div<N>(c, a, b, x, y); });
    singlesS<N>(strf("a/a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { if (x == 0) return; Aesi<N> t = a; t /= t; expectS(c, t, 1, "a /= a"); t = a; t %= t; expectS(c, t, 0, "a %= a"); div<N>(c, a, a, x, x); const Aesi<N> n = -a; div<N>(c, a, n, x, -x); });
    forTypes<Bs...>([&]<class T>() { withBuiltinS<N, T>(strf("a/built-in N=%zu", N), S, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
// x = q*b + r with boundary remainders, every sign pair
template <std::size_t N> void structured(std::vector<Pat<N>> d, std::vector<Pat<N>> qs) {
    auto D = std::make_shared<std::vector<mpz_class>>(), Q = std::make_shared<std::vector<mpz_class>>(); for (auto& p : d) { auto z = toMpz<N>(p); if (z != 0) D->push_back(z); } for (auto& p : qs) Q->push_back(toMpz<N>(p));
    const std::size_t nq = Q->size();
    auto mk = [=](uint64_t i, mpz_class& x, mpz_class& y) { y = (*D)[i / (nq * 16)]; const unsigned k = i % 4, s = i / 4 % 4; const mpz_class r = k == 0 ? mpz_class(0) : k == 1 ? mpz_class(1) : k == 2 ? mpz_class(y - 1) : mpz_class(y / 2);
        x = modN((*Q)[i / 16 % nq] * y + r, N); if (s & 1) x = -x; if (s & 2) y = -y; };
    mc::add(strf("(q*b+r)/b N=%zu", N), D->size() * nq * 16, [=](Ctx& c, uint64_t i) { mpz_class x, y; mk(i, x, y); div<N>(c, loadS<N>(sgn(x), fromMpz<N>(abs(x))), loadS<N>(sgn(y), fromMpz<N>(abs(y))), x, y, false); },
        [=](uint64_t i) { mpz_class x, y; mk(i, x, y); return strf("N=%zu a=%s b=%s (signed)", N, hexz(x).c_str(), hexz(y).c_str()); });
}
template <std::size_t N> void medium(std::size_t k) { const bool t = mc::thorough(); auto p = thin(shapes<N>(t ? 3 : 1), t ? 4 * k : k); all<N, signed char, int, long long, unsigned long long>(sfam<N>(p), sfam<N>(thin(p, 24)), false); structured<N>(thin(p, 20), thin(p, 16)); }
template <std::size_t N> void large(std::size_t k) { const bool t = mc::thorough(); auto p = thin(shapes<N>(t ? 2 : 0), t ? 3 * k : k); all<N, int>(sfam<N>(p), sfam<N>(thin(p, 4)), false); }
// small values exhaustively
template <std::size_t N> void small(int n) { const uint64_t w = static_cast<uint64_t>(2 * n + 1);
    mc::add(strf("small a/b N=%zu", N), w * w, [=](Ctx& c, uint64_t i) { const int x = static_cast<int>(i / w) - n, y = static_cast<int>(i % w) - n; div<N>(c, Aesi<N>(x), Aesi<N>(y), x, y); builtin<N, int>(c, Aesi<N>(x), y, x, y); builtin<N, signed char>(c, Aesi<N>(x), static_cast<signed char>(y), x, ofInt(static_cast<signed char>(y))); },
        [=](uint64_t i) { return strf("N=%zu a=%d b=%d", N, static_cast<int>(i / w) - n, static_cast<int>(i % w) - n); }); }
#if PART == 0
static void reg() { const bool t = mc::thorough(); all<96, ALL_INTEGRAL>(sfam<96>(product<96>(t ? L10 : L6)), sfam<96>(product<96>(L4)), false); small<96>(t ? 300 : 140); structured<96>(product<96>(L6), product<96>(L4)); }
#elif PART == 1
static void reg() { const bool t = mc::thorough(); all<128, MAIN_INTEGRAL>(sfam<128>(join(product<128>(L4), thin(shapes<128>(2), t ? 600 : 60))), sfam<128>(thin(product<128>(L4), 60)), false); structured<128>(product<128>(L4), thin(product<128>(L4), 60)); }
#elif PART == 2
static void reg() { medium<160>(90); medium<192>(80); medium<256>(70); }
#elif PART == 3
static void reg() { medium<512>(44); medium<224>(60); medium<1024>(24); small<512>(40); }
#elif PART == 4
static void reg() { large<768>(20); large<1312>(14); large<2048>(12); large<4096>(8); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { all<N, long long>(sfam<N>(sparse<N>(N > 2048 ? 3 : 12, N <= 2048)), sfam<N>(sparse<N>(N > 65536 ? 2 : 4, false)), false); }); }
#endif
MC_PART(reg);
