// C03: unsigned division and remainder satisfy the division identity.
#include "common.h"

template <std::size_t N> void div(Ctx& c, const Aeu<N>& a, const Aeu<N>& b, const mpz_class& x, const mpz_class& y, bool allForms = true) {
    if (y == 0) return;
    const mpz_class q = x / y, r = x % y;
    { Aeu<N> Q = ~a, R = ~b; Aeu<N>::divide(a, b, Q, R); expectU(c, Q, q, "quotient of divide(a, b, q, r)"); expectU(c, R, r, "remainder of divide(a, b, q, r)"); }
    { Aeu<N> t = a; Aeu<N>& z = (t /= b); expectU(c, t, q, "a /= b"); if (&z != &t) c.fail("a /= b does not return a"); }
    { Aeu<N> t = a; Aeu<N>& z = (t %= b); expectU(c, t, r, "a %= b"); if (&z != &t) c.fail("a %= b does not return a"); }
    if (allForms) {
        expectU(c, a / b, q, "a / b"); expectU(c, a % b, r, "a % b");
        auto pr = Aeu<N>::divide(a, b); expectU(c, pr.first, q, "quotient of divide(a, b)"); expectU(c, pr.second, r, "remainder of divide(a, b)");
    }
    expectSame(c, a, x, "dividend"); expectSame(c, b, y, "divisor");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aeu<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    if (y != 0) {
        const mpz_class q = x / y, r = x % y;
        expectU(c, a / b, q, "a / built-in"); expectU(c, a % b, r, "a % built-in");
        { Aeu<N> t = a; t /= b; expectU(c, t, q, "a /= built-in"); } { Aeu<N> t = a; t %= b; expectU(c, t, r, "a %= built-in"); }
        { Aeu<N> Q, R; Aeu<N>::divide(a, b, Q, R); expectU(c, Q, q, "quotient of divide(a, built-in)"); expectU(c, R, r, "remainder of divide(a, built-in)"); }
    }
    if (x != 0) { expectU(c, b / a, mpz_class(y / x), "built-in / a"); expectU(c, b % a, mpz_class(y % x), "built-in % a"); }
    expectSame(c, a, x, "operand of / built-in");
}
// dividends built from the divisor: q*b + r for boundary q and r
template <std::size_t N> void structured(FamP<N> D, FamP<N> Q) {
    const std::size_t nq = Q->size();
    auto mk = [=](uint64_t i, mpz_class& x, mpz_class& y) {
        y = D->z[i / (nq * 4)]; const mpz_class& q = Q->z[i / 4 % nq];
        const unsigned k = i % 4; mpz_class r = k == 0 ? mpz_class(0) : k == 1 ? mpz_class(1) : k == 2 ? mpz_class(y - 1) : mpz_class(y / 2);
        x = modN(q * y + r, N); };
    mc::add(strf("(q*b+r)/b N=%zu", N), D->size() * nq * 4,
        [=](Ctx& c, uint64_t i) { mpz_class x, y; mk(i, x, y); if (y == 0) return; div<N>(c, load<N>(fromMpz<N>(x)), load<N>(fromMpz<N>(y)), x, y, false); },
        [=](uint64_t i) { mpz_class x, y; mk(i, x, y); return strf("N=%zu a=%s b=%s", N, hexz(x).c_str(), hexz(y).c_str()); });
}
template <std::size_t N, class... Bs> void all(FamP<N> A, FamP<N> B, FamP<N> S, bool dense) {
    pairs<N>(strf("a/b, a%%b N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { div<N>(c, a, b, x, y); });
    singles<N>(strf("a/a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) {
        if (x == 0) return; Aeu<N> t = a; t /= t; expectU(c, t, 1, "a /= a"); t = a; t %= t; expectU(c, t, 0, "a %= a"); expectU(c, a / a, 1, "a / a"); expectU(c, a % a, 0, "a % a"); });
    forTypes<Bs...>([&]<class T>() { withBuiltin<N, T>(strf("a/built-in N=%zu", N), S, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
template <std::size_t N> void medium(std::size_t k, std::size_t kt) {
    const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 3 : 1), t ? kt : k));
    all<N, unsigned, unsigned long long>(F, F, fam<N>(thin(F->p, t ? 200 : 40)), false); auto S = fam<N>(thin(F->p, t ? 150 : 40)); structured<N>(S, S); }
template <std::size_t N> void large(std::size_t k, std::size_t kt) {
    const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 1 : 0), t ? kt : k));
    pairs<N>(strf("a/b, a%%b N=%zu", N), F, F, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { div<N>(c, a, b, x, y, false); }); }

#if PART == 0
static void reg() { auto F = fam<96>(product<96>(mc::thorough() ? L16 : L10)); all<96, ALL_UNSIGNED>(F, F, fam<96>(product<96>(L6)), false); structured<96>(fam<96>(product<96>(L8)), fam<96>(product<96>(L6))); }
#elif PART == 1
static void reg() { auto F = fam<128>(join(product<128>(mc::thorough() ? L6 : L4), shapes<128>(1))); all<128, MAIN_UNSIGNED>(F, F, fam<128>(product<128>(L4)), true); structured<128>(fam<128>(product<128>(L5)), fam<128>(product<128>(L4))); }
#elif PART == 2
static void reg() { auto F = fam<160>(product<160>({0u, 1u, 0x80000000u, 0xffffffffu})); if (!mc::thorough()) F = fam<160>(thin(F->p, 500)); all<160, unsigned, unsigned long long>(F, F, fam<160>(thin(F->p, 100)), false); auto G = fam<192>(product<192>({0u, 0xffffffffu, 0x80000000u})); if (!mc::thorough()) G = fam<192>(thin(G->p, 260)); all<192, unsigned, unsigned long long>(G, G, fam<192>(thin(G->p, 60)), false); }
#elif PART == 3
static void reg() { medium<256>(220, 1500); medium<224>(150, 800); medium<288>(150, 800); }
#elif PART == 4
static void reg() { medium<512>(130, 900); medium<544>(80, 500); medium<1024>(70, 420); }
#elif PART == 5
static void reg() { large<768>(60, 350); large<1312>(40, 200); large<1536>(36, 150); large<2048>(30, 130); large<3072>(20, 90); }
#elif PART == 6
static void reg() { large<4096>(16, 70); large<6144>(12, 45); large<8192>(10, 40); }
#elif PART >= 7
static void reg() { everyWidth<PART - 7>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(N > 65536 ? 4 : N > 2048 ? 6 : 14)); all<N, unsigned long long>(F, F, fam<N>(sparse<N>(N > 65536 ? 2 : 8, false)), false); }); }
#endif
MC_PART(reg);
