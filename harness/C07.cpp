// C07: gcd, Bezout coefficients and lcm.
#include "common.h"

template <std::size_t N> void number(Ctx& c, const Aeu<N>& a, const Aeu<N>& b, const mpz_class& x, const mpz_class& y) {
    mpz_class g; mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
    expectU(c, Aeu<N>::gcd(a, b), g, "gcd(a, b)");
    { Aeu<N> s = ~a, t = ~b; const Aeu<N> r = Aeu<N>::gcd(a, b, s, t); expectU(c, r, g, "gcd(a, b, s, t)");
      Pat<N> ps, pt; for (std::size_t i = 0; i < N / 32; ++i) { ps[i] = s.getBlock(i); pt[i] = t.getBlock(i); }
      c.step(); observe(c, s); observe(c, t); const mpz_class S = toMpz<N>(ps), T = toMpz<N>(pt);
      if (modN(S * x + T * y, N) != g) c.fail("Bezout: s=%s t=%s do not satisfy s*a + t*b = gcd = %s mod 2^%zu", hexz(S).c_str(), hexz(T).c_str(), hexz(g).c_str(), N); }
    if (x != 0 || y != 0) { const mpz_class l = (x == 0 || y == 0) ? mpz_class(0) : mpz_class(x / g * y); if (fits(l, N)) expectU(c, Aeu<N>::lcm(a, b), l, "lcm(a, b)"); }
    expectSame(c, a, x, "first operand"); expectSame(c, b, y, "second operand");
}
template <std::size_t N> void dense(FamP<N> A, FamP<N> B) { pairs<N>(strf("gcd, lcm N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { number<N>(c, a, b, x, y); }); }
// pairs with a known common factor and a long quotient sequence: g*F(k), g*F(k-1); g*p, g*q; small numbers
template <std::size_t N> void structured(unsigned small, unsigned nf) {
    auto xs = std::make_shared<std::vector<std::pair<mpz_class, mpz_class>>>();
    for (unsigned a = 0; a < small; ++a) for (unsigned b = 0; b < small; ++b) xs->push_back({a, b});
    std::vector<mpz_class> gs{1, 2, 3, mpz_class("4294967295"), mpz_class("4294967296"), mpz_class("4294967291"), pow2(N / 2), pow2(N / 2) - 1, pow2(N / 3) + 1};
    mpz_class f0 = 1, f1 = 1; std::vector<mpz_class> fib; while (fits(f1, N)) { fib.push_back(f1); mpz_class t = f0 + f1; f0 = f1; f1 = t; }
    for (auto& g : gs) for (std::size_t k = 1; k < fib.size(); ++k) { if (k % std::max<std::size_t>(1, fib.size() / nf) && k + 2 < fib.size()) continue; mpz_class a = g * fib[k], b = g * fib[k - 1]; if (fits(a, N)) { xs->push_back({a, b}); xs->push_back({b, a}); xs->push_back({a, a}); xs->push_back({a, g}); } }
    std::vector<mpz_class> ps{1, 2, 5, 9, 65537, mpz_class("4294967291"), mpz_class("18446744073709551557"), pow2(40), pow2(33) - 1};
    for (auto& g : gs) for (auto& p : ps) for (auto& q : ps) { mpz_class a = g * p, b = g * q; if (fits(a, N) && fits(b, N)) xs->push_back({a, b}); }
    mc::add(strf("gcd structured N=%zu", N), xs->size(), [=](Ctx& c, uint64_t i) { auto& [x, y] = (*xs)[i]; number<N>(c, load<N>(fromMpz<N>(x)), load<N>(fromMpz<N>(y)), x, y); },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s", N, hexz((*xs)[i].first).c_str(), hexz((*xs)[i].second).c_str()); });
}
template <std::size_t N> void listed(const std::string& name, std::shared_ptr<std::vector<std::pair<mpz_class, mpz_class>>> xs) {
    mc::add(name, xs->size(), [=](Ctx& c, uint64_t i) { auto& [x, y] = (*xs)[i]; number<N>(c, load<N>(fromMpz<N>(x)), load<N>(fromMpz<N>(y)), x, y); },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s", N, hexz((*xs)[i].first).c_str(), hexz((*xs)[i].second).c_str()); });
}
// every pair of powers of two that divide the operands, times odd numbers
template <std::size_t N> void shifted(const std::vector<mpz_class>& odd, unsigned stride) {
    auto xs = std::make_shared<std::vector<std::pair<mpz_class, mpz_class>>>();
    for (auto& u : odd) for (auto& v : odd) for (std::size_t i = 0; i < N; i += stride) for (std::size_t j = 0; j < N; j += stride) { mpz_class a = u << i, b = v << j; if (fits(a, N) && fits(b, N)) xs->push_back({a, b}); }
    listed<N>(strf("gcd of shifted odd numbers N=%zu", N), xs);
}
// every history of Euclid's algorithm up to a length: the pairs whose sequence of quotients is a given word over an alphabet
template <std::size_t N> void histories(const std::vector<mpz_class>& letters, unsigned length, const std::vector<mpz_class>& gs) {
    auto xs = std::make_shared<std::vector<std::pair<mpz_class, mpz_class>>>();
    for (auto& g : gs) {
        std::vector<std::pair<mpz_class, mpz_class>> level{{g, 0}};
        for (unsigned l = 0; l < length; ++l) {
            std::vector<std::pair<mpz_class, mpz_class>> next;
            for (auto& [x, y] : level) for (auto& q : letters) { mpz_class z = q * x + y; if (fits(z, N)) { next.push_back({z, x}); xs->push_back({z, x}); if (l + 1 < length || l < 2) xs->push_back({x, z}); } }
            level.swap(next);
        }
    }
    listed<N>(strf("gcd over every quotient history N=%zu", N), xs);
}
inline std::vector<mpz_class> letters(int n) { std::vector<mpz_class> o{1, 2, pow2(32) - 1, pow2(32), pow2(31), 3, pow2(32) + 1, pow2(33) - 1, pow2(64), pow2(16)}; o.resize(n); return o; }
#if PART == 0
static void reg() { const bool t = mc::thorough(); shifted<96>(t ? std::vector<mpz_class>{1, 3, 5, 15, 255, 65537, pow2(31) + 1, pow2(32) - 1, pow2(33) - 1, pow2(64) - 1} : std::vector<mpz_class>{1, 3, 15, pow2(32) - 1}, 1); histories<96>(letters(t ? 9 : 6), t ? 7 : 5, {1, 6, pow2(32)}); auto F = fam<96>(product<96>(mc::thorough() ? L10 : L6)); dense<96>(F, F); structured<96>(mc::thorough() ? 400 : 90, 60); }
#elif PART == 1
static void reg() { const bool t = mc::thorough(); shifted<128>(t ? std::vector<mpz_class>{1, 3, 21, pow2(32) - 1, pow2(65) + 1} : std::vector<mpz_class>{1, 9, pow2(33) - 1}, t ? 1 : 2); histories<128>(letters(t ? 10 : 5), t ? 6 : 5, {1, 10}); auto F = fam<128>(join(product<128>(L4), thin(shapes<128>(2), mc::thorough() ? 1200 : 100))); if (!mc::thorough()) F = fam<128>(thin(F->p, 240)); dense<128>(F, F); structured<128>(30, 40); }
#elif PART == 2
static void reg() { const bool t = mc::thorough(); auto F = fam<160>(thin(product<160>(L4), t ? 1024 : 90)); dense<160>(F, F); structured<160>(12, 30); auto G = fam<192>(thin(shapes<192>(1), t ? 500 : 60)); dense<192>(G, G); structured<192>(8, 30); }
#elif PART == 3
static void reg() { const bool t = mc::thorough(); shifted<256>({1, 3, pow2(64) - 1}, t ? 3 : 11); histories<256>(letters(t ? 8 : 4), t ? 6 : 5, {1, pow2(64) - 1}); auto G = fam<256>(thin(shapes<256>(1), t ? 320 : 50)); dense<256>(G, G); structured<256>(6, 20); }
#elif PART == 4
static void reg() { const bool t = mc::thorough(); auto G = fam<512>(thin(shapes<512>(1), t ? 140 : 22)); dense<512>(G, G); structured<512>(5, 6); auto H = fam<1024>(thin(shapes<1024>(0), t ? 50 : 9)); dense<1024>(H, H); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(N > 2048 ? 3 : N > 512 ? 7 : 12, false)); dense<N>(F, F); }); }
#endif
MC_PART(reg);
