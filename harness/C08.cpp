// C08: modular exponentiation is exact for 1 <= m <= 2^(N/2).
#include "common.h"

template <std::size_t N> void same(Ctx& c, const mpz_class& b, const mpz_class& e, const mpz_class& m) {
    mpz_class w; mpz_powm(w.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    const Aeu<N> B = load<N>(fromMpz<N>(b)), E = load<N>(fromMpz<N>(e)), M = load<N>(fromMpz<N>(m));
    expectU(c, Aeu<N>::powm(B, E, M), w, "powm(b, e, m)"); expectU(c, Aeu<N>::template powm<N>(B, E, M), w, "powm<N>(b, e, m)");
    expectSame(c, B, b, "base"); expectSame(c, E, e, "exponent"); expectSame(c, M, m, "modulus");
}
template <std::size_t N, std::size_t P> void other(Ctx& c, const mpz_class& b, const mpz_class& e, const mpz_class& m) {
    mpz_class w; mpz_powm(w.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    const Aeu<N> B = load<N>(fromMpz<N>(b)), M = load<N>(fromMpz<N>(m)); const Aeu<P> E = load<P>(fromMpz<P>(e));
    expectU(c, Aeu<N>::powm(B, E, M), w, "powm(b, e of another precision, m)"); expectSame(c, E, e, "exponent");
}
template <std::size_t N> std::vector<mpz_class> zs(const std::vector<Pat<N>>& p) { std::vector<mpz_class> o; for (auto& q : p) o.push_back(toMpz<N>(q)); return o; }
template <std::size_t N> std::vector<mpz_class> moduli(std::size_t most) {
    std::vector<mpz_class> o{1, 2, 3, 4, 10, 255, 256, 65537, mpz_class("4294967295"), mpz_class("4294967296"), mpz_class("4294967297"), mpz_class("4294967291")};
    for (std::size_t k = 5; k <= N / 2; ++k) { if (k % 16 > 1 && k % 16 < 15 && k + 2 < N / 2) continue; for (int d : {-1, 0, 1}) { mpz_class z = pow2(k) + d; if (z <= pow2(N / 2)) o.push_back(z); } }
    o.push_back(pow2(N / 2) - 3); o.push_back(pow2(N / 2) / 3); o.push_back(pow2(N / 2) - pow2(N / 4)); o.push_back(pow2(N / 2 - 1) + 12345);
    return thin(o, most);
}
template <class F> void grid(const std::string& name, std::vector<mpz_class> b, std::vector<mpz_class> e, std::vector<mpz_class> m, F f) {
    auto B = std::make_shared<std::vector<mpz_class>>(b), E = std::make_shared<std::vector<mpz_class>>(e), M = std::make_shared<std::vector<mpz_class>>(m); const std::size_t ne = e.size(), nm = m.size();
    mc::add(name, b.size() * ne * nm, [=](Ctx& c, uint64_t i) { f(c, (*B)[i / (ne * nm)], (*E)[i / nm % ne], (*M)[i % nm]); },
        [=](uint64_t i) { return strf("base=%s exponent=%s modulus=%s", hexz((*B)[i / (ne * nm)]).c_str(), hexz((*E)[i / nm % ne]).c_str(), hexz((*M)[i % nm]).c_str()); });
}
inline std::vector<mpz_class> upTo(unsigned n, unsigned from = 0) { std::vector<mpz_class> o; for (unsigned i = from; i <= n; ++i) o.push_back(i); return o; }
template <std::size_t N, std::size_t... Ps> void size(unsigned small, std::size_t nb, std::size_t ne, std::size_t nm, int rich) {
    const bool t = mc::thorough(); if (t) { nb = nb * 3; ne = ne * 3; nm = nm * 2; }
    if (small) grid(strf("small powm N=%zu", N), upTo(small), upTo(small), upTo(small, 1), same<N>);
    auto B = thin(zs<N>(shapes<N>(rich)), nb), E = thin(zs<N>(shapes<N>(rich)), ne); auto M = moduli<N>(nm);
    for (unsigned k : {0u, 1u, 2u, 3u}) { B.push_back(k); E.push_back(k); }
    for (auto& m : moduli<N>(4)) { B.push_back(m); B.push_back(m - 1); B.push_back(m + 1); }
    for (auto& z : dictionaryFew<N>()) { B.push_back(z); E.push_back(z); if (z > 1 && z <= pow2(N / 2)) { M.push_back(z); B.push_back(z - 1); } E.push_back(z + 1); E.push_back(z - 1); }
    grid(strf("powm N=%zu", N), B, E, M, same<N>);
    ([&] { constexpr std::size_t P = Ps; auto X = thin(zs<P>(shapes<P>(0)), ne); for (unsigned k : {0u, 1u, 2u, 5u}) X.push_back(k); auto b2 = thin(B, nb / 2 + 6), m2 = moduli<N>(nm / 2 + 3); b2.push_back(0); b2.push_back(1); for (auto& z : dictionaryFew<P>()) X.push_back(z);
        grid(strf("powm N=%zu exponent %zu", N, P), b2, X, m2, other<N, P>);
        if (small) grid(strf("small powm N=%zu exponent %zu", N, P), upTo(12), upTo(12), upTo(12, 1), other<N, P>); }(), ...);
}
// every window of a given width at every place of the exponent, over moduli that are odd, even and powers of two
template <std::size_t N> void windows(unsigned w, const std::vector<mpz_class>& bases, const std::vector<mpz_class>& mods, unsigned stride) {
    std::vector<mpz_class> e; for (std::size_t s = 0; s + w <= N; s += stride) for (unsigned v = s ? (1u << w) >> (stride < w ? stride : w) : 0; v < (1u << w); ++v) { e.push_back(mpz_class(v) << s); e.push_back((mpz_class(v) << s) | 1); e.push_back(pow2(N) - 1 - (mpz_class(v) << s)); }
    grid(strf("powm over every %u-bit window of the exponent N=%zu", w, N), bases, e, mods, same<N>);
}
// every power of two that divides the modulus, times odd numbers
template <std::size_t N> void evenModuli(const std::vector<mpz_class>& odd, const std::vector<mpz_class>& exps, unsigned stride) {
    std::vector<mpz_class> m, b{2, 3, 10, pow2(N) - 1, pow2(N / 2), pow2(N / 2 - 1) - 1, pow2(33), pow2(N - 1) + 6}; for (auto& o : odd) for (std::size_t s = 0; s <= N / 2; s += stride) if ((o << s) <= pow2(N / 2)) m.push_back(o << s);
    grid(strf("powm over every even part of the modulus N=%zu", N), b, exps, m, same<N>);
}
#if PART == 0
static void reg() { const bool t = mc::thorough(); windows<96>(t ? 8 : 5, {3, pow2(95) + 77, mpz_class("0xfedcba9876543210"), pow2(48) - 2}, {mpz_class("281474976710597"), mpz_class("0xffffffff0000"), mpz_class("1000003")}, 1); evenModuli<96>({1, 3, 5, 255, 65537, mpz_class("4294967291"), mpz_class("4294967297"), pow2(40) - 1}, t ? upTo(300) : upTo(70), 1); size<96, 128, 256>(mc::thorough() ? 60 : 32, 30, 30, 22, 1); }
#elif PART == 1
static void reg() { windows<128>(mc::thorough() ? 7 : 4, {7, pow2(127) + 5, pow2(64) - 2}, {pow2(64) - 59, pow2(64) - 4096}, 1); evenModuli<128>({1, 9, pow2(32) - 1, pow2(33) + 1}, {0, 1, 2, 3, 4, 31, 32, 33, 64, 65537, pow2(64) - 1, pow2(127) + 1, pow2(128) - 1}, 1); size<128, 96, 512>(20, 20, 22, 18, 1); }
#elif PART == 2
static void reg() { windows<160>(mc::thorough() ? 6 : 3, {5, pow2(159) + 9}, {pow2(80) - 65, pow2(79) + 6}, 1); windows<256>(mc::thorough() ? 5 : 2, {11, pow2(255) + 9}, {pow2(128) - 159}, 1); evenModuli<256>({1, 7, pow2(65) + 1}, {0, 1, 2, 3, 8, 65, 65537, pow2(128) + 1}, 3); size<160, 96>(12, 16, 16, 14, 1); size<256, 128>(8, 10, 12, 10, 1); }
#elif PART == 3
static void reg() { size<512, 96, 1024>(6, 4, 5, 5, 0); size<192, 256>(8, 10, 12, 10, 0); }
#elif PART == 4
static void reg() { grid("powm N=1024, short exponents", thin(zs<1024>(shapes<1024>(0)), mc::thorough() ? 20 : 6), {0, 1, 2, 3, 5, 16, 65537, pow2(33) + 1}, moduli<1024>(6), same<1024>); grid("powm N=2048, short exponents", thin(zs<2048>(shapes<2048>(0)), mc::thorough() ? 10 : 4), {0, 1, 3, 17, 65537}, moduli<2048>(4), same<2048>); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { if constexpr (N <= 1088) grid(strf("powm N=%zu, short exponents", N), thin(zs<N>(shapes<N>(0)), 5), {0, 1, 2, 3, 17, 65537, pow2(32) + 1}, moduli<N>(5), same<N>); }); }
#endif
MC_PART(reg);
