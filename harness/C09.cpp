// C09: squareRoot is the floor of the real root; power2 is the exact power.
#include "common.h"

template <std::size_t N> void root(Ctx& c, const mpz_class& x) {
    mpz_class w; mpz_sqrt(w.get_mpz_t(), x.get_mpz_t());
    const Aeu<N> a = load<N>(fromMpz<N>(x)); expectU(c, a.squareRoot(), w, "squareRoot"); expectSame(c, a, x, "operand of squareRoot");
    const Aesi<N> p = loadS<N>(x == 0 ? 0 : 1, fromMpz<N>(x)); expectS(c, p.squareRoot(), w, "signed squareRoot");
    if (x != 0) { const Aesi<N> n = loadS<N>(-1, fromMpz<N>(x)); expectS(c, n.squareRoot(), 0, "squareRoot of a negative number"); expectSameS(c, n, -x, "operand of squareRoot"); }
}
template <std::size_t N> void roots(std::size_t most, int rich) {
    auto v = std::make_shared<std::vector<mpz_class>>(); std::set<mpz_class> s; auto add = [&](const mpz_class& z) { if (z >= 0 && fits(z, N) && s.insert(z).second) v->push_back(z); };
    if (N <= 128) for (unsigned k = 0; k < (mc::thorough() ? 20000u : 2500u); ++k) add(k);
    if (mc::thorough()) { most *= 6; rich = 3; }
    auto sh = withDictionary<N>(thin(shapes<N>(rich), most)); for (auto& z : dictionaryFew<N>()) for (int d : {-1, 0, 1}) { add(z * z + d); add(z * z + 2 * z + d); }
    for (auto& p : sh) add(toMpz<N>(p));
    for (auto& p : sh) { mpz_class r = toMpz<N>(p); mpz_class h = r >> (N / 2); for (mpz_class q : {h, modN(r, N / 2)}) for (int d : {-1, 0, 1}) { add(q * q + d); add(q * q + 2 * q + d); } }
    mc::add(strf("squareRoot N=%zu", N), v->size(), [=](Ctx& c, uint64_t i) { root<N>(c, (*v)[i]); }, [=](uint64_t i) { return strf("N=%zu a=%s", N, hexz((*v)[i]).c_str()); });
}
template <std::size_t N> void powers() {
    auto ks = std::make_shared<std::vector<std::size_t>>(); for (std::size_t k = 0; k < N + 72; ++k) ks->push_back(k);
    for (std::size_t k : {2 * N, 4 * N, 32 * N, std::size_t(0xffffffff), std::size_t(0x100000000), std::size_t(0x100000005), ~std::size_t(0), ~std::size_t(0) - 31, std::size_t(1) << 63}) ks->push_back(k);
    mc::add(strf("power2 N=%zu", N), ks->size(), [=](Ctx& c, uint64_t i) { const std::size_t k = (*ks)[i]; const mpz_class w = k < N ? pow2(k) : mpz_class(0);
        expectU(c, Aeu<N>::power2(k), w, "power2"); expectS(c, Aesi<N>::power2(k), w, "signed power2"); }, [=](uint64_t i) { return strf("N=%zu power2(%zu)", N, (*ks)[i]); });
}
template <std::size_t N> void small() {      // few filled blocks in a very wide number
    auto v = std::make_shared<std::vector<mpz_class>>(); for (unsigned k : {0u, 1u, 2u, 3u, 4u, 99u, 65535u, 65536u}) v->push_back(k); for (unsigned k : {64u, 65u, 127u, 300u}) { v->push_back(pow2(k)); v->push_back(pow2(k) - 1); const mpz_class q = denseBits(k); v->push_back(q * q); v->push_back(q * q - 1); }
    mc::add(strf("squareRoot N=%zu", N), v->size(), [=](Ctx& c, uint64_t i) { root<N>(c, (*v)[i]); }, [=](uint64_t i) { return strf("N=%zu a=%s", N, hexz((*v)[i]).c_str()); });
}
// every square of a number 2^k +- 2^j, and its neighbours: where an estimate that was rounded to fewer bits goes wrong
template <std::size_t N> void squares(std::size_t stride) {
    auto v = std::make_shared<std::vector<mpz_class>>(); std::set<mpz_class> s; auto add = [&](const mpz_class& z) { if (z >= 0 && fits(z, N) && s.insert(z).second) v->push_back(z); };
    std::size_t n = 0; for (std::size_t k = 0; k <= N / 2; ++k) for (std::size_t j = 0; j <= k; ++j) for (int sign : {-1, 1}) { if (k + 1 < N / 2 && j != 0 && j + 1 < k && n++ % stride) continue; const mpz_class r = sign < 0 ? mpz_class(pow2(k) - pow2(j)) : mpz_class(pow2(k) + pow2(j)), q = r * r; for (const mpz_class& z : {mpz_class(q - 1), q, mpz_class(q + 1), mpz_class(q + r), mpz_class(q + r + 1), mpz_class(q + 2 * r), mpz_class(q + 2 * r + 1)}) add(z); }
    mc::add(strf("squareRoot of squares and their neighbours N=%zu", N), v->size(), [=](Ctx& c, uint64_t i) { root<N>(c, (*v)[i]); }, [=](uint64_t i) { return strf("N=%zu a=%s", N, hexz((*v)[i]).c_str()); });
}
#if PART == 0
static void reg() { squares<96>(1); roots<96>(4000, 3); auto P = product<96>(mc::thorough() ? L16 : L12); auto v = std::make_shared<std::vector<mpz_class>>(); for (auto& p : P) v->push_back(toMpz<96>(p)); mc::add("squareRoot block patterns N=96", v->size(), [=](Ctx& c, uint64_t i) { root<96>(c, (*v)[i]); }, [=](uint64_t i) { return strf("N=96 a=%s", hexz((*v)[i]).c_str()); }); powers<96>(); powers<8192>(); powers<4096>(); }
#elif PART == 1
static void reg() { squares<128>(1);  squares<160>(mc::thorough() ? 1 : 3); roots<128>(3000, 3); powers<128>(); powers<160>(); roots<160>(1500, 2); }
#elif PART == 2
static void reg() { squares<256>(mc::thorough() ? 1 : 20); roots<192>(900, 2); roots<256>(600, 2); powers<192>(); powers<256>(); powers<3072>(); }
#elif PART == 3
static void reg() { squares<512>(mc::thorough() ? 6 : 300); roots<512>(200, 1); powers<512>(); powers<1024>(); powers<2048>(); roots<768>(60, 1); powers<768>(); }
#elif PART == 4
static void reg() { roots<1024>(40, 1); roots<1312>(20, 0); roots<2048>(10, 0); powers<1312>(); powers<1536>(); powers<6144>(); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { if constexpr (N <= 1088) { roots<N>(N > 512 ? 6 : 30, 0); powers<N>(); } else if constexpr (N > 65536) { powers<N>(); small<N>(); } }); }
#endif
MC_PART(reg);
