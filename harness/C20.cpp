// C20: GMP interoperability is exact.
#include "common.h"
#ifndef AESI_GMP_INTEGRATION
#error the check is built with AESI_GMP_INTEGRATION
#endif

// GMP integers of any size, both signs: every family value of several widths around N, and huge ones
template <std::size_t N> std::vector<mpz_class> integers(int rich, std::size_t most) {
    std::vector<mpz_class> o; std::set<std::string> seen; auto add = [&](mpz_class z) { for (int s = 0; s < 2; ++s, z = -z) { auto k = z.get_str(62); if (seen.insert(k).second) o.push_back(z); } };
    for (auto& p : thin(shapes<N>(rich), most)) add(toMpz<N>(p));
    for (auto& p : thin(shapes<N + 32>(rich), most)) add(toMpz<N + 32>(p));
    for (auto& p : thin(shapes<2 * N>(rich), most)) add(toMpz<2 * N>(p));
    for (std::size_t b = 1; b < 2 * N + 70; b += N > 1024 ? 97 : 1) { add(pow2(b)); add(pow2(b) - 1); add(pow2(b) + 1); }
    for (std::size_t b : {4 * N, 4 * N + 1, 10 * N + 17, std::size_t(20000)}) { add(pow2(b)); add(pow2(b) - 1); add(pow2(b) + 12345); add(pow2(b) - pow2(N)); add(pow2(b) + pow2(N) - 1); }
    return o;
}
template <std::size_t N> mpz_class signedOf(const mpz_class& z) { const mpz_class m = modN(abs(z), N); return sgn(z) < 0 ? mpz_class(-m) : m; }
template <std::size_t N> void construct(std::vector<mpz_class> zs) {
    auto v = std::make_shared<std::vector<mpz_class>>(std::move(zs));
    mc::add(strf("construction from GMP N=%zu", N), v->size(), [=](Ctx& c, uint64_t i) {
        const mpz_class& z = (*v)[i]; const mpz_class keep = z, u = modN(abs(z), N), s = signedOf<N>(z);
        { const Aeu<N> a(z); expectU(c, a, u, "Aeu(mpz_class)"); const Aeu<N> b = z; expectU(c, b, u, "Aeu = mpz_class"); Aeu<N> d = ~Aeu<N>(0u); d = z; expectU(c, d, u, "assignment of mpz_class to Aeu"); const Aeu<N> e(mpz_class(z + 1)); expectU(c, e, modN(abs(z + 1), N), "Aeu(temporary)"); }
        { const Aesi<N> a(z); expectS(c, a, s, "Aesi(mpz_class)"); const Aesi<N> b = z; expectS(c, b, s, "Aesi = mpz_class"); Aesi<N> d(-321); d = z; expectS(c, d, s, "assignment of mpz_class to Aesi"); const Aesi<N> e(mpz_class(z - 1)); expectS(c, e, signedOf<N>(z - 1), "Aesi(temporary)"); }
        mpz_class spare = z; mpz_realloc2(spare.get_mpz_t(), mpz_sizeinbase(z.get_mpz_t(), 2) + 5000); const Aeu<N> a2(spare); expectU(c, a2, u, "Aeu(mpz_class with spare limbs)"); const Aesi<N> b2(spare); expectS(c, b2, s, "Aesi(mpz_class with spare limbs)");
        if (z != keep) c.fail("the GMP integer changed"); },
        [=](uint64_t i) { return strf("N=%zu z=%s (%zu bits)", N, hexz((*v)[i]).c_str(), mpz_sizeinbase((*v)[i].get_mpz_t(), 2)); });
}
template <class Num> void equality(Ctx& c, const Num& a, const mpz_class& x, const mpz_class& z, const mpz_class& one) {
    const bool w = x == z;
    expectB(c, a == z, w, "number == mpz"); expectB(c, z == a, w, "mpz == number"); expectB(c, a != z, !w, "number != mpz"); expectB(c, z != a, !w, "mpz != number");
    expectB(c, a == z + one - 1, w, "number == (z + 1 - 1)"); expectB(c, a == -z, x == -z, "number == -z"); expectB(c, a == z + one, x == z + 1, "number == z + 1"); expectB(c, a == z * one, w, "number == z * 1"); expectB(c, a != (z << 1), x != 2 * z, "number != z << 1"); expectB(c, abs(z) == a, x == abs(z), "abs(z) == number");
}
template <std::size_t N> void equalities(std::vector<Pat<N>> p, std::vector<mpz_class> more) {
    auto A = fam<N>(p); auto S = sfam<N>(p); auto near = [=](const mpz_class& x, uint64_t j) -> mpz_class { switch (j) { case 0: return x; case 1: return -x; case 2: return x + pow2(N); case 3: return x - pow2(N); case 4: return -x - pow2(N); case 5: return x + pow2(64); case 6: return x + 1; case 7: return x - 1; case 8: return x + pow2(N + 32); case 9: return x + pow2(2 * N); case 10: return x ^ pow2(N - 1); case 11: return x + pow2(32); case 12: return pow2(N) - x; default: return x * pow2(32); } }; constexpr uint64_t J = 14;
    auto extra = std::make_shared<std::vector<mpz_class>>(std::move(more));
    mc::add(strf("equality with near GMP values N=%zu", N), (A->size() + S->size()) * J, [=](Ctx& c, uint64_t i) { const mpz_class one = 1; const auto v = i / J; if (v < A->size()) { equality(c, A->v[v], A->z[v], near(A->z[v], i % J), one); expectSame(c, A->v[v], A->z[v], "=="); } else { const auto w = v - A->size(); equality(c, S->v[w], S->z[w], near(S->z[w], i % J), one); expectSameS(c, S->v[w], S->z[w], "=="); } },
        [=](uint64_t i) { const auto v = i / J; const auto& x = v < A->size() ? A->z[v] : S->z[v - A->size()]; return strf("N=%zu %s %s against %s", N, v < A->size() ? "unsigned" : "signed", hexz(x).c_str(), hexz(near(x, i % J)).c_str()); });
    auto As = fam<N>(thin(p, 60)); auto Ss = sfam<N>(thin(p, 40)); const uint64_t K = extra->size();
    mc::add(strf("equality with all GMP values N=%zu", N), (As->size() + Ss->size()) * K, [=](Ctx& c, uint64_t i) { const mpz_class one = 1; const auto v = i / K; if (v < As->size()) equality(c, As->v[v], As->z[v], (*extra)[i % K], one); else equality(c, Ss->v[v - As->size()], Ss->z[v - As->size()], (*extra)[i % K], one); },
        [=](uint64_t i) { const auto v = i / K; return strf("N=%zu %s %s against %s", N, v < As->size() ? "unsigned" : "signed", hexz(v < As->size() ? As->z[v] : Ss->z[v - As->size()]).c_str(), hexz((*extra)[i % K]).c_str()); });
}
template <std::size_t N> void all(std::vector<Pat<N>> p, int rich, std::size_t most) { auto z = integers<N>(rich, most); construct<N>(z); equalities<N>(p, thin(z, most * 2)); }
#if PART == 0
static void reg() { all<96>(product<96>(mc::thorough() ? L12 : L8), 3, mc::thorough() ? 20000 : 1500); }
#elif PART == 1
static void reg() { all<128>(join(product<128>(mc::thorough() ? L8 : L4), shapes<128>(2)), 3, mc::thorough() ? 20000 : 1500); }
#elif PART == 2
static void reg() { all<160>(shapes<160>(2), 2, mc::thorough() ? 10000 : 800); all<256>(shapes<256>(2), 2, mc::thorough() ? 8000 : 500); }
#elif PART == 3
static void reg() { all<512>(shapes<512>(mc::thorough() ? 2 : 1), 1, mc::thorough() ? 4000 : 300); all<1024>(thin(shapes<1024>(1), mc::thorough() ? 5000 : 400), 1, mc::thorough() ? 1000 : 100); all<8192>(thin(shapes<8192>(0), 60), 0, 60); }
#elif PART >= 4
static void reg() { everyWidth<PART - 4>([]<std::size_t N>() { all<N>(sparse<N>(N > 65536 ? 8 : 20), 0, N > 65536 ? 4 : N > 2048 ? 20 : 40); }); }
#endif
MC_PART(reg);
