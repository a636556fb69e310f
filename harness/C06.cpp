// C06: bit, byte and block access and counts reflect the value; bad indices are harmless.
#include "common.h"

inline std::vector<std::size_t> indices(std::size_t limit, std::size_t step) {
    std::vector<std::size_t> o; std::set<std::size_t> s; auto add = [&](std::size_t k) { if (s.insert(k).second) o.push_back(k); };
    for (std::size_t k = 0; k < limit + 40; ++k) if (k % step == 0 || k % 32 <= 1 || k % 32 == 31 || k + 2 >= limit) add(k);
    for (std::size_t k : {2 * limit, 4 * limit, 8 * limit, 32 * limit, std::size_t(0xffffffff), std::size_t(0x100000000), std::size_t(0x100000001), std::size_t(1) << 59, std::size_t(1) << 61, (std::size_t(1) << 61) + 1, std::size_t(1) << 63, ~std::size_t(0), ~std::size_t(0) - 1, ~std::size_t(0) - 31, ~std::size_t(0) - 63}) add(k);
    return o;
}
template <class T> struct Guarded { uint32_t before[4]; T x; uint32_t after[4];
    explicit Guarded(const T& v) : before{0x11111111, 0x22222222, 0x33333333, 0x44444444}, x(v), after{0x55555555, 0x66666666, 0x77777777, 0x88888888} {}
    bool intact() const { return before[0] == 0x11111111 && before[1] == 0x22222222 && before[2] == 0x33333333 && before[3] == 0x44444444 && after[0] == 0x55555555 && after[1] == 0x66666666 && after[2] == 0x77777777 && after[3] == 0x88888888; } };
template <std::size_t N> bool eqv(const Aeu<N>& a, const mpz_class& z) { return equals(a, z); }
template <std::size_t N> bool eqv(const Aesi<N>& a, const mpz_class& z) { return equalsS(a, z); }
template <std::size_t N> std::string hx(const Aeu<N>& a) { return hexu(a); }
template <std::size_t N> std::string hx(const Aesi<N>& a) { return hexs(a); }
inline mpz_class field(const mpz_class& m, std::size_t at, std::size_t w) { return modN(m >> at, w); }
inline mpz_class setField(const mpz_class& m, std::size_t at, std::size_t w, uint64_t v) { return m - (field(m, at, w) << at) + (ofU64(v) << at); }

// x is the signed value; the accessors see and change the magnitude only
template <std::size_t N, class T> void access(Ctx& c, const T& a, const mpz_class& x, std::size_t k) {
    const mpz_class m = abs(x); const int sg = sgn(x) < 0 ? -1 : 1;
    { Guarded<T> g(a); expectB(c, g.x.getBit(k), k < N && mpz_tstbit(m.get_mpz_t(), k), "getBit"); expectN(c, g.x.getByte(k), k < N / 8 ? field(m, 8 * k, 8).get_ui() : 0, "getByte");
      expectN(c, g.x.getBlock(k), k < N / 32 ? field(m, 32 * k, 32).get_ui() : 0, "getBlock"); if (!eqv(g.x, x)) c.fail("reading changed the number"); }
    // a signed zero has no magnitude to write into ("does not affect the sign"): leave it out
    auto put = [&](auto&& f, std::size_t at, std::size_t w, std::size_t limit, uint64_t v, const char* what) {
        const mpz_class want = k < limit ? setField(m, at, w, v) : m;
        if constexpr (!std::is_same_v<T, Aeu<N>>) { if (x == 0 || want == 0) return; }
        Guarded<T> g(a); f(g.x); c.step(); c.state(&g.x, sizeof g.x, N);
        if (!eqv(g.x, mpz_class(want * sg))) c.fail("%s: got %s, expected %s", what, hx(g.x).c_str(), hexz(want * sg).c_str());
        if (!g.intact()) c.fail("%s wrote outside the number", what);
    };
    for (bool b : {false, true}) put([&](T& t) { t.setBit(k, b); }, k, 1, N, b, "setBit");
    for (unsigned b : {0u, 1u, 0x7fu, 0x80u, 0xffu, 0xa5u}) put([&](T& t) { t.setByte(k, static_cast<uint8_t>(b)); }, 8 * k, 8, N / 8, b, "setByte");
    for (uint32_t b : {0u, 1u, 0x80000000u, 0xffffffffu, 0x12345678u}) put([&](T& t) { t.setBlock(k, b); }, 32 * k, 32, N / 32, b, "setBlock");
}
template <std::size_t N, class T> void counts(Ctx& c, const T& a, const mpz_class& x) {
    const mpz_class m = abs(x); const std::size_t bits = m == 0 ? 0 : mpz_sizeinbase(m.get_mpz_t(), 2);
    expectN(c, a.bitCount(), bits, "bitCount"); expectN(c, a.byteCount(), (bits + 7) / 8, "byteCount"); expectN(c, a.filledBlocksNumber(), (bits + 31) / 32, "filledBlocksNumber");
    expectB(c, a.isOdd(), mpz_odd_p(m.get_mpz_t()), "isOdd"); expectB(c, a.isEven(), !mpz_odd_p(m.get_mpz_t()), "isEven"); expectB(c, a.isZero(), m == 0, "isZero");
    expectN(c, a.getBitness(), N, "getBitness"); expectN(c, a.totalBlocksNumber(), N / 32, "totalBlocksNumber"); expectN(c, T::getBitness(), N, "getBitness"); expectN(c, T::totalBlocksNumber(), N / 32, "totalBlocksNumber");
    if (!eqv(a, x)) c.fail("an observer changed the number");
}
template <std::size_t N, class T, class FP> void both(const char* kind, FP A, FP C, std::size_t step) {
    auto ks = std::make_shared<std::vector<std::size_t>>(indices(N, step)); const std::size_t nk = ks->size();
    mc::add(strf("get/set by index %s N=%zu", kind, N), A->size() * nk, [=](Ctx& c, uint64_t i) { access<N, T>(c, A->v[i / nk], A->z[i / nk], (*ks)[i % nk]); },
        [=](uint64_t i) { return strf("%s N=%zu a=%s index=%zu", kind, N, hexz(A->z[i / nk]).c_str(), (*ks)[i % nk]); });
    mc::add(strf("counts %s N=%zu", kind, N), C->size(), [=](Ctx& c, uint64_t i) { counts<N, T>(c, C->v[i], C->z[i]); }, [=](uint64_t i) { return strf("%s N=%zu a=%s", kind, N, hexz(C->z[i]).c_str()); });
}
// every sequence of three writes over a small menu, checked after each write
template <std::size_t N> void histories(FamP<N> A) {
    struct W { int kind; std::size_t k; uint32_t v; };
    auto menu = std::make_shared<std::vector<W>>();
    for (std::size_t k : {std::size_t(0), std::size_t(31), std::size_t(32), N - 1, N}) for (uint32_t v : {0u, 1u}) menu->push_back({0, k, v});
    for (std::size_t k : {std::size_t(0), std::size_t(3), std::size_t(4), N / 8 - 1, N / 8}) for (uint32_t v : {0u, 0xa5u}) menu->push_back({1, k, v});
    for (std::size_t k : {std::size_t(0), std::size_t(1), N / 32 - 1, N / 32}) for (uint32_t v : {0u, 0xdeadbeefu}) menu->push_back({2, k, v});
    const std::size_t n = menu->size();
    mc::add(strf("sequences of 3 writes N=%zu", N), A->size() * n * n * n, [=](Ctx& c, uint64_t i) {
        Guarded<Aeu<N>> g(A->v[i / (n * n * n)]); mpz_class m = A->z[i / (n * n * n)]; uint64_t s = i;
        for (int t = 0; t < 3; ++t) { const W& w = (*menu)[s % n]; s /= n;
            if (w.kind == 0) { g.x.setBit(w.k, w.v); if (w.k < N) m = setField(m, w.k, 1, w.v); }
            else if (w.kind == 1) { g.x.setByte(w.k, static_cast<uint8_t>(w.v)); if (w.k < N / 8) m = setField(m, 8 * w.k, 8, w.v); }
            else { g.x.setBlock(w.k, w.v); if (w.k < N / 32) m = setField(m, 32 * w.k, 32, w.v); }
            expectU(c, g.x, m, "number after a write"); }
        counts<N, Aeu<N>>(c, g.x, m); if (!g.intact()) c.fail("a write left the number"); },
        [=](uint64_t i) { std::string d = strf("N=%zu a=%s writes:", N, hexz(A->z[i / (n * n * n)]).c_str()); uint64_t s = i; for (int t = 0; t < 3; ++t) { const W& w = (*menu)[s % n]; s /= n; d += strf(" %s(%zu,%x)", w.kind == 0 ? "setBit" : w.kind == 1 ? "setByte" : "setBlock", w.k, w.v); } return d; });
}
template <std::size_t N> void all(std::size_t k, std::size_t kc, std::size_t step, int rich) {
    const bool t = mc::thorough(); auto S = shapes<N>(t ? 3 : rich); auto F = fam<N>(thin(S, t ? k * 8 : k)), G = fam<N>(thin(S, t ? kc * 8 : kc));
    both<N, Aeu<N>>("Aeu", F, G, step); auto SF = sfam<N>(thin(F->p, k / 2 + 1)), SG = sfam<N>(G->p); both<N, Aesi<N>>("Aesi", SF, SG, step);
}
#if PART == 0
static void reg() { auto p = product<96>(mc::thorough() ? L10 : L5); auto F = fam<96>(p); auto C = fam<96>(product<96>(L16)); both<96, Aeu<96>>("Aeu", F, C, 1); both<96, Aesi<96>>("Aesi", sfam<96>(p), sfam<96>(product<96>(L12)), 1); histories<96>(fam<96>(product<96>(mc::thorough() ? L5 : std::vector<uint32_t>{0u, 0xffffffffu}))); }
#elif PART == 1
static void reg() { all<128>(300, 6000, 1, 3); all<160>(120, 3000, 1, 2); all<192>(100, 2000, 1, 2); }
#elif PART == 2
static void reg() { all<256>(120, 3000, 1, 3); all<512>(80, 3000, 1, 2); }
#elif PART == 3
static void reg() { all<1024>(30, 1500, 1, 2); all<2048>(15, 800, 3, 2); all<4096>(10, 500, 5, 1); }
#elif PART == 4
static void reg() { all<768>(30, 800, 1, 1); all<1312>(20, 600, 3, 1); all<8192>(8, 400, 7, 1); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { both<N, Aeu<N>>("Aeu", fam<N>(sparse<N>(8, false)), fam<N>(sparse<N>(60)), N > 512 ? 5 : 1); both<N, Aesi<N>>("Aesi", sfam<N>(sparse<N>(4, false)), sfam<N>(sparse<N>(30)), N > 512 ? 5 : 1); }); }
#endif
MC_PART(reg);
