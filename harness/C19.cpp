// C19: changing precision preserves the value or truncates it modulo 2^M.
#include "common.h"

static mpz_class low(const mpz_class& z, std::size_t m) { const mpz_class r = modN(abs(z), m); return sgn(z) < 0 ? mpz_class(-r) : r; }
template <std::size_t M, std::size_t N> auto castU(const Aeu<N>& a) { if constexpr (M == N) return a; else return a.template precisionCast<M>(); }
template <std::size_t M, std::size_t N> auto castS(const Aesi<N>& a) { if constexpr (M == N) return a; else return a.template precisionCast<M>(); }

template <std::size_t N, std::size_t M> void one(std::vector<Pat<N>> p) {
    if constexpr (N != M) {
        singles<N>(strf("Aeu<%zu> to Aeu<%zu>", N, M), fam<N>(p), [](Ctx& c, auto& a, auto& x) {
            const auto w = a.template precisionCast<M>(); const mpz_class m = modN(x, M); expectU(c, w, m, "precisionCast"); expectSame(c, a, x, "operand of precisionCast");
            const auto back = w.template precisionCast<N>(); expectU(c, back, modN(m, N), "cast there and back");
            auto t = ~Aeu<M>(0u); t = a.template precisionCast<M>(); expectU(c, t, m, "assigned precisionCast");
            if (m == x && !(w.compareTo(a) == a.compareTo(w) && w == a)) c.fail("a value that fits does not compare equal after the cast"); });
        singlesS<N>(strf("Aesi<%zu> to Aesi<%zu>", N, M), sfam<N>(p), [](Ctx& c, auto& a, auto& x) {
            const auto w = a.template precisionCast<M>(); const mpz_class m = low(x, M); expectS(c, w, m, "signed precisionCast"); expectSameS(c, a, x, "operand of precisionCast");
            if (sgn(m) && !equalsS(w, m)) c.fail("the cast is not the value");
            const auto back = w.template precisionCast<N>(); expectS(c, back, low(m, N), "signed cast there and back");
            auto t = Aesi<M>(-5); t = a.template precisionCast<M>(); expectS(c, t, m, "assigned signed precisionCast");
            const auto u = a.unsignedCast(); expectU(c, u, abs(x), "unsignedCast"); const auto u2 = w.unsignedCast(); expectU(c, u2, abs(m), "unsignedCast of the cast");
            const Aesi<N> s(u); expectS(c, s, abs(x), "Aesi from Aeu"); });
    }
}
// chains N -> M -> K -> N
template <std::size_t N, std::size_t M, std::size_t K> void chain(std::vector<Pat<N>> p) {
    singlesS<N>(strf("chain %zu -> %zu -> %zu -> %zu", N, M, K, N), sfam<N>(p), [](Ctx& c, auto& a, auto& x) {
        const auto s1 = castS<M>(a); const auto s2 = castS<K>(s1); const auto s3 = castS<N>(s2); expectS(c, s3, low(low(low(x, M), K), N), "chain of signed casts");
        const Aeu<N> u = a.unsignedCast(); const auto u1 = castU<M>(u); const auto u2 = castU<K>(u1); const auto u3 = castU<N>(u2); expectU(c, u3, modN(modN(modN(abs(x), M), K), N), "chain of unsigned casts"); });
}
template <std::size_t N, std::size_t... M> void to(std::vector<Pat<N>> p) { (one<N, M>(p), ...); }
template <std::size_t N, std::size_t M, std::size_t... K> void chain2(const std::vector<Pat<N>>& p) { (chain<N, M, K>(p), ...); }
template <std::size_t N, std::size_t... M> void chains(std::vector<Pat<N>> p) { (chain2<N, M, M...>(p), ...); }
#define WIDTHS 96, 128, 160, 192, 224, 256, 288, 512, 1024
#if PART == 0
static void reg() { to<96, WIDTHS>(product<96>(mc::thorough() ? L16 : L12)); to<96, 2048, 4096, 8192>(shapes<96>(1)); chains<96, 96, 128, 160, 256>(product<96>(L6)); }
#elif PART == 1
static void reg() { to<128, WIDTHS>(join(product<128>(mc::thorough() ? L12 : L6), shapes<128>(3))); chains<128, 96, 128, 160, 256>(join(product<128>(L4), shapes<128>(1))); }
#elif PART == 2
static void reg() { to<160, WIDTHS>(join(product<160>(mc::thorough() ? L8 : L4), shapes<160>(3))); to<192, WIDTHS>(shapes<192>(mc::thorough() ? 3 : 2)); chains<160, 96, 128, 192, 256>(shapes<160>(1)); }
#elif PART == 3
static void reg() { to<224, WIDTHS>(shapes<224>(2)); to<256, WIDTHS>(shapes<256>(mc::thorough() ? 3 : 2)); to<288, WIDTHS>(shapes<288>(2)); chains<256, 96, 160, 512>(shapes<256>(1)); }
#elif PART == 4
static void reg() { to<512, WIDTHS, 2048>(shapes<512>(mc::thorough() ? 2 : 1)); to<1024, 96, 128, 512, 992, 1056, 2048>(shapes<1024>(1)); to<2048, 96, 1024, 2016, 4096>(thin(shapes<2048>(1), mc::thorough() ? 20000 : 1000)); to<8192, 96, 4096, 6144>(thin(shapes<8192>(0), mc::thorough() ? 2000 : 300)); chains<512, 96, 256, 1024>(shapes<512>(0)); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { to<N, N + 32, 96, 1088, (N > 128 ? N - 32 : 128), 2 * N>(sparse<N>(40)); to<96, N>(sparse<96>(20)); to<1088, N>(sparse<1088>(12)); }); }
#endif
MC_PART(reg);
