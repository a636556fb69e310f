// C14: built-in integers convert in and out without loss.
#include "common.h"

template <class B> mpz_class wrap(const mpz_class& z) {   // low-order bits of the two's-complement value, read as B
    constexpr std::size_t w = sizeof(B) * 8; mpz_class r = modN(z, w); if (std::is_signed_v<B> && mpz_tstbit(r.get_mpz_t(), w - 1)) r -= pow2(w); return r; }
template <class B> std::vector<B> values() {
    if constexpr (sizeof(B) == 2) { std::vector<B> o; for (unsigned k = 0; k < 65536; ++k) o.push_back(static_cast<B>(k)); return o; } else return builtins<B>(true); }
template <std::size_t N, class B> void into() {
    auto vs = std::make_shared<std::vector<B>>(values<B>());
    mc::add(strf("construct from %s N=%zu", tname<B>(), N), vs->size(), [=](Ctx& c, uint64_t i) {
        const B b = (*vs)[i]; const mpz_class y = ofInt(b);
        if constexpr (std::is_unsigned_v<B>) {
            const Aeu<N> a(b); expectU(c, a, y, "Aeu(built-in)"); const Aeu<N> d = b; expectU(c, d, y, "Aeu = built-in"); Aeu<N> t = ~Aeu<N>(0u); t = b; expectU(c, t, y, "assignment of a built-in to Aeu");
            if (a.template integralCast<B>() != b) c.fail("integralCast does not give the built-in back"); c.step(); }
        const Aesi<N> s(b); expectS(c, s, y, "Aesi(built-in)"); const Aesi<N> e = b; expectS(c, e, y, "Aesi = built-in"); Aesi<N> t(-12345); t = b; expectS(c, t, y, "assignment of a built-in to Aesi");
        if (s.template integralCast<B>() != b) c.fail("integralCast of Aesi does not give the built-in back: %lld", static_cast<long long>(s.template integralCast<B>())); c.step(); },
        [=](uint64_t i) { return strf("N=%zu %s %s", N, tname<B>(), ofInt((*vs)[i]).get_str().c_str()); });
}
template <std::size_t N, class... Bs> void out(std::vector<Pat<N>> p) {
    auto A = fam<N>(p); auto S = sfam<N>(p);
    singles<N>(strf("casts of Aeu N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { observe(c, a); forTypes<Bs...>([&]<class B>() { if constexpr (!std::is_same_v<B, bool>) { c.step(); const B g = a.template integralCast<B>(); if (ofInt(g) != wrap<B>(x)) c.fail("integralCast<%s>: got %s, expected %s", tname<B>(), ofInt(g).get_str().c_str(), wrap<B>(x).get_str().c_str()); } }); expectSame(c, a, x, "operand of integralCast"); });
    singlesS<N>(strf("casts of Aesi N=%zu", N), S, [](Ctx& c, auto& a, auto& x) { observeS(c, a); forTypes<Bs...>([&]<class B>() { if constexpr (!std::is_same_v<B, bool>) { if (std::is_signed_v<B> || x >= 0) { c.step(); const B g = a.template integralCast<B>(); if (ofInt(g) != wrap<B>(x)) c.fail("signed integralCast<%s>: got %s, expected %s", tname<B>(), ofInt(g).get_str().c_str(), wrap<B>(x).get_str().c_str()); } } }); expectSameS(c, a, x, "operand of integralCast"); });
}
#if PART == 0
static void reg() { forTypes<ALL_INTEGRAL>([]<class B>() { into<96, B>(); }); out<96, ALL_INTEGRAL>(product<96>(mc::thorough() ? L16 : L12)); }
#elif PART == 1
static void reg() { forTypes<ALL_INTEGRAL>([]<class B>() { into<128, B>(); }); out<128, ALL_INTEGRAL>(join(product<128>(mc::thorough() ? L10 : L6), shapes<128>(3))); }
#elif PART == 2
static void reg() { forTypes<MAIN_INTEGRAL, long, unsigned long, short>([]<class B>() { into<256, B>(); into<512, B>(); into<160, B>(); }); out<256, MAIN_INTEGRAL>(shapes<256>(3)); out<512, MAIN_INTEGRAL, long, short>(shapes<512>(2)); out<160, MAIN_INTEGRAL>(shapes<160>(3)); }
#elif PART == 3
static void reg() { forTypes<MAIN_INTEGRAL>([]<class B>() { into<1024, B>(); into<2048, B>(); into<8192, B>(); }); out<1024, MAIN_INTEGRAL>(shapes<1024>(1)); out<2048, MAIN_INTEGRAL>(shapes<2048>(1)); out<8192, int, unsigned long long>(thin(shapes<8192>(0), 400)); }
#elif PART >= 4
static void reg() { everyWidth<PART - 4>([]<std::size_t N>() { forTypes<MAIN_INTEGRAL>([]<class B>() { into<N, B>(); }); out<N, int, long long, unsigned long long>(sparse<N>(40)); }); }
#endif
MC_PART(reg);
