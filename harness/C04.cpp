// C04: bitwise operators and shifts act exactly on the N-bit pattern.
#include "common.h"

template <std::size_t N> void bitwise(Ctx& c, const Aeu<N>& a, const Aeu<N>& b, const mpz_class& x, const mpz_class& y) {
    const mpz_class w = x & y, o = x | y, e = x ^ y;
    expectU(c, a & b, w, "a & b"); expectU(c, a | b, o, "a | b"); expectU(c, a ^ b, e, "a ^ b");
    { Aeu<N> t = a; if (&(t &= b) != &t) c.fail("a &= b does not return a"); expectU(c, t, w, "a &= b"); }
    { Aeu<N> t = a; if (&(t |= b) != &t) c.fail("a |= b does not return a"); expectU(c, t, o, "a |= b"); }
    { Aeu<N> t = a; if (&(t ^= b) != &t) c.fail("a ^= b does not return a"); expectU(c, t, e, "a ^= b"); }
    expectSame(c, a, x, "left operand"); expectSame(c, b, y, "right operand");
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aeu<N>& a, B b, const mpz_class& x, const mpz_class& y) {
    const mpz_class w = x & y, o = x | y, e = x ^ y;
    expectU(c, a & b, w, "a & built-in"); expectU(c, a | b, o, "a | built-in"); expectU(c, a ^ b, e, "a ^ built-in");
    expectU(c, b & a, w, "built-in & a"); expectU(c, b | a, o, "built-in | a"); expectU(c, b ^ a, e, "built-in ^ a");
    { Aeu<N> t = a; t &= b; expectU(c, t, w, "a &= built-in"); t = a; t |= b; expectU(c, t, o, "a |= built-in"); t = a; t ^= b; expectU(c, t, e, "a ^= built-in"); }
}
template <std::size_t N, class B> void shift(Ctx& c, const Aeu<N>& a, const mpz_class& x, B s) {
    const auto k = static_cast<uint64_t>(s);
    const mpz_class l = k >= N ? x : modN(x << k, N), r = k >= N ? x : mpz_class(x >> k);
    expectU(c, a << s, l, "a << s"); expectU(c, a >> s, r, "a >> s");
    { Aeu<N> t = a; if (&(t <<= s) != &t) c.fail("a <<= s does not return a"); expectU(c, t, l, "a <<= s"); }
    { Aeu<N> t = a; if (&(t >>= s) != &t) c.fail("a >>= s does not return a"); expectU(c, t, r, "a >>= s"); }
    expectSame(c, a, x, "operand of a shift");
}
template <std::size_t N, class B> void shifts(FamP<N> A, std::size_t step = 1) {
    auto ks = std::make_shared<std::vector<B>>(); std::set<uint64_t> seen;
    auto add = [&](uint64_t k) { if (k <= static_cast<uint64_t>(std::numeric_limits<B>::max()) && seen.insert(k).second) ks->push_back(static_cast<B>(k)); };
    for (uint64_t k = 0; k <= N + 72; ++k) if (k % step == 0 || k % 32 <= 1 || k % 32 == 31 || k + 3 > N) add(k);
    for (uint64_t k : {2ull * N, 2ull * N + 1, 0xffull, 0x100ull, 0x101ull, 0xffffull, 0x10000ull, 0x10001ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000020ull, 0x8000000000000000ull, ~0ull, ~0ull - 31}) add(k);
    const std::size_t nk = ks->size();
    mc::add(strf("a<<s, a>>s N=%zu s:%s", N, tname<B>()), A->size() * nk,
        [=](Ctx& c, uint64_t i) { shift<N, B>(c, A->v[i / nk], A->z[i / nk], (*ks)[i % nk]); },
        [=](uint64_t i) { return strf("N=%zu a=%s s=%llu (%s)", N, hexz(A->z[i / nk]).c_str(), static_cast<unsigned long long>((*ks)[i % nk]), tname<B>()); });
}
template <std::size_t N> void base(FamP<N> A, FamP<N> B) {
    pairs<N>(strf("a&b, a|b, a^b N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { bitwise<N>(c, a, b, x, y); });
    singles<N>(strf("~a, a&=a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) {
        expectU(c, ~a, mpz_class(pow2(N) - 1 - x), "~a"); expectSame(c, a, x, "operand of ~");
        Aeu<N> t = a; t &= t; expectU(c, t, x, "a &= a"); t |= t; expectU(c, t, x, "a |= a"); t ^= t; expectU(c, t, 0, "a ^= a"); });
}
template <std::size_t N, class... Bs> void bi(FamP<N> A, bool dense) {
    forTypes<Bs...>([&]<class T>() { withBuiltin<N, T>(strf("a&built-in N=%zu", N), A, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
}
template <std::size_t N> void medium() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 3 : 1), t ? 3000 : 400)); base<N>(F, F); bi<N, unsigned, unsigned long long>(fam<N>(thin(F->p, 120)), false); shifts<N, unsigned>(F); shifts<N, std::size_t>(fam<N>(thin(F->p, 40))); }
template <std::size_t N> void large() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 2 : 0), t ? 600 : 90)); base<N>(F, F); shifts<N, unsigned>(F, t ? 1 : 3); }

#if PART == 0
static void reg() { auto F = fam<96>(product<96>(mc::thorough() ? L16 : L12)); base<96>(F, F); bi<96, ALL_UNSIGNED>(fam<96>(product<96>(L6)), false); forTypes<ALL_UNSIGNED>([&]<class T>() { shifts<96, T>(F); }); }
#elif PART == 1
static void reg() { auto F = fam<128>(join(product<128>(mc::thorough() ? L8 : L5), shapes<128>(3))); base<128>(F, F); bi<128, MAIN_UNSIGNED>(fam<128>(product<128>(L4)), true); shifts<128, unsigned char>(F); shifts<128, unsigned>(F); shifts<128, std::size_t>(F); }
#elif PART == 2
static void reg() { auto F = fam<160>(product<160>(L4)); base<160>(F, fam<160>(thin(F->p, 400))); shifts<160, unsigned>(F); auto G = fam<192>(product<192>({0u, 1u, 0xffffffffu})); base<192>(G, G); shifts<192, unsigned>(G); }
#elif PART == 3
static void reg() { medium<256>(); medium<224>(); medium<288>(); }
#elif PART == 4
static void reg() { medium<512>(); medium<544>(); medium<1024>(); }
#elif PART == 5
static void reg() { large<768>(); large<1312>(); large<1536>(); large<2048>(); large<3072>(); }
#elif PART == 6
static void reg() { large<4096>(); large<6144>(); large<8192>(); }
#elif PART >= 7
static void reg() { everyWidth<PART - 7>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(20)); base<N>(F, F); shifts<N, unsigned>(fam<N>(sparse<N>(10, false))); }); }
#endif
MC_PART(reg);
