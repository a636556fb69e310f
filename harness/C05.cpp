// C05: unsigned comparison is the numeric order across precisions and types.
#include "common.h"

template <class X, class Y> void relations(Ctx& c, const X& a, const Y& b, int o, const char* what) {
    c.step(9);
    const bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
    if (eq != (o == 0)) return c.fail("%s: == is %d, order is %d", what, eq, o);
    if (ne != (o != 0)) return c.fail("%s: != is %d, order is %d", what, ne, o);
    if (lt != (o < 0)) return c.fail("%s: < is %d, order is %d", what, lt, o);
    if (le != (o <= 0)) return c.fail("%s: <= is %d, order is %d", what, le, o);
    if (gt != (o > 0)) return c.fail("%s: > is %d, order is %d", what, gt, o);
    if (ge != (o >= 0)) return c.fail("%s: >= is %d, order is %d", what, ge, o);
    const auto w = a <=> b;
    if ((w < 0) != (o < 0) || (w > 0) != (o > 0) || (w == 0) != (o == 0)) return c.fail("%s: <=> disagrees with the order %d", what, o);
}
template <class X, class Y> void compareTo(Ctx& c, const X& a, const Y& b, int o, const char* what) {
    const auto want = o == 0 ? Comparison::equal : o < 0 ? Comparison::less : Comparison::greater;
    c.step(); if (a.compareTo(b) != want) c.fail("%s: compareTo disagrees with the order %d", what, o);
}
inline int order(const mpz_class& x, const mpz_class& y) { const int k = cmp(x, y); return k < 0 ? -1 : k > 0; }

template <std::size_t N> void same(FamP<N> A, FamP<N> B) {
    pairs<N>(strf("a?b N=%zu", N), A, B, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) {
        const int o = order(x, y); relations(c, a, b, o, "a ? b"); compareTo(c, a, b, o, "a.compareTo(b)"); observe(c, a); observe(c, b);
        expectSame(c, a, x, "left operand of a comparison"); expectSame(c, b, y, "right operand of a comparison"); });
    singles<N>(strf("a?a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { relations(c, a, a, 0, "a ? a"); compareTo(c, a, a, 0, "a.compareTo(a)"); Aeu<N> t = a; relations(c, a, t, 0, "a ? copy of a"); });
}
template <std::size_t N, class... Bs> void bi(FamP<N> A, bool dense) {
    forTypes<Bs...>([&]<class T>() { withBuiltin<N, T>(strf("a?built-in N=%zu", N), A, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) {
        const int o = order(x, y); relations(c, a, b, o, "a ? built-in"); relations(c, b, a, -o, "built-in ? a"); compareTo(c, a, b, o, "a.compareTo(built-in)"); }); });
}
// values of the wide precision that differ from / agree with values of the narrow one in their low part
template <std::size_t M, std::size_t N> std::vector<Pat<N>> widened(const std::vector<Pat<M>>& A, std::size_t most) {
    std::vector<Pat<N>> o; constexpr std::size_t m = M / 32, n = N / 32;
    for (auto& a : thin(A, most)) {
        for (std::size_t top = m; top <= n; ++top) {
            if (top > m + 1 && top < n && top != (m + n) / 2) continue;
            for (uint32_t l : {1u, 0x80000000u, 0xffffffffu}) {
                Pat<N> p{}; for (std::size_t i = 0; i < m && i < n; ++i) p[i] = a[i];
                if (top > m) p[top - 1] = l; else if (l != 1u) continue;
                o.push_back(p);
            }
        }
    }
    return join(o, thin(shapes<N>(0), 120));
}
template <std::size_t M, std::size_t N> void cross(std::vector<Pat<M>> a, std::size_t most) {
    auto A = fam<M>(a); auto B = fam<N>(widened<M, N>(a, most)); const std::size_t nb = B->size();
    mc::add(strf("a?b N=%zu,%zu", M, N), A->size() * nb,
        [=](Ctx& c, uint64_t i) {
            auto &p = A->v[i / nb]; auto& q = B->v[i % nb]; const int o = order(A->z[i / nb], B->z[i % nb]);
            relations(c, p, q, o, "narrow ? wide"); relations(c, q, p, -o, "wide ? narrow"); compareTo(c, p, q, o, "narrow.compareTo(wide)"); compareTo(c, q, p, -o, "wide.compareTo(narrow)"); observe(c, p); observe(c, q); },
        [=](uint64_t i) { return strf("precisions %zu and %zu, a=%s b=%s", M, N, hexz(A->z[i / nb]).c_str(), hexz(B->z[i % nb]).c_str()); });
}
template <std::size_t N> void medium() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 3 : 2), t ? 3000 : 700)); same<N>(F, F); bi<N, MAIN_UNSIGNED>(fam<N>(thin(F->p, 150)), false); }
template <std::size_t N> void large() { const bool t = mc::thorough(); auto F = fam<N>(thin(shapes<N>(t ? 2 : 1), t ? 1500 : 300)); same<N>(F, F); bi<N, unsigned, unsigned long long>(fam<N>(thin(F->p, 80)), false); }

#if PART == 0
static void reg() { auto F = fam<96>(product<96>(mc::thorough() ? L16 : L12)); same<96>(F, F); bi<96, ALL_UNSIGNED>(fam<96>(product<96>(L10)), true); }
#elif PART == 1
static void reg() { auto F = fam<128>(join(product<128>(mc::thorough() ? L8 : L5), shapes<128>(3))); same<128>(F, F); bi<128, ALL_UNSIGNED>(F, false); }
#elif PART == 2
static void reg() { auto G = fam<192>(product<192>({0u, 1u, 0xffffffffu})); same<192>(G, G); medium<256>(); medium<160>(); medium<512>(); }
#elif PART == 3
static void reg() { large<768>(); large<1024>(); large<2048>(); large<8192>(); large<1312>(); large<4096>(); }
#elif PART == 4
static void reg() { const bool t = mc::thorough(); auto p = product<96>(t ? L10 : L5); cross<96, 128>(p, 125); cross<96, 160>(p, t ? 400 : 60); cross<96, 256>(p, t ? 300 : 60); cross<128, 160>(product<128>(L4), t ? 200 : 60); cross<128, 256>(product<128>(L4), 60); }
#elif PART == 5
static void reg() { const bool t = mc::thorough(); auto s = [&]<std::size_t N>() { return thin(shapes<N>(1), t ? 900 : 220); };
    cross<256, 512>(s.operator()<256>(), t ? 300 : 80); cross<256, 288>(s.operator()<256>(), t ? 300 : 80); cross<512, 1024>(s.operator()<512>(), 80); cross<128, 1024>(s.operator()<128>(), 60); cross<768, 1024>(s.operator()<768>(), 50); }
#elif PART == 6
static void reg() { const bool t = mc::thorough(); auto s = [&]<std::size_t N>() { return thin(shapes<N>(0), t ? 400 : 120); };
    cross<96, 8192>(s.operator()<96>(), 40); cross<1024, 2048>(s.operator()<1024>(), 40); cross<2048, 4096>(s.operator()<2048>(), 30); cross<4096, 8192>(s.operator()<4096>(), 30); cross<512, 544>(s.operator()<512>(), 50); cross<1024, 1312>(s.operator()<1024>(), 40); }
#elif PART >= 7
static void reg() { everyWidth<PART - 7>([]<std::size_t N>() { auto F = fam<N>(sparse<N>(30)); same<N>(F, F); cross<N, N + 32>(sparse<N>(20, false), 30); cross<N, 96>(sparse<N>(20, false), 20); }); }
#endif
MC_PART(reg);
