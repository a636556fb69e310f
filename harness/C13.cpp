// C13: signed comparison is the numeric order across precisions and types.
#include "common.h"

template <class X, class Y> void relations(Ctx& c, const X& a, const Y& b, int o, const char* what) {
    c.step(7);
    const bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
    if (eq != (o == 0)) return c.fail("%s: == is %d, order is %d", what, eq, o);
    if (ne != (o != 0)) return c.fail("%s: != is %d, order is %d", what, ne, o);
    if (lt != (o < 0)) return c.fail("%s: < is %d, order is %d", what, lt, o);
    if (le != (o <= 0)) return c.fail("%s: <= is %d, order is %d", what, le, o);
    if (gt != (o > 0)) return c.fail("%s: > is %d, order is %d", what, gt, o);
    if (ge != (o >= 0)) return c.fail("%s: >= is %d, order is %d", what, ge, o);
    const auto w = a <=> b;
    if ((w < 0) != (o < 0) || (w > 0) != (o > 0) || (w == 0) != (o == 0)) return c.fail("%s: <=> disagrees with the order %d", what, o);
}
template <class X, class Y> void compareTo(Ctx& c, const X& a, const Y& b, int o, const char* what) {
    const auto want = o == 0 ? Comparison::equal : o < 0 ? Comparison::less : Comparison::greater;
    c.step(); if (a.compareTo(b) != want) c.fail("%s: compareTo disagrees with the order %d", what, o);
}
inline int order(const mpz_class& x, const mpz_class& y) { const int k = cmp(x, y); return k < 0 ? -1 : k > 0; }
template <std::size_t N> void same(SFamP<N> A) {
    pairsS<N>(strf("a?b N=%zu", N), A, A, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { const int o = order(x, y); relations(c, a, b, o, "a ? b"); compareTo(c, a, b, o, "a.compareTo(b)"); observeS(c, a); observeS(c, b); expectSameS(c, a, x, "left operand"); expectSameS(c, b, y, "right operand"); });
    singlesS<N>(strf("a?a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { relations(c, a, a, 0, "a ? a"); const Aesi<N> n = -a; relations(c, a, n, sgn(x), "a ? -a"); });
}
template <std::size_t N, class... Bs> void bi(SFamP<N> A, bool dense) {
    forTypes<Bs...>([&]<class T>() { withBuiltinS<N, T>(strf("a?built-in N=%zu", N), A, dense, [](Ctx& c, auto& a, T b, auto& x, const auto& y) {
        const int o = order(x, y); relations(c, a, b, o, "a ? built-in"); relations(c, b, a, -o, "built-in ? a"); compareTo(c, a, b, o, "a.compareTo(built-in)"); });
      // the number that equals the built-in, and its neighbours
      auto vs = std::make_shared<std::vector<T>>(builtins<T>(true));
      mc::add(strf("built-in neighbours N=%zu %s", N, tname<T>()), vs->size() * 6, [=](Ctx& c, uint64_t i) { const T b = (*vs)[i / 6]; const mpz_class y = ofInt(b); const mpz_class x = i % 6 == 3 ? mpz_class(-y) : i % 6 == 4 ? mpz_class(y + pow2(64)) : i % 6 == 5 ? mpz_class(y - pow2(64)) : mpz_class(y + static_cast<int>(i % 6) - 1);
        const Aesi<N> a = loadS<N>(sgn(x), fromMpz<N>(abs(x))); const int o = order(x, y); observeS(c, a); relations(c, a, b, o, "a ? built-in"); relations(c, b, a, -o, "built-in ? a"); compareTo(c, a, b, o, "a.compareTo(built-in)"); },
        [=](uint64_t i) { return strf("N=%zu built-in %s %s case %d", N, tname<T>(), ofInt((*vs)[i / 6]).get_str().c_str(), static_cast<int>(i % 6)); }); });
}
template <std::size_t M, std::size_t N> std::vector<Pat<N>> widened(const std::vector<Pat<M>>& A, std::size_t most) {
    std::vector<Pat<N>> o; constexpr std::size_t m = M / 32, n = N / 32;
    for (auto& a : thin(A, most)) for (std::size_t top = m; top <= n; ++top) {
        if (top > m + 1 && top < n && top != (m + n) / 2) continue;
        for (uint32_t l : {1u, 0x80000000u}) { Pat<N> p{}; for (std::size_t i = 0; i < m; ++i) p[i] = a[i]; if (top > m) p[top - 1] = l; else if (l != 1u) continue; o.push_back(p); } }
    return join(o, thin(shapes<N>(0), 60));
}
template <std::size_t M, std::size_t N> void cross(std::vector<Pat<M>> a, std::size_t most) {
    auto A = sfam<M>(a); auto B = sfam<N>(widened<M, N>(a, most)); const std::size_t nb = B->size();
    mc::add(strf("a?b N=%zu,%zu", M, N), A->size() * nb, [=](Ctx& c, uint64_t i) {
            auto &p = A->v[i / nb]; auto& q = B->v[i % nb]; const int o = order(A->z[i / nb], B->z[i % nb]); observeS(c, p); observeS(c, q);
            relations(c, p, q, o, "narrow ? wide"); relations(c, q, p, -o, "wide ? narrow"); compareTo(c, p, q, o, "narrow.compareTo(wide)"); compareTo(c, q, p, -o, "wide.compareTo(narrow)"); },
        [=](uint64_t i) { return strf("precisions %zu and %zu, a=%s b=%s (signed)", M, N, hexz(A->z[i / nb]).c_str(), hexz(B->z[i % nb]).c_str()); });
}
template <std::size_t N> void medium(std::size_t k) { const bool t = mc::thorough(); auto p = thin(shapes<N>(t ? 3 : 1), t ? 6 * k : k); same<N>(sfam<N>(p)); bi<N, MAIN_INTEGRAL>(sfam<N>(thin(p, 80)), false); }
#if PART == 0
static void reg() { same<96>(sfam<96>(product<96>(mc::thorough() ? L12 : L8))); bi<96, ALL_INTEGRAL>(sfam<96>(product<96>(L5)), true); }
#elif PART == 1
static void reg() { same<128>(sfam<128>(join(product<128>(mc::thorough() ? L6 : L4), shapes<128>(1)))); bi<128, MAIN_INTEGRAL>(sfam<128>(product<128>(L4)), true); medium<160>(200); }
#elif PART == 2
static void reg() { medium<256>(250); medium<512>(220); medium<192>(150); medium<1024>(120); medium<2048>(60); }
#elif PART == 3
static void reg() { const bool t = mc::thorough(); cross<96, 128>(product<96>(t ? L6 : L4), 64); cross<96, 160>(product<96>(L4), 64); cross<96, 256>(product<96>(L4), 40); cross<128, 256>(thin(product<128>(L4), t ? 256 : 100), 50); }
#elif PART == 4
static void reg() { const bool t = mc::thorough(); auto s = [&]<std::size_t N>() { return thin(shapes<N>(1), t ? 400 : 80); };
    cross<256, 512>(s.operator()<256>(), 40); cross<512, 1024>(s.operator()<512>(), 40); cross<512, 544>(s.operator()<512>(), 40); cross<1024, 4096>(s.operator()<1024>(), 30); cross<128, 8192>(s.operator()<128>(), 20); cross<768, 1024>(s.operator()<768>(), 30); }
#elif PART >= 5
static void reg() { everyWidth<PART - 5>([]<std::size_t N>() { same<N>(sfam<N>(sparse<N>(30))); bi<N, long long>(sfam<N>(sparse<N>(20, false)), false); cross<N, N + 32>(sparse<N>(16, false), 24); cross<N, 96>(sparse<N>(16, false), 16); }); }
#endif
MC_PART(reg);
