// C12: a signed zero is one canonical value, whatever history produced it.
#include "common.h"
#include <sstream>

// everything a user can observe of one number
template <std::size_t N> std::string observation(const Aesi<N>& x) {
    std::ostringstream o; o << x.isZero() << x.isPositive() << x.isNegative() << x.isOdd() << x.isEven() << ' ' << x.bitCount() << ' ' << x.byteCount() << ' ' << x.filledBlocksNumber() << ' ';
    for (std::size_t i = 0; i < N / 32; ++i) o << std::hex << x.getBlock(i) << ',';
    o << ' ' << x.getBit(0) << x.getBit(N - 1) << x.getBit(N / 2) << ' ' << static_cast<int>(x.getByte(0)) << ' ' << static_cast<int>(x.getByte(N / 8 - 1));
    o << ' ' << (x == 0) << (x != 0) << (x < 0) << (x > 0) << (x <= 0) << (x >= 0) << (x == Aesi<N>(0)) << (Aesi<N>(0) == x) << (x < Aesi<N>(0)) << (x > Aesi<N>(0)) << (0 == x) << (0 < x) << (0 > x) << (x == 0u) << (x == 0ll) << (x == Aesi<N + 64>(0)) << (Aesi<N + 64>(0) == x);
    o << ' ' << x.template integralCast<int>() << ' ' << x.template integralCast<long long>() << ' ' << x.template integralCast<unsigned>() << ' ' << x.template integralCast<unsigned long long>() << ' ' << static_cast<int>(x.template integralCast<signed char>());
    o << ' ' << hexu(x.unsignedCast()) << ' ' << hexs(x.template precisionCast<N + 32>()) << ' ' << hexs(x.template precisionCast<N + 512>());
    { std::ostringstream s; s << std::dec << x << '|' << std::hex << x << '|' << std::oct << x; o << ' ' << s.str(); }
    { char b[N + 8]; x.template getString<10>(b, sizeof b); o << ' ' << b; x.template getString<16>(b, sizeof b); o << ' ' << b; x.template getString<2>(b, sizeof b); o << ' ' << b; }
    o << ' ' << hexs(x.squareRoot()) << hexs(-x) << hexs(+x) << hexs(x * -1) << hexs(x * Aesi<N>(-1));
    return o.str();
}
template <std::size_t N> const std::string& zeroObservation() { static const std::string s = observation<N>(Aesi<N>(0)); return s; }
template <std::size_t N> void zero(Ctx& c, const Aesi<N>& z, const char* how) {
    c.step(); observeS(c, z); const std::string got = observation<N>(z);
    if (got != zeroObservation<N>()) c.fail("zero from %s is distinguishable from a fresh zero:\n  %s\n  %s", how, got.substr(0, 900).c_str(), zeroObservation<N>().substr(0, 900).c_str());
    // continuations: what can be done next must give what a fresh zero gives
    const Aesi<N> five(5), minus(-7);
    auto same = [&](const Aesi<N>& g, const mpz_class& w, const char* what) { c.step(); if (!equalsS(g, w)) c.fail("zero from %s, then %s: got %s, expected %s", how, what, hexs(g).c_str(), w.get_str().c_str()); };
    { Aesi<N> t = z; ++t; same(t, 1, "++"); t = z; --t; same(t, -1, "--"); t = z; t += five; same(t, 5, "+= 5"); t = z; t -= five; same(t, -5, "-= 5"); t = z; t *= five; same(t, 0, "*= 5"); t = z; t *= minus; same(t, 0, "*= -7"); t = z; t /= minus; same(t, 0, "/= -7"); t = z; t %= minus; same(t, 0, "%= -7");
      t = z; t.inverse(); same(t, 0, "inverse"); t = five; t += z; same(t, 5, "5 + zero"); t = minus; t -= z; same(t, -7, "-7 - zero"); t = minus; t *= z; same(t, 0, "-7 * zero"); t = z; t += z; same(t, 0, "zero + zero"); t = z; t -= z; same(t, 0, "zero - zero"); t = z; t *= z; same(t, 0, "zero * zero");
      t = z; t *= -3; same(t, 0, "*= int -3"); t = z; t /= -3; same(t, 0, "/= int -3"); t = z; t %= -3; same(t, 0, "%= int"); t = z; t *= 3u; same(t, 0, "*= 3u"); t = z; t += -2; same(t, -2, "+= int -2"); Aesi<N> u = minus; t = z; t.swap(u); same(t, -7, "swap"); same(u, 0, "swapped out");
      Aesi<N> q = five, r = minus; Aesi<N>::divide(z, minus, q, r); same(q, 0, "divide quotient"); same(r, 0, "divide remainder"); }
}
// the sign of any result is consistent with its magnitude, comparison and output
template <std::size_t N> void consistent(Ctx& c, const Aesi<N>& x, const char* how) {
    c.step(); observeS(c, x);
    bool any = false; for (std::size_t i = 0; i < N / 32; ++i) any = any || x.getBlock(i);
    if (!any) return zero<N>(c, x, how);
    const bool p = x.isPositive(), n = x.isNegative();
    if (x.isZero() || p == n || (x < 0) != n || (x > 0) != p || x == 0) return c.fail("%s: inconsistent sign of %s: zero=%d positive=%d negative=%d", how, hexs(x).c_str(), x.isZero(), p, n);
    if (c.index % 8 == 0) { std::ostringstream o; o << std::hex << x; if ((o.str()[0] == '-') != n) return c.fail("%s: printed as %s", how, o.str().c_str()); }
}
template <std::size_t N> void binary(Ctx& c, const Aesi<N>& a, const Aesi<N>& b, const mpz_class&, const mpz_class& y) {
    Aesi<N> t = a; t += b; consistent(c, t, "+="); t = a; t -= b; consistent(c, t, "-="); t = a; t *= b; consistent(c, t, "*=");
    if (y != 0) { t = a; t /= b; consistent(c, t, "/="); t = a; t %= b; consistent(c, t, "%="); Aesi<N> q = b, r = a; Aesi<N>::divide(a, b, q, r); consistent(c, q, "divide quotient"); consistent(c, r, "divide remainder"); }
}
template <std::size_t N, class B> void builtin(Ctx& c, const Aesi<N>& a, B b, const mpz_class&, const mpz_class& y) {
    Aesi<N> t = a; t += b; consistent(c, t, "+= built-in"); t = a; t -= b; consistent(c, t, "-= built-in"); t = a; t *= b; consistent(c, t, "*= built-in");
    if (y != 0) { t = a; t /= b; consistent(c, t, "/= built-in"); t = a; t %= b; consistent(c, t, "%= built-in"); }
}
template <std::size_t N> void origins(Ctx& c, const Aesi<N>& a, const mpz_class& x) {
    { Aesi<N> t = a; t -= t; zero(c, t, "a -= a"); t = a; t -= Aesi<N>(a); zero(c, t, "a - a"); t = a; t += -a; zero(c, t, "a + -a"); t = -a; t += a; zero(c, t, "-a + a"); }
    { Aesi<N> t = a; t *= 0; zero(c, t, "a *= int 0"); t = a; t *= 0ull; zero(c, t, "a *= 0ull"); t = a; t *= Aesi<N>(0); zero(c, t, "a *= zero"); t = Aesi<N>(0); t *= a; zero(c, t, "zero *= a"); }
    if (x != 0) { Aesi<N> t = a; t %= a; zero(c, t, "a %= a"); t = a; t %= -a; zero(c, t, "a %= -a"); t = a; t %= 1; zero(c, t, "a %= 1"); t = a; t %= -1; zero(c, t, "a %= -1"); t = a; t %= Aesi<N>(-1); zero(c, t, "a %= minus one"); t = Aesi<N>(0); t /= a; zero(c, t, "zero / a"); t = Aesi<N>(0); t %= a; zero(c, t, "zero % a");
        t = a; if (abs(x) < pow2(N) - 1) { Aesi<N> d = a; if (x > 0) ++d; else --d; t /= d; zero(c, t, "a / larger"); t = a; t /= -d; zero(c, t, "a / -larger"); }
        Aesi<N> q = a, r = a; Aesi<N>::divide(a, a, q, r); zero(c, r, "remainder of divide(a, a)"); q = a; r = a; Aesi<N>::divide(Aesi<N>(0), a, q, r); zero(c, q, "quotient of divide(0, a)"); zero(c, r, "remainder of divide(0, a)"); }
    if (x < 0) zero(c, a.squareRoot(), "squareRoot of a negative number");
    { Aesi<N> t = a; t = 0; zero(c, t, "assignment of 0"); t = a; t = Aesi<N>(); zero(c, t, "assignment of a default zero"); Aesi<N> z(0); t = a; t.swap(z); zero(c, t, "swap"); }
    consistent(c, a, "a"); consistent(c, -a, "-a"); { Aesi<N> t = a; ++t; consistent(c, t, "++"); t = a; --t; consistent(c, t, "--"); t = a; t++; consistent(c, t, "post++"); t = a; t--; consistent(c, t, "post--"); }
    // narrowing casts: the magnitude may truncate to zero
    { Aesi<N + 32> w = a.template precisionCast<N + 32>(); w *= pow2(N) == 0 ? Aesi<N + 32>(1) : Aesi<N + 32>::power2(N); const Aesi<N> back = w.template precisionCast<N>(); zero(c, back, "narrowing cast of a multiple of 2^N"); }
    consistent<N>(c, Aesi<N>(a.unsignedCast()), "construction from an unsigned number"); }
template <std::size_t N> void fixed() {
    mc::add(strf("zero from constants N=%zu", N), 24, [](Ctx& c, uint64_t i) {
        auto z = [&](const Aesi<N>& x, const char* h) { zero<N>(c, x, h); };
        switch (i) {
            case 0: z(Aesi<N>(), "Aesi()"); break; case 1: z(Aesi<N>{}, "Aesi{}"); break; case 2: z(Aesi<N>(0u), "0u"); break; case 3: z(Aesi<N>(0ll), "0ll"); break; case 4: z(Aesi<N>("0"), "\"0\""); break; case 5: z(Aesi<N>("-0"), "\"-0\""); break;
            case 6: z(Aesi<N>(std::string("-0x000")), "-0x000"); break; case 7: z(Aesi<N>(std::string("")), "empty string"); break; case 8: z(Aesi<N>(std::string("-")), "-"); break; case 9: z(Aesi<N>(L"-0b0"), "L-0b0"); break; case 10: z(Aesi<N>(std::string("-xyz")), "-xyz"); break;
            case 11: z(Aesi<N>(Aeu<N>(0u)), "Aeu 0"); break; case 12: z(Aesi<N>::power2(N), "power2(N)"); break; case 13: z(Aesi<N>::power2(~std::size_t(0)), "power2(max)"); break; case 14: { Aesi<N> t(1); --t; z(t, "1 then --"); break; } case 15: { Aesi<N> t(-1); ++t; z(t, "-1 then ++"); break; }
            case 16: { Aesi<N> t(1); t--; z(t, "1 then post--"); break; } case 17: { Aesi<N> t(-1); t++; z(t, "-1 then post++"); break; } case 18: { Aesi<N> t = Aesi<N>::power2(N / 2); t *= t; z(t, "2^(N/2) squared"); break; } case 19: { Aesi<N> t = -Aesi<N>::power2(N / 2); t *= Aesi<N>::power2(N / 2); z(t, "-(2^(N/2)) * 2^(N/2)"); break; }
            case 20: { Aesi<N> t(Aeu<N>(0u) - Aeu<N>(1u)); ++t; z(t, "2^N-1 then ++"); break; } case 21: { Aesi<N> t = -Aesi<N>(Aeu<N>(0u) - Aeu<N>(1u)); --t; z(t, "-(2^N-1) then --"); break; } case 22: { Aesi<N> t = Aesi<N>::power2(N - 1); t += t; z(t, "2^(N-1) doubled"); break; } default: { Aesi<N> t = -Aesi<N>::power2(N - 1); t += t; z(t, "-2^(N-1) doubled"); t = Aesi<N>::power2(N - 1); t -= -Aesi<N>::power2(N - 1); z(t, "2^(N-1) - -2^(N-1)"); t = Aesi<N>::power2(N - 31); t *= 0x80000000u; z(t, "2^(N-31) * 2^31"); t = Aesi<N>::power2(N - 31); t *= INT_MIN; z(t, "2^(N-31) * INT_MIN"); }
        } }, [](uint64_t i) { return strf("N=%zu zero number %d", N, static_cast<int>(i)); });
}
template <std::size_t N, class... Bs> void all(std::vector<Pat<N>> p, std::size_t few) {
    auto A = sfam<N>(p), F = sfam<N>(thin(p, few));
    pairsS<N>(strf("sign of a op b N=%zu", N), A, A, [](Ctx& c, auto& a, auto& b, auto& x, auto& y) { binary<N>(c, a, b, x, y); });
    singlesS<N>(strf("zeros made from a N=%zu", N), A, [](Ctx& c, auto& a, auto& x) { origins<N>(c, a, x); });
    forTypes<Bs...>([&]<class T>() { withBuiltinS<N, T>(strf("sign of a op built-in N=%zu", N), F, false, [](Ctx& c, auto& a, T b, auto& x, const auto& y) { builtin<N, T>(c, a, b, x, y); }); });
    fixed<N>();
}
#if PART == 0
static void reg() { all<96, ALL_INTEGRAL>(product<96>(mc::thorough() ? L8 : L5), 40); }
#elif PART == 1
static void reg() { all<128, MAIN_INTEGRAL>(join(product<128>({0u, 1u, 0x80000000u, 0xffffffffu}), shapes<128>(0)), 60); }
#elif PART == 2
static void reg() { const bool t = mc::thorough(); all<256, MAIN_INTEGRAL>(thin(shapes<256>(t ? 2 : 1), t ? 300 : 70), 30); all<160, int, long long>(thin(shapes<160>(1), t ? 400 : 80), 30); }
#elif PART == 3
static void reg() { const bool t = mc::thorough(); all<512, int, long long>(thin(shapes<512>(1), t ? 150 : 30), 20); all<1024, int>(thin(shapes<1024>(0), t ? 60 : 12), 8); }
#elif PART >= 4
static void reg() { everyWidth<PART - 4>([]<std::size_t N>() { if constexpr (N <= 1088) all<N, long long>(sparse<N>(N > 512 ? 4 : 10, false), 6); }); }
#endif
MC_PART(reg);
