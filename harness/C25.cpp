// C25: after any sequence of operations on a set of numbers every number is what exact integers give.
// Explicit-state search over the real objects: breadth-first over all operation sequences up to a depth, states are the raw
// bytes of the registers, every transition runs on the implementation and on exact integers, every reached state is observed.
#include "common.h"
#include "ops.h"
#include <unordered_set>
#define QT(q, t) (mc::thorough() ? (t) : (q))

template <class R> struct Step { const char* name; bool (*run)(R& r, std::vector<mpz_class>& m); };     // false: outside the contract (or result out of range): not a transition
// ------------------------------------------------------------------ observation of one number against its value
template <std::size_t N> std::string wrong(const Aeu<N>& x, const mpz_class& z) {
    if (!equals(x, z)) return "is " + hexu(x) + ", exact integers give " + hexz(z);
    const std::size_t bits = z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2);
    if (x.bitCount() != bits || x.isZero() != (z == 0) || x.isOdd() != (mpz_odd_p(z.get_mpz_t()) != 0)) return "has the right digits but bitCount, isZero or isOdd disagree";
    return {};
}
template <std::size_t N> std::string wrong(const Aesi<N>& x, const mpz_class& z) {
    if (!worth(x, z)) return "is " + hexs(x) + ", exact integers give " + hexz(z);
    const std::size_t bits = z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2);
    if (x.bitCount() != bits || x.isZero() != (z == 0) || x.isOdd() != (mpz_odd_p(z.get_mpz_t()) != 0) || x.isNegative() != (z < 0) || x.isPositive() != (z > 0)) return "has the right digits but bitCount or the sign predicates disagree";
    return {};
}
template <std::size_t N> Aeu<N> canonical(const mpz_class& z, Aeu<N>*) { return load<N>(fromMpz<N>(z)); }
template <std::size_t N> Aesi<N> canonical(const mpz_class& z, Aesi<N>*) { return loadS<N>(sgn(z), fromMpz<N>(abs(z))); }
template <class Num> std::string text(const Num& x) { char b[Num::getBitness() + 8]; const auto n = x.template getString<10>(b, sizeof b); std::ostringstream os; os << std::hex << x; return std::string(b, n ? n - 1 : 0) + " " + os.str(); }
static unsigned deepLeft = 0;      // per execution
template <class Num> std::string distinguish(const Num& x, const mpz_class& z) {       // against a freshly made number of the same value
    const Num f = canonical(z, static_cast<Num*>(nullptr));
    if (!(x == f) || !(f == x) || x != f || x < f || x > f || CMP3(x, f) != 0) return "does not compare equal to a fresh number of its value";
    if (mc::sameBytes(x, f)) return {};                                                 // the same bytes: no operation can tell them apart
    if (deepLeft == 0) return {};                                                     // hidden members that differ often: the following steps of the history are what tells them apart
    --deepLeft;
    if (text(x) != text(f)) return "prints differently from a fresh number of its value";
    static const auto all = ops::allOps<Num>(); const Num o = canonical(mpz_class(97), static_cast<Num*>(nullptr));
    for (auto& op : all) for (unsigned k = 0; k < ops::scalars(op.flags); k += 5) for (int where = 0; where < 3; ++where) {
        const uint64_t kk = ops::scalar<Num::getBitness()>(op.flags, k); const Num& bx = where == 1 ? x : o; const Num& bf = where == 1 ? f : o; if (!ops::legal(op.flags, bx, o, kk)) continue;
        Num d1 = where == 2 ? x : o, d2 = where == 2 ? f : o, e1 = o, e2 = o; ops::Log l1, l2; op.f(d1, e1, where == 0 ? x : o, bx, o, kk, l1); op.f(d2, e2, where == 0 ? f : o, bf, o, kk, l2);
        if (l1.h != l2.h || d1 != d2 || e1 != e2) return strf("behaves differently from a fresh number of its value in '%s'", op.name);
    }
    return {};
}
// ------------------------------------------------------------------ the search
template <class R> struct Search {
    std::vector<Step<R>> steps; std::vector<std::pair<std::string, std::pair<R, std::vector<mpz_class>>>> starts;
    struct Node { R r; std::vector<mpz_class> m; std::vector<uint16_t> path; };
    std::string pathText(const std::vector<uint16_t>& p) const { std::string s; for (auto i : p) s += std::string(s.empty() ? "" : "; ") + steps[i].name; return s; }
    bool one(Ctx& c, Node& n, uint16_t s, const std::string& start, bool full) {
        const R before = n.r; (void)before;
        if (!steps[s].run(n.r, n.m)) return false;
        n.path.push_back(s); c.step();
        const std::string w = n.r.check(n.m, full);
        if (!w.empty()) c.fail("start %s; after: %s: %s", start.c_str(), pathText(n.path).c_str(), w.c_str());
        return true;
    }
    // all sequences that begin with steps[first] and have at most `depth` steps
    void explore(Ctx& c, unsigned start, uint16_t first, unsigned depth) {
        deepLeft = 60; std::unordered_set<uint64_t> seen; std::vector<Node> level, next; Node n{starts[start].second.first, starts[start].second.second, {}};
        if (!one(c, n, first, starts[start].first, true) || c.failed) return; level.push_back(n); c.state(n.r.hash());
        for (unsigned d = 2; d <= depth && !c.failed; ++d) {
            next.clear();
            for (auto& node : level) for (uint16_t s = 0; s < steps.size(); ++s) {
                Node q = node; if (!one(c, q, s, starts[start].first, d < depth)) continue; if (c.failed) return;
                const uint64_t h = q.r.hash();
                if (d == depth) { if ((h & 7) == 0) c.state(h); continue; }               // the deepest states are only sampled into the (bounded) state counter
                if (seen.insert(h).second) { c.state(h); next.push_back(std::move(q)); }
            }
            level.swap(next);
        }
    }
};
template <class R> void spaces(const std::string& label, std::shared_ptr<Search<R>> S, unsigned depth) {
    const uint64_t n = S->steps.size();
    mc::add(strf("%s: all sequences of up to %u operations", label.c_str(), depth), S->starts.size() * n, [S, n, depth](Ctx& c, uint64_t i) { S->explore(c, static_cast<unsigned>(i / n), static_cast<uint16_t>(i % n), depth); },
        [S, n, depth](uint64_t i) { return strf("start %s; every sequence of up to %u operations beginning with: %s", S->starts[i / n].first.c_str(), depth, S->steps[i % n].name); }, 1);
}
#define STEP(text, ...) Step<R>{text, [](R& r, std::vector<mpz_class>& m) -> bool { auto& x = r.x; auto& y = r.y; mpz_class &a = m[0], &b = m[1]; (void)x; (void)y; (void)a; (void)b; __VA_ARGS__; return true; }}
#define TWO(op, cond, model) STEP("x " op " y", if (!(cond)) return false; x op##_ y; model)

// ------------------------------------------------------------------ two unsigned numbers
template <std::size_t N> struct RU {
    Aeu<N> x, y;
    uint64_t hash() const { return mc::numHash(y, mc::numHash(x, 25)); }
    std::string check(const std::vector<mpz_class>& m, bool full) const {
        std::string w = wrong(x, m[0]); if (!w.empty()) return "x " + w; w = wrong(y, m[1]); if (!w.empty()) return "y " + w;
        const int o = cmp(m[0], m[1]); if ((x == y) != (o == 0) || (x < y) != (o < 0) || (x >= y) != (o >= 0)) return "x and y compare wrongly";
        if (full) { w = distinguish(x, m[0]); if (!w.empty()) return "x " + w; w = distinguish(y, m[1]); if (!w.empty()) return "y " + w; }
        return {};
    }
};
template <std::size_t N> mpz_class M(const mpz_class& z) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), N); return r; }
inline mpz_class root(const mpz_class& z) { mpz_class r; if (z > 0) mpz_sqrt(r.get_mpz_t(), z.get_mpz_t()); return r; }
template <std::size_t N> mpz_class shl(const mpz_class& z, unsigned s) { return s >= N ? z : M<N>(z << s); }
template <std::size_t N> mpz_class shr(const mpz_class& z, unsigned s) { return s >= N ? z : mpz_class(z >> s); }
inline mpz_class bitset_(mpz_class z, std::size_t b, bool v) { if (v) mpz_setbit(z.get_mpz_t(), b); else mpz_clrbit(z.get_mpz_t(), b); return z; }
inline mpz_class field(const mpz_class& z, std::size_t at, unsigned width, uint64_t v) { mpz_class r = z; for (unsigned i = 0; i < width; ++i) r = bitset_(r, at + i, v >> i & 1); return r; }
inline mpz_class u64(uint64_t v) { mpz_class r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
template <std::size_t N> std::vector<Step<RU<N>>> unsignedSteps(bool heavy) {
    using R = RU<N>; using Num = Aeu<N>;
    std::vector<Step<R>> s{
        STEP("++x", ++x; a = M<N>(a + 1)), STEP("x--", x--; a = M<N>(a - 1)), STEP("y++", y++; b = M<N>(b + 1)), STEP("--y", --y; b = M<N>(b - 1)),
        STEP("x += y", x += y; a = M<N>(a + b)), STEP("x -= y", x -= y; a = M<N>(a - b)), STEP("y += x", y += x; b = M<N>(a + b)), STEP("y = y - x", y = y - x; b = M<N>(b - a)), STEP("x += x", x += x; a = M<N>(a + a)), STEP("y -= y", y -= y; b = 0),
        STEP("x *= y", x *= y; a = M<N>(a * b)), STEP("y = y * x", y = y * x; b = M<N>(a * b)), STEP("x *= x", x *= x; a = M<N>(a * a)), STEP("y *= 10u", y *= 10u; b = M<N>(b * 10)), STEP("x *= 2^64-3", x *= 0xfffffffffffffffdull; a = M<N>(a * u64(0xfffffffffffffffdull))),
        STEP("x = y", x = y; a = b), STEP("y = x", y = x; b = a), STEP("swap", x.swap(y); std::swap(a, b)), STEP("y = copy of x, ++x", Num t(x); y = t; ++x; b = a; a = M<N>(a + 1)), STEP("x = move(y), y = 5", x = std::move(y); y = 5u; a = b; b = 5),
        STEP("x &= y", x &= y; a = a & b), STEP("y |= x", y |= x; b = a | b), STEP("x ^= y", x ^= y; a = a ^ b), STEP("x = ~x", x = ~x; a = pow2(N) - 1 - a), STEP("y = -y", y = -y; b = M<N>(-b)),
        STEP("x <<= 1", x <<= 1u; a = shl<N>(a, 1)), STEP("x <<= 32", x <<= 32u; a = shl<N>(a, 32)), STEP("y = y << 45", y = y << 45u; b = shl<N>(b, 45)), STEP("x >>= 1", x >>= 1u; a = shr<N>(a, 1)), STEP("y >>= 33", y >>= 33u; b = shr<N>(b, 33)), STEP("x <<= N-1", x <<= static_cast<unsigned>(N - 1); a = shl<N>(a, N - 1)), STEP("y >>= N", y >>= static_cast<unsigned>(N)),
        STEP("x.setBit(N-1, 1)", x.setBit(N - 1, true); a = bitset_(a, N - 1, true)), STEP("y.setBit(0, 0)", y.setBit(0, false); b = bitset_(b, 0, false)), STEP("x.setByte(5, 0x80)", x.setByte(5, 0x80); a = field(a, 40, 8, 0x80)), STEP("y.setBlock(1, 0)", y.setBlock(1, 0); b = field(b, 32, 32, 0)), STEP("y.setBlock(2, 2^32-1)", y.setBlock(2, 0xffffffffu); b = field(b, 64, 32, 0xffffffffu)),
        STEP("x += 2^63", x += 0x8000000000000000ull; a = M<N>(a + pow2(63))), STEP("y -= 1", y -= 1u; b = M<N>(b - 1)), STEP("x = 3 - x", x = 3u - x; a = M<N>(3 - a)), STEP("y = 2^64-1", y = ~0ull; b = pow2(64) - 1), STEP("x = 0", x = 0u; a = 0),
        STEP("x through a wider number", x = x.template precisionCast<2 * N>().template precisionCast<N>()), STEP("y through 2 blocks more", y = (y.template precisionCast<N + 64>() * 4u).template precisionCast<N>(); b = M<N>(b * 4)), STEP("x through signed", x = (-Aesi<N>(x)).unsignedCast()),
    };
    if (heavy) for (auto& h : std::vector<Step<R>>{
        STEP("x /= y", if (b == 0) return false; x /= y; a = a / b), STEP("y %= x", if (a == 0) return false; y %= x; b = b % a), STEP("x %= 1000003", x %= 1000003u; a = a % 1000003), STEP("y /= 2^33+1", y /= 0x200000001ull; b = b / u64(0x200000001ull)), STEP("x, y = divide(x, y)", if (b == 0) return false; auto q = Num::divide(x, y); x = q.first; y = q.second; mpz_class t = a / b; b = a % b; a = t),
        STEP("x = gcd(x, y)", x = Num::gcd(x, y); a = gcd(a, b)), STEP("y = squareRoot(y)", y = y.squareRoot(); b = root(b)), STEP("x through decimal text", char t[N]; const auto n = x.template getString<10>(t, N); x = Num(t, n - 1)), STEP("y through hexadecimal text", std::ostringstream os; os << std::hex << std::showbase << y; y = Num(os.str())), STEP("x through binary", std::stringstream ss; x.writeBinary(ss); x.readBinary(ss)),
    }) s.push_back(h);
    return s;
}
template <std::size_t N> void unsignedSearch(unsigned depth, bool heavy) {
    auto S = std::make_shared<Search<RU<N>>>(); S->steps = unsignedSteps<N>(heavy);
    for (auto& [p, q] : std::vector<std::pair<mpz_class, mpz_class>>{{0, 0}, {pow2(N) - 1, pow2(32)}, {pow2(N - 1), pow2(64) - 1}}) S->starts.push_back({hexz(p) + ", " + hexz(q), {RU<N>{load<N>(fromMpz<N>(p)), load<N>(fromMpz<N>(q))}, {p, q}}});
    spaces(strf("two Aeu<%zu>%s", N, heavy ? "" : " (light operations)"), S, depth);
}
// ------------------------------------------------------------------ two signed numbers (results stay in range, else the branch ends)
template <std::size_t N> struct RS {
    Aesi<N> x, y;
    uint64_t hash() const { return mc::numHash(y, mc::numHash(x, 25)); }
    std::string check(const std::vector<mpz_class>& m, bool full) const {
        std::string w = wrong(x, m[0]); if (!w.empty()) return "x " + w; w = wrong(y, m[1]); if (!w.empty()) return "y " + w;
        const int o = cmp(m[0], m[1]); if ((x == y) != (o == 0) || (x < y) != (o < 0) || (x >= y) != (o >= 0)) return "x and y compare wrongly";
        if (full) { w = distinguish(x, m[0]); if (!w.empty()) return "x " + w; w = distinguish(y, m[1]); if (!w.empty()) return "y " + w; }
        return {};
    }
};
template <std::size_t N> bool in(const mpz_class& z) { return fits(abs(z), N); }
inline mpz_class low(const mpz_class& z, std::size_t n) { mpz_class m = abs(z), r; mpz_fdiv_r_2exp(r.get_mpz_t(), m.get_mpz_t(), n); return z < 0 ? mpz_class(-r) : r; }
#define RANGE(v, ...) { const mpz_class t_ = __VA_ARGS__; if (!in<N>(t_)) return false; v = t_; }
template <std::size_t N> std::vector<Step<RS<N>>> signedSteps(bool heavy) {
    using R = RS<N>; using Num = Aesi<N>; 
    std::vector<Step<R>> s{
        STEP("++x", RANGE(a, a + 1) ++x), STEP("x--", RANGE(a, a - 1) x--), STEP("y++", RANGE(b, b + 1) y++), STEP("--y", RANGE(b, b - 1) --y),
        STEP("x += y", RANGE(a, a + b) x += y), STEP("x -= y", RANGE(a, a - b) x -= y), STEP("y = x + y", RANGE(b, a + b) y = x + y), STEP("y = x - y", RANGE(b, a - b) y = x - y), STEP("x += x", RANGE(a, a + a) x += x), STEP("y -= y", y -= y; b = 0),
        STEP("x *= y", RANGE(a, a * b) x *= y), STEP("y = y * y", RANGE(b, b * b) y = y * y), STEP("y *= -10", RANGE(b, b * -10) y *= -10), STEP("x *= 2^63", RANGE(a, a * pow2(63)) x *= 0x8000000000000000ull), STEP("x *= -2^63", RANGE(a, a * -pow2(63)) x *= static_cast<long long>(0x8000000000000000ull)),
        STEP("x = y", x = y; a = b), STEP("y = x", y = x; b = a), STEP("swap", x.swap(y); std::swap(a, b)), STEP("y = copy of x, x.inverse()", Num t(x); y = t; x.inverse(); b = a; a = -a), STEP("x = move(y), y = -5", x = std::move(y); y = -5; a = b; b = -5),
        STEP("x = -x", x = -x; a = -a), STEP("y.inverse()", y.inverse(); b = -b), STEP("x += -2^63", RANGE(a, a - pow2(63)) x += static_cast<long long>(0x8000000000000000ull)), STEP("y -= -2^31", RANGE(b, b + pow2(31)) y -= static_cast<int>(0x80000000u)), STEP("x -= 2^64-1", RANGE(a, a - (pow2(64) - 1)) x -= ~0ull), STEP("y = 7 - y", RANGE(b, 7 - b) y = 7 - y), STEP("x = -1", x = -1; a = -1), STEP("y = 0", y = 0; b = 0), STEP("x = 2^31", x = 0x80000000u; a = pow2(31)),
        STEP("x.setBit(N-1, 1)", if (a == 0) return false; x.setBit(N - 1, true); a = sgn(a) * bitset_(abs(a), N - 1, true)), STEP("y.setByte(5, 0x80)", if (b == 0) return false; y.setByte(5, 0x80); b = sgn(b) * field(abs(b), 40, 8, 0x80)),
        STEP("x through a narrower number", x = x.template precisionCast<N - 32>().template precisionCast<N>(); a = low(a, N - 32)), STEP("y through a wider number", y = y.template precisionCast<2 * N>().template precisionCast<N>()), STEP("x = magnitude", x = Num(x.unsignedCast()); a = abs(a)), STEP("y through long long", const long long v = y.template integralCast<long long>(); if (!fits(abs(b), 63)) return false; y = v),
    };
    if (heavy) for (auto& h : std::vector<Step<R>>{
        STEP("x /= y", if (b == 0) return false; x /= y; mpz_class t; mpz_tdiv_q(t.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); a = t), STEP("y %= x", if (a == 0) return false; y %= x; mpz_class t; mpz_tdiv_r(t.get_mpz_t(), b.get_mpz_t(), a.get_mpz_t()); b = t), STEP("x %= -10", x %= -10; mpz_class t; mpz_tdiv_r(t.get_mpz_t(), a.get_mpz_t(), mpz_class(-10).get_mpz_t()); a = t), STEP("y /= -7", y /= -7; mpz_class t; mpz_tdiv_q(t.get_mpz_t(), b.get_mpz_t(), mpz_class(-7).get_mpz_t()); b = t),
        STEP("x, y = divide(x, y)", if (b == 0) return false; Num q, w; Num::divide(x, y, q, w); x = q; y = w; mpz_class t, u; mpz_tdiv_qr(t.get_mpz_t(), u.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); a = t; b = u), STEP("y = squareRoot(y)", y = y.squareRoot(); b = root(b)), STEP("x through decimal text", char t[N]; const auto n = x.template getString<10>(t, N); x = Num(t, n - 1)), STEP("y through octal text", std::ostringstream os; os << std::oct << std::showbase << y; y = Num(os.str())),
    }) s.push_back(h);
    return s;
}
template <std::size_t N> void signedSearch(unsigned depth, bool heavy) {
    auto S = std::make_shared<Search<RS<N>>>(); S->steps = signedSteps<N>(heavy);
    for (auto& [p, q] : std::vector<std::pair<mpz_class, mpz_class>>{{0, 0}, {-pow2(32), 3}, {pow2(N - 1), 1 - pow2(64)}}) S->starts.push_back({hexz(p) + ", " + hexz(q), {RS<N>{loadS<N>(sgn(p), fromMpz<N>(abs(p))), loadS<N>(sgn(q), fromMpz<N>(abs(q)))}, {p, q}}});
    spaces(strf("two Aesi<%zu>%s", N, heavy ? "" : " (light operations)"), S, depth);
}
// ------------------------------------------------------------------ numbers of different types and precisions
template <std::size_t N> struct RM {
    Aeu<N> x; Aesi<N> y; Aeu<N + 64> z; Aesi<2 * N> w;
    uint64_t hash() const { return mc::numHash(w, mc::numHash(z, mc::numHash(y, mc::numHash(x, 25)))); }
    std::string check(const std::vector<mpz_class>& m, bool full) const {
        std::string s = wrong(x, m[0]); if (!s.empty()) return "x " + s; s = wrong(y, m[1]); if (!s.empty()) return "y " + s; s = wrong(z, m[2]); if (!s.empty()) return "z " + s; s = wrong(w, m[3]); if (!s.empty()) return "w " + s;
        if ((x == z) != (m[0] == m[2]) || (z == x) != (m[0] == m[2]) || (y == w) != (m[1] == m[3]) || (w == y) != (m[1] == m[3])) return "numbers of different precision compare wrongly";
        if (full) { s = distinguish(y, m[1]); if (!s.empty()) return "y " + s; s = distinguish(w, m[3]); if (!s.empty()) return "w " + s; }
        return {};
    }
};
template <std::size_t N> void mixedSearch(unsigned depth) {
    using R = RM<N>; auto S = std::make_shared<Search<R>>();
#undef STEP
#define STEP(text, ...) Step<R>{text, [](R& r, std::vector<mpz_class>& v) -> bool { auto &x = r.x; auto &y = r.y; auto &z = r.z; auto &w = r.w; mpz_class &a = v[0], &b = v[1], &c = v[2], &d = v[3]; (void)x; (void)y; (void)z; (void)w; (void)a; (void)b; (void)c; (void)d; __VA_ARGS__; return true; }}
    S->steps = {
        STEP("y = Aesi(x)", y = Aesi<N>(x); b = a), STEP("x = magnitude of y", x = y.unsignedCast(); a = abs(b)), STEP("z = wide x", z = x.template precisionCast<N + 64>(); c = a), STEP("x = narrow z", x = z.template precisionCast<N>(); a = M<N>(c)), STEP("w = wide y", w = y.template precisionCast<2 * N>(); d = b), STEP("y = narrow w", y = w.template precisionCast<N>(); b = low(d, N)),
        STEP("w = Aesi(wide z)", w = Aesi<2 * N>(z.template precisionCast<2 * N>()); d = c), STEP("z = narrow magnitude of w", z = w.unsignedCast().template precisionCast<N + 64>(); c = M<N + 64>(abs(d))),
        STEP("++x", ++x; a = M<N>(a + 1)), STEP("x = -x", x = -x; a = M<N>(-a)), STEP("x <<= 33", x <<= 33u; a = shl<N>(a, 33)), STEP("x *= 10", x *= 10u; a = M<N>(a * 10)), STEP("x.setBlock(2, 1)", x.setBlock(2, 1); a = field(a, 64, 32, 1)), STEP("x = 0", x = 0u; a = 0),
        STEP("--y", RANGE(b, b - 1) --y), STEP("y = -y", y = -y; b = -b), STEP("y += y", RANGE(b, b + b) y += y), STEP("y *= -3", RANGE(b, b * -3) y *= -3), STEP("y -= 2^40", RANGE(b, b - pow2(40)) y -= 1ull << 40), STEP("y.inverse()", y.inverse(); b = -b),
        STEP("z *= z", z *= z; c = M<N + 64>(c * c)), STEP("--z", --z; c = M<N + 64>(c - 1)), STEP("z >>= 32", z >>= 32u; c = shr<N + 64>(c, 32)), STEP("z = ~z", z = ~z; c = pow2(N + 64) - 1 - c),
        STEP("w *= w", if (!fits(d * d, 2 * N)) return false; w *= w; d = d * d), STEP("w -= 1", if (!fits(abs(d) + 1, 2 * N)) return false; w -= 1; d = d - 1), STEP("w.inverse()", w.inverse(); d = -d), STEP("w += w", if (!fits(abs(d) * 2, 2 * N)) return false; w += w; d = d * 2), STEP("w /= -3", w /= -3; mpz_class t; mpz_tdiv_q(t.get_mpz_t(), d.get_mpz_t(), mpz_class(-3).get_mpz_t()); d = t),
    };
    for (auto& p : std::vector<mpz_class>{0, pow2(N) - 1}) { R r{load<N>(fromMpz<N>(p)), loadS<N>(p == 0 ? 0 : -1, fromMpz<N>(p)), load<N + 64>(fromMpz<N + 64>(p)), loadS<2 * N>(p == 0 ? 0 : 1, fromMpz<2 * N>(p))}; S->starts.push_back({hexz(p), {r, {p, mpz_class(-p), p, p}}}); }
    spaces(strf("Aeu<%zu>, Aesi<%zu>, Aeu<%zu>, Aesi<%zu>", N, N, N + 64, 2 * N), S, depth);
}
// ------------------------------------------------------------------ a number with a history against a fresh number of the same value
// Every operation of the interface on every operand tuple; where the object it leaves is not, byte for byte, a fresh object of its value (hidden members), every
// operation with every scalar follows, on the object and on a fresh one, in every operand position; and once more where the two still differ.
template <std::size_t N> void pattern(Aeu<N>& x, unsigned i) {
    const std::array<uint32_t, 6> lo{9, 0xffffffffu, 0x12345678u, 1, 0x9abcdef1u, 0xffffffffu}, mid{0, 0xffffffffu, 0xdeadbeefu, 0, 0x55555555u, 0}, hi{0, 0xffffffffu, 0, 0x80000000u, 0x0badf00du, 0xffffffffu};
    for (std::size_t k = 0; k < N / 32; ++k) x.setBlock(k, k == 0 ? lo[i % 6] : k == N / 32 - 1 ? hi[i % 6] : mid[i % 6]);
}
template <std::size_t N> void pattern(Aesi<N>& x, unsigned i) { Aeu<N> u{}; pattern(u, i); x = Aesi<N>(u); if ((i * 7 + 1) % 3 == 0) x.inverse(); }
template <class Num> struct Regs { Num d, e, a, b, c; Regs(unsigned t) { pattern(d, t); pattern(e, t + 3); pattern(a, t * 5 + 1); pattern(b, t * 2 + 2); auto is = [](unsigned v) { return canonical(mpz_class(v), static_cast<Num*>(nullptr)); }; c = is(t * 97 + 10); if (t == 2) b = is(7); if (t == 4) b = a; if (t == 5) c = is(2); } };
template <std::size_t N> bool valid(const Aeu<N>&) { return true; }
template <std::size_t N> bool valid(const Aesi<N>& x) { return ops::zero(x) == x.isZero() && (x.isZero() ? !x.isNegative() && !x.isPositive() : x.isNegative() != x.isPositive()); }
template <std::size_t N> mpz_class valueOf(const Aeu<N>& x) { Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i); return toMpz<N>(p); }
template <std::size_t N> mpz_class valueOf(const Aesi<N>& x) { Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i); mpz_class z = toMpz<N>(p); return x.isNegative() ? mpz_class(-z) : z; }
template <class Num> Num fresh(const Num& x) { return canonical(valueOf(x), static_cast<Num*>(nullptr)); }
template <class Num> std::string differ(const Num& x, const Num& y) {
    if (!valid(x) || !valid(y)) return {};
    if (!alike(x, y)) return "values differ";
    if (mc::sameBytes(x, y)) return {};
    if (x.bitCount() != y.bitCount() || x.byteCount() != y.byteCount() || x.filledBlocksNumber() != y.filledBlocksNumber() || x.isOdd() != y.isOdd() || x.isEven() != y.isEven() || x.isZero() != y.isZero()) return "counts differ";
    return {};
}
template <class Num> void histories(const char* type, unsigned tuples) {
    constexpr std::size_t N = Num::getBitness(); static const auto all = ops::allOps<Num>();
    struct Call { unsigned op, k; }; auto calls = std::make_shared<std::vector<Call>>();
    for (unsigned o = 0; o < all.size(); ++o) { if ((all[o].flags & ops::VERY) && N > 600) continue; for (unsigned k = 0; k < ops::scalars(all[o].flags); ++k) calls->push_back({o, k}); }
    mc::add(strf("%s: an object with a history against a fresh object", type), calls->size() * tuples, [calls, tuples](Ctx& c, uint64_t i) {
        const auto& f = all[(*calls)[i / tuples].op]; const uint64_t k1 = ops::scalar<N>(f.flags, (*calls)[i / tuples].k);
        Regs<Num> r(static_cast<unsigned>(i % tuples)); if (!valid(r.a) || !valid(r.b) || !valid(r.c) || !ops::legal(f.flags, r.b, r.c, k1)) return;
        ops::Log l; f.f(r.d, r.e, r.a, r.b, r.c, k1, l); c.step(); if (!valid(r.d) || !valid(r.e)) return;
        const Num d0 = fresh(r.d), e0 = fresh(r.e); mc::numState(c, r.d, 250);
        if (mc::sameBytes(r.d, d0) && mc::sameBytes(r.e, e0)) return;                      // nothing hidden: every continuation is a first operation
        for (const Num* x : {&r.d, &r.e}) { deepLeft = N > 600 ? 0 : 4; const std::string w = distinguish(*x, valueOf(*x)); if (!w.empty()) { c.fail("%s", w.c_str()); return; } }
        deepLeft = N > 300 ? 1 : 12;
        for (const auto& q : *calls) {
            const auto& g = all[q.op]; const uint64_t k2 = ops::scalar<N>(g.flags, q.k);
            if (N > 300 && (((g.flags & ops::HEAVY) && (N > 600 || q.k % 4)) || (g.flags & ops::VERY) || (q.k % 3 && q.k < 10))) continue;
            for (int where = 0; where < 3; ++where) {
                Num hd = where == 0 ? r.d : r.a, he = where == 0 ? r.e : r.b, fd = where == 0 ? d0 : r.a, fe = where == 0 ? e0 : r.b;
                const Num &ha = where == 1 ? r.d : r.a, &fa = where == 1 ? d0 : r.a, &hb = where == 2 ? r.d : r.b, &fb = where == 2 ? d0 : r.b;
                if (!ops::legal(g.flags, fb, r.c, k2)) continue;
                ops::Log lh, lf; g.f(hd, he, ha, hb, r.c, k2, lh); g.f(fd, fe, fa, fb, r.c, k2, lf); c.step(2);
                std::string w = lh.h != lf.h ? "the observers differ" : differ(hd, fd); if (w.empty()) w = differ(he, fe); const char* what = where == 0 ? "destination" : where == 1 ? "first operand" : "second operand";
                if (!w.empty()) { c.fail("then '%s' with scalar %llx: an object with a history as %s: %s from those of a fresh object of its value", g.name, static_cast<unsigned long long>(k2), what, w.c_str()); return; }
                if (where == 0 && valid(hd) && !mc::sameBytes(hd, fd) && !mc::sameBytes(hd, fresh(hd))) { w = distinguish(hd, valueOf(hd)); if (!w.empty()) { c.fail("then '%s' with scalar %llx: the object %s", g.name, static_cast<unsigned long long>(k2), w.c_str()); return; } }
            }
        } },
        [calls, tuples, type](uint64_t i) { const auto& q = (*calls)[i / tuples]; return strf("%s, operand tuple %u: first '%s' with scalar %llx", type, static_cast<unsigned>(i % tuples), all[q.op].name, static_cast<unsigned long long>(ops::scalar<N>(all[q.op].flags, q.k))); });
}
#if PART == 0
static void reg() { histories<Aeu<96>>("Aeu<96>", 8); histories<Aeu<512>>("Aeu<512>", 4); unsignedSearch<96>(QT(5, 6), true); unsignedSearch<96>(QT(5, 6), false); }
#elif PART == 1
static void reg() { histories<Aesi<96>>("Aesi<96>", 8); histories<Aesi<512>>("Aesi<512>", 4); signedSearch<96>(QT(5, 6), true); signedSearch<96>(6, false); }
#elif PART == 2
static void reg() { histories<Aeu<160>>("Aeu<160>", 6); histories<Aesi<192>>("Aesi<192>", 6); unsignedSearch<160>(QT(5, 6), false); signedSearch<160>(QT(5, 6), false); unsignedSearch<512>(QT(3, 4), true); signedSearch<512>(QT(3, 4), true); }
#elif PART == 3
static void reg() { histories<Aeu<1056>>("Aeu<1056>", 3); histories<Aesi<1024>>("Aesi<1024>", 3); mixedSearch<96>(QT(6, 7)); mixedSearch<128>(QT(5, 6)); }
#else
static void reg() { ops::sweep<PART - 4, 9>([]<class Num>(Num*, const std::string&) { constexpr auto N = Num::getBitness(); const unsigned depth = N <= 320 ? QT(4, 5) : N <= 1056 ? QT(3, 4) : QT(2, 3); if constexpr (std::is_same_v<Num, Aeu<N>>) unsignedSearch<N>(depth, false); else signedSearch<N>(depth, false); }); }
#endif
MC_PART(reg);
