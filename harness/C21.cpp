// C21: operators are alias-safe and leave their other operands (and neighbouring objects) unchanged.
// Every operation x every way its four operands can coincide x every combination of small value lists.
#include "common.h"
#include "ops.h"

static std::vector<std::array<int, 4>> partitions() {      // restricted growth strings: classes of d, a, b, c; fewest coincidences first
    std::vector<std::array<int, 4>> o;
    for (int a = 0; a <= 1; ++a) for (int b = 0; b <= std::max(0, a) + 1; ++b) for (int c = 0; c <= std::max(a, b) + 1; ++c) o.push_back({0, a, b, c});
    std::stable_sort(o.begin(), o.end(), [](auto& x, auto& y) { return *std::max_element(x.begin(), x.end()) > *std::max_element(y.begin(), y.end()); });
    return o;
}
template <class Num> struct Values { std::vector<Num> v; std::vector<std::string> s; };
template <std::size_t N> Values<Aeu<N>> values(Aeu<N>*, const std::vector<mpz_class>& zs) { Values<Aeu<N>> r; for (auto& z : zs) if (z >= 0) { r.v.push_back(load<N>(fromMpz<N>(z))); r.s.push_back(hexz(z)); } return r; }
template <std::size_t N> Values<Aesi<N>> values(Aesi<N>*, const std::vector<mpz_class>& zs) { Values<Aesi<N>> r; for (auto& z : zs) { r.v.push_back(loadS<N>(sgn(z), fromMpz<N>(abs(z)))); r.s.push_back(hexz(z)); } return r; }

template <class Num> struct Arena {     // registers with a neighbour on each side
    struct { Num x0, d, x1, e, x2, a, x3, b, x4, c, x5; } m;
    Arena(const Num& filler) : m{filler, filler, filler, filler, filler, filler, filler, filler, filler, filler, filler} {}
    bool neighbours(const Num& filler) const { for (const Num* p : {&m.x0, &m.x1, &m.x2, &m.x3, &m.x4, &m.x5}) if (!alike(*p, filler)) return false; return true; }
};
template <class Num> bool same(const Num& x, const Num& y) { return alike(x, y); }

template <class Num> void spaces(const char* type, std::vector<mpz_class> list, std::array<unsigned, 5> howMany, bool heavy) {
    const auto parts = partitions(); auto V = std::make_shared<Values<Num>>(values(static_cast<Num*>(nullptr), list));
    for (const auto& op : ops::allOps<Num>()) {
        if ((op.flags & ops::HEAVY) && !heavy) continue; if ((op.flags & ops::VERY) && Num::getBitness() > 600) continue;
        const unsigned ks = ops::scalars(op.flags);
        struct Block { std::array<int, 4> p; unsigned classes, vals; uint64_t first; }; auto bl = std::make_shared<std::vector<Block>>(); uint64_t total = 0;
        for (auto& p : parts) {
            if ((op.flags & ops::OUT) && (p[1] == 0 || p[2] == 0 || p[3] == 0)) continue;
            const unsigned k = static_cast<unsigned>(*std::max_element(p.begin(), p.end())) + 1, n = std::min<unsigned>((op.flags & ops::HEAVY) && Num::getBitness() >= 512 && !mc::thorough() ? 5 - k : howMany[k] / (ks > 1 && k > 1 ? 2 : 1), static_cast<unsigned>(V->v.size()));
            uint64_t c = ks; for (unsigned i = 0; i < k; ++i) c *= n; bl->push_back({p, k, n, total}); total += c;
        }
        auto decode = [=](uint64_t i, Block& b, std::array<unsigned, 4>& cls, unsigned& k) { b = *(std::upper_bound(bl->begin(), bl->end(), i, [](uint64_t x, const Block& y) { return x < y.first; }) - 1); i -= b.first; k = static_cast<unsigned>(i % ks); i /= ks; for (unsigned j = 0; j < b.classes; ++j) { const auto q = i % b.vals; cls[j] = static_cast<unsigned>(q * (V->v.size() - 1) / (b.vals > 1 ? b.vals - 1 : 1)); i /= b.vals; } };
        mc::add(strf("%s: %s", type, op.name), total, [=](Ctx& c, uint64_t i) {
            Block b{}; std::array<unsigned, 4> cls{}; unsigned kI; decode(i, b, cls, kI); const uint64_t k = ops::scalar<Num::getBitness()>(op.flags, kI);
            const Num& vd = V->v[cls[b.p[0]]]; const Num& va = V->v[cls[b.p[1]]]; const Num& vb = V->v[cls[b.p[2]]]; const Num& vc = V->v[cls[b.p[3]]]; const Num ve = V->v[(cls[0] * 7 + 3) % V->v.size()];
            if (!ops::legal(op.flags, vb, vc, k)) return;
            const Num filler = V->v[V->v.size() / 2];
            Arena<Num> R(filler); R.m.d = vd; R.m.a = va; R.m.b = vb; R.m.c = vc; R.m.e = ve; ops::Log lr; op.f(R.m.d, R.m.e, R.m.a, R.m.b, R.m.c, k, lr); c.step();
            if (!same(R.m.a, va) || !same(R.m.b, vb) || !same(R.m.c, vc)) { c.fail("a const operand changed (all operands distinct)"); return; }
            if (!R.neighbours(filler)) { c.fail("an object next to the operands changed"); return; }
            if ((op.flags & ops::READ) && (!same(R.m.d, vd) || !same(R.m.e, ve))) { c.fail("an object that is no operand changed"); return; }
            if ((op.flags & ops::SWAPS) && (!same(R.m.d, ve) || !same(R.m.e, vd))) { c.fail("swap did not exchange the values"); return; }
            if (std::string_view(op.name) == "swap with itself" && !same(R.m.d, vd)) { c.fail("swapping an object with itself changed it to %s", show(R.m.d).c_str()); return; }
            mc::numState(c, R.m.d, 21);
            if (b.classes == 4) return;
            Arena<Num> A(filler); Num* slot[4] = {&A.m.d, nullptr, nullptr, nullptr}; Num* own[4] = {&A.m.d, &A.m.a, &A.m.b, &A.m.c};
            Num* obj[4]; for (int j = 0; j < 4; ++j) { if (!slot[b.p[j]]) slot[b.p[j]] = own[j]; obj[j] = slot[b.p[j]]; *obj[j] = V->v[cls[b.p[j]]]; }
            A.m.e = ve; ops::Log la; op.f(*obj[0], A.m.e, *obj[1], *obj[2], *obj[3], k, la); c.step();
            if (!same(A.m.d, R.m.d)) c.fail("with coinciding operands the result is %s, with distinct copies %s", show(A.m.d).c_str(), show(R.m.d).c_str());
            if (!same(A.m.e, R.m.e)) c.fail("with coinciding operands the second result differs");
            if (la.h != lr.h) c.fail("with coinciding operands the observers differ");
            for (int j = 1; j < 4; ++j) if (obj[j] != &A.m.d && !same(*obj[j], V->v[cls[b.p[j]]])) c.fail("a const operand changed");
            if (!A.neighbours(filler)) c.fail("an object next to the operands changed"); },
            [=](uint64_t i) { Block b{}; std::array<unsigned, 4> cls{}; unsigned kI; decode(i, b, cls, kI); std::string s; const char* nm[] = {"d", "a", "b", "c"}; for (int j = 0; j < 4; ++j) { s += strf("%s%s", j ? " " : "", nm[j]); int f = j; for (int q = j - 1; q >= 0; --q) if (b.p[q] == b.p[j]) f = q; s += f != j ? strf(" is %s", nm[f]) : "=" + V->s[cls[b.p[j]]]; } return strf("%s %s %s%s", type, op.name, s.c_str(), ops::scalars(op.flags) > 1 ? strf(" k=%llx", static_cast<unsigned long long>(ops::scalar<Num::getBitness()>(op.flags, kI))).c_str() : ""); });
    }
}
// expressions in which one object appears more than once, against the same expression on distinct copies
template <class Num> void chains(const char* type, std::vector<mpz_class> list, unsigned howMany) {
    auto V = std::make_shared<Values<Num>>(values(static_cast<Num*>(nullptr), list)); const unsigned n = std::min<unsigned>(howMany, static_cast<unsigned>(V->v.size()));
    struct Chain { const char* name; void (*alias)(Num& x, Num& y); void (*distinct)(Num& x, Num& y); bool heavy; };
    static const std::vector<Chain> all{
        {"(x += y) += x", [](Num& x, Num& y) { (x += y) += x; }, [](Num& x, Num& y) { Num t = x; t += y; const Num u = t; t += u; x = t; }, false},
        {"(x -= y) -= x", [](Num& x, Num& y) { (x -= y) -= x; }, [](Num& x, Num& y) { Num t = x; t -= y; const Num u = t; t -= u; x = t; }, false},
        {"(x *= x) += x", [](Num& x, Num&) { (x *= x) += x; }, [](Num& x, Num&) { Num t = x; const Num u = x; t *= u; const Num w = t; t += w; x = t; }, false},
        {"x = x * x - x", [](Num& x, Num&) { x = x * x - x; }, [](Num& x, Num&) { const Num u = x, w = x, v = x; Num t = u * w; t -= v; x = t; }, false},
        {"x = x = y", [](Num& x, Num& y) { x = x = y; }, [](Num& x, Num& y) { x = Num(y); }, false},
        {"x = (y += x) - y", [](Num& x, Num& y) { x = (y += x) - y; }, [](Num& x, Num& y) { const Num u = x; y += u; const Num p = y, q = y; x = p - q; }, false},
        {"x = -x + x", [](Num& x, Num&) { x = -x + x; }, [](Num& x, Num&) { const Num u = x; const Num w = -u; const Num v = x; x = w + v; }, false},
        {"++x += x", [](Num& x, Num&) { ++x += x; }, [](Num& x, Num&) { Num t = x; ++t; const Num u = t; t += u; x = t; }, false},
        {"--x *= x", [](Num& x, Num&) { --x *= x; }, [](Num& x, Num&) { Num t = x; --t; const Num u = t; t *= u; x = t; }, false},
        {"x.swap(y), y.swap(x)", [](Num& x, Num& y) { x.swap(y); y.swap(x); }, [](Num&, Num&) {}, false},
        {"x.swap(x)", [](Num& x, Num&) { x.swap(x); }, [](Num&, Num&) {}, false},
        {"x = x", [](Num& x, Num&) { Num& z = x; x = z; }, [](Num&, Num&) {}, false},
        {"x = x / y * y + x % y", [](Num& x, Num& y) { if (!ops::zero(y)) x = x / y * y + x % y; }, [](Num&, Num&) {}, true},
        {"(x /= y) %= x", [](Num& x, Num& y) { if (ops::zero(y)) return; x /= y; if (!ops::zero(x)) x %= x; }, [](Num& x, Num& y) { if (ops::zero(y)) return; const Num q = x / y; x = q; if (!ops::zero(q)) { Num t = q; const Num u = q; t %= u; x = t; } }, true},
    };
    for (auto& ch : all) { const unsigned m = ch.heavy && Num::getBitness() > 512 ? 4 : n; mc::add(strf("%s: %s", type, ch.name), uint64_t{m} * m, [V, m, &ch](Ctx& c, uint64_t i) {
        auto at = [&](uint64_t q) { return V->v[q * (V->v.size() - 1) / (m > 1 ? m - 1 : 1)]; }; Num x = at(i / m), y = at(i % m), u = x, w = y; ch.alias(x, y); ch.distinct(u, w); c.step(2); c.state(&x, sizeof x, 121);
        if (!same(x, u)) c.fail("x becomes %s, with distinct copies %s", show(x).c_str(), show(u).c_str()); if (!same(y, w)) c.fail("y becomes %s, with distinct copies %s", show(y).c_str(), show(w).c_str()); },
        [V, m, type, &ch](uint64_t i) { auto at = [&](uint64_t q) { return V->s[q * (V->v.size() - 1) / (m > 1 ? m - 1 : 1)]; }; return strf("%s %s x=%s y=%s", type, ch.name, at(i / m).c_str(), at(i % m).c_str()); }); }
}
template <std::size_t N> std::string show(const Aeu<N>& x) { return hexu(x); }
template <std::size_t N> std::string show(const Aesi<N>& x) { return hexs(x); }
template <std::size_t N> std::vector<mpz_class> list() {
    std::vector<mpz_class> p{0, 1, 2, 3, 10, 0xffffffffu, pow2(32), pow2(32) + 1, pow2(N / 2), pow2(N / 2) - 1, pow2(N / 2) - 3, pow2(N / 2 - 1) + 1, pow2(64) - 1, pow2(64), pow2(N - 1), pow2(N - 1) - 1, pow2(N) - 1, pow2(N) - 2, pow2(N) - pow2(32), pow2(N) - pow2(64), pow2(N) / 3, pow2(N) / 7 * 3 + 1, pow2(N - 32) + 5, pow2(N) - pow2(N - 32), pow2(N - 1) + pow2(32) + 1, pow2(70) + 12345, 1000000007, pow2(N) / 5 * 4};
    { std::vector<mpz_class> d = dictionaryFew<N>(); if (d.size() > 10) d.resize(10); p.insert(p.begin() + 2, d.begin(), d.end()); }
    std::vector<mpz_class> r; for (auto& z : p) { r.push_back(z); if (z != 0) r.push_back(-z); } return r;
}
template <class Num> void both(const char* type, std::array<unsigned, 5> howMany, bool heavy) { for (auto& h : howMany) if (h) h += std::min<unsigned>(DICTIONARY_SIZE, 4); spaces<Num>(type, list<Num::getBitness()>(), howMany, heavy); chains<Num>(type, list<Num::getBitness()>(), howMany[1]); }
#define QT(q, t) (mc::thorough() ? (t) : (q))
#if PART == 0
static void reg() { both<Aeu<96>>("Aeu<96>", {0, 28, 28, 14, static_cast<unsigned>(QT(9, 20))}, true); }
#elif PART == 1
static void reg() { both<Aesi<96>>("Aesi<96>", {0, 55, 40, 16, static_cast<unsigned>(QT(8, 20))}, true); }
#elif PART == 2
static void reg() { both<Aeu<128>>("Aeu<128>", {0, 28, 28, 10, static_cast<unsigned>(QT(7, 16))}, true); both<Aesi<160>>("Aesi<160>", {0, 55, 30, 10, static_cast<unsigned>(QT(6, 14))}, true); }
#elif PART == 3
static void reg() { both<Aeu<512>>("Aeu<512>", {0, 28, 14, 6, static_cast<unsigned>(QT(3, 8))}, true); both<Aesi<512>>("Aesi<512>", {0, 30, 14, 6, static_cast<unsigned>(QT(3, 8))}, true); both<Aeu<2048>>("Aeu<2048>", {0, 28, 10, 5, 3}, false); both<Aesi<2048>>("Aesi<2048>", {0, 30, 10, 5, 3}, false); }
#else
static void reg() { ops::sweep<PART - 4, 9>([]<class Num>(Num*, const std::string& type) { static const std::string label = type; both<Num>(label.c_str(), {0, static_cast<unsigned>(QT(14, 28)), static_cast<unsigned>(QT(7, 14)), static_cast<unsigned>(QT(4, 6)), static_cast<unsigned>(QT(2, 3))}, Num::getBitness() <= 1056); }); }
#endif
MC_PART(reg);
