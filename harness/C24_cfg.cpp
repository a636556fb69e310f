// The library as one build configuration compiles it, behind a plain C interface (a shared object of its own).
#include "ops.h"
#include "C24_cfg.h"
#include <cstring>
namespace {
template <std::size_t N> Aeu<N> in(const CfgCall& c, int i, Aeu<N>*) { Aeu<N> x{}; for (std::size_t b = 0; b < N / 32; ++b) x.setBlock(b, c.blocks[i][b]); return x; }
template <std::size_t N> Aesi<N> in(const CfgCall& c, int i, Aesi<N>*) { Aesi<N> x(static_cast<int>(c.sign[i])); if (c.sign[i]) for (std::size_t b = 0; b < N / 32; ++b) x.setBlock(b, c.blocks[i][b]); return x; }
template <std::size_t N> void out(const Aeu<N>& x, CfgResult& r, int i) { for (std::size_t b = 0; b < N / 32; ++b) r.blocks[i][b] = x.getBlock(b); r.sign[i] = 1; }
template <std::size_t N> void out(const Aesi<N>& x, CfgResult& r, int i) { r.sign[i] = x.isZero() ? 0 : x.isNegative() ? -1 : 1; for (std::size_t b = 0; b < N / 32; ++b) r.blocks[i][b] = x.isZero() ? 0 : x.getBlock(b); }
template <class Num> void go(const CfgCall& c, CfgResult& r) {
    static const auto all = ops::allOps<Num>(); Num* t = nullptr; Num d = in(c, 0, t), e = in(c, 1, t); const Num a = in(c, 2, t), b = in(c, 3, t), m = in(c, 4, t);
    ops::Log log; all[c.op].f(d, e, a, b, m, c.k, log); r.log = log.h; out(d, r, 0); out(e, r, 1);
}
}
#ifdef CFG_TYPES_1
#define TYPES(X) X(0, Aeu<96>) X(1, Aesi<96>) X(2, Aeu<256>) X(3, Aesi<512>) X(4, Aeu<1056>) X(5, Aesi<1024>)
#endif
extern "C" __attribute__((visibility("default"))) void cfg_run(const CfgCall* c, CfgResult* r) {
    std::memset(r, 0, sizeof *r);
    switch (c->type) {
#define X(i, T) case i: go<T>(*c, *r); break;
    TYPES(X)
#undef X
    }
}
extern "C" __attribute__((visibility("default"))) unsigned cfg_count(unsigned type) {
    switch (type) {
#define X(i, T) case i: return static_cast<unsigned>(ops::allOps<T>().size());
    TYPES(X)
#undef X
    }
    return 0;
}
