// C24: the same program gives the same results whatever the build configuration.
// Every operation on every operand tuple of a finite list runs in every configuration (each a shared object built from the
// working tree with its own compiler, language standard and macros); all results are compared with the first one's.
#include "common.h"
#include "ops.h"
#include "C24_cfg.h"
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#define QT(q, t) (mc::thorough() ? (t) : (q))
struct Config { std::string name; bool unchecked; CfgRun run; };
static std::vector<Config>& configs() { static std::vector<Config> c; return c; }
static volatile const char* running = "";
static void died(int sig) { const char* n = const_cast<const char*>(running); (void)!write(2, "configuration: ", 15); (void)!write(2, n, strlen(n)); (void)!write(2, "\n", 1); signal(sig, SIG_DFL); raise(sig); }
static void loadConfigs() {
    if (!configs().empty()) return;
    const char* list = getenv("VERIF_CONFIGS"); if (!list) { fprintf(stderr, "VERIF_CONFIGS is not set\n"); exit(2); }
    std::istringstream is(list); std::string line;
    while (std::getline(is, line)) {           // <path>\t<unchecked>\t<name>
        const auto t = line.find('\t'); if (t == std::string::npos) continue;
        void* h = dlopen(line.substr(0, t).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
        configs().push_back({line.substr(t + 3), line[t + 1] == '1', reinterpret_cast<CfgRun>(dlsym(h, "cfg_run"))});
        if (reinterpret_cast<CfgCount>(dlsym(h, "cfg_count"))(0) != ops::allOps<Aeu<96>>().size()) { fprintf(stderr, "%s: another list of operations\n", line.c_str()); exit(2); }
    }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, died);
}
template <class Num> constexpr bool isSigned = !std::is_same_v<Num, Aeu<Num::getBitness()>>;
static std::string resultText(const CfgResult& r, std::size_t n) { auto one = [&](int i) { std::string s = r.sign[i] < 0 ? "-0x" : "0x"; for (std::size_t b = n; b-- > 0;) s += strf("%08x", r.blocks[i][b]); return s; }; return one(0) + " / " + one(1) + strf(" / observers %llx", static_cast<unsigned long long>(r.log)); }
template <class Num> void spaces(unsigned type, const char* label, unsigned plain, unsigned heavy, unsigned very) {
    constexpr std::size_t N = Num::getBitness(); constexpr bool sg = isSigned<Num>; loadConfigs();
    std::vector<mpz_class> zs{0, 1, 2, pow2(N) - 1, 10, pow2(N / 2), pow2(N - 1), 0xffffffffu, pow2(32), pow2(N / 2) - 1, pow2(N) / 3, pow2(N) - pow2(32), pow2(N - 32) + 7, 1000003, pow2(64) - 1, pow2(64) + 5, pow2(N) - pow2(64), pow2(N - 1) - 1, pow2(N) / 5 * 4, pow2(70) + 12345, pow2(33) + 3, 255, 65537, pow2(N) - pow2(N / 2), pow2(N / 2 + 1) + 1, pow2(N - 1) + 1, pow2(31), pow2(N) - 2};
    { std::vector<mpz_class> d = dictionaryFew<N>(); if (d.size() > 8) d.resize(8); zs.insert(zs.begin() + 3, d.begin(), d.end()); if (plain) plain += d.size() * (sg ? 2 : 1); if (heavy) heavy += d.size() / 2; }
    std::vector<mpz_class> vals; for (std::size_t i = 0; i < zs.size(); ++i) { vals.push_back(zs[i]); if (sg && zs[i] != 0) { vals.push_back(-zs[i]); if (i % 2) std::swap(vals[vals.size() - 1], vals[vals.size() - 2]); } }
    auto V = std::make_shared<std::vector<mpz_class>>(vals);
    auto W = std::make_shared<std::vector<mpz_class>>();           // the walk: values on and around every power of two
    for (std::size_t k = 0; k < N; ++k) if (N <= 96 || (N <= 512 ? k % 8 < 2 || k % 32 == 31 : k % 32 == 0 || k % 32 == 31 || k % 32 == k / 32 % 30)) for (int v : {-1, 0, 1}) W->push_back(sg && (k + static_cast<std::size_t>(v)) % 2 ? mpz_class(-(pow2(k) + v)) : mpz_class(pow2(k) + v));
    for (unsigned o = 0; o < ops::allOps<Num>().size(); ++o) {
        const auto op = ops::allOps<Num>()[o]; const unsigned ks = ops::scalars(op.flags); unsigned m = op.flags & ops::VERY ? very : op.flags & ops::HEAVY ? heavy : plain; m = std::min<unsigned>(m, static_cast<unsigned>(V->size()));
        if (N > 512 && (op.flags & ops::HEAVY) && (op.flags & ops::RUN)) m = 0;      // -O0 text conversion of a wide number takes a second
        if (!m) continue; const uint64_t grid = uint64_t{ks} * m * (ks > 1 ? 1 : m), walks = ks > 1 || (op.flags & (ops::HEAVY | ops::VERY)) ? 0 : W->size();
        auto make = [=](uint64_t i, CfgCall& call) {
            const uint64_t w = i >= grid ? i - grid + 1 : 0; if (w) i = w % grid;
            const uint64_t k = ops::scalar<N>(op.flags, static_cast<unsigned>(i % ks)); i /= ks; unsigned x = static_cast<unsigned>(i / (ks > 1 ? 1 : m)), y = ks > 1 ? (x * 5 + 3) % m : static_cast<unsigned>(i % m);
            auto spread = [&](unsigned q) { return static_cast<unsigned>(m > 1 ? q * (V->size() - 1) / (m - 1) : 0); }; x = spread(x); y = spread(y);
            const mpz_class a = w ? (*W)[w - 1] : (*V)[x], b = w ? (*W)[(w + 2) % W->size()] : (*V)[y]; mpz_class c = (*V)[(x * 3 + y + 1) % V->size()]; if (op.flags & ops::MODC) { c = abs(c) % pow2(N / 2); if (c == 0) c = pow2(N / 2); }
            const mpz_class z[5] = {w ? (*W)[w - 1] : (*V)[(x + y) % V->size()], (*V)[(y + 2) % V->size()], a, b, c}; std::memset(&call, 0, sizeof call); call.type = type; call.op = o; call.k = k;
            for (int j = 0; j < 5; ++j) { const auto p = fromMpz<N>(abs(z[j])); for (std::size_t q = 0; q < N / 32; ++q) call.blocks[j][q] = p[q]; call.sign[j] = static_cast<int8_t>(sgn(z[j])); }
            if ((op.flags & ops::NZB) && b == 0) return false; if ((op.flags & ops::KNZ) && static_cast<uint32_t>(k) == 0) return false; return true;
        };
        mc::add(strf("%s: %s", label, op.name), grid + walks, [=](Ctx& c, uint64_t i) {
            CfgCall call; if (!make(i, call)) return; CfgResult first; running = configs()[0].name.c_str(); configs()[0].run(&call, &first); c.step(); c.state(&first, sizeof first, 24);
            for (std::size_t q = 1; q < configs().size(); ++q) {
                if (configs()[q].unchecked && !ops::validIndex<N>(op.flags, call.k)) continue;
                CfgResult r; running = configs()[q].name.c_str(); configs()[q].run(&call, &r); c.step();
                if (std::memcmp(&r, &first, sizeof r)) { c.fail("[%s] gives %s, [%s] gives %s", configs()[0].name.c_str(), resultText(first, N / 32).c_str(), configs()[q].name.c_str(), resultText(r, N / 32).c_str()); return; }
            } },
            [=](uint64_t i) { CfgCall call; make(i, call); std::string s = strf("%s %s", label, op.name); for (int j = 0; j < 5; ++j) { s += strf(" %c=%s0x", "deabc"[j], sg && call.sign[j] < 0 ? "-" : ""); std::string h; for (std::size_t q = N / 32; q-- > 0;) h += strf("%08x", call.blocks[j][q]); h.erase(0, std::min(h.find_first_not_of('0'), h.size() - 1)); s += h; } return s + strf(" k=%llx", static_cast<unsigned long long>(call.k)); });
    }
}
#if PART == 0
static void reg() { spaces<Aeu<96>>(0, "Aeu<96>", 28, QT(20, 28), QT(10, 20)); }
#elif PART == 1
static void reg() { spaces<Aesi<96>>(1, "Aesi<96>", QT(48, 55), QT(24, 55), QT(12, 28)); }
#elif PART == 2
static void reg() { spaces<Aeu<256>>(2, "Aeu<256>", 28, QT(14, 28), QT(6, 12)); }
#elif PART == 3
static void reg() { spaces<Aesi<512>>(3, "Aesi<512>", QT(40, 55), QT(10, 24), QT(4, 10)); }
#elif PART == 4
static void reg() { spaces<Aeu<1056>>(4, "Aeu<1056>", QT(10, 28), QT(4, 10), QT(0, 3)); }
#elif PART == 5
static void reg() { spaces<Aesi<1024>>(5, "Aesi<1024>", QT(12, 55), QT(4, 12), QT(0, 3)); }
#endif
MC_PART(reg);
