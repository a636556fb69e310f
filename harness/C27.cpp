// C27: the device-side block-wise atomics (CUDA branch, compiled on the host with stub vocabulary) set and exchange exactly the value,
// and under concurrency every block position behaves as one atomic register.
// (1) sequential: value pairs of every family, both types;
// (2) concurrent: 2-3 threads, programs of sets and exchanges on one shared number, every interleaving of the atomic block
//     operations up to a preemption bound, with race detection; the final blocks must be those of some order of the operations.
#include "cudastub.h"
unsigned atomicExch(unsigned* address, unsigned value) { return __atomic_exchange_n(address, value, __ATOMIC_RELAXED); }
#include "common.h"
#include "ctrlsched.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#define QT(q, t) (mc::thorough() ? (t) : (q))

template <std::size_t N> void sequential(std::vector<Pat<N>> pats) {
    auto F = fam<N>(pats); const uint64_t n = F->size();
    mc::add(strf("tryAtomicSet and tryAtomicExchange N=%zu", N), n * n, [=](Ctx& c, uint64_t i) {
        const auto a = i / n, b = i % n; Aeu<N> x[3]; x[0] = x[2] = F->v[3 % n]; Aeu<N>& t = x[1]; t = F->v[a]; const Aeu<N> v = F->v[b];
        t.tryAtomicSet(v); expectU(c, t, F->z[b], "target of tryAtomicSet"); expectSame(c, v, F->z[b], "source of tryAtomicSet");
        t = F->v[a]; Aeu<N> w[3]; w[0] = w[2] = F->v[3 % n]; w[1] = F->v[b];
        t.tryAtomicExchange(w[1]); expectU(c, t, F->z[b], "left side of tryAtomicExchange"); expectU(c, w[1], F->z[a], "right side of tryAtomicExchange");
        for (auto* q : {x, w}) { expectSame(c, q[0], F->z[3 % n], "number in front of the operand"); expectSame(c, q[2], F->z[3 % n], "number behind the operand"); } },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s", N, hexz(F->z[i / n]).c_str(), hexz(F->z[i % n]).c_str()); });
    auto S = sfam<N>(pats); const uint64_t m = S->size();
    mc::add(strf("signed tryAtomicSet and tryAtomicExchange N=%zu", N), m * m, [=](Ctx& c, uint64_t i) {
        const auto a = i / m, b = i % m; Aesi<N> t = S->v[a]; const Aesi<N> v = S->v[b];
        t.tryAtomicSet(v); expectS(c, t, S->z[b], "target of tryAtomicSet"); expectSameS(c, v, S->z[b], "source of tryAtomicSet");
        t = S->v[a]; Aesi<N> w = S->v[b];
        t.tryAtomicExchange(w); expectS(c, t, S->z[b], "left side of tryAtomicExchange"); expectS(c, w, S->z[a], "right side of tryAtomicExchange"); },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s", N, hexz(S->z[i / m]).c_str(), hexz(S->z[i % m]).c_str()); });
}

// ---------------------------------------------------------------- interleavings
constexpr unsigned MAXT = 3;
struct Program { std::vector<std::string> threads; };       // per thread: a string of 'S' (set from the thread's number) and 'X' (exchange with it)
template <std::size_t N> struct Arena { Aeu<N> shared, mine[MAXT]; };
template <std::size_t N> struct Running { Arena<N>* a; const Program* p; };
template <std::size_t N> void body(int t, void* arg) {
    auto* r = static_cast<Running<N>*>(arg);
    for (char ch : r->p->threads[static_cast<unsigned>(t)]) { if (ch == 'S') r->a->shared.tryAtomicSet(r->a->mine[t]); else r->a->shared.tryAtomicExchange(r->a->mine[t]); }
}
template <std::size_t N> uint32_t initial(unsigned who, std::size_t block) { return (who + 1) * 0x11110000u + static_cast<uint32_t>(block); }     // all different
// what one block position can hold after some order of the operations: shared, mine[0..]
static void orders(const Program& p, std::array<unsigned, MAXT> at, std::array<uint32_t, MAXT + 1> v, std::set<std::array<uint32_t, MAXT + 1>>& out) {
    bool done = true;
    for (unsigned t = 0; t < p.threads.size(); ++t) if (at[t] < p.threads[t].size()) {
        done = false; auto a = at; auto w = v; if (p.threads[t][at[t]] == 'S') w[0] = w[t + 1]; else std::swap(w[0], w[t + 1]); ++a[t]; orders(p, a, w, out);
    }
    if (done) out.insert(v);
}
static std::string text(const Program& p) { std::string s; for (std::size_t t = 0; t < p.threads.size(); ++t) s += (t ? " || " : "") + p.threads[t]; return s; }
template <std::size_t N> void explore(Ctx& c, const Program& p, unsigned bound) {
    static char* shm = nullptr; if (!shm) shm = static_cast<char*>(mmap(nullptr, 4096 * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    static_assert(sizeof(sched::Outcome) <= 4096 * 4 && sizeof(Arena<N>) <= 4096);
    auto* out = reinterpret_cast<sched::Outcome*>(shm); auto* arena = reinterpret_cast<Arena<N>*>(shm + 4096 * 5);
    std::vector<std::set<std::array<uint32_t, MAXT + 1>>> allowed(N / 32);
    for (std::size_t b = 0; b < N / 32; ++b) { std::array<uint32_t, MAXT + 1> v{}; for (unsigned w = 0; w <= MAXT; ++w) v[w] = initial<N>(w, b); orders(p, {}, v, allowed[b]); }
    std::vector<std::vector<uint8_t>> todo{{}};
    while (!todo.empty()) {
        const auto prefix = todo.back(); todo.pop_back(); *out = sched::Outcome{};
        for (std::size_t b = 0; b < N / 32; ++b) { arena->shared.setBlock(b, initial<N>(0, b)); for (unsigned w = 0; w < MAXT; ++w) arena->mine[w].setBlock(b, initial<N>(w + 1, b)); }
        const pid_t pid = fork(); if (pid < 0) { c.fail("fork failed"); return; }
        if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); Running<N> r{arena, &p}; sched::run(static_cast<int>(p.threads.size()), body<N>, &r, prefix.data(), static_cast<unsigned>(prefix.size()), out); _exit(0); }
        int st; waitpid(pid, &st, 0); std::string s; for (auto x : prefix) s += strf("%u", x);
        if (st) { c.fail("schedule %s: the process ended with status %x", s.c_str(), st); return; }
        if (out->kind != 1) { c.fail("schedule %s: %s", s.c_str(), out->msg); return; }
        c.step(p.threads.size() * N / 32); c.state(arena, sizeof *arena, N);
        for (std::size_t b = 0; b < N / 32; ++b) {
            std::array<uint32_t, MAXT + 1> v{}; v[0] = arena->shared.getBlock(b); for (unsigned w = 0; w < MAXT; ++w) v[w + 1] = arena->mine[w].getBlock(b);
            if (!allowed[b].contains(v)) { c.fail("schedule %s: block %zu ends as shared %x, threads %x %x %x, which no order of the operations gives", s.c_str(), b, v[0], v[1], v[2], v[3]); return; }
        }
        unsigned cost = 0;
        for (unsigned i = 0; i < out->points; ++i) {
            if (i >= prefix.size()) for (unsigned alt = 1; alt < out->options[i]; ++alt) if (cost + (out->free_[i] ? 0 : 1) <= bound) { std::vector<uint8_t> n(out->chosen, out->chosen + i); n.push_back(static_cast<uint8_t>(alt)); todo.push_back(n); }
            if (!out->free_[i] && out->chosen[i]) ++cost;
        }
    }
}
template <std::size_t N> void concurrent(unsigned bound2, unsigned bound3, bool lengthTwo) {
    auto P = std::make_shared<std::vector<Program>>();
    std::vector<std::string> words{"S", "X"}; if (lengthTwo) for (auto w : {"SS", "SX", "XS", "XX"}) words.push_back(w);
    for (std::size_t i = 0; i < words.size(); ++i) for (std::size_t j = i; j < words.size(); ++j) P->push_back({{words[i], words[j]}});
    for (auto w : {"SSS", "SSX", "SXX", "XXX"}) P->push_back({{std::string(1, w[0]), std::string(1, w[1]), std::string(1, w[2])}});
    mc::add(strf("interleavings of block operations N=%zu (at most %u preemptions with two threads, %u with three)", N, bound2, bound3), P->size(), [=](Ctx& c, uint64_t i) { const auto& p = (*P)[i]; explore<N>(c, p, p.threads.size() == 2 ? bound2 : bound3); },
        [=](uint64_t i) { return strf("N=%zu ", N) + text((*P)[i]); }, 1);
}
static void reg() {
    sequential<96>(product<96>(QT(L5, L8))); sequential<128>(thin(shapes<128>(1), QT(60u, 200u))); sequential<160>(thin(shapes<160>(1), QT(40u, 120u))); sequential<512>(thin(shapes<512>(1), QT(40u, 120u))); sequential<2048>(thin(shapes<2048>(0), 20)); sequential<8192>(thin(shapes<8192>(0), 8));
    concurrent<96>(QT(3u, 6u), QT(2u, 3u), true); concurrent<128>(QT(3u, 4u), QT(1u, 2u), false);
}
MC_PART(reg);
