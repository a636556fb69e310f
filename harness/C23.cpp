// C23: results depend on the operands only - not on the operations executed before, nor on other threads.
// (1) concurrency: every pair of operations on two threads (and every operation on three, and twice in a row on two) sharing
//     const operands, every schedule up to a preemption bound, each schedule in a fresh process, with race detection;
// (2) history: every ordered pair (thorough: triple with itself) of operations in one process against the results of a process
//     in which the operation is the first thing that happens.
#include "common.h"
#include "ops.h"
#include "ctrlsched.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#define QT(q, t) (mc::thorough() ? (t) : (q))

struct Digest { uint64_t v = 0; bool legal = false; };
struct Item {
    std::string name; unsigned flags, type;
    std::function<bool(void* shared, unsigned tuple)> prepare;                       // writes the const operands; false: not legal
    std::function<void(void* shared, void* priv, unsigned what, unsigned block, unsigned how)> perturb;   // changes one block of one operand
    std::function<bool(const void* shared, unsigned tuple)> legal;
    std::function<void(void* priv, unsigned tuple, unsigned who)> own;               // writes the destinations
    std::function<uint64_t(const void* shared, void* priv, unsigned tuple)> run;     // executes and digests
};
template <class Num> struct Shared { Num a, b, c; };
template <class Num> struct Private { Num d, e; };
// What the interface shows of the destinations (not their bytes: padding is no result), read from a copy so that the digest adds no scheduling points.
template <class Num> uint64_t digest(const Private<Num>& r, uint64_t h) {
    alignas(Private<Num>) char raw[sizeof(Private<Num>)]; mc::rawCopy(raw, &r, sizeof raw); const auto* p = reinterpret_cast<const Private<Num>*>(raw);
    constexpr std::size_t n = Num::totalBlocksNumber(); uint32_t w[2 * n + 2];
    for (std::size_t i = 0; i < n; ++i) { w[i] = p->d.getBlock(i); w[n + i] = p->e.getBlock(i); }
    auto sign = [](const Num& x) -> uint32_t { if constexpr (requires { x.isNegative(); }) return (x.isZero() ? 1u : 0u) | (x.isNegative() ? 2u : 0u) | (x.isPositive() ? 4u : 0u); else return 0; };
    w[2 * n] = sign(p->d); w[2 * n + 1] = sign(p->e); return mc::hash(w, sizeof w, h);
}
constexpr unsigned TUPLES = 6;
template <std::size_t N> void fill(Aeu<N>& x, unsigned i) {
    const std::array<uint32_t, 5> lo{9, 0xffffffffu, 0x12345678u, 1, 0x9abcdef1u}, mid{0, 0xffffffffu, 0xdeadbeefu, 0, 0x55555555u}, hi{0, 0xffffffffu, 0, 0x80000000u, 0x0badf00du};
    for (std::size_t k = 0; k < N / 32; ++k) x.setBlock(k, k == 0 ? lo[i % 5] : k == N / 32 - 1 ? hi[i % 5] : mid[i % 5]);
}
template <std::size_t N> void fill(Aesi<N>& x, unsigned i) { Aeu<N> u{}; fill(u, i); x = Aesi<N>(u); if ((i * 7 + 1) % 3 == 0) x.inverse(); }
template <std::size_t N> void small(Aeu<N>& x, unsigned i) { x = Aeu<N>(static_cast<unsigned>(97u + i * 1000003u)); x.setBlock(1, i % 2 ? 0x1234u + i : 0); }
template <std::size_t N> void small(Aesi<N>& x, unsigned i) { x = Aesi<N>(static_cast<int>(97 + static_cast<int>(i) * 1000003)); }
template <class Num> void addOps(std::vector<Item>& v, unsigned index, const char* type, bool heavy, bool sweep = false) {
    static_assert(sizeof(Shared<Num>) <= 4096 && sizeof(Private<Num>) <= 4096);
    for (const auto& op : ops::allOps<Num>()) {
        if ((op.flags & ops::VERY) && !heavy) continue;
        if (sweep && (op.flags & ops::HEAVY) && (Num::getBitness() > 1056 || (op.flags & ops::RUN))) continue;
        Item it; it.name = strf("%s %s", type, op.name); it.flags = op.flags; it.type = index;
        auto K = [op](unsigned t) { static const unsigned idx[TUPLES] = {3, 5, 8, 9, 1, 13}; return ops::scalars(op.flags) > 1 ? ops::scalar<Num::getBitness()>(op.flags, idx[t]) : static_cast<uint64_t>(t); };
        it.prepare = [op, K](void* s, unsigned t) { auto* q = new (s) Shared<Num>; fill(q->a, t + 1); fill(q->b, t * 2 + 2); small(q->c, t); if (t == 2) q->b = Num(7u); if (t == 3) q->b = q->a; return ops::legal(op.flags, q->b, q->c, K(t)); };
        it.perturb = [](void* s, void* p, unsigned what, unsigned block, unsigned how) { auto* q = static_cast<Shared<Num>*>(s); Num& x = what == 0 ? q->a : what == 1 ? q->b : what == 2 ? q->c : static_cast<Private<Num>*>(p)->d; const uint32_t v = x.getBlock(block); const unsigned next = block + 1 < Num::totalBlocksNumber() ? block + 1 : 0; const uint32_t u = x.getBlock(next);
            switch (how) {       // one bit; or a change that common checksums of the number do not see (exclusive or, sum, any order of the blocks); or operands exchanged; or the sign
                case 0: x.setBlock(block, v ^ 1u); break; case 1: x.setBlock(block, v ^ 0x40000000u); break;
                case 2: x.setBlock(block, v ^ 32u); x.setBlock(next, u ^ 32u); break; case 3: x.setBlock(block, v + 1u); x.setBlock(next, u - 1u); break; case 4: x.setBlock(block, u); x.setBlock(next, v); break;
                case 5: x.swap(what == 0 ? q->b : what == 1 ? q->c : what == 2 ? q->a : q->b); break;
                default: if constexpr (requires { x.isNegative(); }) x.inverse(); else x = ~x; } };
        it.legal = [op, K](const void* s, unsigned t) { const auto* q = static_cast<const Shared<Num>*>(s); if constexpr (!std::is_same_v<Num, Aeu<Num::getBitness()>>) if (ops::zero(q->a) != q->a.isZero() || ops::zero(q->b) != q->b.isZero() || ops::zero(q->c) != q->c.isZero()) return false; return ops::legal(op.flags, q->b, q->c, K(t)); };
        it.own = [](void* p, unsigned t, unsigned who) { auto* q = new (p) Private<Num>; fill(q->d, t + who); fill(q->e, t + 3); };
        it.run = [op, K](const void* s, void* p, unsigned t) { const auto* q = static_cast<const Shared<Num>*>(s); auto* r = static_cast<Private<Num>*>(p); ops::Log log; op.f(r->d, r->e, q->a, q->b, q->c, K(t), log); return digest(*r, log.h); };
        v.push_back(std::move(it));
    }
}
struct World {
    std::vector<Item> items; std::vector<std::array<std::array<Digest, 2>, TUPLES>> ref;      // [item][tuple][who]
    char* arena = nullptr; char* shm = nullptr; unsigned bound = 2, tuples = TUPLES;
    static constexpr std::size_t REF = sizeof(Digest) * TUPLES * 2;
    char* sharedAt(unsigned type) { return arena + type * 4096u; } char* privAt(unsigned t) { return arena + 16 * 4096u + t * 4096u; }
    sched::Outcome* out() { return reinterpret_cast<sched::Outcome*>(shm); } volatile uint64_t* digests() { return reinterpret_cast<volatile uint64_t*>(shm + 4096 * 4); }
    bool setup(unsigned item, unsigned tuple) { return items[item].prepare(sharedAt(items[item].type), tuple); }
    uint64_t execute(unsigned item, unsigned tuple, unsigned thread, unsigned who) { const auto& it = items[item]; it.own(privAt(thread), tuple, who); return it.run(sharedAt(it.type), privAt(thread), tuple); }
    void init() {
        arena = static_cast<char*>(mmap(nullptr, 4096 * 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        // the result of each operation as the first one of a fresh process
        auto* mem = static_cast<Digest*>(mmap(nullptr, REF * items.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        const std::size_t total = items.size() * tuples * 2; const unsigned workers = 8; pid_t w[workers];
        fflush(nullptr);
        for (unsigned q = 0; q < workers; ++q) if ((w[q] = fork()) == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (std::size_t i = q; i < total; i += workers) {
                const pid_t p = fork();
                if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); const auto it = static_cast<unsigned>(i / (tuples * 2)), t = static_cast<unsigned>(i / 2 % tuples); Digest d; d.legal = setup(it, t); if (d.legal) d.v = execute(it, t, 0, static_cast<unsigned>(i % 2)); mem[i] = d; _exit(0); }
                int st; waitpid(p, &st, 0); if (st) { mem[i].legal = true; mem[i].v = 0xdead0000dead0000ull; }
            }
            _exit(0);
        }
        for (unsigned q = 0; q < workers; ++q) { int st; waitpid(w[q], &st, 0); }
        ref.resize(items.size()); for (std::size_t i = 0; i < total; ++i) ref[i / (tuples * 2)][i / 2 % tuples][i % 2] = mem[i];
        munmap(mem, REF * items.size());
    }
};
// a program: per thread a list of operations, all on one operand tuple; operations of one type share their const operands
struct Program { std::vector<std::vector<unsigned>> threads; unsigned tuple = 0; };
struct Running { World* w; const Program* p; };
static void body(int t, void* arg) {
    auto* r = static_cast<Running*>(arg); World& w = *r->w; const auto th = static_cast<unsigned>(t); const auto& ops = r->p->threads[th];
    for (std::size_t k = 0; k < ops.size(); ++k) { const uint64_t d = w.execute(ops[k], r->p->tuple, th, th & 1); w.digests()[th * 8 + k] = d; }
}
static std::string scheduleText(const std::vector<uint8_t>& s) { std::string r; for (auto c : s) r += strf("%u", c); return r.empty() ? "default" : r; }
static bool oneSchedule(Ctx& c, World& w, const Program& p, const std::vector<uint8_t>& prefix) {
    if (!w.shm) w.shm = static_cast<char*>(mmap(nullptr, 4096 * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); static_assert(sizeof(sched::Outcome) <= 4096 * 4);   // one per worker process
    *w.out() = sched::Outcome{}; for (unsigned i = 0; i < 64; ++i) w.digests()[i] = 0; w.digests()[63] = 0;
    const pid_t pid = fork(); if (pid < 0) { c.fail("fork failed"); return false; }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); for (auto& th : p.threads) for (auto i : th) w.setup(i, p.tuple);
        std::vector<char> before(w.arena, w.arena + 16 * 4096); Running r{&w, &p}; sched::run(static_cast<int>(p.threads.size()), body, &r, prefix.data(), static_cast<unsigned>(prefix.size()), w.out());
        w.digests()[63] = std::memcmp(before.data(), w.arena, before.size()) ? 1 : 0; _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (st) { c.fail("schedule %s: the process ended with status %x", scheduleText(prefix).c_str(), st); return false; }
    if (w.out()->kind != 1) { c.fail("schedule %s: %s", scheduleText(prefix).c_str(), w.out()->msg); return false; }
    if (w.digests()[63]) { c.fail("schedule %s: a shared const operand changed", scheduleText(prefix).c_str()); return false; }
    for (unsigned t = 0; t < p.threads.size(); ++t) for (unsigned k = 0; k < p.threads[t].size(); ++k) {
        c.step(); const auto& ref = w.ref[p.threads[t][k]][p.tuple][t & 1];
        if (w.digests()[t * 8 + k] != ref.v) { c.fail("schedule %s: the result of '%s' on thread %u differs from its result alone", scheduleText(prefix).c_str(), w.items[p.threads[t][k]].name.c_str(), t); return false; }
    }
    return true;
}
// every schedule with at most `bound` preemptions (choices that are not preemptions are always explored)
static void explore(Ctx& c, World& w, const Program& p) {
    for (auto& th : p.threads) for (auto i : th) if (!w.ref[i][p.tuple][0].legal) return;
    // programs with many synchronisation operations: the preemption bound is lowered (and reported) once a worker has used its budget
    static unsigned used = 0; const unsigned budget = QT(1500u, 60000u); unsigned bound = used > budget ? 0 : w.bound; bool first = true;
    std::vector<std::vector<uint8_t>> todo{{}}; unsigned schedules = 0;
    while (!todo.empty()) {
        const auto prefix = todo.back(); todo.pop_back();
        if (!oneSchedule(c, w, p, prefix)) return;
        c.state(mc::hash(prefix.data(), prefix.size(), 0x5c4ed ^ c.index)); ++schedules;
        const auto& o = *w.out(); unsigned cost = 0;
        const unsigned load = 1 + o.syncs / 16 ; used += load; if (first) { first = false; if (bound > 1 && o.points > 40) bound = 1; if (bound < w.bound && o.points > 1) ++c.capped; }
        for (unsigned i = 0; i < o.points; ++i) {
            if (i >= prefix.size()) for (unsigned alt = 1; alt < o.options[i]; ++alt) if (cost + (o.free_[i] ? 0 : 1) <= bound) { std::vector<uint8_t> n(o.chosen, o.chosen + i); n.push_back(static_cast<uint8_t>(alt)); todo.push_back(n); }
            if (!o.free_[i] && o.chosen[i]) ++cost;
        }
        if (uint64_t{schedules} * load > QT(600u, 20000u)) { ++c.capped; return; }
    }
}
static void spaces(const std::string& label, std::shared_ptr<World> w) {
    w->init(); w->bound = QT(2, 3); const auto n = static_cast<unsigned>(w->items.size()); const unsigned tuples = QT(2u, TUPLES);
    auto show = [w](const Program& p) { std::string s; for (std::size_t t = 0; t < p.threads.size(); ++t) { s += strf("%sthread %zu: ", t ? " || " : "", t); for (std::size_t k = 0; k < p.threads[t].size(); ++k) s += (k ? "; " : "") + w->items[p.threads[t][k]].name; } return s + strf(" (operand tuple %u)", p.tuple); };
    auto add = [&](const std::string& name, uint64_t count, auto make) { mc::add(name, count, [w, make](Ctx& c, uint64_t i) { const Program p = make(i); if (p.tuple && !mc::thorough()) for (auto& th : p.threads) for (auto it : th) if (w->items[it].flags & ops::VERY) return; explore(c, *w, p); }, [show, make](uint64_t i) { return show(make(i)); }, std::max<uint64_t>(1, (count + 63) / 64)); };
    add(label + ": each operation with itself, two and three threads, once and twice in a row", uint64_t{n} * TUPLES * 3, [](uint64_t i) { const auto it = static_cast<unsigned>(i / 3 / TUPLES); Program p; p.tuple = static_cast<unsigned>(i / 3 % TUPLES); if (i % 3 == 0) p.threads = {{it}, {it}}; else if (i % 3 == 1) p.threads = {{it}, {it}, {it}}; else p.threads = {{it, it}, {it, it}}; return p; });
    add(label + ": every pair of operations on two threads", uint64_t{n} * (n - 1) / 2 * tuples, [tuples](uint64_t i) { Program p; p.tuple = static_cast<unsigned>(i % tuples); i /= tuples; unsigned x = 1; while (uint64_t{x} * (x + 1) / 2 <= i) ++x; p.threads = {{static_cast<unsigned>(i - uint64_t{x} * (x - 1) / 2)}, {x}}; return p; });
    // history: B after A, against B as the first operation of a process
    const unsigned ht = QT(3u, TUPLES); const uint64_t one = uint64_t{n} * ht;
    mc::add(label + ": every operation after every operation", one * one, [w, ht, one](Ctx& c, uint64_t i) {
        const auto A = static_cast<unsigned>(i / one), B = static_cast<unsigned>(i % one); const unsigned a = A / ht, ta = A % ht, b = B / ht, tb = B % ht;
        if (!w->ref[a][ta][0].legal || !w->ref[b][tb][1].legal) return;
        if (!mc::thorough() && ((ta && (w->items[a].flags & ops::VERY)) || (tb > 1 && (w->items[b].flags & ops::VERY)))) return;
        w->setup(a, ta); const uint64_t da = w->execute(a, ta, 0, 0); w->setup(b, tb); const uint64_t db = w->execute(b, tb, 0, 1); c.step(2); c.state(db ^ da);
        if (da != w->ref[a][ta][0].v) c.fail("'%s' differs from its result as the first operation of a process", w->items[a].name.c_str());
        if (db != w->ref[b][tb][1].v) c.fail("'%s' differs from its result as the first operation of a process", w->items[b].name.c_str()); },
        [w, ht, one](uint64_t i) { const auto A = static_cast<unsigned>(i / one), B = static_cast<unsigned>(i % one); return strf("%s (tuple %u), then %s (tuple %u)", w->items[A / ht].name.c_str(), A % ht, w->items[B / ht].name.c_str(), B % ht); });
}
// long histories of one operation: counters, rings and pools that only misbehave after many calls
static void repeats(const std::string& label, std::shared_ptr<World> w) {
    const auto n = static_cast<unsigned>(w->items.size()); const unsigned pairs = QT(2u, 5u);
    mc::add(label + ": each operation many times, cycling through operand tuples", uint64_t{n} * pairs, [w, pairs](Ctx& c, uint64_t i) {
        const auto it = static_cast<unsigned>(i / pairs), from = static_cast<unsigned>(i % pairs); const auto& I = w->items[it];
        unsigned rounds = I.flags & ops::VERY ? QT(130u, 1100u) : I.flags & ops::HEAVY ? QT(600u, 5000u) : QT(2100u, 140000u); for (uint64_t d : DICTIONARY) if (d < (I.flags & ops::VERY ? 1100u : I.flags & ops::HEAVY ? 5000u : 20000u)) rounds = std::max(rounds, static_cast<unsigned>(d) + 9);
        for (unsigned r = 0; r < rounds; ++r) {
            const unsigned t = r % 7 < 5 ? from : (from + 1 + r % 2) % TUPLES; if (!w->ref[it][t][r & 1].legal) continue;
            w->setup(it, t); const uint64_t d = w->execute(it, t, 0, r & 1); c.step(); if (r < 8) c.state(d);
            if (d != w->ref[it][t][r & 1].v) { c.fail("call %u differs from the result as the first operation of a process", r + 1); return; }
        } }, [w, pairs](uint64_t i) { return strf("%s, mostly on operand tuple %u", w->items[i / pairs].name.c_str(), static_cast<unsigned>(i % pairs)); }, 4);
}
// history with operands that differ in one bit: stale results kept under an incomplete key
static void almost(const std::string& label, std::shared_ptr<World> w, unsigned blocks, unsigned total = 0) {
    const auto n = static_cast<unsigned>(w->items.size()); const unsigned tuples = std::min(QT(2u, TUPLES), total ? 1u : TUPLES), per = 4 * (blocks * 5 + 2);
    auto how = [blocks](unsigned q) { return q / 4 < blocks * 5 ? q / 4 % 5 : q / 4 - blocks * 5 + 5; };
    auto block = [total, blocks](unsigned q) { if (q >= blocks) q = 0; return !total ? q : q == 0 ? 0 : q == 1 ? total - 1 : q == 2 ? total / 2 : 1; };
    auto run = [w, block, how](unsigned it, unsigned t, unsigned q, bool before, uint64_t* out) {
        *out = 0; const pid_t pid = fork(); if (pid < 0) return false;
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(20); const auto& I = w->items[it]; w->setup(it, t);
            if (before) { w->execute(it, t, 0, 0); w->setup(it, t); }
            I.own(w->privAt(0), t, 0); I.perturb(w->sharedAt(I.type), w->privAt(0), q % 4, block(q / 20), how(q));
            if (I.legal(w->sharedAt(I.type), t)) *out = I.run(w->sharedAt(I.type), w->privAt(0), t) | 1; _exit(0);
        }
        int st; waitpid(pid, &st, 0); return st == 0;
    };
    mc::add(label + ": each operation again with a small change of one operand", uint64_t{n} * tuples * per, [w, run, tuples, per](Ctx& c, uint64_t i) {
        const auto it = static_cast<unsigned>(i / per / tuples), t = static_cast<unsigned>(i / per % tuples), q = static_cast<unsigned>(i % per); if (!w->ref[it][t][0].legal || (w->items[it].flags & ops::VERY && t && !mc::thorough())) return;
        static uint64_t* mem = nullptr; if (!mem) mem = static_cast<uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (!run(it, t, q, false, mem) || !run(it, t, q, true, mem + 1)) { c.fail("the process ended abnormally"); return; }
        c.step(2); c.state(mem[0]); if (mem[0] != mem[1]) c.fail("after the same operation on almost the same operands the result differs from the result in a fresh process"); },
        [w, tuples, per, block, how](uint64_t i) { const auto q = static_cast<unsigned>(i % per); return strf("%s (tuple %u) and again with %s (block %u of %c)", w->items[i / per / tuples].name.c_str(), static_cast<unsigned>(i / per % tuples), (const char*[]){"bit 0 changed", "bit 30 changed", "a bit changed here and in the next block", "one carried over to the next block", "two blocks exchanged", "two operands exchanged", "the sign or all bits inverted"}[how(q)], block(q / 20), "abcd"[q % 4]); });
}
// every width of the sweep: schedules of each operation with itself, short histories of it, and almost equal operands
static void wide(const std::string& label, std::shared_ptr<World> w, unsigned blocks) {
    w->tuples = 2; w->init(); w->bound = QT(1, 2); const auto n = static_cast<unsigned>(w->items.size());
    auto make = [](uint64_t i) { const auto it = static_cast<unsigned>(i / 2); Program p; p.tuple = static_cast<unsigned>(i % 2); if (i % 2) p.threads = {{it}, {it}}; else p.threads = {{it, it}, {it, it}}; return p; };
    mc::add(label + ": each operation with itself on two threads, once and twice in a row", uint64_t{n} * 2, [w, make](Ctx& c, uint64_t i) { explore(c, *w, make(i)); }, [w, make](uint64_t i) { const Program p = make(i); return strf("%s on two threads, %zu times each (operand tuple %u)", w->items[p.threads[0][0]].name.c_str(), p.threads[0].size(), p.tuple); });
    mc::add(label + ": each operation several times on two operand tuples in turn", n, [w](Ctx& c, uint64_t i) {
        const auto it = static_cast<unsigned>(i); const unsigned order[] = {0, 0, 1, 0, 1, 1, 0, 1, 0, 0}; for (unsigned r = 0; r < QT(10u, 80u); ++r) { const unsigned t = order[r % 10]; if (!w->ref[it][t][r & 1].legal) continue; w->setup(it, t); const uint64_t d = w->execute(it, t, 0, r & 1); c.step(); c.state(d); if (d != w->ref[it][t][r & 1].v) { c.fail("call %u differs from the result as the first operation of a process", r + 1); return; } } },
        [w](uint64_t i) { return w->items[i].name; });
    if (blocks <= 33) almost(label, w, 3, blocks);
}
template <class Num> void oneWide(const std::string& type) { auto w = std::make_shared<World>(); addOps<Num>(w->items, 0, strdup(type.c_str()), false, true); wide(type, w, Num::totalBlocksNumber()); }
#if PART == 0
static void reg() { auto w = std::make_shared<World>(); addOps<Aeu<160>>(w->items, 0, "Aeu<160>", true); addOps<Aesi<160>>(w->items, 1, "Aesi<160>", true); spaces("Aeu<160>/Aesi<160>", w); repeats("Aeu<160>/Aesi<160>", w); almost("Aeu<160>/Aesi<160>", w, 5); }
#elif PART == 1
static void reg() { auto w = std::make_shared<World>(); addOps<Aeu<96>>(w->items, 0, "Aeu<96>", true); addOps<Aeu<256>>(w->items, 1, "Aeu<256>", mc::thorough()); spaces("Aeu<96>/Aeu<256>", w); repeats("Aeu<96>/Aeu<256>", w); almost("Aeu<96>/Aeu<256>", w, 3); }
#elif PART == 2
static void reg() { if (!mc::thorough()) return; auto w = std::make_shared<World>(); addOps<Aeu<512>>(w->items, 0, "Aeu<512>", true); addOps<Aesi<512>>(w->items, 1, "Aesi<512>", true); spaces("Aeu<512>/Aesi<512>", w); repeats("Aeu<512>/Aesi<512>", w); almost("Aeu<512>/Aesi<512>", w, 16); }
#else
static void reg() { ops::sweep<PART - 3, 9>([]<class Num>(Num*, const std::string& type) { oneWide<Num>(type); }); }
#endif
MC_PART(reg);
