#include "ctrlsched.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
namespace sched {
namespace {
using Clock = uint32_t;
struct VC { Clock c[kMaxThreads]; void join(const VC& o) { for (int i = 0; i < kMaxThreads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread { pthread_t handle; sem_t sem; char *lo, *hi; bool done; const void* blocked; VC vc; unsigned streak; void (*body)(int, void*); void* arg; };
struct Epochs { Clock w, r, aw, ar; };
struct Cell { uintptr_t addr; Epochs e[4][kMaxThreads]; };            // four bytes, per byte and thread the last access of each kind
struct Sync { uintptr_t addr; VC vc; int owner; int depth; };
constexpr unsigned kCells = 1u << 16, kSyncs = 1024;
Cell* cells; Sync syncs[kSyncs]; Thread threads[kMaxThreads]; int count; Outcome* result; const uint8_t* plan; unsigned planned; sem_t finished;
VC fenceRelease[kMaxThreads]; bool active = false;
struct Range { uintptr_t lo, hi; } foreign[512]; int foreigns; uintptr_t foreignLo, foreignHi;
thread_local int me __attribute__((tls_model("initial-exec"))) = -1;
bool external(const volatile void* p);
bool controlled() { return active && me >= 0; }
bool controlled(const volatile void* p) { return active && me >= 0 && !external(p); }

[[noreturn]] void violation(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(result->msg, sizeof result->msg, fmt, ap); va_end(ap); result->kind = 2; _exit(0);
}
int collect(dl_phdr_info* i, size_t, void*) {          // writable data of the shared libraries: their own thread safety is assumed
    if (!i->dlpi_name || !*i->dlpi_name) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && foreigns < 512) foreign[foreigns++] = {i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz};
    return 0;
}
Cell& cell(uintptr_t a) {
    unsigned i = static_cast<unsigned>((a * 0x9E3779B97F4A7C15ull) >> 40) & (kCells - 1);
    for (unsigned n = 0; n < kCells; ++n, i = (i + 1) & (kCells - 1)) { if (cells[i].addr == a) return cells[i]; if (!cells[i].addr) { cells[i].addr = a; return cells[i]; } }
    fprintf(stderr, "sched: shadow memory is full\n"); abort();
}
Sync& sync(const volatile void* p) {
    const auto a = reinterpret_cast<uintptr_t>(p); unsigned i = static_cast<unsigned>((a * 0x9E3779B97F4A7C15ull) >> 50) & (kSyncs - 1);
    for (unsigned n = 0; n < kSyncs; ++n, i = (i + 1) & (kSyncs - 1)) { if (syncs[i].addr == a) return syncs[i]; if (!syncs[i].addr) { syncs[i].addr = a; syncs[i].owner = -1; return syncs[i]; } }
    fprintf(stderr, "sched: too many synchronisation objects\n"); abort();
}
void describe(char* b, size_t n, uintptr_t a) {
    Dl_info d; if (dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname) snprintf(b, n, "%s+%zu", d.dli_sname, static_cast<size_t>(a - reinterpret_cast<uintptr_t>(d.dli_saddr)));
    else snprintf(b, n, "%s", dladdr(reinterpret_cast<void*>(a), &d) ? "a global or static variable" : "an object on the heap or shared by the threads");
}
void access(const volatile void* p, size_t size, bool write, bool atomic) {
    if (!controlled()) return;
    const auto a = reinterpret_cast<uintptr_t>(p); Thread& t = threads[me];
    if (a >= reinterpret_cast<uintptr_t>(t.lo) && a < reinterpret_cast<uintptr_t>(t.hi)) return;       // own stack and thread-local storage
    if (external(p)) return;
    ++result->accesses;
    const Clock now = t.vc.c[me]; Cell* c = nullptr;
    for (size_t k = 0; k < size; ++k) {
        if (!c || ((a + k) & 3) == 0) c = &cell((a + k) >> 2);
        auto& e = c->e[(a + k) & 3]; Clock& mine = atomic ? (write ? e[me].aw : e[me].ar) : (write ? e[me].w : e[me].r);
        if (mine == now) continue;              // this thread did the same in this epoch: a conflicting access since then has been reported
        for (int u = 0; u < count; ++u) if (u != me) {
            const Clock known = t.vc.c[u]; const char* other = nullptr;
            if (e[u].w > known) other = "write"; else if (write && e[u].r > known) other = "read";
            else if (!atomic && e[u].aw > known) other = "atomic write"; else if (!atomic && write && e[u].ar > known) other = "atomic read";
            if (other) { char b[400]; describe(b, sizeof b, a + k); violation("data race: %s of %zu byte(s) by thread %d is not ordered with a %s by thread %d; location: %s", write ? "write" : "read", size, me, other, u, b); }
        }
        mine = now;
    }
}
bool external(const volatile void* p) { const auto a = reinterpret_cast<uintptr_t>(p); if (a < foreignLo || a >= foreignHi) return false; for (int i = 0; i < foreigns; ++i) if (a >= foreign[i].lo && a < foreign[i].hi) return true; return false; }
void wake(int t) { sem_post(&threads[t].sem); }
void park(int t) { while (sem_wait(&threads[t].sem)) {} }
// picks the next thread; self: the running thread, enabled: whether it may continue
int pick(int self, bool selfEnabled, bool yielding) {
    int opt[kMaxThreads], n = 0;
    if (selfEnabled && !yielding) opt[n++] = self;
    for (int u = 0; u < count; ++u) if (u != self && !threads[u].done && !threads[u].blocked) opt[n++] = u;
    if (selfEnabled && yielding && n == 0) opt[n++] = self;
    if (n == 0) return -1;
    if (n == 1) return opt[0];
    const unsigned i = result->points; if (i >= kMaxPoints) { violation("no progress: more than %d scheduling points (livelock)", kMaxPoints); }
    const unsigned ch = i < planned ? plan[i] : 0; if (ch >= static_cast<unsigned>(n)) { fprintf(stderr, "sched: the schedule diverged\n"); abort(); }
    result->chosen[i] = static_cast<uint8_t>(ch); result->options[i] = static_cast<uint8_t>(n); result->free_[i] = !(selfEnabled && !yielding); ++result->points; return opt[ch];
}
void transfer(int to) { const int self = me; if (to == self) return; threads[self].streak = 0; wake(to); park(self); }
void point() {
    Thread& t = threads[me]; ++result->syncs; bool yielding = false;
    if (++t.streak > 300) { t.streak = 0; yielding = true; }                  // a spinning thread lets the others go on
    if (result->syncs > 200000) violation("no progress: more than 200000 synchronisation operations (livelock)");
    transfer(pick(me, true, yielding));
}
void block(const void* on) {
    threads[me].blocked = on; const int n = pick(me, false, false);
    if (n < 0) violation("deadlock: every thread is blocked");
    const int self = me; wake(n); park(self);
}
void unblock(const void* on) { for (int u = 0; u < count; ++u) if (threads[u].blocked == on) threads[u].blocked = nullptr; }
void acquire(const volatile void* p) { threads[me].vc.join(sync(p).vc); }
void release(const volatile void* p, bool replace = false) { Sync& s = sync(p); if (replace) s.vc = threads[me].vc; else s.vc.join(threads[me].vc); ++threads[me].vc.c[me]; }
void* trampoline(void* q) {
    me = static_cast<int>(reinterpret_cast<intptr_t>(q)); park(me);
    threads[me].body(me, threads[me].arg);
    threads[me].done = true; const int self = me; const int n = pick(self, false, false); me = -1;
    if (n >= 0) wake(n);
    else { bool all = true; for (int u = 0; u < count; ++u) all &= threads[u].done; if (!all) violation("deadlock: the remaining threads are blocked"); sem_post(&finished); }
    return nullptr;
}
constexpr size_t kStack = 512 * 1024;
}
void run(int n, void (*body)(int, void*), void* arg, const uint8_t* prefix, unsigned len, Outcome* out) {
    result = out; plan = prefix; planned = len; count = n; out->kind = 0; out->points = out->accesses = out->syncs = 0; out->msg[0] = 0;
    cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    sem_init(&finished, 0, 0); foreigns = 0; dl_iterate_phdr(collect, nullptr); foreignLo = ~uintptr_t{0}; foreignHi = 0; for (int i = 0; i < foreigns; ++i) { if (foreign[i].lo < foreignLo) foreignLo = foreign[i].lo; if (foreign[i].hi > foreignHi) foreignHi = foreign[i].hi; }
    for (int t = 0; t < n; ++t) {
        Thread& h = threads[t]; memset(static_cast<void*>(&h), 0, sizeof h); sem_init(&h.sem, 0, 0); h.body = body; h.arg = arg; h.vc.c[t] = 1;
        h.lo = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); h.hi = h.lo + kStack;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, h.lo, kStack);
        if (pthread_create(&h.handle, &a, trampoline, reinterpret_cast<void*>(static_cast<intptr_t>(t)))) { perror("pthread_create"); abort(); }
        pthread_attr_destroy(&a);
    }
    active = true; const int first = pick(-1, false, false); wake(first);
    while (sem_wait(&finished)) {}
    for (int t = 0; t < n; ++t) pthread_join(threads[t].handle, nullptr);
    active = false; out->kind = 1;
}
}
using namespace sched;
// ------------------------------------------------------------------------------------------------ instrumentation callbacks
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, false); } void __tsan_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false); } void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false); } void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
static bool acq(int mo) { return mo != 0 && mo != 3; }        // 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static bool rel(int mo) { return mo >= 3; }
#define RMW(T, b, name, expr) T __tsan_atomic##b##_##name(volatile T* a, T v, int mo) { if (controlled(a)) { point(); access(a, sizeof(T), true, true); if (acq(mo)) acquire(a); if (rel(mo)) release(a); } const T old = *a; *a = static_cast<T>(expr); return old; }
#define ATOMICS(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int mo) { if (controlled(a)) { if (sync(a).depth != 3) point(); access(a, sizeof(T), false, true); if (acq(mo)) acquire(a); } return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { if (controlled(a)) { point(); access(a, sizeof(T), true, true); if (rel(mo)) release(a, true); else sync(a).vc = VC{}; } *a = v; } \
    RMW(T, b, exchange, v) RMW(T, b, fetch_add, old + v) RMW(T, b, fetch_sub, old - v) RMW(T, b, fetch_and, old & v) RMW(T, b, fetch_or, old | v) RMW(T, b, fetch_xor, old ^ v) RMW(T, b, fetch_nand, ~(old & v)) \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { if (controlled(a)) point(); const T old = *a; const bool ok = old == *c; if (controlled(a)) { access(a, sizeof(T), ok, true); if (acq(ok ? mo : fmo)) acquire(a); if (ok && rel(mo)) release(a); } if (ok) *a = v; else *c = old; return ok; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T x = c; __tsan_atomic##b##_compare_exchange_strong(a, &x, v, mo, fmo); return x; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { static int fence; if (controlled()) { point(); acquire(&fence); release(&fence); } }     // stronger than the language: may hide a race, never invents one
void __tsan_atomic_signal_fence(int) {}
// ------------------------------------------------------------------------------------------------ synchronisation
int __cxa_guard_acquire(char* g) {
    if (!controlled(g)) { if (*g) return 0; return 1; }
    for (;;) { point(); if (*g) { acquire(g); return 0; } if (!g[1]) { g[1] = 1; acquire(g); return 1; } block(g); }
}
void __cxa_guard_release(char* g) { if (controlled(g)) { point(); release(g); sync(g).depth = 3; } g[0] = 1; g[1] = 0; if (controlled(g)) unblock(g); }
void __cxa_guard_abort(char* g) { if (controlled(g)) release(g); g[1] = 0; if (controlled(g)) unblock(g); }
#define NEXT(fn) static auto real = reinterpret_cast<decltype(&fn)>(dlsym(RTLD_NEXT, #fn))
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!controlled(m)) { NEXT(pthread_mutex_lock); return real(m); }
    point(); Sync& s = sync(m); if (s.owner == me) { if ((m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; } violation("deadlock: a mutex is locked twice by one thread"); }
    while (s.owner >= 0) block(m); s.owner = me; s.depth = 1; acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!controlled(m)) { NEXT(pthread_mutex_trylock); return real(m); }
    point(); Sync& s = sync(m); if (s.owner >= 0) return 16; s.owner = me; s.depth = 1; acquire(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!controlled(m)) { NEXT(pthread_mutex_unlock); return real(m); }
    Sync& s = sync(m); if (--s.depth > 0) return 0; release(m); s.owner = -1; unblock(m); point(); return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!controlled(o)) { NEXT(pthread_once); return real(o, f); }
    for (;;) { point(); Sync& s = sync(o); if (s.depth == 2 || *o == 2) { acquire(o); return 0; } if (s.depth == 0) break; block(o); }
    sync(o).depth = 1; f(); sync(o).depth = 2; *o = 2; release(o); unblock(o); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!controlled(m)) { NEXT(pthread_rwlock_rdlock); return real(m); } point(); Sync& s = sync(m); while (s.owner >= 0) block(m); ++s.depth; acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!controlled(m)) { NEXT(pthread_rwlock_wrlock); return real(m); } point(); Sync& s = sync(m); while (s.owner >= 0 || s.depth > 0) block(m); s.owner = me; acquire(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!controlled(m)) { NEXT(pthread_rwlock_unlock); return real(m); } Sync& s = sync(m); release(m); if (s.owner == me) s.owner = -1; else --s.depth; unblock(m); point(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!controlled(c)) { NEXT(pthread_cond_wait); return real(c, m); } pthread_mutex_unlock(m); block(c); return pthread_mutex_lock(m); }
int pthread_cond_signal(pthread_cond_t* c) { if (!controlled(c)) { NEXT(pthread_cond_signal); return real(c); } unblock(c); point(); return 0; }      // wakes all: spurious wake-ups are allowed
int pthread_cond_broadcast(pthread_cond_t* c) { if (!controlled(c)) { NEXT(pthread_cond_broadcast); return real(c); } unblock(c); point(); return 0; }
// memory is not reused within an execution (the allocator's internal ordering is not modelled)
extern void __libc_free(void*);
void free(void* p) { if (!controlled()) __libc_free(p); }
}
