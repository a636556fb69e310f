// Bounded explicit-state exploration engine.
//
// A check registers SPACES.  A space is a finite, totally enumerated set of executions numbered
// 0..count-1; running execution i drives the real library (and, in lockstep, a reference model)
// and reports every disagreement through Ctx::fail.  The engine runs EVERY index of EVERY space:
// indices are cut into chunks, each chunk is executed in its own forked process (so no state leaks
// from one chunk to the next and a crash or hang is contained and attributed to one index), and
// every failure is replayed in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Ctx {
    bool failed = false;
    std::string msg;
    uint64_t transitions = 0;           // operations of the implementation executed and compared
    uint64_t index = 0;
    uint64_t capped = 0;                // executions whose own exploration was cut at a budget (reported)
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void state(uint64_t fingerprint);   // records a distinct observed state (shared, deduplicated)
    void state(const void* data, std::size_t n, uint64_t salt);
    volatile uint64_t* beat = nullptr;  // shows that a long execution makes progress
    uint64_t ticks = 0;
    void step(uint64_t n = 1) { transitions += n; if ((++ticks & 3) == 0 && beat) *beat = ticks; }
};

struct Space {
    std::string name;
    uint64_t count = 0;
    std::function<void(Ctx&, uint64_t)> run;
    std::function<std::string(uint64_t)> show;     // describes execution i
    uint64_t chunk = 0;                            // 0: automatic
};

void add(Space s);
inline void add(std::string name, uint64_t count, std::function<void(Ctx&, uint64_t)> run,
                std::function<std::string(uint64_t)> show, uint64_t chunk = 0) {
    add(Space{std::move(name), count, std::move(run), std::move(show), chunk});
}

bool thorough();                        // VERIF_TIER == thorough
uint64_t hash(const void* data, std::size_t n, uint64_t salt);
void rawCopy(void* to, const void* from, std::size_t n);      // not seen by the instrumentation of the checked program

struct Part { Part(void (*registerSpaces)()); };
#define MC_PART(fn) static ::mc::Part mc_part_##fn(fn)

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace mc
