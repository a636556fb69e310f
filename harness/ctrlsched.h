// A controlled scheduler for code compiled with clang's -fsanitize=thread instrumentation.  ctrlsched.cpp implements the
// instrumentation callbacks, so every memory access and every synchronisation operation of the code under test is observed:
//  - threads run one at a time; before each synchronisation operation (atomic, mutex, static-initialisation guard, once,
//    thread start and end) the explorer chooses who continues;
//  - a vector-clock happens-before analysis (hand-offs of the explorer are not edges) reports every pair of conflicting
//    accesses that the program itself does not order.  Programs without such pairs behave the same under every interleaving of
//    their plain accesses, so switching at synchronisation operations only is complete.
#pragma once
#include <cstdint>
namespace sched {
constexpr int kMaxThreads = 3, kMaxPoints = 4096;
struct Outcome {                       // lives in shared memory
    int kind;                          // 0 not finished, 1 finished, 2 violation (msg)
    char msg[1200];
    unsigned points, accesses, syncs;  // choice points with more than one enabled thread; non-stack accesses; synchronisation operations
    uint8_t chosen[kMaxPoints], options[kMaxPoints], free_[kMaxPoints];   // free_: alternatives here are not preemptions
};
// runs body(t) for t in 0..n-1 on n threads, following prefix[0..len) at the choice points and option 0 afterwards
void run(int n, void (*body)(int t, void* arg), void* arg, const uint8_t* prefix, unsigned len, Outcome* out);
}
