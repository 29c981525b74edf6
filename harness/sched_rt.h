// Controlled scheduling of real threads.  Library and harness code is compiled with -fsanitize=thread but linked
// with this runtime instead of the sanitizer's: every memory access, atomic operation and lock operation is a
// scheduling point, exactly one thread runs at a time, and the generated case decides where threads are switched.
// The runtime also detects data races (vector clocks), deadlocks, livelocks, lock misuse and use after free.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched
{
    const int MaxThreads = 4;

    struct Policy
    {
        virtual ~Policy() {}
        virtual unsigned gap() = 0;                      // points until the next switch, 0 = never
        virtual unsigned pick(unsigned n) = 0;           // which of n threads runs next
        virtual bool spurious() = 0;                     // does this condition wait return at once
    };

    // From here on memory comes from an arena with the same addresses in every run; nothing is reused before End.
    void ArenaBegin();
    void ArenaEnd();
    // Suspends both arena and recording for harness code.
    struct Out
    {
        Out();
        ~Out();
    };

    // Runs fn(0..n-1) in n threads under the policy; fine: switch at every access, else only at synchronisation.
    void Run(int n, void (*fn)(int), Policy& policy, bool fine);
    const char* Error();                                 // first problem found by the last Run, or nullptr
    uint64_t Stamp();                                    // increasing event number, for real-time order of operations
    uint64_t Switches();
    uint64_t Points();
    uint64_t SyncPoints();
    int Self();                                          // number of the running managed thread, -1 outside
    bool WaitsForNotification(int t);                    // is thread t blocked in a condition wait
    void MarkSpin();                                     // a wait without blocking: lets others run
}
