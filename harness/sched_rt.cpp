// See sched_rt.h.  No standard containers here: this file is the only one compiled without instrumentation.
#include "sched_rt.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sched
{
    typedef uint32_t Clock;
    struct VC { Clock c[MaxThreads]; };

    // ------------------------------------------------------------------ arena
    static const uintptr_t ArenaBase = 0x200000000000ull;
    static const size_t ArenaSize = 64u << 20;
    static char* gArena = nullptr;
    static size_t gArenaPos = 0;
    static bool gArenaOn = false;
    static __thread int tOut = 0;               // > 0: harness or runtime code
    static __thread int tSelf = -1;
    static int gGuardDepth = 0;                 // static initialisation running: no switches, no arena

    struct Cell
    {
        uint32_t gen;
        uint8_t freed;
        uint8_t wm[MaxThreads], rm[MaxThreads];
        Clock w[MaxThreads], r[MaxThreads];
        uint32_t wpc[MaxThreads], rpc[MaxThreads];
    };
    static Cell* gShadow = nullptr;             // of the arena
    struct FarCell { uintptr_t addr; Cell cell; };
    static const size_t FarCount = 1 << 14;
    static FarCell* gFar = nullptr;             // of everything else
    static uint32_t gGen = 1;

    // ------------------------------------------------------------------ threads
    enum State { Free, Runnable, OnMutex, OnCond, OnRw, Done };
    struct Thread
    {
        State state;
        const void* what;
        const void* pc;
        VC vc;
        uint32_t word;                          // futex
        pthread_t id;
        uintptr_t stackLo, stackHi;
        bool woken;
    };
    static Thread gT[MaxThreads];
    static int gN = 0;
    static volatile int gCur = -1;
    static Policy* gPolicy = nullptr;
    static bool gFine = false;
    static uint64_t gCountdown = 0;             // 0 = never
    static uint64_t gPoints = 0, gSync = 0, gSwitches = 0, gSince = 0, gStamp = 0;
    static void (*gFn)(int) = nullptr;
    static char gError[1500];
    static bool gHasError = false;
    static uint32_t gMainWord = 0;
    static uintptr_t gMainFrame = 0;            // the stack of the thread that called Run

    static void FutexWait(uint32_t* w, uint32_t v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
    static void FutexWake(uint32_t* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

    static uintptr_t Base()
    {
        static uintptr_t b = 0;
        if (!b)
        {
            Dl_info i;
            b = dladdr(reinterpret_cast<void*>(&Base), &i) ? reinterpret_cast<uintptr_t>(i.dli_fbase) : 1;
        }
        return b;
    }
    static void Name(uintptr_t pc, char* out, size_t n)
    {
        Dl_info i;
        if (dladdr(reinterpret_cast<void*>(pc), &i) && i.dli_sname)
        {
            int st = 0;
            char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            const char* s = d ? d : i.dli_sname;
            size_t l = strlen(s);
            if (l + 1 > n) l = n - 1;
            memcpy(out, s, l);
            out[l] = 0;
            free(d);
        }
        else snprintf(out, n, "pc+0x%lx", static_cast<unsigned long>(pc - Base()));
    }

    static void Report(const char* fmt, ...)
    {
        if (gHasError) return;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(gError, sizeof gError, fmt, ap);
        va_end(ap);
        gHasError = true;
    }
    [[noreturn]] static void Fatal()
    {
        fprintf(stderr, "SCHED ERROR: %s\n", gError);
        abort();
    }

    // ------------------------------------------------------------------ synchronisation objects
    struct Sync
    {
        uint32_t gen;
        uintptr_t addr;
        int owner;                              // mutex / writer
        int readers[MaxThreads];
        VC vc;
    };
    static const size_t SyncCount = 1 << 12;
    static Sync gSyncs[SyncCount];
    static Sync& SyncOf(const void* p)
    {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        size_t h = (a >> 2) * 0x9e3779b97f4a7c15ull >> 52;
        for (size_t k = 0; k < SyncCount; ++k, h = (h + 1) & (SyncCount - 1))
        {
            Sync& s = gSyncs[h];
            if (s.gen == gGen && s.addr == a) return s;
            if (s.gen != gGen)
            {
                memset(&s, 0, sizeof s);
                s.gen = gGen;
                s.addr = a;
                s.owner = -1;
                return s;
            }
        }
        fprintf(stderr, "SCHED ERROR: harness: too many synchronisation objects\n");
        abort();
    }
    static void Join(VC& a, const VC& b) { for (int i = 0; i < MaxThreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
    static void Acquire(Sync& s) { Join(gT[tSelf].vc, s.vc); }
    static void Release(Sync& s) { Join(s.vc, gT[tSelf].vc); ++gT[tSelf].vc.c[tSelf]; }

    // ------------------------------------------------------------------ switching
    static void NextGap() { gCountdown = gPolicy->gap(); }

    static void SwitchTo(int t)
    {
        int self = tSelf;
        gSince = 0;
        if (t == self) return;
        ++gSwitches;
        gCur = t;
        __atomic_store_n(&gT[t].word, 1, __ATOMIC_SEQ_CST);
        FutexWake(&gT[t].word);
        if (gT[self].state == Done) return;
        while (__atomic_load_n(&gT[self].word, __ATOMIC_SEQ_CST) == 0) FutexWait(&gT[self].word, 0);
        __atomic_store_n(&gT[self].word, 0, __ATOMIC_SEQ_CST);
    }

    // other runnable threads first, then (if it may go on) the current one
    static int Candidates(int* c, bool self)
    {
        int n = 0;
        for (int k = 1; k <= gN; ++k)
        {
            int t = ((tSelf < 0 ? 0 : tSelf) + k) % gN;
            if (t == tSelf && !self) continue;
            if (gT[t].state == Runnable) c[n++] = t;
        }
        return n;
    }

    static void Deadlock()
    {
        char msg[1400];
        size_t n = 0;
        n += static_cast<size_t>(snprintf(msg + n, sizeof msg - n, "deadlock:"));
        for (int t = 0; t < gN; ++t)
        {
            char fn[200];
            Name(reinterpret_cast<uintptr_t>(gT[t].pc), fn, sizeof fn);
            const char* st = gT[t].state == OnMutex ? "waits for a mutex" : gT[t].state == OnCond ? "waits for a notification" : gT[t].state == OnRw ? "waits for a lock" : "has finished";
            if (n < sizeof msg - 300) n += static_cast<size_t>(snprintf(msg + n, sizeof msg - n, " thread %d %s%s%s;", t, st, gT[t].state == Done ? "" : " in ", gT[t].state == Done ? "" : fn));
        }
        Report("%s", msg);
        Fatal();
    }

    // The current thread cannot go on (or may be preempted): lets another one run.
    static void Reschedule(bool mayStay)
    {
        int c[MaxThreads];
        int n = Candidates(c, mayStay);
        if (n == 0)
        {
            if (mayStay) return;
            Deadlock();
        }
        SwitchTo(c[n == 1 ? 0 : gPolicy->pick(static_cast<unsigned>(n)) % static_cast<unsigned>(n)]);
    }

    static void Tick(bool sync)
    {
        ++gPoints;
        ++gSince;
        if (sync) ++gSync;
        if (gPoints > 5000000)
        {
            Report("livelock: the threads make no progress");
            Fatal();
        }
        if (gGuardDepth) return;
        if (gSince > 300000) { Reschedule(true); return; }
        if (!gFine && !sync) return;
        if (gCountdown && --gCountdown == 0)
        {
            int c[MaxThreads];
            int n = Candidates(c, false);
            if (n) SwitchTo(c[n == 1 ? 0 : gPolicy->pick(static_cast<unsigned>(n)) % static_cast<unsigned>(n)]);
            NextGap();
        }
    }

    struct Inside { Inside() { ++tOut; } ~Inside() { --tOut; } };
    static inline bool Managed() { return tSelf >= 0 && tOut == 0 && gGuardDepth == 0; }

    // ------------------------------------------------------------------ accesses
    // Besides the arena: variables of the program and the stacks of the threads.  Any other memory belongs to the harness and
    // to the C library, which hand it from thread to thread in ways that are not seen here.
    static bool Tracked(uintptr_t a)
    {
        if (a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end)) return true;
        for (int k = 0; k < MaxThreads; ++k)
            if (a >= gT[k].stackLo && a < gT[k].stackHi) return true;
        return a - (gMainFrame - (1u << 20)) < (2u << 20);
    }

    static Cell* CellOf(uintptr_t g)
    {
        uintptr_t a = g << 3;
        if (a - ArenaBase < ArenaSize)
        {
            Cell* c = &gShadow[(a - ArenaBase) >> 3];
            if (c->gen != gGen) { memset(c, 0, sizeof *c); c->gen = gGen; }
            return c;
        }
        Thread& t = gT[tSelf];
        if (a >= t.stackLo && a < t.stackHi) return nullptr;
        if (!Tracked(a)) return nullptr;
        size_t h = g * 0x9e3779b97f4a7c15ull >> 50;
        for (size_t k = 0; k < 64; ++k, h = (h + 1) & (FarCount - 1))
        {
            FarCell& f = gFar[h];
            if (f.cell.gen == gGen && f.addr == g) return &f.cell;
            if (f.cell.gen != gGen) { memset(&f, 0, sizeof f); f.addr = g; f.cell.gen = gGen; return &f.cell; }
        }
        return nullptr;
    }

    // Memory outside of the arena that is given out again has no history.
    static void Forget(uintptr_t a, size_t n)
    {
        for (uintptr_t g = a >> 3; g <= (a + n) >> 3; ++g)
        {
            size_t h = g * 0x9e3779b97f4a7c15ull >> 50;
            for (size_t k = 0; k < 64 && gFar[h].cell.gen == gGen; ++k, h = (h + 1) & (FarCount - 1))
                if (gFar[h].addr == g)
                {
                    memset(&gFar[h].cell, 0, sizeof(Cell));
                    gFar[h].cell.gen = gGen;
                    break;
                }
        }
    }

    static void RaceReport(const char* what, int other, uint32_t opc, uintptr_t pc, uintptr_t addr)
    {
        if (gHasError) return;
        char a[400], b[400];
        Name(pc, a, sizeof a);
        Name(Base() + opc, b, sizeof b);
        Report("data race: thread %d %s in %s, thread %d without synchronisation in %s (address %lx)", tSelf, what, a, other, b, static_cast<unsigned long>(addr));
    }

    static void Access(uintptr_t addr, size_t size, bool write, uintptr_t pc)
    {
        Thread& me = gT[tSelf];
        while (size)
        {
            uintptr_t g = addr >> 3;
            unsigned off = addr & 7;
            unsigned n = 8 - off < size ? 8 - off : static_cast<unsigned>(size);
            uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
            if (Cell* c = CellOf(g))
            {
                if (c->freed && !gHasError)
                {
                    char f[400];
                    Name(pc, f, sizeof f);
                    Report("use after free: thread %d in %s", tSelf, f);
                }
                for (int t = 0; t < gN; ++t)
                {
                    if (t == tSelf) continue;
                    if ((c->wm[t] & mask) && c->w[t] > me.vc.c[t]) RaceReport(write ? "writes" : "reads", t, c->wpc[t], pc, addr);
                    if (write && (c->rm[t] & mask) && c->r[t] > me.vc.c[t]) RaceReport("writes", t, c->rpc[t], pc, addr);
                }
                Clock now = me.vc.c[tSelf];
                if (write)
                {
                    c->wm[tSelf] = c->w[tSelf] == now ? c->wm[tSelf] | mask : mask;
                    c->w[tSelf] = now;
                    c->wpc[tSelf] = static_cast<uint32_t>(pc - Base());
                }
                else
                {
                    c->rm[tSelf] = c->r[tSelf] == now ? c->rm[tSelf] | mask : mask;
                    c->r[tSelf] = now;
                    c->rpc[tSelf] = static_cast<uint32_t>(pc - Base());
                }
            }
            addr += n;
            size -= n;
        }
    }

    static inline void Point(const void* p, size_t size, bool write, void* pc)
    {
        if (!Managed()) return;
        Inside in;
        Tick(false);
        Access(reinterpret_cast<uintptr_t>(p), size, write, reinterpret_cast<uintptr_t>(pc));
    }

    // ------------------------------------------------------------------ public interface
    void ArenaBegin()
    {
        if (!gArena)
        {
            void* p = mmap(reinterpret_cast<void*>(ArenaBase), ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            void* s = mmap(nullptr, ArenaSize / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            void* f = mmap(nullptr, FarCount * sizeof(FarCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED || s == MAP_FAILED || f == MAP_FAILED) { perror("SCHED ERROR: arena"); abort(); }
            gArena = static_cast<char*>(p);
            gShadow = static_cast<Cell*>(s);
            gFar = static_cast<FarCell*>(f);
        }
        ++gGen;
        gArenaPos = 64;
        gArenaOn = true;
        gStamp = 0;
    }
    void ArenaEnd() { gArenaOn = false; }
    Out::Out() { ++tOut; }
    Out::~Out() { --tOut; }
    const char* Error() { return gHasError ? gError : nullptr; }
    uint64_t Stamp() { return ++gStamp; }
    uint64_t Switches() { return gSwitches; }
    uint64_t Points() { return gPoints; }
    uint64_t SyncPoints() { return gSync; }
    int Self() { return tSelf; }
    bool WaitsForNotification(int t) { return gT[t].state == OnCond; }
    void MarkSpin()
    {
        if (!Managed()) return;
        Inside in;
        Tick(true);
        Reschedule(true);
    }

    static void* Body(void* arg)
    {
        int me = static_cast<int>(reinterpret_cast<intptr_t>(arg));
        ++tOut;
        pthread_attr_t a;
        if (pthread_getattr_np(pthread_self(), &a) == 0)
        {
            void* lo;
            size_t n;
            pthread_attr_getstack(&a, &lo, &n);
            gT[me].stackLo = reinterpret_cast<uintptr_t>(lo);
            gT[me].stackHi = gT[me].stackLo + n;
            pthread_attr_destroy(&a);
        }
        while (__atomic_load_n(&gT[me].word, __ATOMIC_SEQ_CST) == 0) FutexWait(&gT[me].word, 0);
        __atomic_store_n(&gT[me].word, 0, __ATOMIC_SEQ_CST);
        tSelf = me;
        --tOut;
        gFn(me);
        ++tOut;
        gT[me].state = Done;
        bool all = true;
        for (int t = 0; t < gN; ++t) if (gT[t].state != Done) all = false;
        if (all)
        {
            __atomic_store_n(&gMainWord, 1, __ATOMIC_SEQ_CST);
            FutexWake(&gMainWord);
        }
        else Reschedule(false);
        tSelf = -1;
        return nullptr;
    }

    void Run(int n, void (*fn)(int), Policy& policy, bool fine)
    {
        ++tOut;
        gMainFrame = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
        gHasError = false;
        gN = n;
        gFn = fn;
        gPolicy = &policy;
        gFine = fine;
        gPoints = gSync = gSwitches = gSince = 0;
        gMainWord = 0;
        memset(gT, 0, sizeof gT);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 256 << 10);
        for (int t = 0; t < n; ++t)
        {
            gT[t].state = Runnable;
            gT[t].vc.c[t] = 1;
        }
        for (int t = 0; t < n; ++t)
            if (pthread_create(&gT[t].id, &a, Body, reinterpret_cast<void*>(static_cast<intptr_t>(t)))) { perror("SCHED ERROR: pthread_create"); abort(); }
        pthread_attr_destroy(&a);
        NextGap();
        int first = static_cast<int>(policy.pick(static_cast<unsigned>(n)) % static_cast<unsigned>(n));
        gCur = first;
        __atomic_store_n(&gT[first].word, 1, __ATOMIC_SEQ_CST);
        FutexWake(&gT[first].word);
        while (__atomic_load_n(&gMainWord, __ATOMIC_SEQ_CST) == 0) FutexWait(&gMainWord, 0);
        for (int t = 0; t < n; ++t) pthread_join(gT[t].id, nullptr);
        --tOut;
    }

    // ------------------------------------------------------------------ modelled locks
    static void LockMutex(const void* m, void* pc)
    {
        Tick(true);
        for (;;)
        {
            Sync& s = SyncOf(m);
            if (s.owner < 0) { s.owner = tSelf; Acquire(s); return; }
            gT[tSelf].pc = pc;
            gT[tSelf].what = m;
            gT[tSelf].state = OnMutex;
            Reschedule(false);
        }
    }
    static bool TryMutex(const void* m)
    {
        Tick(true);
        Sync& s = SyncOf(m);
        if (s.owner >= 0) return false;
        s.owner = tSelf;
        Acquire(s);
        return true;
    }
    static void Wake(State st, const void* what)
    {
        for (int t = 0; t < gN; ++t)
            if (gT[t].state == st && gT[t].what == what) gT[t].state = Runnable;
    }
    static void UnlockMutex(const void* m, void* pc)
    {
        Sync& s = SyncOf(m);
        if (s.owner != tSelf)
        {
            char f[400];
            Name(reinterpret_cast<uintptr_t>(pc), f, sizeof f);
            Report("lock misuse: thread %d unlocks a mutex it does not hold in %s", tSelf, f);
        }
        Release(s);
        s.owner = -1;
        Wake(OnMutex, m);
        Tick(true);
    }
    static void CondWait(const void* c, const void* m, void* pc, bool timed)
    {
        Tick(true);
        Sync& s = SyncOf(m);
        Release(s);
        s.owner = -1;
        Wake(OnMutex, m);
        if (timed || gPolicy->spurious())
        {
            // returns without a notification
            Tick(true);
            Reschedule(true);
        }
        else
        {
            gT[tSelf].pc = pc;
            gT[tSelf].what = c;
            gT[tSelf].state = OnCond;
            Reschedule(false);
        }
        LockMutex(m, pc);
    }
    static void Notify(const void* c, bool all)
    {
        if (all) Wake(OnCond, c);
        else
        {
            int w[MaxThreads], n = 0;
            for (int t = 0; t < gN; ++t) if (gT[t].state == OnCond && gT[t].what == c) w[n++] = t;
            if (n) gT[w[n == 1 ? 0 : gPolicy->pick(static_cast<unsigned>(n)) % static_cast<unsigned>(n)]].state = Runnable;
        }
        ++gPoints;
        ++gSync;
        if (gPoints > 5000000) { Report("livelock: the threads make no progress"); Fatal(); }
        Reschedule(true);
    }
    static bool RwTake(const void* l, bool write)
    {
        Sync& s = SyncOf(l);
        if (s.owner >= 0) return false;
        if (write) for (int t = 0; t < gN; ++t) if (s.readers[t]) return false;
        if (write) s.owner = tSelf; else ++s.readers[tSelf];
        Acquire(s);
        return true;
    }
    static void RwLock(const void* l, bool write, void* pc)
    {
        Tick(true);
        while (!RwTake(l, write))
        {
            gT[tSelf].pc = pc;
            gT[tSelf].what = l;
            gT[tSelf].state = OnRw;
            Reschedule(false);
        }
    }
    static void RwUnlock(const void* l)
    {
        Sync& s = SyncOf(l);
        Release(s);
        if (s.owner == tSelf) s.owner = -1;
        else if (s.readers[tSelf] > 0) --s.readers[tSelf];
        else Report("lock misuse: thread %d unlocks a lock it does not hold", tSelf);
        Wake(OnRw, l);
        Tick(true);
    }

    // ------------------------------------------------------------------ memory
    static void* Alloc(size_t n, size_t align)
    {
        if (gArenaOn && tOut == 0 && gGuardDepth == 0)
        {
            size_t pos = (gArenaPos + 16 + align - 1) & ~(align - 1);
            if (pos + n + 16 < ArenaSize)
            {
                char* p = gArena + pos;
                reinterpret_cast<size_t*>(p)[-1] = n;
                gArenaPos = (pos + n + 15) & ~static_cast<size_t>(15);
                return p;
            }
            fprintf(stderr, "SCHED ERROR: harness: the arena is full\n");
            abort();
        }
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
        if (!p) abort();
        if (gArenaOn) Forget(reinterpret_cast<uintptr_t>(p), n);
        return p;
    }
    static void Dealloc(void* p, void* pc)
    {
        if (!p) return;
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        if (a - ArenaBase >= ArenaSize) { free(p); return; }
        if (!Managed()) return;
        Inside in;
        Tick(false);
        size_t n = reinterpret_cast<size_t*>(p)[-1];
        Access(a, n, true, reinterpret_cast<uintptr_t>(pc));
        for (uintptr_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; ++g) CellOf(g)->freed = 1;
    }

    // ------------------------------------------------------------------ atomics
    static void AtomicPoint(const volatile void* p, void* pc)
    {
        Tick(true);
        Cell* c = CellOf(reinterpret_cast<uintptr_t>(p) >> 3);
        if (c && c->freed && !gHasError)
        {
            char f[400];
            Name(reinterpret_cast<uintptr_t>(pc), f, sizeof f);
            Report("use after free: thread %d in %s", tSelf, f);
        }
    }
    static void AtomicAcq(const volatile void* p, int mo)
    {
        if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) Acquire(SyncOf(const_cast<const void*>(p)));
    }
    static void AtomicRel(const volatile void* p, int mo)
    {
        if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) Release(SyncOf(const_cast<const void*>(p)));
    }
    template <class T> static T Load(const volatile T* p, int mo, void* pc)
    {
        if (!Managed()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
        Inside in;
        AtomicPoint(p, pc);
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        AtomicAcq(p, mo);
        return v;
    }
    template <class T> static void Store(volatile T* p, T v, int mo, void* pc)
    {
        if (!Managed()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
        Inside in;
        AtomicPoint(p, pc);
        AtomicRel(p, mo);
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    }
    template <class T, class F> static T Rmw(volatile T* p, int mo, void* pc, F f)
    {
        if (!Managed()) return f();
        Inside in;
        AtomicPoint(p, pc);
        AtomicAcq(p, mo);
        AtomicRel(p, mo);
        return f();
    }
    template <class T> static int Cas(volatile T* p, T* c, T v, int mo, int fmo, void* pc)
    {
        if (!Managed()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        Inside in;
        AtomicPoint(p, pc);
        bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        AtomicAcq(p, ok ? mo : fmo);
        if (ok) AtomicRel(p, mo);
        return ok;
    }
}

using namespace sched;
#define PC __builtin_return_address(0)

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { Point(p, N, false, PC); } \
    void __tsan_write##N(void* p) { Point(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { Point(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { Point(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { Point(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { Point(p, N, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { Point(p, n, false, PC); }
    void __tsan_write_range(void* p, unsigned long n) { Point(p, n, true, PC); }
    void __tsan_vptr_read(void** p) { Point(p, 8, false, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) Point(p, 8, true, PC); }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { Point(s, n, false, PC); Point(d, n, true, PC); } return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { Point(s, n, false, PC); Point(d, n, true, PC); } return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, unsigned long n) { if (n) Point(d, n, true, PC); return memset(d, c, n); }

#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return Load<T>(p, mo, PC); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { Store<T>(p, v, mo, PC); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return Rmw<T>(p, mo, PC, [&] { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { return Cas<T>(p, c, v, mo, fmo, PC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return Cas<T>(p, c, v, mo, fmo, PC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { Cas<T>(p, &c, v, mo, fmo, PC); return c; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // ------------------------------------------------------------------ pthread
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!Managed()) return 0;
        Inside in;
        // recursive mutexes keep their depth in the object
        if (reinterpret_cast<int*>(m)[4] == PTHREAD_MUTEX_RECURSIVE && SyncOf(m).owner == tSelf) { ++SyncOf(m).readers[tSelf]; return 0; }
        LockMutex(m, PC);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!Managed()) return 0;
        Inside in;
        if (reinterpret_cast<int*>(m)[4] == PTHREAD_MUTEX_RECURSIVE && SyncOf(m).owner == tSelf) { ++SyncOf(m).readers[tSelf]; return 0; }
        return TryMutex(m) ? 0 : EBUSY;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!Managed()) return 0;
        Inside in;
        if (SyncOf(m).owner == tSelf && SyncOf(m).readers[tSelf] > 0) { --SyncOf(m).readers[tSelf]; return 0; }
        UnlockMutex(m, PC);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!Managed()) return 0;
        Inside in;
        CondWait(c, m, PC, false);
        return 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
    {
        if (!Managed()) return ETIMEDOUT;
        Inside in;
        CondWait(c, m, PC, true);
        return ETIMEDOUT;
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { if (Managed()) { Inside in; Notify(c, false); } return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (Managed()) { Inside in; Notify(c, true); } return 0; }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (Managed()) { Inside in; RwLock(l, false, PC); } return 0; }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (Managed()) { Inside in; RwLock(l, true, PC); } return 0; }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!Managed()) return 0; Inside in; Tick(true); return RwTake(l, false) ? 0 : EBUSY; }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!Managed()) return 0; Inside in; Tick(true); return RwTake(l, true) ? 0 : EBUSY; }
    int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if (Managed()) { Inside in; RwUnlock(l); } return 0; }
    int sched_yield() noexcept
    {
        if (Managed()) MarkSpin(); else syscall(SYS_sched_yield);
        return 0;
    }
    int nanosleep(const struct timespec* a, struct timespec* b)
    {
        if (Managed()) { MarkSpin(); return 0; }
        return static_cast<int>(syscall(SYS_nanosleep, a, b));
    }
    int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b)
    {
        if (Managed()) { MarkSpin(); return 0; }
        return static_cast<int>(-syscall(SYS_clock_nanosleep, k, f, a, b));
    }
    int usleep(useconds_t u)
    {
        if (Managed()) { MarkSpin(); return 0; }
        struct timespec t = { static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000 };
        return static_cast<int>(syscall(SYS_nanosleep, &t, nullptr));
    }

    // ------------------------------------------------------------------ local statics: initialised without a switch
    int __cxa_guard_acquire(__cxxabiv1::__guard* g)
    {
        if (*reinterpret_cast<uint8_t*>(g))
        {
            if (Managed()) Acquire(SyncOf(g));
            return 0;
        }
        ++gGuardDepth;
        return 1;
    }
    void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
    {
        *reinterpret_cast<uint8_t*>(g) = 1;
        --gGuardDepth;
        if (Managed()) Release(SyncOf(g));
    }
    void __cxa_guard_abort(__cxxabiv1::__guard*) noexcept { --gGuardDepth; }
}

void* operator new(size_t n) { return Alloc(n, 16); }
void* operator new[](size_t n) { return Alloc(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { Dealloc(p, PC); }
void operator delete[](void* p) noexcept { Dealloc(p, PC); }
void operator delete(void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Dealloc(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { Dealloc(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Dealloc(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Dealloc(p, PC); }
