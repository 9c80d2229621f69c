// Thread run-time of the model checker.
// The code under test is compiled with -fsanitize=thread; this file provides the run-time those
// instrumented objects call (instead of libtsan) and replaces the pthread and clock functions.
// Threads are fibers of one OS thread; every synchronisation operation is a scheduling point.
// This file must be compiled without instrumentation.
#include "mcint.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

extern "C" char __libc_single_threaded;
extern "C" void mc_skip_event(void);
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

enum { MAXT = 12 };
#define UNINSTR __attribute__((noinline))

/***********************************************************************
 * fixed regions
 **********************************************************************/
static const uintptr_t REGION = 0x100000000000ull;
static const size_t ARENA = size_t(256) << 20;       // heap arena per fiber
static const size_t STACK = size_t(1) << 20;         // stack per fiber
static const uintptr_t HEAPS = REGION;
static const uintptr_t HEAPS_END = HEAPS + (MAXT+1)*ARENA;
static const uintptr_t STACKS = HEAPS_END;
static const uintptr_t STACKS_END = STACKS + MAXT*STACK;
static const uintptr_t FREEMAP = STACKS_END;         // one bit per 16 bytes of heap
static const size_t FREEMAP_LEN = (HEAPS_END-HEAPS)/16/8;
static const uintptr_t CELLS = (FREEMAP + FREEMAP_LEN + 0xfffff) & ~uintptr_t(0xfffff);

struct VC { u32 c[MAXT]; };
static inline void vcJoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Slot { u32 clk; u8 tid; u8 mask; u8 flags; u8 pad; void *pc; }; // flags: 1 write 2 atomic 4 used
struct Cell { u64 key; u8 freed; u8 next; u8 pad[6]; void *freePc; Slot s[6]; };
static const size_t NCELLS = size_t(1) << 18;
static const uintptr_t CELLIDX = CELLS + NCELLS*sizeof(Cell);
static const size_t IDXN = size_t(1) << 19;
static const uintptr_t REGION_END = CELLIDX + IDXN*4;

static bool regionReady = false;
static void regionInit(void)
{
    if (regionReady) return;
    regionReady = true;
    void *p = mmap((void *)REGION, REGION_END-REGION, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)REGION) { const char m[] = "mcrt: region mmap failed\n"; (void)!write(2, m, sizeof(m)-1); _exit(3); }
}

/***********************************************************************
 * state of one execution
 **********************************************************************/
enum TState { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_SPIN, T_AWAIT, T_GUARD, T_RW, T_FUTEX, T_DONE };
static const char *stateName[] = {"free", "runnable", "blocked on mutex", "waiting on condition", "joining", "sleeping", "spinning", "awaiting", "blocked on static init", "blocked on rwlock", "futex", "done"};
struct NoEff { void *pc; uintptr_t addr; u64 ver; };
struct Thread
{
    TState st; int id; void *sp; VC vc;
    void *(*fn)(void *); void *arg; void *ret; bool joined; bool detached;
    uintptr_t obj; // what it is blocked on
    bool timed; u64 deadline; bool timedOut; bool notified;
    int joinTarget;
    NoEff ne[16]; int nne; u64 spinVer; bool spinAny; u64 resumeAt;
    const std::function<bool(void)> *pred;
    void *ehCaught; unsigned ehUncaught;
    uintptr_t heapNext;
    bool ignoreRaces;
    VC acqPending, relFence; bool hasRelFence;
    u32 endClk; u32 passed; // scheduling points at which it could have run but did not
    u64 hh; // hash of everything that happened before the current state of this thread
    const char *op;
};
static Thread T[MAXT];
static int nthreads = 0, cur = 0, liveCount = 0;
static bool active = false; // inside an execution
static bool inSched = false;
static void *nativeSp = nullptr;
static u64 vclock = 0; // virtual nanoseconds
static u64 stepCount = 0, timeoutCount = 0, idleRounds = 0;
static const mc::Scenario *SC = nullptr;
static uintptr_t engineHeapNext = 0;

// synchronisation objects
struct Sync { uintptr_t addr; VC vc; bool hasVc; u64 ver; int firstTid; bool multi; int owner; int count; int readers; u64 hh; };
static const size_t NSYNC = 1 << 15;
static Sync *syncTab = nullptr;
static size_t nsync = 0;

static Sync *getSync(uintptr_t a)
{
    size_t i = (a*0x9E3779B97F4A7C15ull) >> (64-15);
    while (syncTab[i].addr != 0 and syncTab[i].addr != a) i = (i+1) & (NSYNC-1);
    if (syncTab[i].addr == 0)
    {
        if (++nsync > NSYNC*3/4) mc::fail("engine-limit", "too many synchronisation objects");
        syncTab[i].addr = a; syncTab[i].owner = -1; syncTab[i].firstTid = -1;
    }
    return &syncTab[i];
}

extern "C" int mcrt_active(void) { return active; }
static inline u64 mix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; return a ^ (a >> 29); }
extern "C" void mcrt_note(u64 v) { if (active) T[cur].hh = mix(T[cur].hh, v); }
static u64 stateHash(void)
{
    u64 h = mix(17, vclock);
    for (int i = 0; i < nthreads; i++)
    {
        const Thread &t = T[i];
        h += mix(mix(t.hh, i*32 + t.st), (t.notified?1:0) + (t.timed?2+t.deadline*4:0));
    }
    return h;
}

/***********************************************************************
 * fibers
 **********************************************************************/
extern "C" void mcrt_switch(void **from, void *to);
asm(R"(
.text
.globl mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcrt_switch,.-mcrt_switch
)");

struct EhGlobals { void *caught; unsigned uncaught; };
static EhGlobals *eh(void) { return (EhGlobals *)abi::__cxa_get_globals(); }

static void fiberExit(void);
extern "C" void mcrt_fiber_main(void)
{
    Thread &t = T[cur];
    t.ret = t.fn(t.arg);
    fiberExit();
}
asm(R"(
.text
.globl mcrt_trampoline
mcrt_trampoline:
    andq $-16, %rsp
    call mcrt_fiber_main
    ud2
)");
extern "C" void mcrt_trampoline(void);

static void prepareStack(Thread &t)
{
    uintptr_t top = STACKS + (t.id+1)*STACK - 64;
    top &= ~uintptr_t(15);
    u64 *p = (u64 *)top;
    *--p = 0;
    *--p = (u64)&mcrt_trampoline; // return address
    for (int i = 0; i < 6; i++) *--p = 0; // rbp rbx r12..r15
    --p; u32 *q = (u32 *)p; q[0] = 0x1f80; q[1] = 0x037f; // mxcsr, fpu cw
    t.sp = p;
}

static void switchTo(int n)
{
    if (n == cur) return;
    Thread &a = T[cur]; Thread &b = T[n];
    EhGlobals *g = eh();
    a.ehCaught = g->caught; a.ehUncaught = g->uncaught;
    g->caught = b.ehCaught; g->uncaught = b.ehUncaught;
    cur = n;
    mcrt_switch(&a.sp, b.sp);
}

extern "C" __attribute__((noreturn)) void mcrt_abort(void)
{
    // leave the execution: back to the native stack
    active = false;
    void *dummy;
    mcrt_switch(&dummy, nativeSp);
    __builtin_unreachable();
}

/***********************************************************************
 * reporting
 **********************************************************************/
static std::string symName(void *pc)
{
    Dl_info di;
    char b[64];
    if (dladdr(pc, &di) and di.dli_sname)
    {
        int st = 0; char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        std::string s = (st == 0 and d)?d:di.dli_sname;
        if (s.size() > 180) s = s.substr(0, 180) + "...";
        return s;
    }
    snprintf(b, sizeof(b), "%p", pc);
    return b;
}
static std::string describe(void)
{
    std::string s;
    for (int i = 0; i < nthreads; i++)
    {
        char b[200]; snprintf(b, sizeof(b), "thread %d %s%s%s; ", i, stateName[T[i].st], T[i].op?" in ":"", T[i].op?T[i].op:"");
        s += b;
    }
    return s;
}
// violations found inside the run-time: allocate from the engine's heap, not from the fiber's
static void rtFail(const char *sig, const std::string &msg)
{
    inSched = true;
    mc::fail(sig, msg);
    // known finding or already failed: the execution ends anyway
    mcrt_abort();
}

/***********************************************************************
 * scheduler
 **********************************************************************/
static bool isEnabled(Thread &t)
{
    switch (t.st)
    {
    case T_RUN: return true;
    case T_MUTEX: { Sync *s = getSync(t.obj); return s->owner == -1; }
    case T_RW: { return true; }
    case T_JOIN: return T[t.joinTarget].st == T_DONE;
    case T_AWAIT: return (*t.pred)();
    case T_GUARD: return ((volatile u8 *)t.obj)[1] == 0;
    case T_COND: return t.notified;
    case T_SPIN:
    {
        for (int i = 0; i < t.nne; i++) if (getSync(t.ne[i].addr)->ver != t.ne[i].ver) return true;
        return false;
    }
    default: return false;
    }
}

static u64 effectCount = 0;
static bool quietMode = false;
static int runLen = 0; // scheduling points of the running thread since it was switched to
enum { FAIR = 300, PRIVATE = 3000 };
static int sinceTimer = 0; // scheduling points since a timer fired
static int privateLen = 0; // its operations on synchronisation variables of its own since the last scheduling point
static int yieldedRound = 0;

static void wakeTimer(Thread &t)
{
    sinceTimer = 0;
    if (t.deadline > vclock) vclock = t.deadline;
    t.timedOut = true;
    if (t.st == T_SLEEP) t.st = T_RUN;
    else if (t.st == T_COND) { t.timedOut = true; t.notified = true; }
}

// pick the next thread to run and switch to it. curRunnable: the current thread could continue.
static void schedule(bool curRunnable, bool branch, const char *tag)
{
    if (++stepCount > SC->maxSteps) rtFail("no-progress", "step limit reached: " + describe());
    mcint::countStep();
    inSched = true;
    int order[MAXT]; int n = 0; privateLen = 0;
    if (quietMode) branch = false;
    while (true)
    {
        n = 0;
        if (curRunnable) order[n++] = cur;
        for (int i = 0; i < nthreads; i++)
        {
            if (i == cur and (curRunnable or T[i].st == T_RUN)) { if (not curRunnable and T[i].st == T_RUN) order[n++] = i; continue; }
            if (T[i].st == T_DONE or T[i].st == T_FREE) continue;
            if (isEnabled(T[i])) order[n++] = i;
        }
        if (n > 0)
        {
            if (branch and SC->timeouts)
            {
                int timed[MAXT]; int m = 0;
                for (int i = 0; i < nthreads; i++) if ((T[i].st == T_SLEEP) or (T[i].st == T_COND and T[i].timed and not T[i].notified)) timed[m++] = i;
                if (m > 0)
                {
                    int c = mcint::choicePoint(1+m, 1, "timeout");
                    if (c > 0) { wakeTimer(T[timed[c-1]]); inSched = true; continue; }
                }
            }
            break;
        }
        // nothing enabled: let virtual time pass
        int best = -1; u64 when = ~u64(0);
        for (int i = 0; i < nthreads; i++)
        {
            Thread &t = T[i];
            u64 w = ~u64(0);
            if (t.st == T_SLEEP or (t.st == T_COND and t.timed)) w = t.deadline;
            else if (t.st == T_SPIN) w = t.resumeAt;
            else continue;
            if (w < when) { when = w; best = i; }
        }
        if (best < 0) rtFail("deadlock", describe());
        if (++timeoutCount > SC->maxTimeouts) rtFail("no-progress", "only timeouts and polling remain: " + describe());
        Thread &t = T[best];
        if (t.st == T_SPIN) { if (t.resumeAt > vclock) vclock = t.resumeAt; t.st = T_RUN; t.nne = 0; }
        else wakeTimer(t);
    }
    // fairness: time passes while threads poll, whatever else they do
    if (++sinceTimer > 4*FAIR)
    {
        sinceTimer = 0; int best = -1;
        for (int i = 0; i < nthreads; i++) if (i != cur and (T[i].st == T_SLEEP or (T[i].st == T_COND and T[i].timed and not T[i].notified)) and (best < 0 or T[i].deadline < T[best].deadline)) best = i;
        if (best >= 0 and ++timeoutCount <= SC->maxTimeouts)
        {
            wakeTimer(T[best]);
            if (isEnabled(T[best])) { int k = 0; while (k < n and order[k] != best) k++; if (k == n) n++; for (; k > 0; k--) order[k] = order[k-1]; order[0] = best; branch = false; runLen = 0; }
        }
    }
    // fairness: a thread that goes on and on without waiting is interrupted (a polling loop may be waiting for another thread)
    if (curRunnable and ++runLen > FAIR)
    {
        if (n == 1) // its polling takes time
        {
            int best = -1;
            for (int i = 0; i < nthreads; i++) if (i != cur and (T[i].st == T_SLEEP or (T[i].st == T_COND and T[i].timed and not T[i].notified)) and (best < 0 or T[i].deadline < T[best].deadline)) best = i;
            if (best >= 0 and ++timeoutCount <= SC->maxTimeouts) { wakeTimer(T[best]); if (isEnabled(T[best])) order[n++] = best; }
        }
        if (n > 1) { for (int i = 0; i+1 < n; i++) order[i] = order[i+1]; order[n-1] = cur; branch = false; }
    }
    // fairness: a thread that could run is not passed over for ever
    for (int i = 0; i < nthreads; i++) T[i].passed = (T[i].passed & 0xffff) | 0x10000;
    for (int i = 0; i < n; i++) T[order[i]].passed &= 0xffff;
    for (int i = 0; i < nthreads; i++) T[i].passed = (T[i].passed & 0x10000)?0:T[i].passed + 1;
    for (int i = 1; i < n; i++) if (T[order[i]].passed > 2*FAIR) { const int b = order[i]; for (int k = i; k > 0; k--) order[k] = order[k-1]; order[0] = b; branch = false; runLen = 0; break; }
    int c = 0;
    if (branch and n > 1)
    {
        const u64 key = stateHash();
        mc::state(key);
        if (mcint::cachePrune(mix(key, cur*2 + (curRunnable?1:0)))) mcrt_abort();
        const int cost = curRunnable?1:(SC->freeSwitch?0:1);
        c = mcint::choicePoint(n, cost, tag);
    }
    else mc_skip_event();
    // the thread is past this point now: two points with nothing in between are different states
    T[cur].hh = mix(T[cur].hh, 0x51);
    const int next = order[c]; T[next].passed = 0;
    if (next != cur) runLen = 0;
    Thread &t = T[next];
    if (t.st == T_SPIN) { t.st = T_RUN; t.nne = 0; }
    if (mc::tracing() and next != cur)
        mc::trace("step " + std::to_string(stepCount) + ": switch " + std::to_string(cur) + " -> " + std::to_string(next) + " at " + tag + (T[cur].op?std::string(" (") + T[cur].op + ")":std::string()));
    inSched = false;
    switchTo(next);
}

static inline bool on(void) { return active and not inSched; }
static inline bool multi(void) { return liveCount > 1; }

static void touched(Sync *s)
{
    if (s->firstTid == -1) s->firstTid = cur;
    else if (s->firstTid != cur and not s->multi) { s->multi = true; mcint::addrMarkShared(s->addr); }
}
// scheduling point before an operation on addr
static void pointAt(Sync *s, const char *tag)
{
    if (not multi()) { mc_skip_event(); return; }
    touched(s);
    if (not mcint::addrIsShared(s->addr))
    {
        // a thread that keeps polling its own variables is interrupted as well
        if (++privateLen > PRIVATE) { runLen = FAIR; schedule(true, false, tag); }
        else mc_skip_event();
        return;
    }
    schedule(true, true, tag);
}
static void effect(Sync *s)
{
    s->ver++; effectCount++;
    T[cur].nne = 0;
    T[cur].hh = mix(mix(T[cur].hh, s->addr), s->hh); s->hh = T[cur].hh;
}
static void noEffect(Sync *s, void *pc)
{
    Thread &t = T[cur];
    t.hh = mix(mix(t.hh, s->addr+1), s->hh);
    if (not multi()) { t.nne = 0; return; }
    for (int i = 0; i < t.nne; i++) if (t.ne[i].pc == pc and t.ne[i].addr == s->addr)
    {
        if (t.ne[i].ver == s->ver)
        {
            // the same operation with the same result and nothing done in between: polling
            t.st = T_SPIN; t.resumeAt = vclock + 100000; // 100 us
            t.op = "spin";
            schedule(false, true, "spin");
            T[cur].op = nullptr;
            return;
        }
        t.ne[i].ver = s->ver;
        return;
    }
    if (t.nne == 16) t.nne = 0;
    t.ne[t.nne++] = NoEff{pc, s->addr, s->ver};
}

static inline void release(VC &dst, bool join)
{
    Thread &t = T[cur];
    if (join) vcJoin(dst, t.vc); else dst = t.vc;
    t.vc.c[cur]++;
}

/***********************************************************************
 * race detection
 **********************************************************************/
static u32 ncells = 1;
static Cell *cellAt(uintptr_t g, bool create)
{
    u32 *idx = (u32 *)CELLIDX; Cell *cells = (Cell *)CELLS;
    size_t i = (g*0x9E3779B97F4A7C15ull) >> (64-19);
    while (idx[i] != 0 and cells[idx[i]].key != g) i = (i+1) & (IDXN-1);
    if (idx[i] == 0)
    {
        if (not create) return nullptr;
        if (ncells >= NCELLS-1) { inSched = true; mc::fail("engine-limit", "too many memory cells"); mcrt_abort(); }
        idx[i] = ncells++;
        cells[idx[i]].key = g;
    }
    return &cells[idx[i]];
}
static inline bool freedBit(uintptr_t a)
{
    if (a < HEAPS or a >= HEAPS_END) return false;
    const size_t b = (a-HEAPS)/16;
    return ((u8 *)FREEMAP)[b/8] & (1 << (b%8));
}

static void reportRace(uintptr_t a, const Slot &o, bool w, bool atomic, void *pc)
{
    inSched = true;
    std::string m = std::string(w?"write":"read") + (atomic?" (atomic)":"") + " by thread " + std::to_string(cur) + " in " + symName(pc)
        + " races with " + ((o.flags & 1)?"write":"read") + ((o.flags & 2)?" (atomic)":"") + " by thread " + std::to_string(o.tid) + " in " + symName(o.pc);
    (void)a;
    mc::fail("data-race", m);
    mcrt_abort();
}

static void access1(uintptr_t a, size_t len, bool w, bool atomic, void *pc)
{
    // within one 8-byte granule
    Cell *c = cellAt(a >> 3, true);
    Thread &t = T[cur];
    const u8 mask = u8(((1u << len)-1) << (a & 7));
    int same = -1, empty = -1;
    for (int i = 0; i < 6; i++)
    {
        Slot &s = c->s[i];
        if (not (s.flags & 4)) { if (empty < 0) empty = i; continue; }
        if (s.tid == cur)
        {
            if (same < 0 and (s.flags & 3) == (u8(w?1:0)|u8(atomic?2:0)))
            {
                if (s.clk == t.vc.c[cur]) { s.mask |= mask; return_same: same = i; s.pc = pc; }
                else if ((s.mask & ~mask) == 0) { s.clk = t.vc.c[cur]; s.mask = mask; goto return_same; }
            }
            continue;
        }
        if ((s.mask & mask) and (w or (s.flags & 1)) and not (atomic and (s.flags & 2)) and s.clk > t.vc.c[s.tid])
        {
            if (SC->races) reportRace(a, s, w, atomic, pc);
        }
    }
    if (same >= 0) return;
    // prefer slots already ordered before us for replacement
    if (empty < 0)
    {
        for (int i = 0; i < 6 and empty < 0; i++) { Slot &s = c->s[i]; if (s.tid == cur and s.clk < t.vc.c[cur] and (s.flags & 1) <= (w?1:0)) empty = i; }
        if (empty < 0) { empty = c->next; c->next = (c->next+1)%6; }
    }
    c->s[empty] = Slot{t.vc.c[cur], u8(cur), mask, u8(4|(w?1:0)|(atomic?2:0)), 0, pc};
}
// threads are fibers of one system thread and share its thread-local variables, which are no shared data of the program
static uintptr_t tlsLo = 1, tlsHi = 0;
static void findTls(void)
{
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int
    {
        if (i->dlpi_tls_data) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            const uintptr_t lo = uintptr_t(i->dlpi_tls_data), hi = lo + i->dlpi_phdr[k].p_memsz, fs = uintptr_t(__builtin_thread_pointer());
            if (lo > fs or fs - lo > (1 << 20)) continue; // not in the static block
            if (tlsLo > tlsHi or lo < tlsLo) tlsLo = lo; if (tlsLo > tlsHi or hi > tlsHi) tlsHi = hi;
        }
        return 0;
    }, nullptr);
}
static void access(uintptr_t a, size_t len, bool w, bool atomic, void *pc)
{
    if (not on() or (a >= tlsLo and a < tlsHi)) return;
    if (freedBit(a) and not T[cur].ignoreRaces)
    {
        inSched = true;
        Cell *c = cellAt(a >> 3, false);
        mc::fail("use-after-free", std::string(w?"write":"read") + " by thread " + std::to_string(cur) + " in " + symName(pc) + " to freed memory" + ((c and c->freePc)?" (freed in " + symName(c->freePc) + ")":std::string()));
        mcrt_abort();
    }
    if (not multi() or T[cur].ignoreRaces) return;
    while (len)
    {
        size_t k = 8-(a & 7); if (k > len) k = len;
        access1(a, k, w, atomic, pc);
        a += k; len -= k;
    }
}

/***********************************************************************
 * heap
 **********************************************************************/
struct Hdr { size_t size; u64 magic; };
static const u64 MAGIC = 0x6d63727468656170ull, DEAD = 0x6465616468656170ull;
static bool childHeap = false;

static void *heapAlloc(size_t n, size_t align)
{
    uintptr_t &next = inSched?engineHeapNext:T[cur].heapNext;
    uintptr_t p = next + sizeof(Hdr);
    if (align < 16) align = 16;
    p = (p + align-1) & ~(align-1);
    const size_t sz = (n + 15) & ~size_t(15);
    next = p + (sz?sz:16);
    const uintptr_t lim = inSched?HEAPS_END:(HEAPS + (cur+1)*ARENA);
    if (next > lim) { const char m[] = "mcrt: arena exhausted\n"; (void)!write(2, m, sizeof(m)-1); _exit(3); }
    Hdr *h = (Hdr *)(p-sizeof(Hdr)); h->size = n; h->magic = MAGIC;
    return (void *)p;
}
static void heapFree(void *q, void *pc)
{
    const uintptr_t p = (uintptr_t)q;
    if (p < HEAPS or p >= HEAPS_END) return; // allocated before the execution started: kept
    Hdr *h = (Hdr *)(p-sizeof(Hdr));
    if (h->magic == DEAD)
    {
        inSched = true;
        mc::fail("double-free", "by thread " + std::to_string(cur) + " in " + symName(pc));
        if (active) mcrt_abort();
        return;
    }
    if (h->magic != MAGIC) return;
    if (on())
    {
        // freeing counts as writing the whole block
        if (multi() and not T[cur].ignoreRaces)
        {
            const size_t n = h->size < 512 ? h->size : 512;
            for (size_t o = 0; o < n; o += 8)
            {
                Cell *c = cellAt((p+o) >> 3, false);
                if (c) access1(p+o, (n-o < 8)?n-o:8, true, false, pc);
            }
        }
        Cell *c = cellAt(p >> 3, true); c->freePc = pc;
    }
    h->magic = DEAD;
    const size_t b0 = (p-HEAPS)/16, b1 = (p-HEAPS+(h->size?h->size:1)+15)/16;
    for (size_t b = b0; b < b1; b++) ((u8 *)FREEMAP)[b/8] |= (1 << (b%8));
}
extern "C" void *malloc(size_t n) { return childHeap?heapAlloc(n, 16):__libc_malloc(n); }
extern "C" void free(void *p) { if (p == nullptr) return; if (childHeap) heapFree(p, __builtin_return_address(0)); else __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) { if (not childHeap) return __libc_calloc(a, b); return heapAlloc(a*b, 16); /* fresh pages are zero */ }
extern "C" void *realloc(void *p, size_t n)
{
    if (not childHeap) return __libc_realloc(p, n);
    if (p == nullptr) return heapAlloc(n, 16);
    size_t old = ((uintptr_t)p >= HEAPS and (uintptr_t)p < HEAPS_END)?((Hdr *)((uintptr_t)p-sizeof(Hdr)))->size:malloc_usable_size(p);
    void *q = heapAlloc(n, 16); memcpy(q, p, old < n ? old : n); heapFree(p, __builtin_return_address(0)); return q;
}
extern "C" void *memalign(size_t al, size_t n) { return childHeap?heapAlloc(n, al):__libc_memalign(al, n); }
extern "C" void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void **p, size_t al, size_t n) { *p = memalign(al, n); return *p?0:ENOMEM; }
// operator new/delete: so that the reported location is the caller and libstdc++ is not involved
void *operator new(size_t n) { return malloc(n?n:1); }
void *operator new[](size_t n) { return malloc(n?n:1); }
void operator delete(void *p) noexcept { if (p == nullptr) return; if (childHeap) heapFree(p, __builtin_return_address(0)); else __libc_free(p); }
void operator delete[](void *p) noexcept { if (p == nullptr) return; if (childHeap) heapFree(p, __builtin_return_address(0)); else __libc_free(p); }
void operator delete(void *p, size_t) noexcept { if (p == nullptr) return; if (childHeap) heapFree(p, __builtin_return_address(0)); else __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { if (p == nullptr) return; if (childHeap) heapFree(p, __builtin_return_address(0)); else __libc_free(p); }

/***********************************************************************
 * instrumentation entry points
 **********************************************************************/
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, false, PC); }
#define RW(n) \
void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, false, PC); } \
void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, false, PC); } \
void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, false, PC); } \
void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, false, PC); } \
void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, false, PC); } \
void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void *p) { access((uintptr_t)p, n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void *p) { access((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, false, PC); }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n and on()) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n and on()) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n and on()) access((uintptr_t)d, n, true, false, PC); return __real_memset(d, c, n); }
}

static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE or mo == __ATOMIC_ACQ_REL or mo == __ATOMIC_SEQ_CST; }

static void afterLoad(Sync *s, int mo)
{
    if (not s->hasVc) return;
    if (isAcq(mo)) vcJoin(T[cur].vc, s->vc);
    else vcJoin(T[cur].acqPending, s->vc);
}
static void afterStore(Sync *s, int mo, bool rmw)
{
    Thread &t = T[cur];
    if (isRel(mo))
    {
        if (not (rmw and s->hasVc)) memset(&s->vc, 0, sizeof(VC));
        release(s->vc, true); s->hasVc = true;
    }
    else if (t.hasRelFence)
    {
        if (not (rmw and s->hasVc)) memset(&s->vc, 0, sizeof(VC));
        vcJoin(s->vc, t.relFence); s->hasVc = true;
    }
    else if (not rmw) { s->hasVc = false; }
}
// an initialised guard never changes again: reading it is neither polling nor worth a switch
static const u32 guardMark = 0x4d436772;
static inline bool isGuard(uintptr_t a) { return a % 8 == 0 and *(volatile u8 *)a == 1 and ((volatile u32 *)a)[1] == guardMark; }
template <typename X> static X atLoad(const volatile X *p, int mo, void *pc)
{
    if (not on()) return *p;
    if (sizeof(X) == 1 and isGuard((uintptr_t)p)) { afterLoad(getSync((uintptr_t)p), mo); return *p; }
    Sync *s = getSync((uintptr_t)p);
    pointAt(s, "atomic load");
    access((uintptr_t)p, sizeof(X), false, true, pc);
    X v = *p;
    afterLoad(s, mo);
    noEffect(s, pc);
    // a polling thread was parked here: deliver the value at the time it continues
    if (multi()) { v = *p; afterLoad(s, mo); }
    return v;
}
template <typename X> static void atStore(volatile X *p, X v, int mo, void *pc)
{
    if (not on()) { *p = v; return; }
    Sync *s = getSync((uintptr_t)p);
    pointAt(s, "atomic store");
    access((uintptr_t)p, sizeof(X), true, true, pc);
    *p = v;
    afterStore(s, mo, false);
    effect(s);
}
template <typename X, typename F> static X atRmw(volatile X *p, F f, int mo, void *pc)
{
    if (not on()) { X o = *p; *p = f(o); return o; }
    Sync *s = getSync((uintptr_t)p);
    pointAt(s, "atomic rmw");
    while (true)
    {
        access((uintptr_t)p, sizeof(X), true, true, pc);
        X o = *p; X n = f(o); *p = n;
        afterLoad(s, mo);
        if (o != n) { afterStore(s, mo, true); effect(s); return o; }
        // an exchange that changes nothing (a failed test-and-set) is treated as polling
        if (isRel(mo)) afterStore(s, mo, true);
        const u64 st = stepCount;
        noEffect(s, pc);
        if (stepCount == st or *p == o) return o; // not parked, or still the same
        // parked and the value changed meanwhile: redo, as if the operation happened only now
    }
}
template <typename X> static bool atCas(volatile X *p, X *exp, X v, int mo, int fmo, void *pc)
{
    if (not on()) { if (*p == *exp) { *p = v; return true; } *exp = *p; return false; }
    Sync *s = getSync((uintptr_t)p);
    pointAt(s, "atomic cas");
    access((uintptr_t)p, sizeof(X), true, true, pc);
    if (*p == *exp)
    {
        *p = v; afterLoad(s, mo); afterStore(s, mo, true); effect(s);
        return true;
    }
    *exp = *p;
    afterLoad(s, fmo);
    noEffect(s, pc);
    return false;
}
#define ATOM(bits, X) extern "C" { \
X __tsan_atomic##bits##_load(const volatile X *p, int mo) { return atLoad<X>(p, mo, PC); } \
void __tsan_atomic##bits##_store(volatile X *p, X v, int mo) { atStore<X>(p, v, mo, PC); } \
X __tsan_atomic##bits##_exchange(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X){return v;}, mo, PC); } \
X __tsan_atomic##bits##_fetch_add(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(o+v);}, mo, PC); } \
X __tsan_atomic##bits##_fetch_sub(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(o-v);}, mo, PC); } \
X __tsan_atomic##bits##_fetch_and(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(o&v);}, mo, PC); } \
X __tsan_atomic##bits##_fetch_or(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(o|v);}, mo, PC); } \
X __tsan_atomic##bits##_fetch_xor(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(o^v);}, mo, PC); } \
X __tsan_atomic##bits##_fetch_nand(volatile X *p, X v, int mo) { return atRmw<X>(p, [v](X o){return X(~(o&v));}, mo, PC); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile X *p, X *e, X v, int mo, int fmo) { return atCas<X>(p, e, v, mo, fmo, PC); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile X *p, X *e, X v, int mo, int fmo) { return atCas<X>(p, e, v, mo, fmo, PC); } \
X __tsan_atomic##bits##_compare_exchange_val(volatile X *p, X e, X v, int mo, int fmo) { atCas<X>(p, &e, v, mo, fmo, PC); return e; } \
}
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (not on()) return;
    Thread &t = T[cur];
    if (isAcq(mo)) vcJoin(t.vc, t.acqPending);
    if (isRel(mo)) { t.relFence = t.vc; t.hasRelFence = true; t.vc.c[cur]++; }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

/***********************************************************************
 * pthread replacements
 **********************************************************************/
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void mutexAcquired(Sync *s)
{
    s->owner = cur; s->count = 1;
    if (s->hasVc) vcJoin(T[cur].vc, s->vc);
    effect(s);
}
static int mutexLock(pthread_mutex_t *m, bool timed, u64 deadline)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)m);
    pointAt(s, "mutex lock");
    if (s->owner == cur)
    {
        if (recursive(m)) { s->count++; return 0; }
        rtFail("self-deadlock", "thread locks a mutex it holds: " + describe());
    }
    while (s->owner != -1)
    {
        Thread &t = T[cur];
        t.st = T_MUTEX; t.obj = (uintptr_t)m; t.op = "mutex lock";
        (void)timed; (void)deadline;
        schedule(false, true, "mutex wait");
        T[cur].st = T_RUN; T[cur].op = nullptr;
    }
    mutexAcquired(s);
    return 0;
}
static int mutexUnlock(pthread_mutex_t *m)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)m);
    touched(s);
    if (s->owner != cur)
    {
        if (s->owner == -1) return 0; // locked before the execution started
        rtFail("bad-unlock", "mutex unlocked by a thread that does not hold it: " + describe());
    }
    if (--s->count > 0) return 0;
    s->owner = -1;
    if (not s->hasVc) { memset(&s->vc, 0, sizeof(VC)); s->hasVc = true; }
    release(s->vc, true);
    effect(s);
    return 0;
}
static u64 absToNs(const struct timespec *ts) { return u64(ts->tv_sec)*1000000000ull + ts->tv_nsec; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 deadline)
{
    if (not on()) return 0;
    Sync *cs = getSync((uintptr_t)c);
    Sync *ms = getSync((uintptr_t)m);
    pointAt(cs, "condition wait");
    if (ms->owner != cur) rtFail("bad-wait", "condition wait without holding the mutex");
    const int cnt = ms->count; ms->count = 1;
    mutexUnlock(m);
    Thread &t = T[cur];
    t.st = T_COND; t.obj = (uintptr_t)c; t.timed = timed; t.deadline = deadline; t.timedOut = false; t.notified = false; t.op = "condition wait";
    schedule(false, true, "condition wait");
    Thread &t2 = T[cur];
    t2.st = T_RUN; t2.op = nullptr; t2.nne = 0;
    const bool to = t2.timedOut;
    // re-acquire
    while (ms->owner != -1)
    {
        T[cur].st = T_MUTEX; T[cur].obj = (uintptr_t)m; T[cur].op = "mutex lock after wait";
        schedule(false, true, "mutex wait");
        T[cur].st = T_RUN; T[cur].op = nullptr;
    }
    mutexAcquired(ms); ms->count = cnt;
    return to?ETIMEDOUT:0;
}
static int condNotify(pthread_cond_t *c, bool all)
{
    if (not on()) return 0;
    Sync *cs = getSync((uintptr_t)c);
    pointAt(cs, "notify");
    int w[MAXT]; int n = 0;
    for (int i = 0; i < nthreads; i++) if (T[i].st == T_COND and T[i].obj == (uintptr_t)c and not T[i].notified) w[n++] = i;
    T[cur].nne = 0;
    if (n == 0) return 0;
    effect(cs);
    if (all) for (int i = 0; i < n; i++) { T[w[i]].notified = true; T[w[i]].hh = mix(T[w[i]].hh, cs->hh); }
    else
    {
        inSched = true;
        const int k = mcint::choicePoint(n, 0, "which waiter");
        inSched = false;
        T[w[k]].notified = true; T[w[k]].hh = mix(T[w[k]].hh, cs->hh);
    }
    effectCount++;
    return 0;
}
static int spawn(void *(*fn)(void *), void *arg)
{
    // a new slot, or that of a thread whose end happened before this moment
    int id = nthreads;
    if (id >= MAXT) { for (id = 1; id < MAXT; id++) if (T[id].st == T_DONE and T[id].joined and T[cur].vc.c[id] >= T[id].endClk) break; }
    if (id >= MAXT) rtFail("engine-limit", "too many threads");
    const bool fresh = id == nthreads; if (fresh) nthreads++;
    Thread &t = T[id];
    const uintptr_t heapNext = fresh?HEAPS + id*ARENA + 64:t.heapNext; const u32 clk = fresh?0:t.vc.c[id]; const u64 hh = fresh?0:t.hh;
    memset((void *)&t, 0, sizeof(t));
    t.id = id; t.st = T_RUN; t.fn = fn; t.arg = arg;
    t.heapNext = heapNext;
    t.vc = T[cur].vc; t.vc.c[id] = clk + 1; T[cur].vc.c[cur]++;
    T[cur].hh = mix(T[cur].hh, 7000+id); t.hh = fresh?T[cur].hh:mix(T[cur].hh, hh);
    prepareStack(t);
    liveCount++;
    effectCount++;
    T[cur].nne = 0;
    return id;
}
static void fiberExit(void)
{
    Thread &t = T[cur];
    t.st = T_DONE; t.endClk = t.vc.c[cur]; liveCount--;
    effectCount++;
    if (cur == 0)
    {
        if (liveCount > 0)
        {
            rtFail("threads-left", "the scenario ended with running threads: " + describe());
        }
        mcrt_abort();
    }
    schedule(false, true, "thread end");
    __builtin_unreachable();
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { return mutexLock(m, false, 0); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return mutexUnlock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)m);
    pointAt(s, "mutex trylock");
    if (s->owner == cur and recursive(m)) { s->count++; return 0; }
    if (s->owner != -1) { noEffect(s, PC); return EBUSY; }
    mutexAcquired(s);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return mutexLock(m, true, absToNs(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return mutexLock(m, true, absToNs(ts)); }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t *c)
{
    if (on()) for (int i = 0; i < nthreads; i++) if (T[i].st == T_COND and T[i].obj == (uintptr_t)c and not T[i].notified and i != cur)
        rtFail("cond-destroyed", "condition variable destroyed while a thread waits on it: " + describe());
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return condWait(c, m, true, absToNs(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return condWait(c, m, true, absToNs(ts)); }
int pthread_cond_signal(pthread_cond_t *c) { return condNotify(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return condNotify(c, true); }

int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (not on()) { const char m[] = "mcrt: thread created outside an execution\n"; (void)!write(2, m, sizeof(m)-1); return EAGAIN; }
    const int id = spawn(fn, arg);
    *th = pthread_t(0x7000 + id*16);
    schedule(true, true, "thread create");
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    if (not on()) return 0;
    const int id = (int(th)-0x7000)/16;
    if (id <= 0 or id >= nthreads) rtFail("bad-join", "join of an unknown thread");
    if (id == cur) rtFail("self-join", "a thread joins itself: " + describe());
    if (T[id].joined) rtFail("bad-join", "thread joined twice");
    T[cur].nne = 0;
    while (T[id].st != T_DONE)
    {
        T[cur].st = T_JOIN; T[cur].joinTarget = id; T[cur].op = "join";
        schedule(false, true, "join");
        T[cur].st = T_RUN; T[cur].op = nullptr;
    }
    T[id].joined = true;
    vcJoin(T[cur].vc, T[id].vc);
    T[cur].hh = mix(T[cur].hh, T[id].hh);
    if (ret) *ret = T[id].ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return active?pthread_t(0x7000 + cur*16):pthread_t(0x7000); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield(void)
{
    if (not on() or not multi()) return 0;
    Thread &t = T[cur];
    t.st = T_SPIN; t.resumeAt = vclock + 10000; t.op = "yield";
    schedule(false, true, "yield");
    T[cur].op = nullptr;
    return 0;
}
static void sleepNs(u64 ns)
{
    Thread &t = T[cur];
    if (not multi()) { vclock += ns; if (++timeoutCount > SC->maxTimeouts) rtFail("no-progress", "sleeping forever: " + describe()); mc_skip_event(); return; }
    t.st = T_SLEEP; t.deadline = vclock + ns; t.timed = true; t.op = "sleep"; t.nne = 0;
    schedule(false, true, "sleep");
    T[cur].op = nullptr; T[cur].timed = false;
}
int nanosleep(const struct timespec *ts, struct timespec *)
{
    if (not on()) { return syscall(SYS_nanosleep, ts, nullptr); }
    sleepNs(absToNs(ts)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem)
{
    if (not on()) return syscall(SYS_clock_nanosleep, c, fl, ts, rem);
    u64 d = absToNs(ts);
    if (fl & TIMER_ABSTIME) d = (d > vclock)?d-vclock:0;
    sleepNs(d); return 0;
}
int usleep(useconds_t us) { struct timespec ts = {time_t(us/1000000), long(us%1000000)*1000}; return nanosleep(&ts, nullptr); }
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (not active) return syscall(SYS_clock_gettime, c, ts);
    vclock += 1000; T[cur].hh = mix(T[cur].hh, vclock);
    ts->tv_sec = vclock/1000000000ull; ts->tv_nsec = vclock%1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000; return 0;
}
// thread configuration calls have no effect on the sandbox
int pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
int pthread_getschedparam(pthread_t, int *, struct sched_param *) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int pthread_getaffinity_np(pthread_t, size_t, cpu_set_t *) { return 0; }
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    volatile int *p = (volatile int *)o;
    if (not on()) { if (*p != 2) { *p = 2; fn(); } return 0; }
    Sync *s = getSync((uintptr_t)o);
    while (*p == 1) sched_yield();
    if (*p == 2) { if (s->hasVc) vcJoin(T[cur].vc, s->vc); return 0; }
    *p = 1; fn(); *p = 2;
    memset(&s->vc, 0, sizeof(VC)); s->hasVc = true; release(s->vc, true);
    return 0;
}
// read/write locks
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)l);
    pointAt(s, "rdlock");
    while (s->owner != -1) { T[cur].st = T_SPIN; T[cur].nne = 1; T[cur].ne[0] = NoEff{nullptr, s->addr, s->ver}; T[cur].resumeAt = vclock+100000; T[cur].op = "rdlock"; schedule(false, true, "rdlock"); T[cur].op = nullptr; }
    s->readers++; if (s->hasVc) vcJoin(T[cur].vc, s->vc); effect(s); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)l);
    pointAt(s, "wrlock");
    while (s->owner != -1 or s->readers) { T[cur].st = T_SPIN; T[cur].nne = 1; T[cur].ne[0] = NoEff{nullptr, s->addr, s->ver}; T[cur].resumeAt = vclock+100000; T[cur].op = "wrlock"; schedule(false, true, "wrlock"); T[cur].op = nullptr; }
    mutexAcquired(s); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)l); pointAt(s, "tryrdlock");
    if (s->owner != -1) { noEffect(s, PC); return EBUSY; }
    s->readers++; if (s->hasVc) vcJoin(T[cur].vc, s->vc); effect(s); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)l); pointAt(s, "trywrlock");
    if (s->owner != -1 or s->readers) { noEffect(s, PC); return EBUSY; }
    mutexAcquired(s); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (not on()) return 0;
    Sync *s = getSync((uintptr_t)l); touched(s);
    if (s->owner == cur) s->owner = -1; else if (s->readers > 0) s->readers--;
    if (not s->hasVc) { memset(&s->vc, 0, sizeof(VC)); s->hasVc = true; }
    release(s->vc, true); effect(s); return 0;
}
}
extern "C" int __cxa_guard_acquire(u64 *g)
{
    volatile u8 *b = (volatile u8 *)g;
    if (not on()) { if (b[0]) return 0; return 1; }
    Sync *s = getSync((uintptr_t)g);
    if (b[0]) { if (s->hasVc) vcJoin(T[cur].vc, s->vc); return 0; }
    pointAt(s, "static init");
    while (not b[0] and b[1])
    {
        T[cur].st = T_GUARD; T[cur].obj = (uintptr_t)g; T[cur].op = "static init";
        schedule(false, true, "static init");
        T[cur].st = T_RUN; T[cur].op = nullptr;
    }
    if (b[0]) { if (s->hasVc) vcJoin(T[cur].vc, s->vc); return 0; }
    b[1] = 1; effect(s);
    return 1;
}
extern "C" void __cxa_guard_release(u64 *g)
{
    volatile u8 *b = (volatile u8 *)g;
    b[0] = 1; b[1] = 0; ((volatile u32 *)g)[1] = guardMark;
    if (not on()) return;
    Sync *s = getSync((uintptr_t)g);
    memset(&s->vc, 0, sizeof(VC)); s->hasVc = true; release(s->vc, true); effect(s);
}
extern "C" void __cxa_guard_abort(u64 *g)
{
    volatile u8 *b = (volatile u8 *)g; b[1] = 0;
    if (on()) effect(getSync((uintptr_t)g));
}

/***********************************************************************
 * harness interface
 **********************************************************************/
void mc::point(const char *tag)
{
    if (not on()) return;
    T[cur].nne = 0;
    if (not multi()) { mc_skip_event(); return; }
    schedule(true, true, tag);
}
void mc::await(const std::function<bool(void)> &pred)
{
    if (not on()) return;
    T[cur].nne = 0;
    inSched = true; const bool now = pred(); inSched = false;
    if (not now)
    {
        T[cur].st = T_AWAIT; T[cur].pred = &pred; T[cur].op = "await";
        schedule(false, true, "await");
        T[cur].st = T_RUN; T[cur].op = nullptr;
    }
    for (int i = 0; i < nthreads; i++) if (i != cur) { vcJoin(T[cur].vc, T[i].vc); T[i].vc.c[i]++; T[cur].hh = mix(T[cur].hh, T[i].hh); }
}
int mc::self(void) { return cur; }
unsigned long long mc::now(void) { return stepCount; }
void mc::quiet(bool on) { if (active) quietMode = on; }
void mc::ignoreRaces(bool on) { if (active) T[cur].ignoreRaces = on; }
static struct { int excl; int shared; } regions[64];
void mc::enter(int r, bool shared)
{
    if (not on()) return;
    if (regions[r].excl or (not shared and regions[r].shared))
        rtFail("overlap", "two threads inside exclusive region " + std::to_string(r) + ": " + describe());
    effect(getSync(0x100 + r));
    if (shared) regions[r].shared++; else regions[r].excl++;
}
void mc::leave(int r, bool shared)
{
    if (not on()) return;
    effect(getSync(0x100 + r));
    if (shared) regions[r].shared--; else regions[r].excl--;
}

static void *mainBody(void *) { SC->body(); return nullptr; }

extern "C" void mcrt_run(const mc::Scenario *sc)
{
    SC = sc;
    regionInit();
    syncTab = (Sync *)mmap(nullptr, NSYNC*sizeof(Sync), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    __libc_single_threaded = 0;
    engineHeapNext = HEAPS + MAXT*ARENA + 64;
    vclock = 1000000000000000ull;
    nthreads = 0; liveCount = 0; cur = 0;
    memset((void *)&T[0], 0, sizeof(T[0]));
    nthreads = 1; liveCount = 1;
    T[0].st = T_RUN; T[0].fn = &mainBody; T[0].heapNext = HEAPS + 64; T[0].vc.c[0] = 1;
    prepareStack(T[0]);
    childHeap = true;
    if (tlsLo > tlsHi) findTls();
    active = true; inSched = false;
    mcrt_switch(&nativeSp, T[0].sp);
    // back: the execution is over
    active = false; inSched = true;
}
