// Bounded-exhaustive exploration engine.
// Depth-first enumeration of all choice vectors within a deviation bound, work shared between processes.
#include "mcint.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace mcint;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

static double realNow(void)
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec*1e-9;
}
static void realSleepUs(long us)
{
    struct timespec ts = {us/1000000, (us%1000000)*1000};
    syscall(SYS_nanosleep, &ts, nullptr);
}

/***********************************************************************
 * shared memory
 **********************************************************************/
enum { MAXW = 64, QSLOTS = 512, MSGLEN = 3000, ADDRBITS = 16, STATEBITS = 23, OUTBITS = 17, CACHEBITS = 23, KNOWNMAX = 64, SIGLEN = 160 };

struct Slot // a prefix to explore
{
    u32 len;
    u16 choice[MAXPOINTS];
    u16 n[MAXPOINTS];
};
struct WorkerArea
{
    // current execution
    std::atomic<u32> npts;
    u16 n[MAXPOINTS];
    u16 choice[MAXPOINTS];
    uint8_t cost[MAXPOINTS];
    u32 ev[MAXPOINTS];
    std::atomic<u64> execs, steps, points, maxDepth, maxCost;
    u64 byCost[16];
    // failure of the current execution
    std::atomic<int> failedFlag; // 0 no, 1 violation, 2 engine error, 3 known finding
    char sig[SIGLEN];
    char msg[MSGLEN];
    int finished; // set by a forked child that completed
};
struct Shared
{
    std::atomic<int> stop; // 0 run, 1 violation, 2 restart (new shared addresses), 3 deadline, 4 engine error
    std::atomic<int> violWorker;
    std::atomic<int> qlock;
    std::atomic<int> qcount;
    std::atomic<int> idle;
    std::atomic<int> nworkers;
    std::atomic<u64> states, outcomes, stateOverflow;
    std::atomic<u64> addrCount, addrNew;
    std::atomic<u32> knownHits[KNOWNMAX];
    Slot slots[QSLOTS];
    WorkerArea w[MAXW];
    std::atomic<u64> addrActive[1 << ADDRBITS];
    std::atomic<u64> addrFound[1 << ADDRBITS];
    std::atomic<u64> stateTab[1 << STATEBITS];
    std::atomic<u64> outTab[1 << OUTBITS];
    std::atomic<u64> cacheCount, pruned;
    std::atomic<u64> cacheTab[1 << CACHEBITS];
};
static Shared *S;

void *mcint::rawMmap(size_t len)
{
    void *p = mmap(nullptr, len, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}

static bool tabAdd(std::atomic<u64> *tab, int bits, u64 key, std::atomic<u64> &count)
{
    if (key == 0) key = 1;
    const u64 mask = (u64(1) << bits)-1;
    if (count.load(std::memory_order_relaxed) > (mask/4)*3) return false;
    u64 i = (key*0x9E3779B97F4A7C15ull) >> (64-bits);
    while (true)
    {
        u64 v = tab[i].load(std::memory_order_relaxed);
        if (v == key) return false;
        if (v == 0)
        {
            if (tab[i].compare_exchange_strong(v, key)) { count++; return true; }
            if (v == key) return false;
        }
        i = (i+1) & mask;
    }
}
static bool tabHas(std::atomic<u64> *tab, int bits, u64 key)
{
    if (key == 0) key = 1;
    const u64 mask = (u64(1) << bits)-1;
    u64 i = (key*0x9E3779B97F4A7C15ull) >> (64-bits);
    while (true)
    {
        u64 v = tab[i].load(std::memory_order_relaxed);
        if (v == key) return true;
        if (v == 0) return false;
        i = (i+1) & mask;
    }
}

/***********************************************************************
 * per process execution state
 **********************************************************************/
static WorkerArea *W = nullptr;
static const mc::Scenario *curSc = nullptr;
static int curBound = 0;
static u32 prefixLen = 0;
static const u16 *prefixChoice = nullptr;
static const u16 *prefixN = nullptr;
static u32 costUsed = 0;
static bool replaying = false;
static std::map<u32, int> replayMap; // event index -> choice
static u32 evIndex = 0;
static std::vector<std::string> traceLines;
static std::vector<std::string> knownSigs;
static bool doTrace = false;

static void engineError(const std::string &msg)
{
    if (W and W->failedFlag == 0)
    {
        W->failedFlag = 2;
        snprintf(W->msg, MSGLEN, "%s", msg.c_str());
        snprintf(W->sig, SIGLEN, "engine");
    }
    if (mcrt_active and mcrt_active()) mcrt_abort();
}

int mcint::choicePoint(int n, int cost, const char *tag)
{
    (void)tag;
    const u32 ev = evIndex++;
    if (n <= 1) return 0;
    if (replaying)
    {
        auto it = replayMap.find(ev);
        const int c = (it == replayMap.end())?0:it->second;
        if (c >= n) { engineError("replay choice out of range"); return 0; }
        const u32 i = W->npts++;
        if (i < MAXPOINTS) { W->n[i] = n; W->choice[i] = c; W->cost[i] = cost; W->ev[i] = ev; }
        return c;
    }
    const u32 i = W->npts.load(std::memory_order_relaxed);
    if (i >= MAXPOINTS) { engineError("too many choice points"); return 0; }
    int c = 0;
    if (i < prefixLen)
    {
        c = prefixChoice[i];
        if (prefixN[i] != n or c >= n)
        {
            char b[200]; snprintf(b, sizeof(b), "divergence at point %u (%s): n=%d expected %d choice %d", i, tag, n, int(prefixN[i]), c);
            engineError(b);
            c = 0;
        }
    }
    if (c != 0) costUsed += cost;
    W->n[i] = n; W->choice[i] = c; W->cost[i] = cost; W->ev[i] = ev;
    W->npts.store(i+1, std::memory_order_relaxed);
    return c;
}
// used by the run-time for points that can not branch (keeps event numbering for replays)
extern "C" void mc_skip_event(void) { evIndex++; }

int mc::choose(int n, const char *tag) { const int c = choicePoint(n, 0, tag); if (mcrt_note) mcrt_note(c+1); return c; }
int mc::deviate(int n, const char *tag) { const int c = choicePoint(n, 1, tag); if (mcrt_note) mcrt_note(c+1); return c; }

static bool cacheSeen(u64 key, u64 budget);
bool mc::visit(uint64_t h, unsigned depthLeft)
{
    state(h);
    if (replaying or W->npts.load(std::memory_order_relaxed) < prefixLen) return true;
    return not cacheSeen(h, std::min<u64>(depthLeft, 62)+1);
}
bool mc::fresh(void) { return replaying or W->npts.load(std::memory_order_relaxed) >= prefixLen; }
bool mcint::cachePrune(u64 key)
{
    if (replaying or not curSc->cache or W->npts.load(std::memory_order_relaxed) < prefixLen) return false;
    return cacheSeen(key, std::min<u64>(curBound-std::min<u32>(costUsed, curBound), 62)+1);
}
static bool cacheSeen(u64 key, u64 budget)
{
    key &= ~u64(63); if (key == 0) key = 64;
    const u64 mask = (u64(1) << CACHEBITS)-1;
    u64 i = (key*0x9E3779B97F4A7C15ull) >> (64-CACHEBITS);
    while (true)
    {
        u64 v = S->cacheTab[i].load(std::memory_order_relaxed);
        if (v == 0)
        {
            if (S->cacheCount.load(std::memory_order_relaxed) > (mask/4)*3) return false;
            if (S->cacheTab[i].compare_exchange_strong(v, key|budget)) { S->cacheCount++; return false; }
        }
        while ((v & ~u64(63)) == key)
        {
            if ((v & 63) >= budget) { S->pruned++; return true; }
            if (S->cacheTab[i].compare_exchange_strong(v, key|budget)) return false;
        }
        i = (i+1) & mask;
    }
}

void mc::fail(const std::string &sig, const std::string &msg)
{
    if (W == nullptr) { fprintf(stderr, "fail outside execution: %s %s\n", sig.c_str(), msg.c_str()); _exit(3); }
    if (W->failedFlag == 0)
    {
        int kind = 1;
        for (size_t i = 0; i < knownSigs.size() and i < KNOWNMAX; i++)
            if (knownSigs[i] == sig) { kind = 3; S->knownHits[i]++; }
        snprintf(W->sig, SIGLEN, "%s", sig.c_str());
        snprintf(W->msg, MSGLEN, "%s", msg.c_str());
        W->failedFlag = kind;
        if (doTrace) traceLines.push_back("FAIL " + sig + ": " + msg);
    }
    if (mcrt_active and mcrt_active()) mcrt_abort();
}
bool mc::failed(void) { return W->failedFlag != 0; }
void mc::state(uint64_t h)
{
    if (not tabAdd(S->stateTab, STATEBITS, h, S->states) and S->states.load(std::memory_order_relaxed) > (u64(1) << STATEBITS)/4*3 - 2)
        S->stateOverflow.store(1, std::memory_order_relaxed);
}
void mc::step(size_t n) { W->steps.store(W->steps.load(std::memory_order_relaxed)+n, std::memory_order_relaxed); }
void mcint::countStep(void) { mc::step(1); }
void mc::outcome(uint64_t h) { tabAdd(S->outTab, OUTBITS, h, S->outcomes); }
bool mc::tracing(void) { return doTrace; }
void mc::trace(const std::string &line) { if (doTrace) traceLines.push_back(line); }

bool mcint::addrIsShared(uintptr_t a) { return tabHas(S->addrActive, ADDRBITS, a); }
void mcint::addrMarkShared(uintptr_t a)
{
    if (replaying) return;
    if (tabHas(S->addrActive, ADDRBITS, a)) return;
    tabAdd(S->addrFound, ADDRBITS, a, S->addrNew);
}

/***********************************************************************
 * executing one choice vector
 **********************************************************************/
static void resetExec(void)
{
    W->npts = 0; W->failedFlag = 0; W->sig[0] = 0; W->msg[0] = 0; W->finished = 0;
    costUsed = 0; evIndex = 0; traceLines.clear();
}

static void runBody(void)
{
    if (curSc->threaded) { mcrt_run(curSc); return; }
    try { curSc->body(); }
    catch (const std::exception &ex) { mc::fail("uncaught-exception", ex.what()); }
    catch (...) { mc::fail("uncaught-exception", "unknown type"); }
}

static const char *signame(int s)
{
    static char b[64]; snprintf(b, sizeof(b), "signal %d (%s)", s, strsignal(s)); return b;
}

// returns false when the process running it died
static void execOnce(int hangLimit)
{
    resetExec();
    if (curSc->threaded or curSc->isolate)
    {
        pid_t pid = fork();
        if (pid < 0) { engineError("fork failed"); return; }
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm(hangLimit);
            runBody();
            W->finished = 1;
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {}
        if (not W->finished and W->failedFlag == 0)
        {
            const bool hang = WIFSIGNALED(st) and WTERMSIG(st) == SIGALRM;
            snprintf(W->sig, SIGLEN, "%s", hang?"hang":"crash");
            if (WIFSIGNALED(st)) snprintf(W->msg, MSGLEN, "execution ended by %s", signame(WTERMSIG(st)));
            else snprintf(W->msg, MSGLEN, "execution exited with status %d (uncaught exception, abort or memory error)", WEXITSTATUS(st));
            W->failedFlag = 1;
        }
    }
    else runBody();
    const u32 np = std::min<u32>(W->npts, MAXPOINTS);
    W->execs.store(W->execs.load(std::memory_order_relaxed)+1, std::memory_order_relaxed);
    W->points.store(W->points.load(std::memory_order_relaxed)+np, std::memory_order_relaxed);
    if (np > W->maxDepth) W->maxDepth = np;
    u32 c = 0; for (u32 i = 0; i < np; i++) if (W->choice[i] != 0) c += W->cost[i];
    if (c > W->maxCost) W->maxCost = c;
    W->byCost[std::min<u32>(c, 15)]++;
}

/***********************************************************************
 * worker
 **********************************************************************/
static void qlock(void) { int e; int spins = 0; do { e = 0; if (++spins > 100) realSleepUs(20); } while (not S->qlock.compare_exchange_weak(e, 1)); }
static void qunlock(void) { S->qlock = 0; }

struct Exec { std::vector<u16> choice, n; };
struct Pending { std::shared_ptr<Exec> base; u32 at; u16 alt; };

static volatile u64 tickExecs = ~u64(0);
static volatile int tickSame = 0;
static void onTick(int)
{
    const u64 e = W->execs;
    if (e == tickExecs)
    {
        if (++tickSame >= 4)
        {
            if (W->failedFlag == 0) { snprintf(W->sig, SIGLEN, "hang"); snprintf(W->msg, MSGLEN, "execution does not finish"); W->failedFlag = 1; }
            int z = 0; S->violWorker.compare_exchange_strong(z, int(W - S->w)+1); z = 0; S->stop.compare_exchange_strong(z, 1);
            _exit(77);
        }
    }
    else { tickExecs = e; tickSame = 0; }
}

static void workerMain(int wi, double deadline)
{
    W = &S->w[wi];
    if (curSc->setup)
    {
        try { curSc->setup(); }
        catch (const std::exception &ex)
        {
            engineError(std::string("scenario setup: ") + ex.what());
            int z = 0; S->violWorker.compare_exchange_strong(z, wi+1); z = 0; S->stop.compare_exchange_strong(z, 4);
            _exit(0);
        }
    }
    if (not curSc->threaded and not curSc->isolate)
    {
        struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onTick; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
        struct itimerval it = {{5, 0}, {5, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    }
    std::deque<Pending> stack;
    std::vector<u16> pc, pn;
    bool idle = false;
    u64 tick = 0;
    while (S->stop == 0)
    {
        bool have = false;
        if (not stack.empty())
        {
            Pending p = stack.back(); stack.pop_back();
            pc.assign(p.base->choice.begin(), p.base->choice.begin()+p.at); pc.push_back(p.alt);
            pn.assign(p.base->n.begin(), p.base->n.begin()+p.at+1);
            have = true;
        }
        else
        {
            qlock();
            if (S->qcount > 0)
            {
                Slot &s = S->slots[--S->qcount];
                pc.assign(s.choice, s.choice+s.len); pn.assign(s.n, s.n+s.len);
                have = true;
                if (idle) { S->idle--; idle = false; }
            }
            else if (not idle) { S->idle++; idle = true; }
            const bool done = S->idle == S->nworkers and S->qcount == 0;
            qunlock();
            if (not have) { if (done) break; realSleepUs(200); continue; }
        }
        prefixLen = pc.size(); prefixChoice = pc.data(); prefixN = pn.data();
        execOnce(60);
        if (W->failedFlag == 1 or W->failedFlag == 2)
        {
            int z = 0;
            S->violWorker.compare_exchange_strong(z, wi+1);
            z = 0; S->stop.compare_exchange_strong(z, (W->failedFlag == 1)?1:4);
            break;
        }
        if (curSc->threaded and S->addrNew > 0) { int z = 0; S->stop.compare_exchange_strong(z, 2); break; }
        // schedule the alternatives
        const u32 np = W->npts;
        auto ex = std::make_shared<Exec>();
        ex->choice.assign(W->choice, W->choice+np); ex->n.assign(W->n, W->n+np);
        u32 used = 0;
        for (u32 i = 0; i < np; i++)
        {
            if (i >= prefixLen and used + W->cost[i] <= u32(curBound))
            {
                for (int a = W->n[i]-1; a >= 1; a--) stack.push_back(Pending{ex, i, u16(a)});
            }
            if (W->choice[i] != 0) used += W->cost[i];
        }
        // the scheme above explores deep alternatives first; donate shallow ones
        while (S->idle > 0 and stack.size() > 1 and S->qcount < QSLOTS)
        {
            qlock();
            bool gave = false;
            if (S->qcount < QSLOTS)
            {
                Pending p = stack.front(); stack.pop_front();
                Slot &s = S->slots[S->qcount];
                for (u32 i = 0; i < p.at; i++) { s.choice[i] = p.base->choice[i]; s.n[i] = p.base->n[i]; }
                s.choice[p.at] = p.alt; s.n[p.at] = p.base->n[p.at]; s.len = p.at+1;
                S->qcount++;
                gave = true;
            }
            const bool more = S->qcount < S->idle;
            qunlock();
            if (not gave or not more) break;
        }
        if ((++tick & 0x3f) == 0 and realNow() > deadline) { int z = 0; S->stop.compare_exchange_strong(z, 3); }
    }
    _exit(0);
}

/***********************************************************************
 * parent
 **********************************************************************/
static std::string jesc(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' or c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
        else if (c >= 0x80) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static void quiet(void)
{
    if (getenv("MC_VERBOSE")) return;
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(fd, 2); close(fd);
}

struct ReplayResult { bool failed = false; bool engine = false; std::string sig, msg; std::vector<std::string> trace; };

static ReplayResult replayOnce(const mc::Scenario &sc, const std::vector<std::pair<u32, int>> &sched, bool show)
{
    // area MAXW-1 is reserved for replays
    WorkerArea *A = &S->w[MAXW-1];
    A->failedFlag = 0; A->finished = 0; A->npts = 0; A->sig[0] = A->msg[0] = 0;
    int pfd[2]; if (pipe(pfd) != 0) { perror("pipe"); exit(3); }
    pid_t pid = fork();
    if (pid == 0)
    {
        close(pfd[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (not show) quiet();
        W = A; curSc = &sc; curBound = 1000000; replaying = true; doTrace = true;
        for (auto &p : sched) replayMap[p.first] = p.second;
        knownSigs.clear();
        if (sc.setup) sc.setup();
        alarm(120);
        // the body is run in another process so that the trace of a crashed execution is kept as well
        int tfd[2]; if (pipe(tfd) != 0) _exit(3);
        resetExec();
        runBody();
        std::string t; for (auto &l : traceLines) t += l + "\n";
        for (size_t off = 0; off < t.size();) { ssize_t k = write(pfd[1], t.data()+off, t.size()-off); if (k <= 0) break; off += k; }
        W->finished = 1;
        _exit(0);
    }
    close(pfd[1]);
    std::string t; char buf[4096]; ssize_t k;
    while ((k = read(pfd[0], buf, sizeof(buf))) > 0) t.append(buf, k);
    close(pfd[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {}
    ReplayResult r;
    std::istringstream is(t); std::string l; while (std::getline(is, l)) r.trace.push_back(l);
    if (A->failedFlag == 2) { r.engine = true; r.msg = A->msg; return r; }
    if (A->failedFlag != 0) { r.failed = true; r.sig = A->sig; r.msg = A->msg; }
    else if (not A->finished)
    {
        r.failed = true;
        const bool hang = WIFSIGNALED(st) and WTERMSIG(st) == SIGALRM;
        r.sig = hang?"hang":"crash";
        if (WIFSIGNALED(st)) r.msg = std::string("execution ended by ") + signame(WTERMSIG(st));
        else r.msg = "execution exited with status " + std::to_string(WEXITSTATUS(st)) + " (uncaught exception, abort or memory error)";
    }
    return r;
}

struct ScResult { std::string name; u64 execs=0, steps=0, points=0, states=0, outcomes=0, maxDepth=0; int bound=-1; bool exhaustive=true; std::vector<u64> byCost; u64 addrs=0, pruned=0; int passes=0; double wall=0; bool deviations=false; std::vector<std::pair<u32,int>> sampleSched; std::vector<std::string> sampleTrace; };

int main(int argc, char **argv)
{
    std::string out, replayFile, replayOut, only; bool thorough = false; int jobs = 8; double timeLimit = 1e9; int boundOverride = -1;
    std::string known, property = "?", harness = "?";
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return (i+1 < argc)?argv[++i]:""; };
        if (a == "--out") out = next();
        else if (a == "--replay") replayFile = next();
        else if (a == "--replay-out") replayOut = next();
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--jobs") jobs = std::stoi(next());
        else if (a == "--time") timeLimit = std::stod(next());
        else if (a == "--only") only = next();
        else if (a == "--bound") boundOverride = std::stoi(next());
        else if (a == "--known") known = next();
        else if (a == "--property") property = next();
        else if (a == "--harness") harness = next();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (jobs > MAXW-1) jobs = MAXW-1;
    S = (Shared *)rawMmap(sizeof(Shared));
    {
        std::istringstream is(known); std::string l; while (std::getline(is, l, '\x1f')) if (not l.empty()) knownSigs.push_back(l);
    }
    auto scs = mc::scenarios(thorough);

    if (not replayFile.empty())
    {
        // format: line 1 scenario name; line 2 tier; then "ev choice" pairs; lines starting with # are comments
        std::ifstream f(replayFile); std::string l, name; std::vector<std::pair<u32, int>> sched; int ln = 0; std::string tier;
        while (std::getline(f, l))
        {
            if (l.empty() or l[0] == '#') continue;
            if (ln == 0) name = l; else if (ln == 1) tier = l;
            else { std::istringstream is(l); u32 e; int c; if (is >> e >> c) sched.push_back({e, c}); }
            ln++;
        }
        scs = mc::scenarios(tier == "thorough");
        for (auto &sc : scs) if (sc.name == name)
        {
            auto r = replayOnce(sc, sched, true);
            for (auto &t : r.trace) printf("  %s\n", t.c_str());
            if (r.engine) { printf("REPLAY-ERROR %s\n", r.msg.c_str()); return 3; }
            printf("%s %s: %s\n", r.failed?"REPLAY-FAILS":"REPLAY-PASSES", r.sig.c_str(), r.msg.c_str());
            return r.failed?1:0;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 3;
    }

    std::vector<ScResult> results;
    const double t0 = realNow();
    const double deadline = t0 + timeLimit;
    int rc = 0;
    std::string vsig, vmsg, vscen; std::vector<std::pair<u32, int>> vsched; std::vector<std::string> vtrace;
    for (auto &sc : scs)
    {
        if (not only.empty() and sc.name.find(only) == std::string::npos) continue;
        if (sc.threaded and not mcrt_run) { fprintf(stderr, "threaded scenario without run-time\n"); return 3; }
        ScResult R; R.name = sc.name;
        const double ts = realNow();
        const int maxBound = (boundOverride >= 0)?boundOverride:sc.bound;
        // reset the address tables for each scenario
        for (auto &x : S->addrActive) if (x.load(std::memory_order_relaxed)) x = 0;
        for (auto &x : S->addrFound) if (x.load(std::memory_order_relaxed)) x = 0;
        S->addrCount = 0; S->addrNew = 0;
        const bool unbounded = maxBound >= 1000000;
        R.deviations = not unbounded;
        int b = unbounded?maxBound:0;
        int restarts = 0;
        while (b <= maxBound)
        {
            curSc = &sc; curBound = b;
            // fresh statistics for this pass
            if (S->states) memset((void *)S->stateTab, 0, sizeof(S->stateTab));
            if (S->outcomes) memset((void *)S->outTab, 0, sizeof(S->outTab));
            if (S->cacheCount) memset((void *)S->cacheTab, 0, sizeof(S->cacheTab));
            S->cacheCount = 0; S->pruned = 0;
            S->states = 0; S->outcomes = 0; S->stateOverflow = 0;
            S->stop = 0; S->violWorker = 0; S->qlock = 0; S->idle = 0; S->nworkers = jobs;
            S->slots[0].len = 0; S->qcount = 1;
            for (int w = 0; w < jobs; w++)
            {
                auto &a = S->w[w];
                a.execs = 0; a.steps = 0; a.points = 0; a.maxDepth = 0; a.maxCost = 0; a.failedFlag = 0; a.finished = 0; a.npts = 0;
                memset(a.byCost, 0, sizeof(a.byCost));
            }
            std::vector<pid_t> pids;
            fflush(stdout); fflush(stderr);
            for (int w = 0; w < jobs; w++)
            {
                pid_t pid = fork();
                if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); quiet(); workerMain(w, deadline); _exit(0); }
                pids.push_back(pid);
            }
            // wait, watching for workers that die
            size_t left = pids.size();
            while (left)
            {
                int st; pid_t p = waitpid(-1, &st, 0);
                if (p < 0) { if (errno == EINTR) continue; break; }
                left--;
                if ((WIFSIGNALED(st) or WEXITSTATUS(st) != 0))
                {
                    int wi = -1; for (size_t i = 0; i < pids.size(); i++) if (pids[i] == p) wi = i;
                    auto &a = S->w[wi];
                    if (a.failedFlag == 0)
                    {
                        snprintf(a.sig, SIGLEN, "crash");
                        if (WIFSIGNALED(st)) snprintf(a.msg, MSGLEN, "execution ended by %s", signame(WTERMSIG(st)));
                        else snprintf(a.msg, MSGLEN, "execution exited with status %d (uncaught exception, abort or memory error)", WEXITSTATUS(st));
                        a.failedFlag = 1;
                    }
                    int z = 0; S->violWorker.compare_exchange_strong(z, wi+1); z = 0; S->stop.compare_exchange_strong(z, (a.failedFlag == 2)?4:1);
                }
            }
            R.passes++;
            if (S->stop == 2)
            {
                restarts++;
                for (auto &x : S->addrFound)
                {
                    u64 k = x.load(); if (k == 0) continue;
                    tabAdd(S->addrActive, ADDRBITS, k, S->addrCount); x = 0;
                }
                S->addrNew = 0;
                if (restarts > 2000) { fprintf(stderr, "shared address set does not converge\n"); return 3; }
                continue;
            }
            R.execs = R.steps = R.points = R.maxDepth = 0; R.byCost.assign(16, 0);
            for (int w = 0; w < jobs; w++)
            {
                auto &a = S->w[w];
                R.execs += a.execs; R.steps += a.steps; R.points += a.points; R.maxDepth = std::max<u64>(R.maxDepth, a.maxDepth);
                for (int i = 0; i < 16; i++) R.byCost[i] += a.byCost[i];
            }
            R.states = S->states; R.outcomes = S->outcomes; R.addrs = S->addrCount; R.pruned = S->pruned;
            if (S->stop == 1 or S->stop == 4)
            {
                auto &a = S->w[S->violWorker-1];
                vscen = sc.name; vsig = a.sig; vmsg = a.msg;
                if (S->stop == 4) { fprintf(stderr, "ENGINE ERROR in %s: %s\n", sc.name.c_str(), a.msg); rc = 3; break; }
                const u32 np = std::min<u32>(a.npts, MAXPOINTS);
                for (u32 i = 0; i < np; i++) if (a.choice[i]) vsched.push_back({a.ev[i], int(a.choice[i])});
                auto r1 = replayOnce(sc, vsched, false); auto r2 = replayOnce(sc, vsched, false);
                vtrace = r1.trace;
                const bool same = r1.failed and r2.failed and r1.sig == r2.sig;
                if (not same)
                {
                    fprintf(stderr, "NOT REPRODUCIBLE in %s: %s: %s [replays: %d %s %s / %d %s %s]\n", sc.name.c_str(), vsig.c_str(), vmsg.c_str(),
                        r1.failed, r1.sig.c_str(), r1.msg.c_str(), r2.failed, r2.sig.c_str(), r2.msg.c_str());
                    rc = 3;
                }
                else { rc = 1; if (r1.sig != vsig) { vmsg += " [replay: " + r1.sig + " " + r1.msg + "]"; } }
                break;
            }
            if (S->stop == 3) { R.exhaustive = false; break; }
            R.bound = unbounded?-1:b;
            b++;
            if (unbounded) break;
        }
        if (rc == 0 and results.size() < 4)
        {
            // write out one execution of this run: the deepest prefix worker 0 ended with
            for (int w = 0; w < jobs; w++) if (S->w[w].execs > 0)
            {
                auto &a = S->w[w];
                for (u32 i = 0; i < std::min<u32>(a.npts, MAXPOINTS); i++) if (a.choice[i]) R.sampleSched.push_back({a.ev[i], int(a.choice[i])});
                auto r = replayOnce(sc, R.sampleSched, false);
                R.sampleTrace = r.trace;
                if (R.sampleTrace.size() > 40) R.sampleTrace.resize(40);
                break;
            }
        }
        R.wall = realNow()-ts;
        results.push_back(R);
        if (rc) break;
    }

    if (rc == 1 and not replayOut.empty())
    {
        std::ofstream f(replayOut);
        f << "# property " << property << " harness " << harness << "\n# " << vsig << ": ";
        for (char c : vmsg) { f << c; if (c == '\n') f << "# "; }
        f << "\n";
        for (auto &t : vtrace) f << "#   " << t << "\n";
        f << vscen << "\n" << (thorough?"thorough":"quick") << "\n";
        for (auto &p : vsched) f << p.first << " " << p.second << "\n";
    }
    std::ostringstream js;
    js << "{\"rc\":" << rc << ",\"sig\":" << jesc(vsig) << ",\"msg\":" << jesc(vmsg) << ",\"scenario\":" << jesc(vscen) << ",\"wall\":" << (realNow()-t0) << ",\"known\":{";
    bool first = true;
    for (size_t i = 0; i < knownSigs.size() and i < KNOWNMAX; i++) { js << (first?"":",") << jesc(knownSigs[i]) << ":" << S->knownHits[i].load(); first = false; }
    js << "},\"scenarios\":[";
    first = true;
    for (auto &r : results)
    {
        js << (first?"":",") << "{\"name\":" << jesc(r.name) << ",\"executions\":" << r.execs << ",\"steps\":" << r.steps << ",\"points\":" << r.points
           << ",\"states\":" << r.states << ",\"outcomes\":" << r.outcomes << ",\"max_depth\":" << r.maxDepth << ",\"bound\":" << r.bound
           << ",\"bounded\":" << (r.deviations?"true":"false")
           << ",\"exhaustive\":" << (r.exhaustive?"true":"false") << ",\"passes\":" << r.passes << ",\"shared_addrs\":" << r.addrs << ",\"pruned\":" << r.pruned << ",\"wall\":" << r.wall << ",\"by_cost\":[";
        for (size_t i = 0; i < r.byCost.size(); i++) js << (i?",":"") << r.byCost[i];
        js << "],\"sample_choices\":[";
        for (size_t i = 0; i < r.sampleSched.size(); i++) js << (i?",":"") << "[" << r.sampleSched[i].first << "," << r.sampleSched[i].second << "]";
        js << "],\"sample_trace\":[";
        for (size_t i = 0; i < r.sampleTrace.size(); i++) js << (i?",":"") << jesc(r.sampleTrace[i]);
        js << "]}";
        first = false;
    }
    js << "]}\n";
    if (not out.empty()) { std::ofstream f(out); f << js.str(); }
    else fputs(js.str().c_str(), stdout);
    if (rc == 1) printf("FOUND %s: %s: %s\n", vscen.c_str(), vsig.c_str(), vmsg.c_str());
    return rc;
}
