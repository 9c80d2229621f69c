// A02: a flagged change is never missed. Every interleaving of threads that flag changes, make calls, deliver data or return
// buffers with the worker of a block; timed waits only end early where that is stated, else when nothing else can happen.
#define BLK_REAL_THREADS
#include "blk.hpp"
#include <thread>
#include <atomic>
using namespace Pothos;

// ---- the interface itself: flaggers F, callers C, each with n changes -----------------------------
static void flags(int flaggers, int callers, int n)
{
    const bool wait = mc::choose(2, "wait");
    ActorInterface a; const int total = (flaggers + callers)*n; int works = 0, seen = 0;
    int plain[4] = {0, 0, 0, 0}; std::atomic<int> shared[4]; for (auto &s : shared) s = 0;
    mc::check(not a.workerThreadAcquire(false), "idle-worked", "the worker of a new block is granted work without a change");
    std::vector<std::thread> th;
    for (int f = 0; f < flaggers; f++) th.emplace_back([&, f] { for (int i = 0; i < n; i++) { if (flaggers == 1 and callers == 0 and n == 1) plain[f]++; else shared[f]++; a.flagExternalChange(); } });
    for (int c = 0; c < callers; c++) th.emplace_back([&, c] { for (int i = 0; i < n; i++) { ActorInterfaceLock lock(&a); plain[2 + c]++; } });
    th.emplace_back([&]
    {
        while (seen < total)
        {
            if (a.workerThreadAcquire(wait)) { works++; seen = 0; for (int f = 0; f < flaggers; f++) seen += plain[f] + shared[f]; for (int c = 0; c < callers; c++) seen += plain[2 + c]; a.workerThreadRelease(); }
            else std::this_thread::yield();
        }
    });
    for (auto &t : th) t.join();
    int more = 0; while (more <= total and a.workerThreadAcquire(false)) { more++; a.workerThreadRelease(); }
    mc::check(works + more <= total, "idle-worked", std::to_string(total) + " changes gave " + std::to_string(works + more) + " opportunities");
    mc::outcome(mc::Hash().add(works).add(more).h);
}
// a change that the worker flags itself, with and without others
static void internal(int callers)
{
    const bool wait = mc::choose(2, "wait"); const int at = mc::choose(2, "when");
    ActorInterface a; int works = 0, own = 0; std::atomic<int> calls(0); a.flagExternalChange();
    std::vector<std::thread> th;
    for (int c = 0; c < callers; c++) th.emplace_back([&] { ActorInterfaceLock lock(&a); calls++; });
    th.emplace_back([&]
    {
        while (own < 2 or calls < callers)
        {
            if (a.workerThreadAcquire(wait)) { works++; if (at == 0) { own++; if (own < 3) a.flagInternalChange(); } a.workerThreadRelease(); if (at == 1) { own++; if (own < 3) a.flagExternalChange(); } }
            else std::this_thread::yield();
        }
    });
    for (auto &t : th) t.join();
    int more = 0; while (more < 9 and a.workerThreadAcquire(false)) { more++; a.workerThreadRelease(); }
    mc::check(works + more <= 3 + callers, "idle-worked", std::to_string(works + more) + " opportunities for " + std::to_string(3 + callers) + " changes");
}

// ---- a real block and everything that may change what it can do -------------------------------------
enum { BUFFER, TWO_BUFFERS, LABELLED, MESSAGE, SLOT, RETURN, TOKEN, CALL, ACTIVATE, THROWING, MANAGER, NEV };
static const char *evName[] = {"buffer", "two buffers", "label with buffer", "message", "slot message", "buffer returned", "message consumed downstream", "call", "activate", "throwing call", "new buffer manager"};
struct Busy : Blk
{
    int slots = 0, called = 0, seenCalled = 0, seenThrown = 0, thrown = 0, msgs = 0, elems = 0, outs = 0, labels = 0, posted = 0, wantPosted = 0; bool patient = false;
    Busy(void)
    {
        this->setupInput(0, "byte"); this->setupOutput(0, "byte"); this->registerCall(this, "act", &Busy::act); this->registerCall(this, "bad", &Busy::bad); this->registerCall(this, "bump", &Busy::bump); this->registerSlot("bump");
        onWork = [this](Blk &)
        {
            auto in = this->input(0); auto out = this->output(0);
            if (in->hasMessage()) { in->popMessage(); msgs++; }
            for (auto &l : in->labels()) if (l.index == 0) labels++;
            if (in->elements()) { const int k = patient?int(in->elements()):1; in->consume(k); elems += k; }
            if (out->elements()) outs++;
            if (posted < wantPosted) { out->postMessage(1); posted++; }
            seenCalled = called; seenThrown = thrown;
        };
    }
    void act(void) { called++; } void bad(void) { thrown++; throw Exception("bad"); } void bump(void) { slots++; }
};
static void events(int n)
{
    int ev[3]; for (int i = 0; i < n; i++) { ev[i] = mc::choose(NEV, "event"); if (i and (ev[i] < ev[i-1] or (ev[i] == TOKEN and ev[i-1] == TOKEN))) return; }
    const bool wait = mc::choose(2, "wait"); bool has[NEV] = {}; for (int i = 0; i < n; i++) has[ev[i]] = true;
    bool needIn = true; for (int i = 0; i < n; i++) needIn = needIn and ( ev[i] == BUFFER or ev[i] == TWO_BUFFERS or ev[i] == LABELLED);
    mc::quiet(true);
    Busy b; Blk down; down.setupInput(0, "byte"); b.setThreadPool(ThreadPool()); down.setThreadPool(ThreadPool());
    connectBlk(b, "0", down, "0");
    auto mgr = makeManager("generic", 1, 16); b._actor->setOutputBufferManager("0", mgr);
    BufferChunk held[3]; if (has[RETURN] or has[MANAGER]) { auto h = mgr->front(); mgr->pop(16); for (int i = 0; i < n; i++) if (ev[i] == RETURN) held[i] = h; if (not has[RETURN]) held[0] = h; }
    if (not has[ACTIVATE]) b._actor->setActiveStateOn();
    while (b._actor->processTask(false)) {}
    if (has[TOKEN]) { b.wantPosted = 16; b.onWork(b); for (int i = 1; i < 16; i++) b.onWork(b); b.wantPosted = 17; } // all tokens are under way
    b.outs = 0; int works0 = b.works;
    auto data = b.input(0), bump = b.input("bump"), dn = down.input(0);
    mc::check(not b._actor->processTask(false) or b.works == works0, "idle-worked", "an idle block is worked");
    int wantElems = 0, wantMsgs = 0, wantSlots = 0, wantLabels = 0, wantCalled = 0, wantThrown = 0;
    for (int i = 0; i < n; i++) switch (ev[i]) { case BUFFER: wantElems++; break; case TWO_BUFFERS: wantElems += 3; break; case LABELLED: wantElems++; wantLabels++; break; case MESSAGE: wantMsgs++; break; case SLOT: wantSlots++; break; case CALL: wantCalled++; break; case THROWING: wantThrown++; break; default: break; }
    // patient: the block is not worked before everything has arrived
    if (needIn and mc::choose(2, "patient")) { b.patient = true; b.input(0)->setReserve(wantElems); }
    const bool wantOut = has[RETURN] or has[MANAGER];
    BufferChunk c1("byte", 1), c2("byte", 2);
    // the same memory may be delivered by several threads: everybody has a reference of its own
    BufferChunk own1[3] = {c1, c1, c1}, own2[3] = {c2, c2, c2}; c1.clear(); c2.clear();
    mc::quiet(false);
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i]
    {
        if (mc::tracing()) mc::trace(std::string("event: ") + evName[ev[i]]);
        switch (ev[i])
        {
        case BUFFER: data->pushBuffer(own1[i]); break;
        case TWO_BUFFERS: data->pushBuffer(own1[i]); data->pushBuffer(own2[i]); break;
        case LABELLED: data->pushLabel(Label("x", 1, 0)); data->pushBuffer(own1[i]); break;
        case MESSAGE: data->pushMessage(Object(1)); break;
        case SLOT: bump->slotCallsPush(Object(ObjectVector()), BufferChunk()); break;
        case RETURN: held[i].clear(); break;
        case TOKEN: for (int k = 0; k < 2; k++) if (dn->hasMessage()) dn->popMessage(); break;
        case CALL: b.call("act"); break;
        case THROWING: try { b.call("bad"); } catch (const Exception &) {} break;
        case ACTIVATE: b._actor->setActiveStateOn(); break;
        case MANAGER: { auto m = makeManager("generic", 1, 16); b._actor->setOutputBufferManager("0", m); } break;
        }
    });
    bool ok = true;
    th.emplace_back([&]
    {
        while (b.elems < wantElems or b.msgs < wantMsgs or (wantOut and b.outs == 0) or b.posted < b.wantPosted or b.seenCalled < wantCalled or b.seenThrown < wantThrown or b.slots < wantSlots or b.works == works0)
            if (not b._actor->processTask(wait)) std::this_thread::yield();
    });
    for (auto &t : th) t.join();
    mc::quiet(true);
    int more = 0; while (more < 20 and b._actor->processTask(false)) more++;
    mc::check(more < 20, "idle-worked", "a block without anything to do keeps being worked");
    const int w = b.works; b._actor->processTask(false); b._actor->processTask(true);
    mc::check(b.works == w, "idle-worked", "an idle block is worked");
    mc::check(b.elems == wantElems and b.msgs == wantMsgs and b.slots == wantSlots and b.posted == b.wantPosted, "duplicate", "more arrived than was sent");
    (void)ok; (void)wantLabels;
    mc::outcome(mc::Hash().add(b.works).h);
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.maxTimeouts = 150; v.push_back(s); };
    thr("flag-1", 1000000, []{ flags(1, 0, 1); });
    thr("flag-1x2", thorough?8:5, []{ flags(1, 0, 2); });
    thr("flag-2", thorough?6:3, []{ flags(2, 0, 1); });
    thr("call-1", thorough?8:5, []{ flags(0, 1, 1); });
    thr("flag-call", thorough?5:2, []{ flags(1, 1, 1); });
    thr("internal-0", thorough?8:5, []{ internal(0); });
    thr("internal-1", thorough?6:2, []{ internal(1); });
    thr("early-timeouts", thorough?4:2, []{ flags(1, 1, 1); }); v.back().timeouts = true;
    thr("event-1", thorough?3:1, []{ events(1); });
    thr("event-2", thorough?1:0, []{ events(2); });
    return v;
}
