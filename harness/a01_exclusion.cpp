// A01: one thread at a time inside a block. Every interleaving of worker threads and external callers: first on the
// actor interface itself, then on a real block whose work, calls, activation and port changes come from several threads.
#define BLK_REAL_THREADS
#include "blk.hpp"
#include <thread>
#include <atomic>
using namespace Pothos;

// ---- the interface itself ---------------------------------------------------------------------
static void interface(int workers, int callers, int rounds, int calls)
{
    const bool wait = mc::choose(2, "wait");
    ActorInterface a; int data = 0; std::vector<std::thread> th; std::vector<int> did(workers, 0);
    a.flagExternalChange();
    for (int w = 0; w < workers; w++) th.emplace_back([&, w]
    {
        for (int i = 0; i < rounds; i++) if (a.workerThreadAcquire(wait))
        { mc::enter(0); data++; mc::point("inside"); did[w]++; mc::leave(0); a.flagInternalChange(); a.workerThreadRelease(); }
    });
    for (int c = 0; c < callers; c++) th.emplace_back([&]
    {
        for (int i = 0; i < calls; i++) { ActorInterfaceLock lock(&a); mc::enter(0); data++; mc::point("inside"); mc::leave(0); }
    });
    for (auto &t : th) t.join();
    int want = callers*calls; for (int d : did) want += d;
    mc::check(data == want, "lost-update", std::to_string(want) + " visits left " + std::to_string(data));
    mc::outcome(mc::Hash().add(data).h);
}

// callers that have begun to wait get in before a busy worker comes around again and again
static void turn(int callers)
{
    const bool wait = mc::choose(2, "wait");
    ActorInterface a; std::vector<std::thread> th; std::atomic<int> inside(0), calling(0);
    a.flagExternalChange();
    th.emplace_back([&]
    {
        while (not a.workerThreadAcquire(wait)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        mc::await([&]{ return calling == callers; }); // the callers have arrived ...
        std::this_thread::sleep_for(std::chrono::milliseconds(5)); // ... and tried for a long time
        a.flagInternalChange(); a.workerThreadRelease();
        int bypass = 0; // from now on the worker is eager
        for (int n = 0; n < 40 and inside != callers; n++) if (a.workerThreadAcquire(wait)) { if (inside != callers) bypass++; a.flagInternalChange(); a.workerThreadRelease(); }
        mc::check(bypass <= callers, "caller-bypassed", "the worker entered " + std::to_string(bypass) + " times before the waiting callers");
    });
    for (int c = 0; c < callers; c++) th.emplace_back([&] { calling++; ActorInterfaceLock lock(&a); inside++; });
    for (auto &t : th) t.join();
}

// ---- a real block -----------------------------------------------------------------------------
struct Shared : Block
{
    int data = 0, works = 0, pokes = 0, acts = 0; bool on = false; std::function<void(void)> hold; // hold: what the next visitor does inside
    void visit(void) { mc::enter(0); data++; mc::point("inside"); if (hold) { auto h = hold; hold = nullptr; h(); } mc::leave(0); }
    Shared(void) { this->setupInput(0, "byte"); this->setupOutput(0, "byte"); this->registerCall(this, "poke", &Shared::poke); this->registerCall(this, "boom", &Shared::boom); this->registerSlot("bump"); this->registerCall(this, "bump", &Shared::poke); }
    bool prepare(void) { visit(); return true; }
    int poke(void) { visit(); return ++pokes; }
    void boom(void) { visit(); throw Exception("boom"); }
    void work(void)
    {
        visit(); works++; if (not on) mc::fail("worked-inactive", "work runs on an inactive block");
        auto in = this->input(0); if (in->elements() != 0) in->consume(1);
        for (auto o : this->outputs()) if (not o->isSignal()) o->postMessage(1);
        this->yield();
    }
    void activate(void) { visit(); on = true; acts++; }
    void deactivate(void) { visit(); on = false; acts++; }
    void propagateLabels(const InputPort *) { visit(); }
    BufferManager::Sptr getInputBufferManager(const std::string &, const std::string &d) { visit(); if (d == "other") throw PortDomainError(d); return BufferManager::Sptr(); }
    BufferManager::Sptr getOutputBufferManager(const std::string &, const std::string &d) { visit(); if (d == "other") throw PortDomainError(d); return BufferManager::Sptr(); }
};
enum { BUMP, DATA, POKE, BOOM, OFF, ON, MODE, MANAGER, SUBSCRIBE, SUBSCRIBED, STATS, ALLOC_IN, ALLOC_OUT, NOPS };
static const char *opName[] = {"slot message", "buffer", "call", "throwing call", "deactivate", "activate", "buffer mode", "buffer manager", "subscribe", "be subscribed", "stats", "new input", "new output"};

static void perform(int op, Shared &b, Blk &peer, InputPort *data, InputPort *bump, InputPort *other)
{
    if (mc::tracing()) mc::trace(std::string("external: ") + opName[op]);
    auto a = b._actor;
    switch (op)
    {
    case POKE: b.call("poke"); break;
    case BOOM: try { b.call("boom"); mc::fail("call", "a throwing call returned"); } catch (const Exception &) {} break;
    case BUMP: bump->slotCallsPush(Object(ObjectVector()), BufferChunk()); break;
    case DATA: { BufferChunk c("byte", 2); data->pushBuffer(c); data->pushLabel(Label("x", 1, 0)); } break;
    case OFF: a->setActiveStateOff(); break;
    case ON: a->setActiveStateOn(); break;
    case MODE: mc::check(a->getBufferMode("0", "other", false) == "ERROR", "mode", ""); mc::check(a->getBufferMode("0", "", true) == "ABDICATE", "mode", ""); break;
    case MANAGER: a->setOutputBufferManager("0", a->getBufferManager("0", "m", false)); break;
    case SUBSCRIBE: a->subscribeInput("add", "0", other); a->subscribeInput("remove", "0", other); break;
    case SUBSCRIBED: a->subscribeOutput("add", "0", peer.output(0)); a->subscribeOutput("remove", "0", peer.output(0)); break;
    case STATS: mc::check(not a->queryWorkStats().empty(), "stats", ""); break;
    case ALLOC_IN: a->autoAllocateInput("1"); a->autoDeleteInput("1"); break;
    case ALLOC_OUT: a->autoAllocateOutput("1"); a->autoDeleteOutput("1"); break;
    }
}

static void block(int callers, int attempts)
{
    int ops[3]; for (int c = 0; c < callers; c++) { ops[c] = mc::choose(NOPS, "op"); if (c and ops[c] < ops[c-1]) return; }
    const bool wait = mc::choose(2, "wait");
    mc::quiet(true);
    Shared b; Blk peer; peer.setupInput(0, "byte"); peer.setupOutput(0, "byte");
    b.setThreadPool(ThreadPool()); peer.setThreadPool(ThreadPool());
    b._actor->setActiveStateOn();
    BufferChunk c("byte", 1); b.input(0)->pushBuffer(c);
    int tasks = 0;
    auto data = b.input(0), bump = b.input("bump"), other = peer.input(0);
    mc::quiet(false);
    std::vector<std::thread> th;
    th.emplace_back([&]{ for (int i = 0; i < attempts; i++) tasks += b._actor->processTask(wait); });
    for (int i = 0; i < callers; i++) th.emplace_back([&, i]{ perform(ops[i], b, peer, data, bump, other); });
    for (auto &t : th) t.join();
    mc::quiet(true);
    
    mc::outcome(mc::Hash().add(b.works).add(b.pokes).add(b.acts).add(tasks).h);
}

// somebody stays inside for long: no other exclusive operation completes meanwhile
static void held(void)
{
    static const int holders[] = {-1/*worker*/, BUMP, POKE, BOOM, OFF, ON, MODE, MANAGER}; const int holder = holders[mc::choose(8, "holder")];
    int op = mc::choose(NOPS + 1, "op"); if (op == NOPS) op = -1; else if (op == BUMP or op == DATA) return;
    mc::quiet(true);
    Shared b; Blk peer; peer.setupInput(0, "byte"); peer.setupOutput(0, "byte");
    b.setThreadPool(ThreadPool()); peer.setThreadPool(ThreadPool());
    if (holder == -1 or holder == BUMP or holder == OFF or (holder != ON and not mc::choose(2, "inactive"))) b._actor->setActiveStateOn();
    auto data = b.input(0), bump = b.input("bump"), other = peer.input(0);
    if (holder == BUMP) bump->slotCallsPush(Object(ObjectVector()), BufferChunk());
    std::atomic<bool> in(false), done(false), during(false);
    // the work of a block begins with prepare(); a slot handler comes second
    auto stay = [&]{ in = true; std::this_thread::sleep_for(std::chrono::milliseconds(4)); during = bool(done); };
    if (holder == BUMP) b.hold = [&]{ b.hold = stay; }; else b.hold = stay;
    mc::quiet(false);
    std::thread h([&]{ if (holder == -1 or holder == BUMP) { b._actor->flagInternalChange(); mc::check(b._actor->processTask(false), "held-work", "a flagged change gave no work"); } else perform(holder, b, peer, data, bump, other); });
    std::thread o([&]{ mc::await([&]{ return bool(in); }); if (op == -1) { b._actor->flagInternalChange(); if (not b._actor->processTask(mc::choose(2, "wait"))) return; } else perform(op, b, peer, data, bump, other); done = true; });
    h.join(); o.join();
    mc::quiet(true);
    mc::check(bool(in), "held-in", "the holder never ran");
    mc::check(not during, "not-exclusive", std::string(op == -1?"work":opName[op]) + " completed while a " + (holder == -1?"work step":opName[holder]) + " was inside the block");
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.maxTimeouts = 100; v.push_back(s); };
    thr("interface-1-1", thorough?6:4, []{ interface(1, 1, 2, 2); });
    thr("interface-2-1", thorough?4:2, []{ interface(2, 1, 2, 1); });
    thr("interface-1-2", thorough?4:2, []{ interface(1, 2, 2, 1); });
    thr("turn-1", thorough?8:4, []{ turn(1); });
    thr("turn-2", thorough?4:2, []{ turn(2); });
    thr("held", 1, held); v.back().cache = false;
    thr("block-1", thorough?2:1, []{ block(1, 3); });
    thr("block-2", thorough?1:0, []{ block(2, 3); });
    return v;
}
