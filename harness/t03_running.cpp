// T03: a committed design delivers everything in order under every schedule of its own threads. Real topologies, blocks and
// thread pools; the main thread commits, waits, changes and tears down. Time is virtual.
#define BLK_REAL_THREADS
#include "flow.hpp"
#include <Pothos/Framework/Topology.hpp>
#include <Pothos/Framework/ThreadPool.hpp>
using namespace Pothos;

static ThreadPool pool(size_t threads, bool spin = false) { ThreadPoolArgs a; a.numThreads = threads; if (spin) a.yieldMode = "SPIN"; return ThreadPool(a); }
// kinds of pools: every block has a thread of its own pool, one shared thread, two shared threads, a thread per block, spinning threads
enum Shape { OWN, ONE, TWO, EACH, SPIN };
struct Run
{
    std::shared_ptr<Source> s; std::shared_ptr<Through> t; std::shared_ptr<Sink> k; std::shared_ptr<Topology> top; ThreadPool p; Shape shape;
    Run(Shape shape, int total, bool through, int labelEvery, int msgEvery, int small = 0) : shape(shape)
    {
        s = std::make_shared<Source>(total, 1, labelEvery, msgEvery); if (through) t = std::make_shared<Through>(total, false);
        k = std::make_shared<Sink>(total, 2, 0, labelEvery, msgEvery);
        s->hold = true; s->small = small; top = Topology::make();
        if (shape == OWN) { s->setThreadPool(pool(1)); k->setThreadPool(pool(1)); if (t) t->setThreadPool(pool(1)); }
        else { p = pool(shape == ONE?1:shape == EACH?0:2, shape == SPIN); top->setThreadPool(p); }
        if (t) { top->connect(s, 0, t, 0); top->connect(t, 0, k, 0); } else top->connect(s, 0, k, 0);
    }
};
// commit, everything arrives, the design becomes idle, is emptied and destroyed
static void run(Shape shape, int total, bool through, int labelEvery, int msgEvery, bool quietCommit, bool quietEnd, int small = 0)
{
    mc::quiet(true); Run r(shape, total, through, labelEvery, msgEvery, small); mc::quiet(quietCommit);
    r.top->commit();
    mc::quiet(false); r.s->call("start");
    mc::await([&]{ return r.k->next >= total; });
    if (quietEnd) mc::quiet(true);
    mc::check(r.top->waitInactive(1e-3, 0), "inactive", "the design does not become inactive");
    r.top->disconnectAll(); r.top->commit();
    mc::check(r.k->next == total, "elements", "more elements arrived than were sent");
    r.k->finish(); mc::outcome(r.s->works);
    r.top.reset(); r.s.reset(); r.t.reset(); r.k.reset();
}
// a reader that is connected and removed while the stream runs: it sees consecutive elements, the other reader sees all of them
struct Late : Blk
{
    int first = -1, next = 0, seen = 0; bool active = false;
    Late(void)
    {
        this->setupInput(0, typeid(Elem)); onActivate = [this](Blk &){ active = true; }; onDeactivate = [this](Blk &){ active = false; };
        onWork = [this](Blk &)
        {
            if (not active) mc::fail("work-window", "a block is worked while it is not active");
            auto in = this->input(0); const int n = int(in->elements()); if (n == 0) return;
            const Elem *m = in->buffer().as<const Elem *>(); if (first < 0) { first = m[0]; next = first; }
            for (int i = 0; i < n; i++) { if (m[i] != next + i) mc::fail("elements", "element " + std::to_string(next + i) + " arrived as " + std::to_string(m[i]) + " at a reader that came later"); }
            next += n; seen += n; in->consume(n);
        };
    }
};
static void change(Shape shape, int total, bool remove, bool quietAdd, bool quietEnd)
{
    mc::quiet(true); Run r(shape, total, false, 0, 0); auto l = std::make_shared<Late>(); if (shape == OWN) l->setThreadPool(pool(1));
    r.top->commit(); mc::quiet(quietAdd); r.s->call("start");
    r.top->connect(r.s, 0, l, 0); r.top->commit(); mc::quiet(false);
    if (remove) { mc::quiet(quietEnd); r.top->disconnect(r.s, 0, l, 0); r.top->commit(); mc::check(not l->active, "activates", "a block that left is still active"); mc::quiet(false); }
    mc::await([&]{ return r.k->next >= total; });
    if (quietEnd) mc::quiet(true);
    mc::check(r.top->waitInactive(1e-3, 0), "inactive", "the design does not become inactive");
    if (not remove and l->first >= 0) mc::check(l->next == total, "elements", "the end of the stream did not arrive at a reader that came later");
    mc::outcome(mc::Hash().add(l->first + 1).add(l->seen).h);
    r.top->disconnectAll(); r.top->commit(); r.k->finish();
    r.top.reset(); r.s.reset(); r.t.reset(); r.k.reset(); l.reset();
}
// the design is dismantled while the stream runs: it ends, and everything that arrived is a beginning of the stream
enum How { EMPTIED, DESTROYED, BLOCK_FIRST };
static void stop(Shape shape, int total, How how)
{
    mc::quiet(true); Run r(shape, total, false, 0, 0); r.top->commit(); mc::quiet(false); r.s->call("start");
    if (how == EMPTIED)
    {
        r.top->disconnectAll(); r.top->commit(); mc::quiet(true);
        const int n = r.k->next; mc::outcome(n); mc::check(r.s->_actor->activeState == false and r.k->_actor->activeState == false, "activates", "a block that left is still active");
        r.top.reset();
    }
    else { r.top.reset(); mc::quiet(true); mc::outcome(r.k->next); }
    r.s.reset(); r.t.reset(); r.k.reset();
}
// a signal calls a slot of another block, both committed
struct Ringer : Blk { int total, n = 0; bool hold = true; void start(void) { hold = false; } Ringer(int total) : total(total) { this->registerSignal("ring"); this->registerCall(this, "start", &Ringer::start); onWork = [this](Blk &b) { if (not hold) if (n < this->total) { b.emitSignal("ring", n); n++; b.yield(); } }; } };
struct Bell : Blk { int n = 0; void hit(int v) { if (v != n) mc::fail("messages", "call " + std::to_string(v) + " of a slot in place of " + std::to_string(n)); n++; } Bell(void) { this->registerCall(this, "hit", &Bell::hit); this->registerSlot("hit"); } };
static void ring(Shape shape, int total)
{
    mc::quiet(true); auto a = std::make_shared<Ringer>(total); auto b = std::make_shared<Bell>(); auto top = Topology::make();
    if (shape == OWN) { a->setThreadPool(pool(1)); b->setThreadPool(pool(1)); } else top->setThreadPool(pool(shape == ONE?1:shape == EACH?0:2, shape == SPIN));
    top->connect(a, "ring", b, "hit"); top->commit(); mc::quiet(false); a->call("start");
    mc::await([&]{ return b->n >= total; });
    mc::quiet(true); mc::check(top->waitInactive(1e-3, 0), "inactive", "the design does not become inactive");
    top->disconnectAll(); top->commit(); mc::check(b->n == total, "messages", "the slot was called too often"); mc::outcome(a->works);
    top.reset(); a.reset(); b.reset();
}
// the design is not called inactive before the stream has run its course
static void idle(Shape shape, int total)
{
    mc::quiet(true); Run r(shape, total, true, 0, 0, 1); r.top->commit(); mc::quiet(false); r.s->call("start");
    mc::check(r.top->waitInactive(2e-2, 0), "inactive", "the design does not become inactive");
    const int got = r.k->call("got"); mc::check(got == total, "inactive", "the design is called inactive while data is under way");
    mc::quiet(true); r.top->disconnectAll(); r.top->commit(); mc::outcome(1); r.top.reset(); r.s.reset(); r.t.reset(); r.k.reset();
}
// a block that works now and then keeps the design from being inactive, also when the others have nothing to do
struct Ticker : Blk { bool stop = false; int ticks = 0; void end(void) { stop = true; } Ticker(void) { this->registerSignal("ring"); this->registerSignal("tick"); this->registerCall(this, "end", &Ticker::end);
    onWork = [this](Blk &b) { if (stop) return; std::this_thread::sleep_for(std::chrono::milliseconds(3)); b.emitSignal("tick", ticks++); }; } };
static void busy(Shape shape, bool first)
{
    mc::quiet(true); std::vector<std::shared_ptr<Ticker>> spare; auto a = std::make_shared<Ticker>(); auto b = std::make_shared<Bell>(); auto top = Topology::make();
    while ((a->uid() < b->uid()) != first) { spare.push_back(a); a = std::make_shared<Ticker>(); if (spare.size() % 3 == 0) b = std::make_shared<Bell>(); }
    if (shape == OWN) { a->setThreadPool(pool(1)); b->setThreadPool(pool(1)); } else top->setThreadPool(pool(2));
    top->connect(a, "ring", b, "hit"); top->commit(); mc::quiet(false);
    mc::check(not top->waitInactive(20e-3, 100e-3), "inactive", "the design is called inactive while a block keeps working");
    a->call("end"); mc::check(top->waitInactive(20e-3, 0), "inactive", "the design does not become inactive");
    mc::quiet(true); top->disconnectAll(); top->commit(); mc::outcome(1); top.reset(); a.reset(); b.reset();
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.maxTimeouts = 2000; s.freeSwitch = false; v.push_back(s); };
    const char *names[] = {"own", "one", "two", "each", "spin"};
    for (Shape s : {OWN, ONE, TWO, EACH, SPIN})
    {
        const std::string n = names[s]; const size_t before = v.size();
        thr("run-" + n, thorough?2:1, [=]{ run(s, 2, false, 1, 1, true, true, s == TWO?0:1); });
        if (thorough or s == TWO or s == EACH) thr("chain-" + n, thorough?2:1, [=]{ run(s, 2, true, 0, 0, true, true); });
        if (thorough or s == OWN or s == TWO) thr("ring-" + n, thorough?2:1, [=]{ ring(s, 2); });
        if (thorough or s == TWO) thr("stop-" + n, 1, [=]{ stop(s, 3, EMPTIED); });
        if (s == SPIN) for (size_t i = before; i < v.size(); i++) v[i].maxSteps = 100000; // spinning counts as steps
    }

    for (Shape s : {OWN, TWO}) { thr(std::string("idle-") + names[s], 0, [=]{ idle(s, 6); }); v.back().maxSteps = 200000; }
    for (bool f : {false, true}) { thr(std::string("busy-") + (f?"first":"last"), 0, [=]{ busy(f?TWO:OWN, f); }); v.back().maxSteps = 200000; }
    if (not thorough) return v;
    thr("destroy-two", 1, []{ stop(TWO, 3, DESTROYED); });
    thr("commit-one", 1, []{ run(ONE, 2, false, 0, 0, false, true); });
    thr("end-two", 1, []{ run(TWO, 2, false, 0, 0, true, false); });
    thr("add-own", 1, []{ change(OWN, 4, false, false, true); });
    thr("add-one", 1, []{ change(ONE, 4, false, false, true); });
    thr("remove-two", 1, []{ change(TWO, 4, true, true, false); });
    return v;
}
