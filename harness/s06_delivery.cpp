// S06: port queues under concurrent delivery. Real blocks, each worked by a thread of its own, exchange numbered elements,
// labels and messages while other threads feed ports, keep buffers and return them; every interleaving within the bound.
#define BLK_REAL_THREADS
#include "flow.hpp"

static void drive(Blk &b, const std::function<bool(void)> &done) { while (not done()) if (not b._actor->processTask(false)) std::this_thread::yield(); }
static void setup(Blk &b, const char *kind, size_t num, size_t elems) { b._actor->setOutputBufferManager("0", makeManager(kind, num, std::string(kind) == "circular"?4096:elems*sizeof(Elem))); }

// source -> sink, optionally with a thread that returns buffers the sink hands to it
static void pipe(int total, int num, int elems, int per, int keep, bool returner, int labelEvery, int msgEvery)
{
    Util::SpinLock lock; std::vector<BufferChunk> handed; std::unique_ptr<Source> s; std::unique_ptr<Sink> k; std::atomic<bool> over(false);
    {
        Quiet q; s.reset(new Source(total, per, labelEvery, msgEvery)); k.reset(new Sink(total, per, keep, labelEvery, msgEvery, &lock, returner?&handed:nullptr));
        connectBlk(*s, "0", *k, "0"); setup(*s, "generic", num, elems);
        s->_actor->setActiveStateOn(); k->_actor->setActiveStateOn(); s->_actor->flagExternalChange();
    }
    std::vector<std::thread> th;
    th.emplace_back([&]{ drive(*s, [&]{ return s->done(); }); });
    th.emplace_back([&]{ drive(*k, [&]{ return k->done(); }); over = true; });
    if (returner) th.emplace_back([&]{ while (true) { const bool last = over; BufferChunk c; lock.lock(); if (not handed.empty()) { c = handed.front(); handed.erase(handed.begin()); } lock.unlock(); if (not c) { if (last) break; std::this_thread::yield(); } c.clear(); } });
    for (auto &t : th) t.join();
    Quiet q; k->finish(); k->kept.clear();
    mc::check(k->next == total, "elements", "more elements arrived than were sent");
    mc::outcome(mc::Hash().add(s->works).add(k->works).h);
    connectBlk(*s, "0", *k, "0", false); s.reset(); k.reset();
}
// source -> two readers, one of them may write in place -> sink
static void fan(int total, bool rbw, int num, int elems)
{
    std::unique_ptr<Source> s; std::unique_ptr<Sink> a, b; std::unique_ptr<Through> t;
    {
        Quiet q; s.reset(new Source(total, elems, 0, 0)); a.reset(new Sink(total, elems, 0, 0, 0)); b.reset(new Sink(total, elems, 0, 0, 0)); t.reset(new Through(total, rbw));
        connectBlk(*s, "0", *t, "0"); connectBlk(*s, "0", *a, "0"); connectBlk(*t, "0", *b, "0");
        setup(*s, "generic", num, elems); setup(*t, "generic", num, elems);
        for (Blk *x : std::initializer_list<Blk *>{s.get(), a.get(), b.get(), t.get()}) x->_actor->setActiveStateOn();
        // everything has been produced when the readers start
        while (not s->done() and s->run()) {}
    }
    const bool all = s->done();
    std::vector<std::thread> th;
    if (not all) { th.emplace_back([&]{ drive(*s, [&]{ return s->done(); }); }); th.emplace_back([&]{ drive(*b, [&]{ return b->done(); }); }); }
    th.emplace_back([&]{ drive(*a, [&]{ return a->done(); }); });
    th.emplace_back([&]{ drive(*t, [&]{ return t->done(); }); });
    for (auto &x : th) x.join();
    Quiet q; while (not b->done() and b->run()) {}
    mc::check(a->next == total and b->next == total and t->next == total, "elements", "not everything arrived");
    mc::outcome(t->inPlace);
    connectBlk(*s, "0", *t, "0", false); connectBlk(*s, "0", *a, "0", false); connectBlk(*t, "0", *b, "0", false);
    s.reset(); t.reset(); a.reset(); b.reset();
}
// threads that feed the port directly
static void feed(int feeders, bool withStats)
{
    struct Item { int from, n; };
    std::unique_ptr<Blk> b; int seen[3] = {0, 0, 0}; int elems = 0, slots = 0; std::vector<BufferChunk> chunk(feeders*2);
    struct Slotted : Blk { int n = 0; void bump(int v) { if (v != n) mc::fail("messages", "slot message " + std::to_string(v) + " in place of " + std::to_string(n)); n++; } Slotted(void) { this->registerCall(this, "bump", &Slotted::bump); this->registerSlot("bump"); } };
    Slotted *sl = nullptr; InputPort *in = nullptr, *bump = nullptr; int perFeeder[3] = {0, 0, 0};
    {
        Quiet q; b.reset(sl = new Slotted()); lone(*b); b->setupInput(0, typeid(Elem)); in = b->input(0); bump = b->input("bump");
        b->onWork = [&](Blk &)
        {
            while (in->hasMessage()) { auto i = in->popMessage().extract<Item>(); if (i.n != seen[i.from]) mc::fail("messages", "message " + std::to_string(i.n) + " of a thread arrived in place of " + std::to_string(seen[i.from])); seen[i.from]++; }
            const int n = int(in->elements()); if (n == 0) return;
            const Elem *m = in->buffer().as<const Elem *>();
            for (int i = 0; i < n; i++) { const int f = m[i]/100, v = m[i]%100; if (v != perFeeder[f]) mc::fail("elements", "element " + std::to_string(v) + " of a thread arrived in place of " + std::to_string(perFeeder[f])); perFeeder[f]++; }
            elems += n; in->consume(n);
        };
        b->_actor->setActiveStateOn();
        for (int f = 0; f < feeders; f++) for (int i = 0; i < 2; i++) { BufferChunk c(typeid(Elem), 1); c.as<Elem *>()[0] = f*100 + i; chunk[f*2 + i] = c; }
    }
    std::vector<std::thread> th;
    for (int f = 0; f < feeders; f++) th.emplace_back([&, f]
    {
        for (int i = 0; i < 2; i++)
        {
            in->pushMessage(Object(Item{f, i}));
            in->pushBuffer(chunk[f*2 + i]); chunk[f*2 + i].clear();
            if (f == 0) bump->slotCallsPush(Object(ObjectVector{Object(i)}), BufferChunk());
        }
    });
    if (withStats) th.emplace_back([&]{ b->_actor->queryWorkStats(); });
    th.emplace_back([&]{ drive(*b, [&]{ bool r = elems >= feeders*2 and sl->n >= 2; for (int f = 0; f < feeders; f++) r = r and seen[f] >= 2; return r; }); });
    for (auto &x : th) x.join();
    Quiet q; while (b->_actor->processTask(false)) {}
    mc::check(elems == feeders*2 and sl->n == 2, "elements", "more arrived than was sent");
    mc::outcome(b->works); b.reset(); (void)slots;
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.maxTimeouts = 300; v.push_back(s); };
    thr("pipe", thorough?3:1, []{ pipe(3, 2, 1, 1, 0, false, 2, 2); });
    thr("pipe-2", thorough?4:2, []{ pipe(2, 1, 1, 1, 0, false, 1, 1); });
    thr("pipe-parts", thorough?3:2, []{ pipe(4, 1, 8, 2, 0, false, 3, 0); });
    thr("pipe-small", thorough?3:2, []{ pipe(3, 1, 8, 1, 0, false, 2, 0); });
    thr("pipe-kept", thorough?3:1, []{ pipe(3, 2, 1, 1, 1, false, 0, 0); });
    thr("pipe-returned", thorough?2:1, []{ pipe(3, 2, 1, 1, 1, true, 0, 0); });
    thr("feed-1", thorough?3:1, []{ feed(1, false); });
    thr("feed-2", thorough?2:1, []{ feed(2, false); });
    thr("feed-stats", thorough?2:1, []{ feed(1, true); });
    thr("fan", thorough?3:2, []{ fan(2, false, 2, 1); });
    thr("fan-in-place", thorough?3:2, []{ fan(2, true, 2, 1); });
    thr("fan-more", thorough?1:0, []{ fan(3, true, 2, 1); });
    return v;
}
