// C01: SpinLock and SpinLockRW, sequential semantics and all interleavings of small programs.
#include <mc.hpp>
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <cstring>
#include <mutex>
#include <new>
#include <thread>
#include <vector>
using mc::choose; using mc::check;

typedef Pothos::Util::SpinLock SL;
typedef Pothos::Util::SpinLockRW RW;

struct Data { int a = 0, b = 0, c = 0; };
static int writes; // expected number of increments (only touched by lock holders)

static void writeCS(Data &d)
{
    mc::enter(1);
    const int v = d.a;
    check(d.a == d.b and d.b == d.c, "torn", "a writer sees a half-done update");
    d.a = v+1; mc::point("cs"); d.b = v+1; d.c = v+1;
    mc::leave(1);
}
static void readCS(const Data &d)
{
    mc::enter(1, true);
    const int a = d.a; mc::point("cs"); const int b = d.b; const int c = d.c;
    check(a == b and b == c, "torn", "a reader sees a half-done update");
    mc::leave(1, true);
}

static void rwOp(RW &l, Data &d, int op, int *done)
{
    switch (op)
    {
    case 0: { RW::SharedLock g(l); readCS(d); break; }
    case 1: { std::lock_guard<RW> g(l); writeCS(d); (*done)++; break; }
    case 2: if (l.try_lock_shared()) { readCS(d); l.unlock_shared(); } break;
    case 3: if (l.try_lock()) { writeCS(d); (*done)++; l.unlock(); } break;
    }
}
static void slOp(SL &l, Data &d, int op, int *done)
{
    switch (op)
    {
    case 0: { std::lock_guard<SL> g(l); writeCS(d); (*done)++; break; }
    case 1: if (l.try_lock()) { writeCS(d); (*done)++; l.unlock(); } break;
    }
}

template <typename L> static void concurrent(int nthreads, int nops, int kinds, void (*f)(L &, Data &, int, int *))
{
    // the lock lives on the heap so that its memory starts with other contents
    void *mem = ::operator new(sizeof(L)); memset(mem, 0xa5, sizeof(L));
    L *l = new (mem) L(); Data d;
    std::vector<std::vector<int>> prog(nthreads);
    int prev = 0;
    for (int t = 0; t < nthreads; t++)
    {
        int code = 0;
        for (int i = 0; i < nops; i++) { prog[t].push_back(choose(kinds)); code = code*kinds + prog[t].back(); }
        // threads are interchangeable: only ordered tuples of programs
        if (code < prev) return;
        prev = code;
    }
    std::vector<int> done(nthreads, 0);
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; t++) th.emplace_back([&, t]{ for (int op : prog[t]) f(*l, d, op, &done[t]); });
    for (auto &x : th) x.join();
    int n = 0; for (int x : done) n += x;
    check(d.a == n and d.b == n and d.c == n, "lost-update", "expected " + std::to_string(n) + " updates, found " + std::to_string(d.a));
    // afterwards the lock is free
    check(l->try_lock(), "stuck", "the lock can not be taken after everyone left"); l->unlock();
    l->lock(); l->unlock();
    mc::outcome(mc::Hash().add(n).h);
}

static void readersTogether(void)
{
    // two readers must be able to hold the lock at the same time: each waits for the other inside
    RW l; bool in[2] = {false, false};
    std::thread a([&]{ l.lock_shared(); mc::ignoreRaces(true); in[0] = true; mc::await([&]{ return in[1]; }); mc::ignoreRaces(false); l.unlock_shared(); });
    std::thread b([&]{ l.lock_shared(); mc::ignoreRaces(true); in[1] = true; mc::await([&]{ return in[0]; }); mc::ignoreRaces(false); l.unlock_shared(); });
    a.join(); b.join();
    check(l.try_lock(), "stuck"); l.unlock();
}

static void sequential(int depth)
{
    RW l; SL s; int readers = 0; bool writer = false, held = false;
    for (int d = 0; d < depth; d++)
    {
        const int op = choose(9);
        switch (op)
        {
        case 0: { const bool ok = l.try_lock_shared(); check(ok == not writer, "try-shared", ok?"granted against a writer":"refused"); if (ok) readers++; break; }
        case 1: { const bool ok = l.try_lock(); check(ok == (not writer and readers == 0), "try-exclusive", ok?"granted against a holder":"refused"); if (ok) writer = true; break; }
        case 2: if (readers == 0) return; l.unlock_shared(); readers--; break;
        case 3: if (not writer) return; l.unlock(); writer = false; break;
        case 4: if (writer) return; l.lock_shared(); readers++; break;
        case 5: if (writer or readers) return; l.lock(); writer = true; break;
        case 6: { const bool ok = s.try_lock(); check(ok == not held, "try-lock", ok?"granted while held":"refused"); held = true; break; }
        case 7: if (not held) return; s.unlock(); held = false; break;
        case 8: if (held) return; s.lock(); held = true; break;
        }
        mc::step();
        if (mc::tracing()) mc::trace("op " + std::to_string(op) + " readers " + std::to_string(readers) + " writer " + std::to_string(writer) + " held " + std::to_string(held));
        if (mc::failed()) return;
        if (not mc::visit(mc::Hash().add(readers).add(writer).add(held).h, depth-d-1)) return;
    }
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; v.push_back(s); };
    { mc::Scenario s; s.name = "sequential"; s.body = [=]{ sequential(thorough?40:20); }; v.push_back(s); }
    thr("rw-readers-together", 1000000, readersTogether);
    thr("spin-2x2", 1000000, []{ concurrent<SL>(2, 2, 2, slOp); });
    thr("spin-3x1", 1000000, []{ concurrent<SL>(3, 1, 2, slOp); });
    thr("rw-2x1", 1000000, []{ concurrent<RW>(2, 1, 4, rwOp); });
    thr("rw-2x2", thorough?1000000:3, []{ concurrent<RW>(2, 2, 4, rwOp); });
    thr("rw-3x1", thorough?1000000:3, []{ concurrent<RW>(3, 1, 4, rwOp); });
    if (thorough)
    {
        thr("spin-2x3", 1000000, []{ concurrent<SL>(2, 3, 2, slOp); });
        thr("spin-3x2", 4, []{ concurrent<SL>(3, 2, 2, slOp); });
        thr("rw-2x3", 4, []{ concurrent<RW>(2, 3, 4, rwOp); });
        thr("rw-3x2", 3, []{ concurrent<RW>(3, 2, 4, rwOp); });
        thr("rw-4x1", 3, []{ concurrent<RW>(4, 1, 4, rwOp); });
    }
    return v;
}
