// A03: thread pools under every history of registrations and every interleaving within a preemption bound. Tasks are run
// repeatedly and exclusively while registered, never afterwards, and a destroyed pool has no threads left.
#define BLK_REAL_THREADS
#include "blk.hpp"
#include <Framework/ThreadEnvironment.hpp>
#include <Pothos/Framework/ThreadPool.hpp>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

struct Member
{
    int index; std::atomic<long> runs{0}, wakes{0}, pending{0}; long data = 0; bool gone = true; std::mutex m; std::condition_variable c; bool waitSeen = false;
    bool task(bool wait)
    {
        if (gone) mc::fail("runs-unregistered", "task " + std::to_string(index) + " runs although it is not registered");
        mc::enter(index); data++; runs++; bool did = false;
        if (pending > 0) { pending--; did = true; }
        else if (wait) { std::unique_lock<std::mutex> l(m); c.wait_for(l, std::chrono::milliseconds(1)); }
        mc::leave(index);
        if (not did and not wait) std::this_thread::yield();
        return did;
    }
    void wake(void) { wakes++; c.notify_all(); }
};
struct Pool
{
    std::unique_ptr<Member[]> m; std::unique_ptr<ThreadEnvironment> env; int n; bool in[4] = {false, false, false, false};
    Pool(int n, size_t threads, bool spin) : m(new Member[n]), n(n)
    {
        for (int i = 0; i < n; i++) m[i].index = i;
        Pothos::ThreadPoolArgs args; args.numThreads = threads; if (spin) args.yieldMode = "SPIN";
        env.reset(new ThreadEnvironment(args));
    }
    void add(int i) { Member &t = m[i]; t.gone = false; env->registerTask(&t, std::bind(&Member::task, &t, std::placeholders::_1), std::bind(&Member::wake, &t)); in[i] = true; }
    void remove(int i) { env->unregisterTask(&m[i]); m[i].gone = true; m[i].data++; in[i] = false; }
    // the task is run again, more than once
    void served(int i) { const long r = m[i].runs; mc::await([&]{ return m[i].runs >= r + 2; }); }
    void destroy(void) { env.reset(); for (int i = 0; i < n; i++) { m[i].gone = true; m[i].data++; } }
};
// main: any history of adding and removing members
static void history(int members, int depth)
{
    const int threads = mc::choose(3, "threads"); const bool spin = mc::choose(2, "spin"), work = mc::choose(2, "work");
    Pool p(members, threads, spin);
    if (work) for (int i = 0; i < members; i++) p.m[i].pending = 2;
    for (int d = 0; d < depth; d++)
    {
        // the members are alike: a new one is the first that is not registered
        int fresh = -1; for (int i = members; i-- > 0;) if (not p.in[i]) fresh = i;
        std::vector<int> rem; for (int i = 0; i < members; i++) if (p.in[i]) rem.push_back(i);
        const int c = mc::choose(1 + (fresh >= 0) + int(rem.size()), "op");
        if (c == 0) break;
        if (c == 1 and fresh >= 0) { if (mc::tracing()) mc::trace("register " + std::to_string(fresh)); p.add(fresh); }
        else { const int r = rem[c - 1 - (fresh >= 0)]; if (mc::tracing()) mc::trace("unregister " + std::to_string(r)); p.remove(r); }
        if (d + 1 == depth or mc::choose(2, "look")) for (int i = 0; i < members; i++) if (p.in[i]) p.served(i);
    }
    if (mc::choose(2, "leave to the destructor")) p.destroy();
    else { for (int i = 0; i < members; i++) if (p.in[i]) p.remove(i); p.destroy(); }
    mc::outcome(1);
}
// several threads edit one pool
static void editors(int n)
{
    const int threads = mc::choose(3, "threads"); const bool spin = mc::choose(2, "spin");
    Pool p(n + 1, threads, spin);
    if (mc::choose(2, "before")) p.add(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([&, i]{ p.add(i); p.served(i); p.remove(i); });
    for (auto &t : th) t.join();
    if (p.in[n]) p.served(n);
    p.destroy();
}
// blocks move between pools
static void blocks(int n, int depth)
{
    using namespace Pothos;
    mc::quiet(true);
    ThreadPool pools[3]; pools[1] = ThreadPool(ThreadPoolArgs(size_t(1))); pools[2] = ThreadPool(ThreadPoolArgs(size_t(0)));
    std::vector<std::unique_ptr<Blk>> b(n); std::vector<int> at(n, 0); std::vector<std::atomic<long>> works(n); std::unique_ptr<long[]> data(new long[n]());
    for (int i = 0; i < n; i++)
    {
        works[i] = 0; b[i].reset(new Blk()); b[i]->setThreadPool(ThreadPool()); b[i]->_actor->setActiveStateOn();
        b[i]->onWork = [&, i](Blk &k){ mc::enter(i); if (at[i] < 0) mc::fail("runs-unregistered", "a block without a pool is worked"); data[i]++; works[i]++; mc::leave(i); };
        mc::ignoreRaces(true); at[i] = -1; mc::ignoreRaces(false);
    }
    mc::quiet(false);
    for (int d = 0; d < depth; d++)
    {
        const int i = n > 1?mc::choose(n, "block"):0, to = mc::choose(3, "pool");
        if (mc::tracing()) mc::trace("block " + std::to_string(i) + " to pool " + std::to_string(to));
        // the block is told before it enters and after it has left
        if (to) { if (at[i] < 0) at[i] = 0; }
        b[i]->setThreadPool(pools[to]);
        if (not to) at[i] = -1;
        mc::check(bool(b[i]->getThreadPool()) == (to != 0) and b[i]->getThreadPool() == pools[to], "pool", "the block does not report its pool");
        for (int k = 0; k < n; k++) if (at[k] >= 0) { const long w = works[k]; b[k]->_actor->flagExternalChange(); mc::await([&]{ return works[k] > w; }); }
    }
    if (mc::choose(2, "pools first")) for (auto &p : pools) p = ThreadPool();
    for (auto &x : b) { x->_actor->setActiveStateOff(); x.reset(); }
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.maxTimeouts = 2000; v.push_back(s); };
    thr("one", thorough?4:2, []{ history(1, 3); });
    thr("two", 1, [=]{ history(2, 4); }); if (not thorough) v.back().freeSwitch = false;
    thr("three", thorough?1:0, [=]{ history(3, thorough?5:4); }); v.back().freeSwitch = false;
    thr("editors-2", thorough?2:1, []{ editors(2); }); v.back().freeSwitch = false;
    thr("block", 1, [=]{ blocks(1, 3); });
    thr("blocks", thorough?1:0, [=]{ blocks(2, 3); }); v.back().freeSwitch = false;
    return v;
}
