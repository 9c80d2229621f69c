// S02 (threads): references copied and dropped by several threads while the provider's owner tries to reuse
// the buffer. The last drop returns it once, and everything readers did happens before its reuse.
#define BLK_REAL_THREADS
#include "blk.hpp"
#include <Pothos/Util/SpinLock.hpp>
#include <thread>
using namespace Pothos;

static void run(const char *kind, int readers, int extraCopy, bool viaChunk)
{
    const size_t num = 2, size = (std::string(kind) == "circular")?4096:64;
    BufferManagerArgs args; args.numBuffers = num; args.bufferSize = size;
    auto mgr = BufferManager::make(kind, args);
    Util::SpinLock lock; int returned = 0;
    auto raw = mgr.get();
    mgr->setCallback([&, raw](const ManagedBuffer &mb) { lock.lock(); returned++; raw->push(mb); lock.unlock(); });
    // the owner takes the first buffer completely
    BufferChunk c = mgr->front(); mgr->pop(c.length);
    const size_t first = c.getManagedBuffer().getSlabIndex(); const size_t addr = c.address;
    volatile int *mem = (volatile int *)addr; *mem = 7;
    std::vector<std::thread> th;
    std::vector<BufferChunk> copies(readers, c); std::vector<ManagedBuffer> mcopies(readers, c.getManagedBuffer());
    if (viaChunk) for (auto &m : mcopies) m.reset(); else for (auto &m : copies) m.clear();
    for (int r = 0; r < readers; r++) th.emplace_back([&, r]
    {
        if (r < extraCopy) { if (viaChunk) { BufferChunk again(copies[r]); copies[r].clear(); if (*mem != 7) mc::fail("held-content", "memory changed while referenced"); } else { ManagedBuffer again(mcopies[r]); mcopies[r].reset(); if (*mem != 7) mc::fail("held-content", "memory changed while referenced"); } }
        else { if (*mem != 7) mc::fail("held-content", "memory changed while referenced"); if (viaChunk) copies[r].clear(); else mcopies[r].reset(); }
    });
    c.clear();
    // the owner works on: it may use the second buffer, and the first one as soon as it is offered again
    for (int i = 0; i < 2; i++)
    {
        lock.lock();
        BufferChunk n; if (not mgr->empty()) { n = mgr->front(); mgr->pop(n.length); }
        lock.unlock();
        if (n) *(volatile int *)n.address = 9;
        mc::ignoreRaces(true);
        if (n and n.getManagedBuffer().getSlabIndex() == first and returned == 0) mc::fail("offered-while-held", "the buffer is offered before it was returned");
        mc::ignoreRaces(false);
        n.clear();
    }
    for (auto &t : th) t.join();
    // everything came back exactly once: both buffers are offered, in order
    int seen = 0; std::vector<BufferChunk> keep;
    while (not mgr->empty() and seen <= 2) { keep.push_back(mgr->front()); mgr->pop(mgr->front().length); seen++; }
    mc::check(seen == 2, "provider-incomplete", std::to_string(seen) + " of 2 buffers are back");
    mc::outcome(mc::Hash().add(returned).h);
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; v.push_back(s); };
    thr("chunk-generic-1", 1000000, []{ run("generic", 1, 0, true); });
    thr("buffer-generic-1", 1000000, []{ run("generic", 1, 1, false); });
    thr("chunk-circular-1", 1000000, []{ run("circular", 1, 0, true); });
    thr("chunk-generic-2", thorough?6:4, []{ run("generic", 2, 1, true); });
    thr("buffer-generic-2", thorough?6:4, []{ run("generic", 2, 0, false); });
    if (thorough) { thr("chunk-circular-2", 3, []{ run("circular", 2, 1, true); }); thr("chunk-generic-3", 3, []{ run("generic", 3, 1, true); }); }
    return v;
}
