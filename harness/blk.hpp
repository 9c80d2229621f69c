// Programmable blocks driven step by step (no worker threads), and state recognition helpers.
#pragma once
#include <mc.hpp>
#include <Framework/WorkerActor.hpp>
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/InputPortImpl.hpp>
#include <Pothos/Framework/OutputPortImpl.hpp>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include <pthread.h>

#ifndef BLK_REAL_THREADS
// sequential harnesses: worker threads are created but never run; the harness itself performs every work step
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*)(void *), void *) { static unsigned long n = 1; *t = ++n; return 0; }
extern "C" int pthread_join(pthread_t, void **) { return 0; }
#endif

struct Blk : Pothos::Block
{
    std::function<void(Blk &)> onWork, onActivate, onDeactivate;
    std::function<bool(Blk &)> onPrepare;
    std::function<void(Blk &, const Pothos::InputPort *)> onLabels;
    unsigned works = 0;
    bool prepare(void) { return onPrepare?onPrepare(*this):true; }
    void work(void) { works++; if (onWork) onWork(*this); }
    void activate(void) { if (onActivate) onActivate(*this); }
    void deactivate(void) { if (onDeactivate) onDeactivate(*this); }
    void propagateLabels(const Pothos::InputPort *p) { if (onLabels) onLabels(*this, p); else Pothos::Block::propagateLabels(p); }

    // give the block one opportunity; true when work() ran
    bool run(void)
    {
        const auto w = works;
        _actor->flagInternalChange();
        _actor->processTask(false);
        return works != w;
    }
    // offer an opportunity without flagging a change ourselves
    bool runIfFlagged(void)
    {
        const auto w = works;
        _actor->processTask(false);
        return works != w;
    }
};

inline void connectBlk(Blk &a, const std::string &out, Blk &b, const std::string &in, bool on = true)
{
    const char *what = on?"add":"remove";
    a._actor->subscribeInput(what, out, b.input(in));
    b._actor->subscribeOutput(what, in, a.output(out));
}

inline Pothos::BufferManager::Sptr makeManager(const std::string &kind, size_t num, size_t size)
{
    Pothos::BufferManagerArgs args; args.numBuffers = num; args.bufferSize = size;
    if (kind != "circular") return Pothos::BufferManager::make(kind, args);
    // setting up mirrored memory is slow: every execution of a scenario uses the same few areas
    static std::vector<Pothos::SharedBuffer> areas;
    return Pothos::BufferManager::make(kind, args, [](const Pothos::BufferManagerArgs &a)
    {
        for (auto &b : areas) if (b.useCount() == 1 and b.getLength() == a.bufferSize*a.numBuffers) { std::memset((void *)b.getAddress(), 0x66, b.getLength()); return b; }
        areas.push_back(Pothos::SharedBuffer::makeCirc(a.bufferSize*a.numBuffers, a.nodeAffinity));
        std::memset((void *)areas.back().getAddress(), 0x66, areas.back().getLength());
        return areas.back();
    });
}

// ---- optional look at internals, only used to recognise equal states --------------------
namespace peek
{
    template <typename A> auto queueOf(A &a, int) -> decltype(&a._queue) { return &a._queue; }
    template <typename A> Pothos::Util::RingDeque<Pothos::BufferChunk> *queueOf(A &, long) { return nullptr; }
    template <typename A> auto flagOf(A &a, int) -> decltype((long)a._inPoolBuffer) { return (long)a._inPoolBuffer; }
    template <typename A> long flagOf(A &, long) { return -1; }
    template <typename A> auto tailOf(A &a, int) -> decltype((long)a._poolTailBytes) { return (long)a._poolTailBytes; }
    template <typename A> long tailOf(A &, long) { return -1; }
    template <typename P> auto accOf(P &p, int) -> decltype(&p._bufferAccumulator) { return &p._bufferAccumulator; }
    template <typename P> Pothos::BufferAccumulator *accOf(P &, long) { return nullptr; }
    template <typename P> auto reserveOf(P &p, int) -> decltype((long)p._reserveElements) { return (long)p._reserveElements; }
    template <typename P> long reserveOf(P &, long) { return -1; }
}
typedef std::map<const void *, int> Ids;
inline uint64_t idOf(Ids &ids, const void *p) { return uint64_t(ids.emplace(p, int(ids.size())).first->second); }

// layout of an accumulator in multiples of unit, with the contents of all memory it refers to as given by rel(address)
inline bool hashAccum(mc::Hash &h, Pothos::BufferAccumulator &acc, Ids &ids, size_t unit, const std::function<uint64_t(size_t)> &rel)
{
#ifdef MC_NO_PEEK
    return false;
#endif
    auto *q = peek::queueOf(acc, 0); const long fl = peek::flagOf(acc, 0);
    if (q == nullptr or fl == -1) return false;
    h.add(uint64_t(fl)).add(uint64_t(peek::tailOf(acc, 0))).add(q->size()).add(acc.getTotalBytesAvailable());
    for (size_t i = 0; i < q->size(); i++)
    {
        const auto &c = (*q)[i];
        h.add(idOf(ids, c.getManagedBuffer()._impl));
        if (not c) { h.add(7); continue; }
        const size_t base = c.getBuffer().getAddress(), end = c.getBuffer().getEnd();
        h.add(c.address - base).add(c.length).add(c.getManagedBuffer().getSlabIndex()).add(c.useCount()).add(c.getBuffer().getLength());
        if (end - base <= 16*unit) for (size_t a = base; a + unit <= end; a += unit) h.add(rel(a));
    }
    return true;
}
inline void hashManager(mc::Hash &h, const Pothos::BufferManager::Sptr &m)
{
    h.add(m->empty());
    const auto &f = m->front();
    h.add(bool(f));
    if (f) h.add(f.getManagedBuffer().getSlabIndex()).add(f.address - f.getBuffer().getAddress()).add(f.length).add(f.useCount());
}
