// S02: every sequence of taking, copying, moving, (self-)assigning, slicing, queueing and dropping buffer
// references on the real managers, chunks, accumulator and pool. Memory that is referenced must keep its
// contents and never be offered or returned; at the end every provider has all its buffers, in order.
#include "blk.hpp"
#include <deque>
#include <new>
using namespace Pothos;
static const size_t U = 8;

struct Piece { size_t addr, len; };
enum Kind { GENERIC, CIRCULAR, POOL, PLAIN };

static void run(Kind kind, bool withAcc, int depth, int noPruneDepth)
{
    const size_t scale = (kind == CIRCULAR)?128:1, unit = U*scale, B = 4;
    const size_t num = (kind == CIRCULAR)?4:3;
    BufferManager::Sptr mgr; BufferPool pool;
    std::deque<Piece> acc_;                       // what the accumulator must still hold, in order
    Piece model[3] = {};                          // what the handles must refer to
    typedef std::vector<uint64_t> Stamps; Stamps stamp[3]; std::deque<Stamps> accStamp; uint64_t next = 1; // expected contents: one number per unit
    std::vector<int> returned(num, 0); std::vector<std::pair<size_t, size_t>> region(num);
    bool watching = true;
    auto intersects = [&](size_t a, size_t n)
    {
        for (int i = 0; i < 3; i++) if (model[i].len and model[i].addr < a + n and a < model[i].addr + model[i].len) return true;
        for (auto &p : acc_) if (p.addr < a + n and a < p.addr + p.len) return true;
        return false;
    };
    if (kind == GENERIC or kind == CIRCULAR)
    {
        mgr = makeManager((kind == CIRCULAR)?"circular":"generic", num, B*unit);
        if (kind == GENERIC)
        {
            const size_t base = mgr->front().address;
            for (size_t i = 0; i < num; i++) region[i] = std::make_pair(base + i*B*unit, B*unit);
        }
        auto raw = mgr.get();
        mgr->setCallback([&, raw](const ManagedBuffer &mb)
        {
            const size_t idx = mb.getSlabIndex();
            if (idx >= num) { mc::fail("return-index", "a buffer with an unknown index came back"); return; }
            returned[idx]++;
            if (watching and kind == GENERIC and intersects(region[idx].first, region[idx].second)) mc::fail("returned-while-held", "buffer " + std::to_string(idx) + " was returned to its provider while it is still referenced");
            raw->push(mb);
        });
    }
    alignas(BufferChunk) unsigned char store[3][sizeof(BufferChunk)];
    BufferChunk *h[3]; for (int i = 0; i < 3; i++) h[i] = new (store[i]) BufferChunk();
    std::unique_ptr<BufferAccumulator> acc(new BufferAccumulator());
    auto stampMem = [&](size_t addr, size_t len) { Stamps s; for (size_t o = 0; o < len; o += unit) { *(uint64_t *)(addr + o) = next; *(uint64_t *)(addr + o + unit - 8) = next; s.push_back(next++); } return s; };
    auto good = [&](size_t addr, size_t len, const Stamps &st) { size_t i = 0; for (size_t o = 0; o < len; o += unit) { const uint64_t s = st[i++]; if (*(uint64_t *)(addr + o) != s or *(uint64_t *)(addr + o + unit - 8) != s) return false; } return true; };
    auto verify = [&]()
    {
        for (int i = 0; i < 3; i++)
        {
            mc::check(bool(*h[i]) == (model[i].addr != 0), "handle-null", "handle " + std::to_string(i));
            mc::check(h[i]->address == model[i].addr and h[i]->length == model[i].len, "handle-range", "handle " + std::to_string(i) + " refers to the wrong range");
            if (mc::failed()) return;
            mc::check(good(model[i].addr, model[i].len, stamp[i]), "held-content", "the memory of handle " + std::to_string(i) + " was changed while it is referenced");
        }
        size_t total = 0; for (auto &p : acc_) total += p.len;
        mc::check(acc->getTotalBytesAvailable() == total, "queue-bytes", "");
        for (size_t i = 0; i < acc_.size(); i++) mc::check(good(acc_[i].addr, acc_[i].len, accStamp[i]), "held-content", "queued memory was changed while it is referenced");
        if (mgr and not mgr->empty()) mc::check(not intersects(mgr->front().address, mgr->front().length), "offered-while-held", "the provider offers memory that is still referenced");
    };
    auto canon = [&](mc::Hash &hh)
    {
#ifdef MC_NO_PEEK
        return false;
#else
        Ids ids;
        for (int i = 0; i < 3; i++)
        {
            hh.add(idOf(ids, h[i]->getManagedBuffer()._impl)).add(h[i]->length).add(h[i]->useCount());
            if (*h[i]) hh.add(h[i]->address - h[i]->getBuffer().getAddress()).add(h[i]->getManagedBuffer().getSlabIndex()).add(h[i]->_nextBuffers).add(h[i]->getBuffer().getLength());
        }
        if (mgr) { hashManager(hh, mgr); hh.add(kind == CIRCULAR and not mgr->empty()?mgr->front().address:0); }
        for (int r : returned) hh.add(mgr?0:r);
        if (withAcc) { if (not hashAccum(hh, *acc, ids, unit, [](size_t) { return uint64_t(0); })) return false; }
        if (kind == POOL)
        {
            hh.add(pool._buffs.size()).add(pool._minBuffSize);
            for (auto &b : pool._buffs) hh.add(b.useCount()).add(idOf(ids, b.getManagedBuffer()._impl));
        }
        return true;
#endif
    };
    { mc::Hash x; if (not canon(x)) depth = noPruneDepth; }
    bool mgrGone = false;
    struct Guard { bool &w; BufferChunk **h; bool done; ~Guard(void) { w = false; if (not done) for (int i = 0; i < 3; i++) h[i]->~BufferChunk(); } } guard{watching, h, false};
    for (int d = 0; d < depth; d++)
    {
        // take x4 | copy-assign 9 | move-assign 9 | clear 3 | slice 3 | destroy+copy-construct 6 | queue 3 | front 3 | consume 2 | drop the provider
        int op = mc::choose(4 + 9 + 9 + 3 + 3 + 6 + (withAcc?8:0) + ((mgr or mgrGone)?1:0));
        std::string nm;
        if (op < 4)
        {
            const int i = op & 1, big = op >> 1; // into handle 0/1; one unit or everything
            size_t n;
            BufferChunk c;
            if (kind == POOL)
            {
                const size_t want = big?8*1024:16;
                auto &ref = pool.get(want); c = ref; n = unit*2;
                mc::check(ref.length >= want and ref.getBuffer().getLength() >= want, "pool-size", "the pool returned a smaller buffer than asked for");
                mc::check(not intersects(c.address, c.length), "offered-while-held", "the pool offers memory that is still referenced");
                if (mc::failed()) return;
            }
            else if (kind == PLAIN) { c = BufferChunk((big?B:1)*unit); n = c.length; }
            else
            {
                if (not mgr or mgr->empty()) return;
                c = mgr->front(); n = big?c.length:unit;
                if (c.length < n or n == 0) return;
            }
            c.length = n; model[i] = Piece{c.address, n}; stamp[i] = stampMem(c.address, n);
            *h[i] = c; // the previous reference of the handle is dropped here
            if (mgr) mgr->pop(n);
            nm = "take " + std::to_string(n/unit) + " into " + std::to_string(i);
        }
        else if ((op -= 4) < 9)
        {
            const int i = op/3, j = op%3; nm = "h" + std::to_string(i) + " = h" + std::to_string(j);
            model[i] = model[j]; stamp[i] = stamp[j];
            *h[i] = *(const BufferChunk *)h[j];
        }
        else if ((op -= 9) < 9)
        {
            const int i = op/3, j = op%3; nm = "h" + std::to_string(i) + " = move(h" + std::to_string(j) + ")";
            if (i == j)
            {   // a value moved onto itself is either kept or given up
                auto *p = h[i]; *h[i] = std::move(*p);
                if (not *h[i]) model[i] = Piece();
            }
            else { model[i] = model[j]; stamp[i] = stamp[j]; model[j] = Piece(); *h[i] = std::move(*h[j]); }
        }
        else if ((op -= 9) < 3) { nm = "clear h" + std::to_string(op); model[op] = Piece(); h[op]->clear(); }
        else if ((op -= 3) < 3)
        {
            if (model[op].len < 2*unit) return;
            nm = "slice h" + std::to_string(op);
            model[op].addr += unit; model[op].len -= unit; stamp[op].erase(stamp[op].begin()); h[op]->address += unit; h[op]->length -= unit;
        }
        else if ((op -= 3) < 6)
        {   // destroy a handle and construct it anew from another one (copy or move)
            const int i = op/2, j = (i + 1)%3, mv = op%2; nm = std::string("new h") + std::to_string(i) + (mv?" from move(h":" from h(") + std::to_string(j) + ")";
            model[i] = Piece(); h[i]->~BufferChunk();
            model[i] = model[j]; stamp[i] = stamp[j];
            if (mv) { model[j] = Piece(); new (store[i]) BufferChunk(std::move(*h[j])); } else new (store[i]) BufferChunk(*(const BufferChunk *)h[j]);
        }
        else if (withAcc and (op -= 6) < 8)
        {
            if (op < 3)
            {
                if (model[op].len == 0) return;
                nm = "queue h" + std::to_string(op);
                acc_.push_back(model[op]); accStamp.push_back(stamp[op]); model[op] = Piece();
                acc->push(std::move(*h[op]));
            }
            else if (op < 6)
            {
                const int i = op - 3; if (acc_.empty()) return;
                nm = "h" + std::to_string(i) + " = front";
                const auto &f = acc->front();
                Stamps all; for (auto &x : accStamp) all.insert(all.end(), x.begin(), x.end());
                mc::check(f.length != 0 and f.length <= all.size()*unit and good(f.address, f.length, all), "front-content", "the front of the queue does not show the queued data in order");
                if (mc::failed()) return;
                all.resize(f.length/unit);
                model[i] = Piece{f.address, f.length}; stamp[i] = all;
                *h[i] = f;
            }
            else
            {
                size_t n = (op == 6)?unit:acc->front().length;
                if (n == 0 or n > acc->front().length) return;
                nm = "consume " + std::to_string(n/unit);
                size_t left = n; while (left) { auto &p = acc_.front(); const size_t m = std::min(left, p.len); p.addr += m; p.len -= m; accStamp.front().erase(accStamp.front().begin(), accStamp.front().begin() + m/unit); left -= m; if (p.len == 0) { acc_.pop_front(); accStamp.pop_front(); } }
                acc->pop(n);
            }
        }
        else { if (mgrGone) return; nm = "drop provider"; mgr.reset(); mgrGone = true; }
        mc::step(); mc::trace(nm);
        if (not mc::failed()) verify();
        if (mc::failed()) return;
        mc::Hash hh; hh.add(mgrGone);
        if (canon(hh) and not mc::visit(hh.h, depth - d - 1)) return;
    }
    // drop everything: all buffers are back, each offered once, in order
    guard.done = true;
    for (int i = 0; i < 3; i++) { model[i] = Piece(); h[i]->~BufferChunk(); }
    acc_.clear(); acc.reset();
    if (mgr and not mc::failed())
    {
        long prev = -1; size_t n = 0; std::vector<bool> seen(num, false);
        std::vector<BufferChunk> keep;
        while (not mgr->empty() and n <= num)
        {
            const auto f = mgr->front();
            mc::check(bool(f) and f.length != 0, "provider-front", "a provider that is not empty offers nothing");
            if (mc::failed()) return;
            const long idx = long(f.getManagedBuffer().getSlabIndex());
            mc::check(not seen[idx], "offered-twice", "a buffer is offered twice");
            mc::check(prev == -1 or idx == (prev + 1) % long(num), "provider-order", "buffers are not offered in their original order");
            seen[idx] = true; prev = idx; n++;
            keep.push_back(f); mgr->pop(B*unit < f.length?f.length:f.length + (B*unit - f.length));
        }
        mc::check(n == num, "provider-incomplete", "only " + std::to_string(n) + " of " + std::to_string(num) + " buffers came back");
    }
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *nm, Kind k, bool acc, int q, int t) { const int d = thorough?t:q; Scenario s; s.name = std::string(nm) + "-depth" + std::to_string(d); s.body = [=]{ run(k, acc, d, 4); }; v.push_back(s); };
    add("generic", GENERIC, false, 8, 12);
    add("generic-queue", GENERIC, true, 7, 9);
    add("circular", CIRCULAR, false, 7, 9);
    add("circular-queue", CIRCULAR, true, 6, 8);
    add("pool", POOL, false, 7, 9);
    add("unmanaged", PLAIN, true, 7, 9);
    return v;
}
