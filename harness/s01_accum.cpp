// S01 (accumulator level): every sequence of deliveries, consumes and reserve requests on the real
// BufferAccumulator, fed from the real buffer managers, compared with the plain byte stream.
#include <mc.hpp>
#include "blk.hpp"
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
using namespace Pothos;

static size_t U; // bytes per unit
static void fillUnit(size_t addr, uint64_t seq) { std::memcpy((void *)addr, &seq, 8); std::memcpy((void *)(addr + U - 8), &seq, 8); }
static uint64_t readUnit(size_t addr)
{
    uint64_t a, b; std::memcpy(&a, (void *)addr, 8); std::memcpy(&b, (void *)(addr + U - 8), 8);
    return (a == b)?a:~0ull;
}

struct Stage // one accumulator and the stream it must show
{
    BufferAccumulator acc;
    uint64_t head = 1, tail = 1; // next unit to read, next unit to arrive
    BufferChunk held; uint64_t heldSeq = 0;
    bool verify(const char *who)
    {
        const size_t avail = (tail - head)*U;
        mc::check(acc.getTotalBytesAvailable() == avail, "total-bytes", std::string(who) + ": " + std::to_string(acc.getTotalBytesAvailable()/U) + " units available, expected " + std::to_string(avail/U));
        mc::check(acc.empty() == (avail == 0), "empty-flag", who);
        const auto &f = acc.front();
        mc::check(f.length <= avail, "front-length", std::string(who) + ": the front holds more than was delivered");
        mc::check(avail == 0 or f.length != 0, "front-empty", std::string(who) + ": data arrived but the front is empty");
        mc::check(f.length % U == 0, "front-length", std::string(who) + ": front is not a whole number of units");
        if (mc::failed()) return false;
        for (size_t i = 0; i < f.length/U; i++)
        {
            const auto got = readUnit(f.address + i*U);
            if (got != head + i) { mc::fail("stream-content", std::string(who) + ": unit " + std::to_string(i) + " of the front is #" + std::to_string(got) + ", expected #" + std::to_string(head + i)); return false; }
        }
        for (size_t i = 0; i < held.length/U; i++)
        {
            const auto got = readUnit(held.address + i*U);
            if (got != heldSeq + i) { mc::fail("held-content", std::string(who) + ": memory of a held buffer changed: #" + std::to_string(got) + ", expected #" + std::to_string(heldSeq + i)); return false; }
        }
        return true;
    }
    uint64_t rel(uint64_t v) const { const int64_t d = int64_t(v - head); return (v == ~0ull)?99:uint64_t(std::max<int64_t>(-20, std::min<int64_t>(40, d)) + 50); }
    bool hash(mc::Hash &h, std::map<const void *, int> &ids)
    {
        auto *q = peek::queueOf(acc, 0); const long fl = peek::flagOf(acc, 0);
        if (q == nullptr or fl == -1) return false;
        h.add(tail - head).add(uint64_t(fl)).add(peek::tailOf(acc, 0)/int(U)).add(q->size());
        for (size_t i = 0; i < q->size(); i++)
        {
            const auto &c = (*q)[i];
            h.add(uint64_t(ids.emplace(c.getManagedBuffer()._impl, int(ids.size())).first->second));
            if (not c) { h.add(7); continue; }
            const size_t base = c.getBuffer().getAddress(), end = c.getBuffer().getEnd();
            h.add((c.address - base)/U).add(c.length/U).add(c.getManagedBuffer().getSlabIndex()).add(c.useCount()).add(c.getBuffer().getLength()/U);
            if (end - base <= 8*U) for (size_t a = base; a + U <= end; a += U) h.add(rel(readUnit(a)));
        }
        h.add(held.length/U).add(rel(heldSeq));
        if (held) h.add(uint64_t(ids.emplace(held.getManagedBuffer()._impl, int(ids.size())).first->second)).add((held.address - held.getBuffer().getAddress())/U);
        return true;
    }
};

enum Kind { GENERIC, CIRCULAR, EXTERNAL };

// require(n): afterwards the front holds n contiguous units if so many are available
static void doRequire(Stage &s, size_t units, const char *who)
{
    s.acc.require(units*U);
    if (s.tail - s.head >= units) mc::check(s.acc.front().length >= units*U, "require-unmet", std::string(who) + ": " + std::to_string(s.tail - s.head) + " units available but the front holds " + std::to_string(s.acc.front().length/U) + " after require(" + std::to_string(units) + ")");
}

static void run(Kind kind, bool forward, int depth, int noPruneDepth)
{
    U = 2048; // 4 units fit into a buffer of the accumulator's pool
    Stage s1, s2; // s2 only with forward
    BufferManager::Sptr mgr;
    if (kind != EXTERNAL)
    {
        mgr = makeManager((kind == CIRCULAR)?"circular":"generic", (kind == CIRCULAR)?4:3, 4*U);
    }
    SharedBuffer lastExt; size_t lastPos = 0; // external source: last allocation and where its next slice may start
    size_t mgrPos = 0;
    {
        mc::Hash h; std::map<const void *, int> ids;
        if (not s1.hash(h, ids)) depth = noPruneDepth;
    }
    Stage &last = forward?s2:s1;
    for (int d = 0; d < depth; d++)
    {
        // ---- choose one operation
        const int nSrc = (kind == EXTERNAL)?6:4;
        const int op = mc::choose(nSrc + 8 + (forward?3:0));
        std::string nm;
        if (op < nSrc)
        {
            if (kind == EXTERNAL)
            {
                size_t total = 4, from = 0, n = 4;
                SharedBuffer buf;
                switch (op)
                {
                case 0: break;
                case 1: from = 2; n = 2; break;
                case 2: n = 1; break;
                case 3: from = 1; n = 2; break;
                case 4: if (not lastExt or lastPos + 1 > 4) return; buf = lastExt; from = lastPos; n = 1; break;       // contiguous with the last
                case 5: if (not lastExt or lastPos + 2 > 4) return; buf = lastExt; from = lastPos + 1; n = 1; break;   // after a gap
                }
                if (not buf) { buf = SharedBuffer::make(total*U); for (size_t i = 0; i < total; i++) fillUnit(buf.getAddress() + i*U, 0x1000000 + i); }
                lastExt = buf; lastPos = from + n;
                BufferChunk c(buf); c.address += from*U; c.length = n*U;
                for (size_t i = 0; i < n; i++) fillUnit(c.address + i*U, s1.tail + i);
                s1.tail += n;
                s1.acc.push(std::move(c));
                nm = "deliver external " + std::to_string(n) + " at " + std::to_string(from);
            }
            else
            {
                if (mgr->empty()) return;
                auto c = mgr->front();
                size_t n = (op == 0)?1:((op == 1)?2:((op == 2)?c.length/U:1));
                if (c.length < n*U or n == 0) return;
                if (op == 3) { mgr->pop(n*U); mgrPos += n; nm = "skip 1"; } // given up without being sent
                else
                {
                    c.length = n*U;
                    for (size_t i = 0; i < n; i++) fillUnit(c.address + i*U, s1.tail + i);
                    s1.tail += n; mgrPos += n;
                    mgr->pop(n*U);
                    s1.acc.push(std::move(c));
                    nm = "deliver " + std::to_string(n);
                }
            }
        }
        else if (op < nSrc + 8)
        {
            switch (op - nSrc)
            {
            case 0: case 1: case 2:
            {
                const size_t have = last.acc.front().length/U;
                const size_t n = (op - nSrc == 0)?1:((op - nSrc == 1)?2:have);
                if (n > have or n == 0) return;
                last.acc.pop(n*U); last.head += n; nm = "consume " + std::to_string(n);
                break;
            }
            case 3: doRequire(last, 3, "last"); nm = "require 3"; break;
            case 4: doRequire(last, 6, "last"); nm = "require 6"; break;
            case 5: if (not last.held.getManagedBuffer() and last.acc.front().length) { last.held = last.acc.front(); last.heldSeq = last.head; nm = "hold"; break; } return;
            case 6: if (not last.held.getManagedBuffer()) return; last.held.clear(); last.heldSeq = 0; nm = "release"; break;
            case 7: doRequire(s1, 2, "first"); nm = "require(first) 2"; break;
            }
        }
        else
        {
            // forward the front of the first stage: whole, its first unit, or everything but its first unit (which is dropped)
            const size_t have = s1.acc.front().length/U;
            if (have == 0) return;
            BufferChunk c = s1.acc.front();
            const int how = op - nSrc - 8;
            if (how == 1) c.length = U;
            if (how == 2) { if (have < 2) return; c.address += U; c.length -= U; }
            // renumber what is forwarded as the stream of the second stage (the memory is shared, so use a private copy when it is not ours alone)
            for (size_t i = 0; i < c.length/U; i++) if (readUnit(c.address + i*U) != s1.head + i + (how == 2)) { mc::fail("stream-content", "first stage"); return; }
            // the second stage numbers its units by what it was sent: keep both streams equal by dropping numbers
            if (how == 2)
            {   // one unit is skipped: only allowed when the second stage is empty, so that numbering stays continuous
                if (s2.tail != s2.head or s2.acc.front().length) return;
                s2.head = s2.tail = s1.head + 1;
            }
            s2.tail += c.length/U;
            const size_t popUnits = c.length/U + (how == 2);
            s2.acc.push(std::move(c));
            s1.acc.pop(popUnits*U); s1.head += popUnits;
            nm = "forward " + std::to_string(popUnits);
        }
        mc::step();
        mc::trace(nm);
        if (not s1.verify(forward?"first":"stream")) return;
        if (forward and not s2.verify("second")) return;
        // ---- equal states
        mc::Hash h; std::map<const void *, int> ids;
        if (s1.hash(h, ids) and (not forward or s2.hash(h, ids)))
        {
            if (mgr)
            {
                h.add(mgr->empty());
                const auto &f = mgr->front();
                if (f) h.add(f.getManagedBuffer().getSlabIndex()).add((f.address - f.getBuffer().getAddress())/U).add(f.length/U);
                if (kind == CIRCULAR) h.add(mgrPos % 16);
            }
            else { h.add(lastPos); h.add(lastExt.getAddress() != 0); h.add(lastExt?uint64_t(lastExt.useCount()):0); if (lastExt) for (size_t i = 0; i < 4; i++) h.add(last.rel(readUnit(lastExt.getAddress() + i*U))); }
            if (not mc::visit(h.h, depth - d - 1)) return;
        }
    }
    // final: everything can be drained in order
    while (last.tail != last.head and not mc::failed())
    {
        const size_t n = last.acc.front().length/U;
        last.acc.pop(n*U); last.head += n;
        if (not last.verify("drain")) return;
    }
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *nm, Kind k, bool fwd, int q, int t, int np) { const int d = thorough?t:q; Scenario s; s.name = std::string(nm) + "-depth" + std::to_string(d); s.body = [=]{ run(k, fwd, d, np); }; v.push_back(s); };
    add("external", EXTERNAL, false, 6, 10, 5);
    add("generic", GENERIC, false, 7, 11, 5);
    add("circular", CIRCULAR, false, 6, 10, 5);
    add("forward-external", EXTERNAL, true, 6, 9, 5);
    add("forward-generic", GENERIC, true, 6, 10, 5);
    add("forward-circular", CIRCULAR, true, 6, 8, 5);
    return v;
}
