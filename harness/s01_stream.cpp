// S01 (block level): a producing block, one or two consuming blocks, optionally a block in between that
// forwards or works in place. All sequences of work steps; every element offered is compared with the stream.
#include "blk.hpp"
using namespace Pothos;

static const size_t U = 8; // one uint64 element
enum Topo { ONE, TWO, CHAIN, INPLACE, CHAIN_FORK };
struct Cfg { std::string mgr; Topo topo; int depth, noPruneDepth; };

struct Sink
{
    Blk *b; uint64_t head = 1; const uint64_t *sent; uint64_t add = 0; int action = 0; size_t reserve = 0;
    BufferChunk held; uint64_t heldSeq = 0;
    std::string who;
    size_t offered = 0; bool worked = false;
    void verifyFront(InputPort *in)
    {
        offered = in->elements(); worked = true;
        mc::check(head + offered <= *sent + 1, "more-than-sent", who + ": more elements offered than were sent");
        auto p = in->buffer().as<const uint64_t *>();
        for (size_t i = 0; i < offered and not mc::failed(); i++)
            if (p[i] != head + i + add) mc::fail("stream-content", who + ": element " + std::to_string(i) + " is " + std::to_string(p[i]) + ", expected " + std::to_string(head + i + add));
    }
    void verifyHeld(void)
    {
        for (size_t i = 0; i < held.length/U; i++)
            if (held.as<const uint64_t *>()[i] != heldSeq + i + add) mc::fail("held-content", who + ": memory of a held buffer changed");
    }
};

static void run(const Cfg &cfg)
{
    const size_t B = 4;
    Blk P, C1, C2, M;
    const bool two = cfg.topo == TWO or cfg.topo == INPLACE or cfg.topo == CHAIN_FORK;
    const bool mid = cfg.topo == CHAIN or cfg.topo == INPLACE or cfg.topo == CHAIN_FORK;
    P.setupOutput(0, "uint64");
    C1.setupInput(0, "uint64"); C2.setupInput(0, "uint64");
    M.setupInput(0, "uint64"); M.setupOutput(0, "uint64");
    // CHAIN: P -> M -> C1;  INPLACE: P -> M(in place) -> C1 and P -> C2;  CHAIN_FORK: P -> M -> C1, C2
    if (cfg.topo == INPLACE) M.output(0)->setReadBeforeWrite(M.input(0));
    if (mid) { connectBlk(P, "0", M, "0"); connectBlk(M, "0", C1, "0"); if (cfg.topo == INPLACE) connectBlk(P, "0", C2, "0"); if (cfg.topo == CHAIN_FORK) connectBlk(M, "0", C2, "0"); }
    else { connectBlk(P, "0", C1, "0"); if (two) connectBlk(P, "0", C2, "0"); }
    // a circular buffer must fill whole pages
    const bool circ = cfg.mgr == "circular";
    const size_t scale = circ?128:1; // elements per step unit
    auto pm = makeManager(cfg.mgr, circ?4:3, B*U*scale), mm = makeManager(cfg.mgr, circ?4:3, B*U*scale);
    P._actor->setOutputBufferManager("0", pm);
    if (mid) M._actor->setOutputBufferManager("0", mm);
    uint64_t sentP = 0, sentM = 0;
    int pAction = 0, mAction = 0; std::string nm; uint64_t mHead = 1; size_t mOffered = 0;
    SharedBuffer ext; size_t extPos = 0, pReserve = 0; // producer's own memory, sliced with gaps
    P.onWork = [&](Blk &b)
    {
        auto out = b.output(0);
        auto fill = [&](size_t addr, size_t n) { for (size_t i = 0; i < n; i++) ((uint64_t *)addr)[i] = ++sentP; };
        const size_t have = out->elements();
        switch (pAction)
        {
        case 0: case 1: { const size_t n = std::min<size_t>(have, (pAction == 0)?scale:2*scale); fill(out->buffer().address, n); out->produce(n); break; }
        case 2: fill(out->buffer().address, have); out->produce(have); break;
        case 3: { auto buf = out->getBuffer(2*scale); fill(buf.address, 2*scale); out->postBuffer(std::move(buf)); break; }
        case 4: { if (have < scale) break; out->popElements(scale); break; } // gives space up without producing
        case 5: // slices of the producer's own memory, every second step with a gap before it
        {
            if (not ext or extPos + 2*scale > 4*scale) { ext = SharedBuffer::make(4*U*scale); std::memset((void *)ext.getAddress(), 0x55, 4*U*scale); extPos = scale; }
            BufferChunk c(ext, "uint64"); c.address += extPos*U; c.length = scale*U; fill(c.address, scale); extPos += 2*scale;
            out->postBuffer(c);
            break;
        }
        case 6: { // one piece from the own buffer, then some produced after it
            BufferChunk c("uint64", scale); fill(c.address, scale); out->postBuffer(std::move(c));
            const size_t n = std::min<size_t>(have, scale); fill(out->buffer().address, n); out->produce(n); break; }
        case 7: pReserve = pReserve?0:2*scale; out->setReserve(pReserve); break;
        }
    };
    M.onWork = [&](Blk &b)
    {
        auto in = b.input(0); auto out = b.output(0);
        const size_t n0 = in->elements(); mOffered = n0;
        auto p = in->buffer().as<const uint64_t *>();
        for (size_t i = 0; i < n0; i++) if (p[i] != mHead + i) mc::fail("stream-content", "mid: element " + std::to_string(i) + " is " + std::to_string(p[i]) + ", expected " + std::to_string(mHead + i));
        if (mc::failed()) return;
        if (cfg.topo == INPLACE)
        {
            const size_t n = std::min<size_t>((mAction == 0)?scale:1000*scale, std::min(n0, out->elements()));
            uint64_t tmp; auto q = out->buffer().as<uint64_t *>();
            for (size_t i = 0; i < n; i++) { tmp = p[i] + 1000000; q[i] = tmp; }
            in->consume(n); out->produce(n); mHead += n; sentM += n;
            return;
        }
        switch (mAction)
        {
        case 0: { auto buf = in->takeBuffer(); if (n0 == 0) break; in->consume(n0); out->postBuffer(std::move(buf)); mHead += n0; sentM += n0; break; } // forward all
        case 1: { auto buf = in->takeBuffer(); if (n0 < scale) break; buf.length = scale*U; in->consume(scale); out->postBuffer(buf); mHead += scale; sentM += scale; break; }
        case 2: { const size_t n = std::min(n0, out->elements()); std::memcpy(out->buffer().as<void *>(), p, n*U); in->consume(n); out->produce(n); mHead += n; sentM += n; break; } // copy
        case 3: if (n0 < 2*scale) break; { auto buf = in->takeBuffer(); auto b2 = buf; const size_t n1 = n0/scale/2*scale; buf.length = n1*U; b2.address += n1*U; b2.length = (n0 - n1)*U; out->postBuffer(buf); out->postBuffer(b2); in->consume(n0); mHead += n0; sentM += n0; } break; // split
        }
    };
    Sink s1, s2;
    const bool cc1m = mid, cc2m = cfg.topo == CHAIN_FORK;
    s1.b = &C1; s1.sent = cc1m?&sentM:&sentP; s1.who = "consumer 1"; s1.add = (cfg.topo == INPLACE)?1000000:0;
    s2.b = &C2; s2.sent = cc2m?&sentM:&sentP; s2.who = "consumer 2";
    for (Sink *s : {&s1, &s2}) s->b->onWork = [&, s](Blk &b)
    {
        auto in = b.input(0);
        s->verifyFront(in);
        if (mc::failed()) return;
        const size_t n0 = in->elements();
        switch (s->action)
        {
        case 0: { const size_t n = std::min(n0, scale); in->consume(n); s->head += n; break; }
        case 1: { in->consume(n0); s->head += n0; break; }
        case 2: if (s->held or n0 == 0) { s->held.clear(); } else { s->held = in->takeBuffer(); s->heldSeq = s->head; } break; // take and keep / give back, without consuming
        case 3: if (n0 and not s->held) { s->held = in->buffer(); s->heldSeq = s->head; } in->consume(n0); s->head += n0; break;      // keep what is consumed
        case 4: s->reserve = s->reserve?0:3*scale; in->setReserve(s->reserve); break;
        }
    };
    P._actor->setActiveStateOn(); C1._actor->setActiveStateOn(); if (two) C2._actor->setActiveStateOn(); if (mid) M._actor->setActiveStateOn();

    auto rel = [&](uint64_t base) { return [&, base](size_t a) { const uint64_t v = *(uint64_t *)a; const int64_t d = int64_t(v % 1000000 - base); return (d < -40 or d > 60)?uint64_t(999):uint64_t(d + 50 + (v >= 1000000?500:0)); }; };
    auto canon = [&](mc::Hash &h)
    {
        Ids ids;
        const uint64_t base = s1.head;
        h.add(sentP - base).add(sentM - base).add(mid?mHead - base:0).add(two?s2.head - base:0).add(extPos).add(bool(ext)).add(pReserve);
        if (ext) { h.add(ext.useCount()); for (size_t i = 0; i < 4*scale; i += scale) h.add(rel(base)(ext.getAddress() + i*U)); }
        hashManager(h, pm); if (mid) hashManager(h, mm);
        if (circ) h.add(sentP % (16*scale));
        for (InputPort *in : {C1.input(0), C2.input(0), M.input(0)})
        {
            if ((in == C2.input(0) and not two) or (in == M.input(0) and not mid)) continue;
            auto acc = peek::accOf(*in, 0);
            if (acc == nullptr or not hashAccum(h, *acc, ids, U*scale, rel(base))) return false;
        }
        for (Sink *s : {&s1, &s2}) { h.add(s->reserve).add(s->held.length).add(s->held?s->heldSeq - base:0); if (s->held) h.add(idOf(ids, s->held.getManagedBuffer()._impl)); }
        return true;
    };
    int depth = cfg.depth;
    { mc::Hash h; if (not canon(h)) depth = cfg.noPruneDepth; }
    const int nP = 8, nM = mid?((cfg.topo == INPLACE)?2:4):0, nC = 5;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(nP + nM + nC*(two?2:1));
        bool ran = false; std::string what;
        if (op < nP) { pAction = op; ran = P.run(); what = "producer " + std::to_string(op); }
        else if ((op -= nP) < nM) { mAction = op; ran = M.run(); what = "mid " + std::to_string(op); }
        else
        {
            op -= nM;
            Sink &s = (op < nC)?s1:s2; s.action = op % nC; s.worked = false;
            ran = s.b->run(); what = s.who + " " + std::to_string(s.action);
            const uint64_t avail = *s.sent + 1 - s.head;
            if (not ran) mc::check(avail < std::max<size_t>(s.reserve, 1) , "reserve-unmet", s.who + ": " + std::to_string(avail) + " elements are available for a reserve of " + std::to_string(s.reserve) + " but work did not run");
        }
        if (mc::tracing()) mc::trace(what + (ran?"":" (no work)"));
        mc::step();
        s1.verifyHeld(); s2.verifyHeld();
        if (mc::failed()) return;
        // a consumer with a reserve is offered that many contiguous elements when they are there
        for (Sink *s : {&s1, &s2}) if (s->worked)
        {
            const uint64_t before = s->offered;
            if (s->reserve and *s->sent + 1 - s->head >= s->reserve and s->action != 4) mc::check(before >= s->reserve or before == 0, "reserve-short", s->who + ": offered " + std::to_string(before) + " of a reserve of " + std::to_string(s->reserve));
            s->worked = false;
        }
        if (not ran and op >= 0 and what[0] != 'p') return; // nothing happened: same state as before
        mc::Hash h;
        if (canon(h) and not mc::visit(h.h, depth - d - 1)) return;
    }
    // everything still under way can be drained
    s1.held.clear(); s2.held.clear();
    for (Sink *s : {&s1, &s2}) { s->b->input(0)->setReserve(0); s->reserve = 0; s->action = 1; }
    mAction = (cfg.topo == INPLACE)?1:0;
    for (int i = 0; i < 40 and not mc::failed(); i++) { if (mid) M.run(); C1.run(); if (two) C2.run(); }
    if (mc::failed()) return;
    mc::check(not mid or mHead == sentP + 1, "not-drained", "mid block: data remains that is never offered");
    mc::check(s1.head == *s1.sent + 1, "not-drained", "consumer 1: data remains that is never offered");
    mc::check(not two or s2.head == *s2.sent + 1, "not-drained", "consumer 2: data remains that is never offered");
    P._actor->setActiveStateOff(); C1._actor->setActiveStateOff(); if (two) C2._actor->setActiveStateOff(); if (mid) M._actor->setActiveStateOff();
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *nm, const char *mgr, Topo t, int q, int th, int np) { Cfg c{mgr, t, thorough?th:q, np}; Scenario s; s.name = std::string(nm) + "-" + mgr + "-depth" + std::to_string(c.depth); s.body = [=]{ run(c); }; v.push_back(s); };
    add("one", "generic", ONE, 5, 8, 4);
    add("one", "circular", ONE, 5, 7, 4);
    add("two", "generic", TWO, 5, 7, 4);
    add("two", "circular", TWO, 4, 6, 4);
    add("chain", "generic", CHAIN, 5, 7, 4);
    add("chain", "circular", CHAIN, 5, 6, 4);
    add("inplace", "generic", INPLACE, 5, 7, 4);
    add("inplace", "circular", INPLACE, 5, 6, 4);
    add("fork", "generic", CHAIN_FORK, 5, 6, 4);
    return v;
}
