// S05: work() runs exactly when the block can make progress, sees exact minimums, and totals add up.
#include "blk.hpp"
#include <Pothos/Exception.hpp>
#include <Poco/Logger.h>
#include <json.hpp>
using namespace Pothos;
using nlohmann::json;

struct In { std::string name, dtype; size_t size; };
struct Out { std::string name, dtype; size_t size; bool connected; size_t bufBytes; std::string kind; };
struct Cfg { std::vector<In> in; std::vector<Out> out; bool slot, signal; int depth, noPrune; };

struct InS { size_t bytes = 0, reserve = 0, msgs = 0; unsigned long long tElem = 0, tMsg = 0, tBuf = 0; };
struct OutS { unsigned long long tElem = 0, tMsg = 0, tBuf = 0, tLab = 0; size_t reserve = 0; };
static std::string S(size_t n) { return std::to_string(n); }

namespace peek
{
    template <typename A> auto hasPorts(A &a, int) -> decltype((void)a.inputs.size(), bool()) { return true; }
    template <typename A> bool hasPorts(A &, long) { return false; }
}

struct Slots : Blk
{
    int calls = 0;
    void addSlot(void) { registerCall(this, "poke", &Slots::poke); }
    void poke(int) { calls++; }
};

static void run(const Cfg &cfg)
{
    Poco::Logger::root().setLevel(0);
    Slots M; Blk C;
    std::vector<InS> I(cfg.in.size()); std::vector<OutS> O(cfg.out.size());
    for (auto &i : cfg.in) M.setupInput(i.name, i.dtype);
    for (auto &o : cfg.out) M.setupOutput(o.name, o.dtype);
    if (cfg.slot) M.addSlot();
    if (cfg.signal) M.registerSignal("sig");
    std::vector<BufferManager::Sptr> mgr(cfg.out.size());
    for (size_t k = 0; k < cfg.out.size(); k++)
    {
        C.setupInput(S(k), cfg.out[k].dtype);
        if (cfg.out[k].connected) connectBlk(M, cfg.out[k].name, C, S(k));
        mgr[k] = makeManager(cfg.out[k].kind, 2, cfg.out[k].bufBytes);
        if (cfg.out[k].connected) M._actor->setOutputBufferManager(cfg.out[k].name, mgr[k]);
    }
    bool active = false, ready = true; int slotsSent = 0;
    M.onPrepare = [&](Blk &) { return ready; };
    std::vector<size_t> outstanding(cfg.out.size(), 0);

    auto space = [&]
    {
        for (size_t k = 0; k < cfg.out.size(); k++)
        {
            if (not cfg.out[k].connected) continue;
            if (mgr[k]->empty() or mgr[k]->front().length < cfg.out[k].size) return false;
        }
        return true;
    };
    auto cond = [&]
    {
        if (not active or not ready or not space()) return false;
        if (cfg.in.empty()) return true;
        for (size_t k = 0; k < cfg.in.size(); k++) if (I[k].msgs or I[k].bytes/cfg.in[k].size >= I[k].reserve) return true;
        return false;
    };
    auto totals = [&](const char *when)
    {
        for (size_t k = 0; k < cfg.in.size() and not mc::failed(); k++)
        {
            auto p = M.input(cfg.in[k].name);
            if (p->totalElements() != I[k].tElem or p->totalMessages() != I[k].tMsg or p->totalBuffers() != I[k].tBuf)
                mc::fail("input-totals", std::string(when) + ": totals of input " + cfg.in[k].name + " are " + S(p->totalElements()) + "/" + S(p->totalBuffers()) + "/" + S(p->totalMessages())
                    + ", expected " + S(I[k].tElem) + "/" + S(I[k].tBuf) + "/" + S(I[k].tMsg));
        }
        for (size_t k = 0; k < cfg.out.size() and not mc::failed(); k++)
        {
            auto p = M.output(cfg.out[k].name);
            if (p->totalElements() != O[k].tElem or p->totalMessages() != O[k].tMsg or p->totalBuffers() != O[k].tBuf or p->totalLabels() != O[k].tLab)
                mc::fail("output-totals", std::string(when) + ": totals of output " + cfg.out[k].name + " are " + S(p->totalElements()) + "/" + S(p->totalBuffers()) + "/" + S(p->totalLabels()) + "/" + S(p->totalMessages())
                    + ", expected " + S(O[k].tElem) + "/" + S(O[k].tBuf) + "/" + S(O[k].tLab) + "/" + S(O[k].tMsg));
        }
    };

    int action = -1, port = 0; bool changed = false, actThrow = false;
    bool afterThrow = false; unsigned long long pendE[4]; // produced elements are counted when the step is over
    std::vector<size_t> pendIn(cfg.in.size(), 0), pendOut(cfg.out.size(), 0);
    M.onWork = [&](Blk &b)
    {
        if (not cond()) { mc::fail("work-ungranted", std::string("work() runs although ") + (not active?"the block is inactive":not ready?"prepare() declined":not space()?"an output has no space":"no input met its reserve or has a message")); return; }
        const size_t BIG = 1 << 30;
        size_t mi = BIG, mai = BIG, mo = BIG, mao = BIG;
        const auto &w = b.workInfo();
        for (size_t k = 0; k < cfg.in.size(); k++)
        {
            auto p = b.input(cfg.in[k].name);
            const size_t e = p->elements(), total = I[k].bytes/cfg.in[k].size;
            if (e > total) mc::fail("too-many-elements", "input " + p->name() + " offers " + S(e) + " elements of " + S(total));
            else if (e < std::min(total, std::max<size_t>(1, I[k].reserve))) mc::fail("too-few-elements", "input " + p->name() + " offers " + S(e) + " elements of " + S(total) + " with a reserve of " + S(I[k].reserve));
            else if (e*cfg.in[k].size > p->buffer().length) mc::fail("buffer-short", "input " + p->name() + " offers " + S(e) + " elements in a buffer of " + S(p->buffer().length) + " bytes");
            else if (e != p->buffer().elements()) mc::fail("buffer-elements", "input " + p->name() + " offers " + S(e) + " elements in a buffer of " + S(p->buffer().elements()) + " elements");
            else if (p->hasMessage() != (I[k].msgs != 0)) mc::fail("message-state", "input " + p->name() + " has " + S(I[k].msgs) + " messages but hasMessage() disagrees");
            if (mc::failed()) return;
            if (p->index() != -1)
            {
                mi = std::min(mi, e);
                if (w.inputPointers.size() <= size_t(p->index()) or w.inputPointers[p->index()] != p->buffer().as<const void *>()) mc::fail("input-pointer", "the pointer offered for input " + p->name() + " is not its buffer");
            }
            mai = std::min(mai, e);
        }
        for (size_t k = 0; k < cfg.out.size(); k++)
        {
            auto p = b.output(cfg.out[k].name);
            const size_t e = p->elements();
            if (e == 0) mc::fail("no-space", "output " + p->name() + " offers no space");
            else if (e*cfg.out[k].size > p->buffer().length) mc::fail("buffer-short", "output " + p->name() + " offers " + S(e) + " elements in a buffer of " + S(p->buffer().length) + " bytes");
            else if (cfg.out[k].connected and e != mgr[k]->front().length/cfg.out[k].size) mc::fail("output-space", "output " + p->name() + " offers " + S(e) + " elements, its buffer has " + S(mgr[k]->front().length/cfg.out[k].size));
            else if (e != p->buffer().elements()) mc::fail("buffer-elements", "output " + p->name() + " offers " + S(e) + " elements in a buffer of " + S(p->buffer().elements()));
            if (mc::failed()) return;
            if (p->index() != -1)
            {
                mo = std::min(mo, e);
                if (w.outputPointers.size() <= size_t(p->index()) or w.outputPointers[p->index()] != p->buffer().as<void *>()) mc::fail("output-pointer", "the pointer offered for output " + p->name() + " is not its buffer");
            }
            mao = std::min(mao, e);
        }
        auto same = [&](const char *what, size_t got, size_t want) { if (got != want) mc::fail("minimum", std::string(what) + " is " + S(got) + ", expected " + S(want)); };
        // without any such port the value only has to leave the other minimum alone
        if (mi != BIG) same("minInElements", w.minInElements, mi);
        if (mai != BIG) same("minAllInElements", w.minAllInElements, mai);
        if (mo != BIG) same("minOutElements", w.minOutElements, mo);
        if (mao != BIG) same("minAllOutElements", w.minAllOutElements, mao);
        if (std::min(mi, mo) != BIG) same("minElements", w.minElements, std::min(mi, mo));
        if (std::min(mai, mao) != BIG) same("minAllElements", w.minAllElements, std::min(mai, mao));
        if (w.maxTimeoutNs <= 0) mc::fail("timeout", "work() is given no time");
        totals("in work");
        if (mc::failed() or action < 0) return;
        if (action < 10)
        {
            auto in = b.input(cfg.in[port].name);
            switch (action)
            {
            case 0: { const size_t n = std::min<size_t>(in->elements(), 1); in->consume(n); pendIn[port] += n; break; }
            case 1: { const size_t n = in->elements(); in->consume(n); pendIn[port] += n; break; }
            case 2: { in->popMessage(); if (I[port].msgs) { I[port].msgs--; } I[port].tMsg++; changed = true; break; }
            case 3: { const size_t n = std::min<size_t>(in->elements(), 1); in->consume(n); pendIn[port] += n; in->consume(in->elements() - n); pendIn[port] += in->elements() - n; break; } // twice
            case 4: { const size_t r = (I[port].reserve == 3)?1:3; in->setReserve(r); if (r > I[port].reserve) changed = true; I[port].reserve = r; break; }
            }
        }
        else
        {
            auto out = b.output(cfg.out[port].name); auto &o = O[port]; outstanding[port]++;
            switch (action - 10)
            {
            case 0: out->produce(1); pendOut[port] = 1; break;
            case 1: pendOut[port] = out->elements(); out->produce(out->elements()); break;
            case 2: { BufferChunk c(cfg.out[port].dtype, 3); out->postBuffer(c); o.tElem += 3; o.tBuf++; changed = true; out->produce(1); pendOut[port] = 1; break; }
            case 3: out->postMessage(7); o.tMsg++; changed = true; break;
            case 4: out->postLabel("a", Object(1), 0); o.tLab++; out->produce(1); pendOut[port] = 1; break;
            case 5: out->popElements(1); changed = true; break;
            case 7: out->setReserve(2); O[port].reserve = 2; break;
            case 6: { auto c = out->getBuffer(1); out->postBuffer(std::move(c)); o.tElem++; o.tBuf++; changed = true; break; }
            }
        }
        for (auto n : pendIn) if (n) changed = true;
        for (auto n : pendOut) if (n) changed = true;
        if (actThrow) throw RuntimeException("the block fails after it did its work");
    };
    auto settle = [&]
    {
        for (size_t k = 0; k < cfg.in.size(); k++) { I[k].tElem += pendIn[k]; I[k].bytes -= pendIn[k]*cfg.in[k].size; pendIn[k] = 0; }
        for (size_t k = 0; k < cfg.out.size(); k++) { O[k].tElem += pendOut[k]; if (pendOut[k]) O[k].tBuf++; pendOut[k] = 0; }
    };
    // the block gets opportunities until it is idle
    auto idle = [&](bool must, const char *after)
    {
        action = -1;
        for (int i = 0; i < 4 and not mc::failed(); i++)
        {
            const bool c = cond();
            const bool ran = M.runIfFlagged();
            if (mc::failed()) return;
            if (i == 0 and must and c and not ran) mc::fail("work-not-granted", std::string("no work step after ") + after);
            totals(after);
            if (not ran) return;
        }
        if (not mc::failed()) mc::fail("work-busy", "an idle block is worked again and again");
    };
    auto canon = [&](mc::Hash &h) -> bool
    {
#ifdef MC_NO_PEEK
        return false;
#endif
        Ids ids;
        h.add(active).add(ready);
        for (size_t k = 0; k < cfg.in.size(); k++)
        {
            auto p = M.input(cfg.in[k].name); auto acc = peek::accOf(*p, 0);
            h.add(I[k].bytes).add(I[k].msgs).add(peek::reserveOf(*p, 0)).add(I[k].reserve);
            if (acc == nullptr or not hashAccum(h, *acc, ids, 1, [](size_t) { return 0; })) return false;
        }
        for (size_t k = 0; k < cfg.out.size(); k++)
        {
            h.add(O[k].reserve).add(outstanding[k]);
            if (not cfg.out[k].connected) continue;
            auto p = C.input(S(k)); auto acc = peek::accOf(*p, 0);
            hashManager(h, mgr[k]);
            if (acc == nullptr or not hashAccum(h, *acc, ids, 1, [](size_t) { return 0; })) return false;
        }
        return true;
    };
    C._actor->setActiveStateOn();
    int depth = cfg.depth;
    { mc::Hash h; if (not canon(h)) depth = cfg.noPrune; }
    const int nIn = 11, nOut = 10;
    const int nOps = nIn*int(cfg.in.size()) + nOut*int(cfg.out.size()) + 5;
    // activated from the start in most histories
    if (mc::choose(2) == 0) { M._actor->setActiveStateOn(); active = true; idle(true, "activation"); if (mc::failed()) return; }
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(nOps); actThrow = false;
        std::string what;
        if (op < nIn*int(cfg.in.size()))
        {
            port = op/nIn; const auto &c = cfg.in[port]; auto &s = I[port]; auto p = M.input(c.name); const int a = op%nIn;
            auto push = [&](size_t bytes) { BufferChunk b(c.dtype, (bytes + c.size - 1)/c.size); std::memset((void *)b.address, 0, b.length); b.length = bytes; p->pushBuffer(b); s.bytes += bytes; s.tBuf++; };
            switch (a)
            {
            case 0: case 1: push((a == 0?1:3)*c.size); what = "data on input " + c.name + " x" + S(a == 0?1:3); idle(true, "data arrived"); break;
            case 2: push(c.size > 1?c.size/2:2); what = "half an element on input " + c.name; idle(true, "data arrived"); break;
            case 3: p->pushMessage(Object(3)); s.msgs++; what = "message on input " + c.name; idle(true, "a message arrived"); break;
            case 4: case 5: s.reserve = (a == 4)?(s.reserve == 2?0:2):(s.reserve == 4?1:4); p->setReserve(s.reserve); M._actor->flagInternalChange(); what = "reserve of input " + c.name + " = " + S(s.reserve); idle(true, "the reserve changed"); break;
            default:
            {
                action = a - 6; changed = false; actThrow = (action == 3); const bool c0 = cond();
                what = "work with action " + S(action) + " on input " + c.name;
                const bool ran = M.run();
                if (mc::failed()) break;
                if (ran != c0) { mc::fail("work-not-granted", "no work step although one is possible"); break; }
                settle(); totals("after work");
                if (not mc::failed()) idle(changed, "a work step that changed something");
                if (not ran) return; // same as before
            }
            }
        }
        else if ((op -= nIn*int(cfg.in.size())) < nOut*int(cfg.out.size()))
        {
            port = op/nOut; const auto &c = cfg.out[port]; const int a = op%nOut;
            if (a < 7 or a == 9)
            {
                action = 10 + (a == 9?7:a); changed = false; const bool c0 = cond();
                what = "work with action " + S(a) + " on output " + c.name;
                const bool ran = M.run();
                if (mc::failed()) break;
                if (ran != c0) { mc::fail("work-not-granted", "no work step although one is possible"); break; }
                settle(); totals("after work");
                if (not mc::failed()) idle(changed, "a work step that changed something");
                if (not ran) return;
            }
            else if (a == 7)
            {
                if (not c.connected or outstanding[port] == 0) return;
                what = "everything from output " + c.name + " is taken and released";
                const bool c0 = cond();
                C.input(S(port))->clear(); outstanding[port] = 0;
                if (mgr[port]->empty() or mgr[port]->front().length == 0) mc::fail("space-lost", "output " + c.name + " has no space although everything was released");
                else idle(not c0, "space became available");
            }
            else { auto &s = O[port]; s.reserve = s.reserve?0:3; M.output(c.name)->setReserve(s.reserve); M._actor->flagInternalChange(); what = "reserve of output " + c.name + " = " + S(s.reserve); idle(true, "the reserve changed"); }
        }
        else switch (op -= nOut*int(cfg.out.size()))
        {
        case 0: if (active) { M._actor->setActiveStateOff(); active = false; what = "deactivate"; } else { M._actor->setActiveStateOn(); active = true; what = "activate"; }
            idle(true, what.c_str()); break;
        case 4: if (active) return;
            M.onActivate = [](Blk &) { throw RuntimeException("activation fails"); };
            try { M._actor->setActiveStateOn(); mc::fail("activation-error", "a failing activation is not reported"); } catch (const Exception &) {}
            M.onActivate = nullptr; what = "failing activation"; idle(false, "a failing activation"); break;
        case 1: ready = not ready; M._actor->flagInternalChange(); what = ready?"ready":"not ready"; idle(true, what.c_str()); break;
        case 2: if (not cfg.slot) return;
            M.input("poke")->slotCallsPush(Object(ObjectVector{Object(1)}), BufferChunk::null()); slotsSent++; what = "slot call"; idle(true, "a slot call"); break;
        case 3: if (not cfg.signal) return;
            { ActorInterfaceLock lock(M._actor.get()); M.emitSignal("sig", 1); } what = "signal"; idle(true, "a signal"); break;
        }
        if (mc::tracing()) mc::trace(what);
        mc::step();
        if (mc::failed()) return;
        mc::Hash h;
        if (canon(h) and not mc::visit(h.h, depth - d - 1)) return;
    }
    // the reported statistics agree
    const auto stats = json::parse(M._actor->queryWorkStats());
    size_t n = 0;
    if (stats.count("inputStats")) for (const auto &s : stats["inputStats"]) for (size_t k = 0; k < cfg.in.size(); k++) if (s["portName"] == cfg.in[k].name)
    { n++; if (s["totalElements"] != I[k].tElem or s["totalMessages"] != I[k].tMsg or s["totalBuffers"] != I[k].tBuf or s["enqueuedBytes"] != I[k].bytes or s["enqueuedMessages"] != I[k].msgs) mc::fail("stats", "the statistics of input " + cfg.in[k].name + " are wrong: " + s.dump()); }
    if (stats.count("outputStats")) for (const auto &s : stats["outputStats"]) for (size_t k = 0; k < cfg.out.size(); k++) if (s["portName"] == cfg.out[k].name)
    { n++; if (s["totalElements"] != O[k].tElem or s["totalMessages"] != O[k].tMsg or s["totalBuffers"] != O[k].tBuf or s["totalLabels"] != O[k].tLab) mc::fail("stats", "the statistics of output " + cfg.out[k].name + " are wrong: " + s.dump()); }
    mc::check(n == cfg.in.size() + cfg.out.size(), "stats", "the statistics do not list every port once");
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *nm, std::vector<In> in, std::vector<Out> out, bool slot, bool sig, int q, int th, int np)
    { Cfg c{in, out, slot, sig, thorough?th:q, np}; Scenario s; s.name = std::string(nm) + "-depth" + std::to_string(c.depth); s.body = [=]{ run(c); }; v.push_back(s); };
    const In i0{"0", "uint16", 2}, i1{"1", "uint8", 1}, ix{"x", "uint32", 4}, iz{"z", "uint8", 1};
    const Out o0{"0", "uint16", 2, true, 8, "generic"}, o1{"1", "uint32", 4, true, 16, "generic"}, oy{"y", "uint8", 1, true, 4, "generic"}, oz{"z", "uint16", 2, true, 4, "generic"}, ou{"u", "uint8", 1, false, 4, "generic"}, oc{"0", "uint8", 1, true, 4096, "circular"};
    add("sink", {i0}, {}, true, false, 6, 9, 4);
    add("sink2", {i0, ix}, {}, false, false, 4, 6, 4);
    add("source", {}, {o0}, true, true, 6, 9, 4);
    add("source2", {}, {o0, oy}, false, false, 4, 7, 4);
    add("source-mixed", {}, {o1, ou}, false, true, 5, 6, 4);
    add("filter", {i0}, {o0}, true, false, 4, 6, 3);
    add("filter-circ", {i1}, {oc}, false, false, 4, 5, 3);
    add("join", {i0, i1}, {oy}, false, false, 4, 5, 3);
    add("named", {ix, iz}, {oy, oz}, false, false, 3, 4, 3);
    add("all", {i0, i1, ix}, {o0, oy}, true, true, 3, 4, 3);
    return v;
}
