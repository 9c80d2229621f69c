// S03: labels keep their element. A producing block, optionally a block in between that forwards labels (default or
// rescaled), one or two consumers; all sequences of produce / post / consume / remove steps, compared with a list of
// (element position, label) per stream.
#include "blk.hpp"
#include <algorithm>
using namespace Pothos;

struct L { long long pos; int id; size_t width; };
enum Topo { ONE, TWO, DEFAULT, RATE, DOWN };
struct Cfg { Topo topo; std::string outType, inType; int depth, noPruneDepth; bool few; };

// what one input stream should look like
struct Stream
{
    Blk *b; std::string who; std::string port = "0";
    long long head = 0, total = 0;   // consumed, sent
    std::vector<L> labels;            // not yet consumed or removed
    unsigned long long gone = 0;      // labels consumed or removed
    int act = 0; size_t offered = 0;
    void verify(InputPort *in)
    {
        offered = in->elements();
        std::vector<L> want = labels;
        for (auto &l : want) l.pos -= head;
        long long last = -1; std::vector<int> seen;
        for (const auto &l : in->labels())
        {
            const int id = l.data.extract<int>();
            if ((long long)l.index < last) { mc::fail("label-order", who + ": label at " + std::to_string(l.index) + " is listed after one at " + std::to_string(last)); return; }
            last = l.index;
            auto it = std::find_if(want.begin(), want.end(), [&](const L &w) { return w.id == id; });
            if (it == want.end()) { mc::fail("label-unexpected", who + ": label " + std::to_string(id) + " at " + std::to_string(l.index) + " is listed twice, was removed or was never sent"); return; }
            if (it->pos != (long long)l.index) { mc::fail("label-moved", who + ": label " + std::to_string(id) + " is at " + std::to_string(l.index) + ", its element is at " + std::to_string(it->pos)); return; }
            if (it->width != l.width or l.id != "L" + std::to_string(id)) { mc::fail("label-changed", who + ": label " + std::to_string(id) + " has width " + std::to_string(l.width) + ", expected " + std::to_string(it->width)); return; }
            want.erase(it);
        }
        for (auto &w : want) if (w.pos < (long long)offered) { mc::fail("label-missing", who + ": label " + std::to_string(w.id) + " on element " + std::to_string(w.pos) + " of " + std::to_string(offered) + " is not listed"); return; }
    }
    std::vector<L> consume(InputPort *in, size_t n)
    {
        in->consume(n);
        std::vector<L> out, keep;
        for (auto &l : labels) if (l.pos < head + (long long)n) { gone++; out.push_back(l); out.back().pos -= head; } else keep.push_back(l);
        labels = keep; head += n;
        return out;
    }
    void removeOne(InputPort *in, bool last)
    {
        if (in->labels().begin() == in->labels().end()) return;
        const Label &l = last?*(in->labels().end()-1):*in->labels().begin();
        const int id = l.data.extract<int>();
        in->removeLabel(l);
        labels.erase(std::remove_if(labels.begin(), labels.end(), [&](const L &w) { return w.id == id; }), labels.end());
        gone++;
        verify(in);
    }
};

namespace peek
{
    template <typename P> auto labelsOf(mc::Hash &h, P &p, int) -> decltype((void)p._inlineMessages.size(), p._inputInlineMessages[0].index, bool())
    { h.add(p._inlineMessages.size()).add(p._inputInlineMessages.size()); for (auto &l : p._inlineMessages) h.add(l.index).add(l.width).add(l.data.template extract<int>()%64); for (size_t i = 0; i < p._inputInlineMessages.size(); i++) h.add(p._inputInlineMessages[i].index).add(p._inputInlineMessages[i].width).add(p._inputInlineMessages[i].data.template extract<int>()%64); return true; }
    template <typename P> bool labelsOf(mc::Hash &, P &, long) { return false; }
}

static void run(const Cfg &cfg)
{
    Blk P, M, C1, C2;
    const bool mid = cfg.topo == DEFAULT or cfg.topo == RATE or cfg.topo == DOWN, two = cfg.topo == TWO or cfg.topo == DEFAULT;
    const size_t U = DType(cfg.outType).size();
    P.setupOutput(0, cfg.outType); C1.setupInput(0, cfg.inType); C2.setupInput(0, cfg.inType);
    M.setupInput(0, cfg.inType); M.setupOutput(0, cfg.outType); M.setupOutput("other", cfg.inType); M.registerSignal("a-sig");
    if (mid) { connectBlk(P, "0", M, "0"); connectBlk(M, "0", C1, "0"); if (two) connectBlk(M, "other", C2, "0"); }
    else { connectBlk(P, "0", C1, "0"); if (two) connectBlk(P, "0", C2, "0"); }
    auto mgr = makeManager("generic", 4, 1024*U); P._actor->setOutputBufferManager("0", mgr);
    auto m1 = makeManager("generic", 4, 1024*U), m2 = makeManager("generic", 4, 1024*U);
    if (mid) { M._actor->setOutputBufferManager("0", m1); if (two) M._actor->setOutputBufferManager("other", m2); }
    Stream sM, s1, s2;
    sM.b = &M; sM.who = "mid"; s1.b = &C1; s1.who = "consumer 1"; s2.b = &C2; s2.who = "consumer 2";
    int nextId = 1; long long sentP = 0, sentM = 0, sentM2 = 0; unsigned long long postedP = 0, postedM = 0;
    int pAct = 0, mAct = 0;
    auto sendP = [&](long long pos, size_t width)
    {
        L l{sentP + pos, nextId++, width}; postedP++;
        P.output(0)->postLabel("L" + std::to_string(l.id), l.id, pos, width);
        if (mid) sM.labels.push_back(l); else { s1.labels.push_back(l); if (two) s2.labels.push_back(l); }
    };
    P.onWork = [&](Blk &b)
    {
        auto out = b.output(0);
        // amount, then labels relative to the first element of this step
        static const struct { int n; std::vector<int> pos; int how; } acts[] = {
            {1, {}, 0}, {2, {}, 1}, {0, {0}, 0}, {1, {0}, 0}, {2, {1, 0}, 0}, {2, {0, 1, 1}, 1}, {1, {1}, 0}, {1, {2, 0}, 1}, {0, {1}, 0}, {3, {2}, 2}, {3, {2, 1, 0, 3}, 2}};
        const auto &a = acts[pAct];
        for (int p : a.pos) sendP(p, 1 + (p & 1));
        if (a.how == 0) out->produce(a.n);
        else if (a.how == 1) { BufferChunk c(cfg.outType, a.n); out->postBuffer(std::move(c)); }
        else { for (int i = 0; i < a.n; i++) { BufferChunk c(cfg.outType, 1); out->postBuffer(c); } }
        sentP += a.n;
    };
    const int nP = 11;
    std::vector<L> fwd;
    M.onWork = [&](Blk &b)
    {
        auto in = b.input(0);
        sM.verify(in); if (mc::failed()) return;
        size_t n = (mAct == 0)?1:in->elements();
        n = std::min(n, in->elements());
        if (cfg.topo == DOWN) n &= ~size_t(1);
        if (mAct == 2) { sM.removeOne(in, false); n = std::min<size_t>(n, 1); if (mc::failed()) return; if (cfg.topo == DOWN) n = 0; }
        fwd = sM.consume(in, n);
        const size_t outN = (cfg.topo == RATE)?2*n:(cfg.topo == DOWN)?n/2:n;
        b.output(0)->produce(outN);
        // the second output gets its data in another way (and more of it): labels count from the first element of the step
        if (two) { BufferChunk c(cfg.outType, n+1); b.output("other")->postBuffer(std::move(c)); }
        for (auto &l : fwd)
        {
            L o = l;
            if (cfg.topo == RATE) { o.pos *= 2; o.width *= 2; }
            if (cfg.topo == DOWN) { o.pos /= 2; o.width /= 2; }
            o.pos += sentM; s1.labels.push_back(o); postedM++;
            if (two) { o.pos = l.pos + sentM2; s2.labels.push_back(o); }
        }
        sentM += outN; if (two) sentM2 += n+1;
    };
    if (cfg.topo == RATE) M.onLabels = [&](Blk &b, const InputPort *in) { for (const auto &l : in->labels()) b.output(0)->postLabel(l.toAdjusted(2, 1)); };
    if (cfg.topo == DOWN) M.onLabels = [&](Blk &b, const InputPort *in) { for (auto l : in->labels()) b.output(0)->postLabel(l.adjust(1, 2)); };
    int during = -1; // what the block upstream does while the consumer is working
    auto upstream = [&]{ if (during < 0) return; const int a = during; during = -1; if (mid) { mAct = a%3; M.run(); } else { pAct = a; P.run(); } };
    for (Stream *s : {&s1, &s2}) s->b->onWork = [s, &upstream](Blk &b)
    {
        auto in = b.input(0);
        s->verify(in); if (mc::failed()) return;
        const size_t n = in->elements();
        upstream(); if (mc::failed()) return;
        switch (s->act)
        {
        case 0: s->consume(in, std::min<size_t>(n, 1)); break;
        case 1: s->consume(in, n); break;
        case 2: s->removeOne(in, false); break;
        case 3: s->removeOne(in, true); if (not mc::failed()) s->consume(in, std::min<size_t>(n, 1)); break;
        case 4: in->setReserve(3); s->consume(in, 0); break;
        case 5: in->setReserve(0); s->consume(in, std::min<size_t>(n, 2)); break;
        }
    };
    const int nC = 6;
    P._actor->setActiveStateOn(); C1._actor->setActiveStateOn(); if (two) C2._actor->setActiveStateOn(); if (mid) M._actor->setActiveStateOn();

    auto canon = [&](mc::Hash &h) -> bool
    {
#ifdef MC_NO_PEEK
        return false;
#endif
        h.add(sentP - s1.head).add(sentM - s1.head).add(two?s2.head - s1.head:0).add(mid?sM.head - s1.head:0).add(mid?sentM2 - s2.head:0);
        std::map<int, int> order; // ids count only by age
        for (Stream *s : {&sM, &s1, &s2}) for (auto &l : s->labels) order[l.id] = 0;
        int k = 0; for (auto &e : order) e.second = k++;
        for (Stream *s : {&sM, &s1, &s2})
        {
            if ((s == &s2 and not two) or (s == &sM and not mid)) continue;
            h.add(s->labels.size());
            for (auto &l : s->labels) h.add(l.pos - s->head).add(order[l.id]).add(l.width);
            auto in = s->b->input(0);
            mc::Hash hl; // implementation's own lists: positions only (identities are compared every step)
            if (not peek::labelsOf(hl, *in, 0)) return false;
            h.add(in->_inlineMessages.size()).add(in->_inputInlineMessages.size());
            for (auto &l : in->_inlineMessages) h.add(l.index).add(l.width).add(order.count(l.data.extract<int>())?order[l.data.extract<int>()]:99);
            for (size_t i = 0; i < in->_inputInlineMessages.size(); i++) { auto &l = in->_inputInlineMessages[i]; h.add(l.index).add(l.width).add(order.count(l.data.extract<int>())?order[l.data.extract<int>()]:99); }
            auto acc = peek::accOf(*in, 0);
            auto *q = acc?peek::queueOf(*acc, 0):nullptr;
            if (q == nullptr) return false;
            h.add(q->size()).add(acc->getTotalBytesAvailable()).add(uint64_t(peek::reserveOf(*in, 0)));
            for (size_t i = 0; i < q->size(); i++) h.add((*q)[i].length);
        }
        return true;
    };
    int depth = cfg.depth;
    { mc::Hash h; if (not canon(h)) depth = cfg.noPruneDepth; }
    const int nM = mid?3:0;
    for (int d = 0; d < depth; d++)
    {
        int op = mc::choose(nP + nM + nC*(two?2:1) + 8);
        bool ran; std::string what;
        if (cfg.few and not (op < nP?(op == 1 or op == 4 or op == 7 or op == 8):(op - nP - nM < 3 or op - nP - nM >= nC))) return; // a smaller alphabet, deeper
        if (op < nP) { pAct = op; ran = P.run(); if (mc::tracing()) what = "producer " + std::to_string(op); mc::check(ran, "producer-stalled"); }
        else if ((op -= nP) < nM) { mAct = op; ran = M.run(); if (mc::tracing()) what = "mid " + std::to_string(op); }
        else if (op - nM >= nC*(two?2:1)) // consumer 1 works, and data and labels arrive meanwhile
        {
            static const int up[] = {1, 4, 7, 8};
            op -= nM + nC*(two?2:1); during = up[op/2]; s1.act = op%2;
            ran = C1.run(); during = -1; if (mc::tracing()) what = "consumer 1 " + std::to_string(s1.act) + " while upstream " + std::to_string(up[op/2]);
        }
        else { op -= nM; Stream &s = (op < nC)?s1:s2; s.act = op % nC; ran = s.b->run(); if (mc::tracing()) what = s.who + " " + std::to_string(s.act); }
        if (mc::tracing()) mc::trace(what + (ran?"":" (no work)"));
        mc::step();
        if (mc::failed()) return;
        if (not ran) return; // nothing happened
        if (P.output(0)->totalLabels() != postedP) mc::fail("label-total", "producer counts " + std::to_string(P.output(0)->totalLabels()) + " posted labels, expected " + std::to_string(postedP));
        if (mid and M.output(0)->totalLabels() != postedM) mc::fail("label-total", "mid counts " + std::to_string(M.output(0)->totalLabels()) + " posted labels, expected " + std::to_string(postedM));
        for (Stream *s : {&sM, &s1, &s2}) if (s->b->input(0)->totalLabels() != s->gone) mc::fail("label-total", s->who + " counts " + std::to_string(s->b->input(0)->totalLabels()) + " labels gone, expected " + std::to_string(s->gone));
        if (mc::failed()) return;
        mc::Hash h;
        if (canon(h) and not mc::visit(h.h, depth - d - 1)) return;
    }
    // look at everything once more, element by element
    for (Stream *s : {&sM, &s1, &s2}) s->b->input(0)->setReserve(0);
    for (int i = 0; i < 60 and not mc::failed(); i++) { mAct = 0; s1.act = 0; s2.act = 0; if (mid) { if (cfg.topo == DOWN) mAct = 1; M.run(); } if (not mc::failed()) C1.run(); if (two and not mc::failed()) C2.run(); }
}

// index arithmetic of labels over all small values and factors
static void adjust(void)
{
    const unsigned long long idx[] = {0, 1, 2, 3, 7, 8, 15, 1000003, (1ull << 31) + 1, (1ull << 32) + 3, (1ull << 52) + 1};
    const unsigned long long index = idx[mc::choose(11)]; const size_t width = 1 + mc::choose(8);
    const unsigned mult = 1 + mc::choose(9), div = 1 + mc::choose(9);
    const int how = mc::choose(3);
    Label l("id", 42, index, width);
    const Label orig = l;
    Label r = (how == 0)?l.toAdjusted(mult, div):(how == 1)?l.toAdjusted<size_t, size_t>(mult, div):Label(l).adjust(mult, div);
    mc::step();
    if (r.index != index*mult/div or r.width != width*mult/div) mc::fail("label-adjust", "index " + std::to_string(index) + "*" + std::to_string(mult) + "/" + std::to_string(div) + " gave " + std::to_string(r.index) + ", width " + std::to_string(r.width));
    if (r.id != "id" or r.data.extract<int>() != 42 or not (l == orig)) mc::fail("label-adjust", "other fields or the original changed");
    mc::state(mc::Hash().add(index).add(width).add(mult).add(div).h);
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *nm, Topo t, const char *o, const char *i, int q, int th, int np, bool few = false) { Cfg c{t, o, i, thorough?th:q, np, few}; Scenario s; s.name = std::string(nm) + "-" + o + "-depth" + std::to_string(c.depth); s.body = [=]{ run(c); }; v.push_back(s); };
    add("one", ONE, "uint8", "uint8", 4, 7, 4);
    add("one", ONE, "uint32", "uint8, 4", 4, 6, 4); add("deep", ONE, "uint32", "uint8, 4", 5, 8, 4, true);
    add("two", TWO, "complex_float64", "complex_float64", 3, 5, 3);
    add("default", DEFAULT, "uint16", "int16", 4, 6, 4);
    add("rate", RATE, "uint32", "float32", 4, 6, 4);
    add("down", DOWN, "uint32", "float32", 4, 6, 4);
    { Scenario s; s.name = "adjust"; s.body = adjust; v.push_back(s); }
    return v;
}
