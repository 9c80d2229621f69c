// S04: messages, signals and slot calls arrive once, in order, unchanged; producers are held back and resume.
#include "blk.hpp"
#include <Pothos/Object/Containers.hpp>
#include <deque>
#include <Poco/Logger.h>
using namespace Pothos;

static const int LIMIT = 64; // a producer with this many messages outstanding must have been held back long before

// message number n of sender s, in different types
static Object makeMsg(int s, int n)
{
    switch (n % 4)
    {
    case 0: return Object(s*100000 + n);
    case 1: return Object(std::string("m") + std::to_string(s) + "." + std::to_string(n));
    case 2: { Packet p; p.metadata["n"] = Object(n); p.metadata["s"] = Object(s); return Object(p); }
    default: return Object(ObjectVector{Object(s), Object(n)});
    }
}
static bool isMsg(const Object &o, int s, int n)
{
    switch (n % 4)
    {
    case 0: return o.type() == typeid(int) and o.extract<int>() == s*100000 + n;
    case 1: return o.type() == typeid(std::string) and o.extract<std::string>() == std::string("m") + std::to_string(s) + "." + std::to_string(n);
    case 2: return o.type() == typeid(Packet) and o.extract<Packet>().metadata.at("n").extract<int>() == n and o.extract<Packet>().metadata.at("s").extract<int>() == s;
    default: return o.type() == typeid(ObjectVector) and o.extract<ObjectVector>().size() == 2 and o.extract<ObjectVector>()[0].extract<int>() == s and o.extract<ObjectVector>()[1].extract<int>() == n;
    }
}
namespace peek
{
    template <typename P> auto tokens(mc::Hash &h, P &p, int) -> decltype((void)p._asyncMessages[0].second.getManagedBuffer(), (void)p._slotCalls[0].second, bool())
    {
        h.add(p._asyncMessages.size()).add(p._slotCalls.size());
        for (size_t i = 0; i < p._asyncMessages.size(); i++) { auto &t = p._asyncMessages[i].second; h.add(t?t.getManagedBuffer().getSlabIndex():77); }
        for (size_t i = 0; i < p._slotCalls.size(); i++) { auto &t = p._slotCalls[i].second; h.add(t?t.getManagedBuffer().getSlabIndex():77); }
        return true;
    }
    template <typename P> bool tokens(mc::Hash &, P &, long) { return false; }
    template <typename P> auto tokenFront(mc::Hash &h, P &p, int) -> decltype((void)p._tokenManager->front(), bool())
    { h.add(p._tokenManager->empty()); if (not p._tokenManager->empty()) h.add(p._tokenManager->front().getManagedBuffer().getSlabIndex()); return true; }
    template <typename P> bool tokenFront(mc::Hash &, P &, long) { return false; }
}

struct Queue { std::deque<std::pair<int, int>> q; }; // (sender, number)

static void messages(int depth, int noPrune)
{
    Blk P[2], C[2];
    for (auto &p : P) { p.setupOutput(0, "uint8"); }
    for (auto &c : C) { c.setupInput(0, "uint8"); }
    // both producers feed consumer 0, the first one also feeds consumer 1
    connectBlk(P[0], "0", C[0], "0"); connectBlk(P[0], "0", C[1], "0"); connectBlk(P[1], "0", C[0], "0");
    int sent[3] = {0, 0, 0}; unsigned long long popped[2] = {0, 0};
    Queue Q[2];
    int post = 0; int act = 0;
    for (int i = 0; i < 2; i++)
    {
        P[i].onWork = [&, i](Blk &b) { for (int k = 0; k < post; k++) { b.output(0)->postMessage(makeMsg(i, sent[i])); Q[0].q.push_back({i, sent[i]}); if (i == 0) Q[1].q.push_back({i, sent[i]}); sent[i]++; } };
        C[i].onWork = [&, i](Blk &b)
        {
            auto in = b.input(0);
            auto check = [&](const Object &o, const char *how)
            {
                if (Q[i].q.empty()) { if (o) mc::fail("message-extra", std::string("consumer ") + std::to_string(i) + " " + how + ": a message although none is outstanding"); return; }
                auto &f = Q[i].q.front();
                if (not isMsg(o, f.first, f.second)) mc::fail("message-wrong", std::string("consumer ") + std::to_string(i) + " " + how + ": not message " + std::to_string(f.second) + " of sender " + std::to_string(f.first));
            };
            if (in->hasMessage() != not Q[i].q.empty()) { mc::fail("has-message", "consumer " + std::to_string(i) + ": hasMessage()=" + std::to_string(in->hasMessage()) + " with " + std::to_string(Q[i].q.size()) + " outstanding"); return; }
            check(in->peekMessage(), "peek");
            const size_t n = (act == 0)?0:(act == 1)?1:Q[i].q.size() + 1;
            for (size_t k = 0; k < n and not mc::failed(); k++)
            {
                const auto m = in->popMessage();
                check(m, "pop"); popped[i]++;
                if (mc::failed()) return;
                if (not Q[i].q.empty()) Q[i].q.pop_front();
                if (in->totalMessages() != popped[i]) mc::fail("message-total", "total of the input is wrong");
            }
        };
    }
    for (auto &p : P) { p._actor->setOutputBufferManager("0", makeManager("generic", 2, 64)); p._actor->setActiveStateOn(); }
    for (auto &c : C) c._actor->setActiveStateOn();
    auto outstanding = [&](int i) { size_t n = 0; for (auto &e : Q[0].q) n += (e.first == i); size_t m = 0; if (i == 0) m = Q[1].q.size(); return std::max(n, m); };
    auto canon = [&](mc::Hash &h) -> bool
    {
#ifdef MC_NO_PEEK
        return false;
#endif
        for (int i = 0; i < 2; i++) { h.add(Q[i].q.size()); for (auto &e : Q[i].q) h.add(e.first); }
        for (auto &c : C) if (not peek::tokens(h, *c.input(0), 0)) return false;
        for (auto &p : P) if (not peek::tokenFront(h, *p.output(0), 0)) return false;
        h.add(sent[0] % 4).add(sent[1] % 4);
        return true;
    };
    { mc::Hash h; if (not canon(h)) depth = noPrune; }
    for (int d = 0; d < depth; d++)
    {
        const int op = mc::choose(12);
        if (op < 5)
        {
            const int i = op/3; post = (op%3 == 0)?1:(op%3 == 1)?2:20; if (i == 1 and op == 4) post = 20;
            const size_t out = outstanding(i); const auto total = P[i].output(0)->totalMessages();
            const bool ran = P[i].run();
            post = 0; for (int k = 0; k < 4 and P[i].runIfFlagged(); k++); // until it is idle
            post = (op%3 == 0)?1:(op%3 == 1)?2:20; if (i == 1 and op == 4) post = 20;
            if (mc::tracing()) mc::trace("producer " + std::to_string(i) + (ran?" posts ":" is held back from posting ") + std::to_string(post));
            if (not ran and out == 0) mc::fail("held-empty", "producer " + std::to_string(i) + " is held back although all of its messages were taken");
            if (ran and out >= size_t(LIMIT)) mc::fail("not-held", "producer " + std::to_string(i) + " runs with " + std::to_string(out) + " messages outstanding");
            if (P[i].output(0)->totalMessages() != total + (ran?post:0)) mc::fail("message-total", "total of the output is wrong");
        }
        else if (op < 11)
        {
            const int i = (op-5)/3; act = (op-5)%3;
            const bool any = not Q[i].q.empty();
            const bool held0 = outstanding(0) != 0, held1 = outstanding(1) != 0;
            const bool ran = C[i].run();
            if (mc::tracing()) mc::trace("consumer " + std::to_string(i) + (ran?" works, ":" does not work, ") + std::to_string(act));
            if (any and not ran) mc::fail("message-not-offered", "consumer " + std::to_string(i) + " has messages but does not work");
            // a producer that can post again finds out
            post = 0;
            if (held0 and outstanding(0) == 0 and not mc::failed() and not P[0].runIfFlagged()) mc::fail("not-resumed", "producer 0 is not woken after its messages were taken");
            if (held1 and outstanding(1) == 0 and not mc::failed() and not P[1].runIfFlagged()) mc::fail("not-resumed", "producer 1 is not woken after its messages were taken");
        }
        else { C[0].input(0)->pushMessage(makeMsg(2, sent[2])); Q[0].q.push_back({2, sent[2]++}); if (mc::tracing()) mc::trace("external message to consumer 0"); }
        mc::step();
        if (mc::failed()) return;
        mc::Hash h;
        if (canon(h) and not mc::visit(h.h, depth - d - 1)) return;
    }
    // everything can be taken, and nothing that limits the producers was lost on the way
    for (int r = 0; r < 20 and not mc::failed(); r++)
    {
        act = 2; C[0].run(); if (not mc::failed()) C[1].run();
        if (mc::failed()) return;
        if (not Q[0].q.empty() or not Q[1].q.empty()) { mc::fail("message-lost", "messages remain that are never offered"); return; }
        post = 1;
        for (auto &p : P) if (not p.run()) { mc::fail("held-empty", "a producer is held back although all of its messages were taken"); return; }
    }
}

// queue growth up to just below the documented overflow limit (and the producer is limited by tokens, so: pushed from outside)
static void many(void)
{
    Blk C; C.setupInput(0, "uint8");
    C.registerCallable("take", Callable(std::function<void(int)>([](int){})));
    const int n = 1 + mc::choose(1000), burst = 1 + mc::choose(3);
    int sent = 0, got = 0; bool all = false;
    C.onWork = [&](Blk &b)
    {
        const int k = all?sent-got:1;
        for (int i = 0; i < k; i++) { auto m = b.input(0)->popMessage(); if (not isMsg(m, 1, got)) { mc::fail("message-wrong", "message " + std::to_string(got) + " of " + std::to_string(n)); return; } got++; }
    };
    C._actor->setActiveStateOn();
    while (sent - got < n and sent < 3*n) { for (int i = 0; i < burst and sent - got < n; i++) C.input(0)->pushMessage(makeMsg(1, sent++)); if (burst != 3 and sent - got < n) C.run(); if (mc::failed()) return; if (burst == 1) break; }
    all = true;
    if (got < sent) C.run();
    if (not mc::failed() and got != sent) mc::fail("message-lost", std::to_string(sent - got) + " messages lost");
    mc::step(); mc::state(mc::Hash().add(n).add(burst).h);
}

// a sender is held back however it sends and however the receiver takes it, and resumes without being flagged by us
static void held(void)
{
    const int kind = mc::choose(4), burst = 1 + mc::choose(20), subs = 1 + mc::choose(2);
    Blk S, R[2]; int handled = 0, sent = 0; bool on = true, take = false;
    if (kind == 0) S.setupOutput("out", "uint8"); else S.registerSignal("out");
    for (int i = 0; i < subs; i++)
    {
        R[i].setupInput("in", "uint8");
        R[i].registerCallable("slot", Callable(std::function<void(int)>([&](int) { handled++; })));
        R[i].registerCallable("value", Callable(std::function<int(int)>([&](int v) { handled++; return v; }))); R[i].registerProbe("value", "val", "probe");
        connectBlk(S, "out", R[i], (kind == 0 or kind == 1)?"in":(kind == 2)?"slot":"probe");
        R[i].onWork = [&](Blk &b) { while (take and b.input("in")->hasMessage()) { b.input("in")->popMessage(); handled++; } };
        R[i]._actor->setActiveStateOn();
    }
    if (kind == 0) S._actor->setOutputBufferManager("out", makeManager("generic", 2, 64));
    S.onWork = [&](Blk &b) { if (on) for (int i = 0; i < burst; i++) { if (kind == 0) b.output("out")->postMessage(sent); else b.emitSignal("out", sent); sent++; } };
    S._actor->setActiveStateOn();
    for (int round = 0; round < 3; round++)
    {
        int steps = 0;
        while (S.run()) { if (sent*subs - handled > 200) { mc::fail("not-held", "kind " + std::to_string(kind) + ": a sender runs with " + std::to_string(sent - handled/subs) + " outstanding"); return; } steps++; }
        if (steps == 0) { mc::fail("held-empty", "kind " + std::to_string(kind) + ": the sender does not start"); return; }
        mc::step(steps);
        on = false; for (int k = 0; k < 4 and S.runIfFlagged(); k++);
        take = true;
        for (int i = 0; i < subs; i++) { R[i].run(); if (i+1 < subs and S.run()) { mc::fail("not-held", "kind " + std::to_string(kind) + ": a sender runs although one of two receivers has taken nothing"); return; } }
        take = false;
        if (handled != sent*subs) { mc::fail("message-lost", "kind " + std::to_string(kind) + ": " + std::to_string(handled) + " of " + std::to_string(sent*subs) + " handled"); return; }
        if (not S.runIfFlagged()) { mc::fail("not-resumed", "kind " + std::to_string(kind) + ": the sender is not woken after everything was handled"); return; }
        on = true;
    }
    mc::state(mc::Hash().add(kind).add(burst).add(subs).h);
}

struct Recv : Blk
{
    std::vector<std::string> got; // in the order handled
    std::function<void(const std::string &)> hook;
    void add(const std::string &s) { got.push_back(s); if (hook) hook(s); }
    Recv(void)
    {
        registerCallable("onSig", Callable(std::function<void(int, const std::string &)>([this](int a, const std::string &b) { add("onSig " + std::to_string(a) + " " + b); if (a % 3 == 2) throw RuntimeException("no"); })));
        registerCallable("onNone", Callable(std::function<void(void)>([this](void) { add("onNone"); })));
        registerCallable("value", Callable(std::function<int(int)>([this](int a) { add("value " + std::to_string(a)); if (a % 3 == 2) throw RuntimeException("no"); return a*10; })));
        registerProbe("value");
    }
};

// signals to slots and to a message input, a probe, a slot that throws, chained emission
static void signals(int depth, int noPrune)
{
    Blk S, T; Recv R;
    R.registerSignal("chain");
    S.registerSignal("sig"); S.registerSignal("none"); S.registerSignal("ask");
    T.setupInput(0, "uint8");
    std::vector<std::string> tgot, xgot;
    T.registerCallable("onValue", Callable(std::function<void(int)>([&](int v) { tgot.push_back(std::to_string(v)); })));
    T.registerCallable("onChain", Callable(std::function<void(const std::string &)>([&](const std::string &v) { xgot.push_back(v); })));
    connectBlk(S, "sig", R, "onSig"); connectBlk(S, "sig", T, "0"); connectBlk(S, "none", R, "onNone"); connectBlk(S, "ask", R, "probeValue");
    connectBlk(R, "valueTriggered", T, "onValue"); connectBlk(R, "chain", T, "onChain");
    R.hook = [&](const std::string &s) { if (s.compare(0, 5, "onSig") == 0) R.emitSignal("chain", s); };
    int n = 0, act = 0;
    std::vector<std::string> wantSig, wantNone, wantVal, wantT, wantChain; // everything ever sent, per connection
    std::vector<std::pair<int, std::string>> wantMsg; size_t msgTaken = 0;
    auto emit = [&](int what, bool fromOutside)
    {
        n++;
        if (what == 0)
        {
            const std::string s = "a" + std::to_string(n);
            if (fromOutside) S.call("sig", n, s); else S.emitSignal("sig", n, s);
            wantSig.push_back("onSig " + std::to_string(n) + " " + s); wantChain.push_back(wantSig.back()); wantMsg.push_back({n, s});
        }
        else if (what == 1) { if (fromOutside) S.call("none"); else S.emitSignal("none"); wantNone.push_back("onNone"); }
        else { if (fromOutside) S.call("ask", n); else S.emitSignal("ask", n); wantVal.push_back("value " + std::to_string(n)); if (n % 3 != 2) wantT.push_back(std::to_string(n*10)); }
    };
    S.onWork = [&](Blk &) { if (act == 3) { emit(0, false); emit(2, false); emit(0, false); } else if (act == 4) { for (int i = 0; i < 20; i++) emit(i%3, false); } else if (act >= 0) emit(act, false); };
    T.onWork = [&](Blk &b)
    {
        auto in = b.input(0);
        while (in->hasMessage())
        {
            auto m = in->popMessage();
            if (msgTaken >= wantMsg.size()) { mc::fail("message-extra", "a signal arrives twice at a message input"); return; }
            if (m.type() != typeid(ObjectVector)) { mc::fail("message-wrong", "a signal's arguments do not arrive as a list"); return; }
            const auto &v = m.extract<ObjectVector>(); auto &w = wantMsg[msgTaken++];
            if (v.size() != 2 or v[0].convert<int>() != w.first or v[1].convert<std::string>() != w.second) { mc::fail("message-wrong", "arguments of a signal changed"); return; }
        }
    };
    S._actor->setActiveStateOn(); R._actor->setActiveStateOn(); T._actor->setActiveStateOn();
    auto prefix = [&](const std::vector<std::string> &got, const std::vector<std::string> &want, const char *what, bool complete)
    {
        for (size_t i = 0; i < got.size(); i++) if (i >= want.size() or got[i] != want[i]) { mc::fail("slot-wrong", std::string(what) + ": call " + std::to_string(i) + " is '" + got[i] + "'" + (i < want.size()?", expected '" + want[i] + "'":", which was never sent")); return; }
        if (complete and got.size() != want.size()) mc::fail("slot-lost", std::string(what) + ": " + std::to_string(want.size() - got.size()) + " calls missing");
    };
    auto verify = [&](bool complete)
    {
        std::vector<std::string> a, b, c;
        for (auto &g : R.got) ((g[0] == 'v')?c:(g == "onNone")?b:a).push_back(g);
        prefix(a, wantSig, "slot", complete); prefix(b, wantNone, "slot without arguments", complete); prefix(c, wantVal, "probed method", complete);
        prefix(tgot, wantT, "probe result", complete); prefix(xgot, wantChain, "chained signal", complete);
    };
    auto canon = [&](mc::Hash &h) -> bool
    {
#ifdef MC_NO_PEEK
        return false;
#endif
        h.add(n % 12).add(wantMsg.size() - msgTaken).add(wantSig.size()).add(wantNone.size()).add(wantVal.size()).add(tgot.size()).add(xgot.size()).add(R.got.size());
        for (Blk *b : {(Blk *)&R, &T}) for (auto &e : b->allInputs()) if (not peek::tokens(h, *e.second, 0)) return false;
        for (Blk *b : {(Blk *)&S, (Blk *)&R}) for (auto &e : b->allOutputs()) if (not peek::tokenFront(h, *e.second, 0)) return false;
        return true;
    };
    { mc::Hash h; if (not canon(h)) depth = noPrune; }
    for (int d = 0; d < depth; d++)
    {
        const int op = mc::choose(10);
        bool ran = true;
        if (op < 5) { act = op; ran = S.run(); }
        else if (op < 8) emit(op-5, true);
        else if (op == 8)
        {
            const size_t pend = wantT.size() + wantChain.size() - tgot.size() - xgot.size();
            ran = R.run();
            if (pend == 0) // nothing holds the receiver back: it handles all slot calls now
            {
                if (R.got.size() != wantSig.size() + wantNone.size() + wantVal.size()) mc::fail("slot-lost", "slot calls are outstanding after a work step");
            }
        }
        else { ran = T.run(); if (msgTaken != wantMsg.size()) mc::fail("message-lost", "signals to a message input are outstanding after a work step"); }
        if (mc::tracing()) mc::trace((op < 5?"emit " + std::to_string(op):op < 8?"call signal " + std::to_string(op-5):op == 8?std::string("receiver"):std::string("end")) + (ran?"":" (no work)"));
        mc::step();
        verify(false);
        if (mc::failed()) return;
        mc::Hash h;
        if (canon(h) and not mc::visit(h.h, depth - d - 1)) return;
    }
    act = -1;
    for (int i = 0; i < 12 and not mc::failed(); i++) { R.run(); T.run(); }
    verify(true);
    if (not mc::failed() and msgTaken != wantMsg.size()) mc::fail("message-lost", "signals remain that are never offered");
    for (int i = 0; i < 20 and not mc::failed(); i++) { act = i%3; if (not S.run()) mc::fail("held-empty", "the emitter is held back although all of its signals were handled"); R.run(); T.run(); }
    if (not mc::failed()) verify(true);
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto quiet = []{ Poco::Logger::root().setLevel("none"); Poco::Logger::get("Pothos.Block.callSlot").setLevel("none"); Poco::Logger::get("Pothos.InputPort.messages").setLevel("none"); };
    { Scenario s; const int d = thorough?9:6; s.name = "messages-depth" + std::to_string(d); s.setup = quiet; s.body = [=]{ messages(d, 5); }; v.push_back(s); }
    { Scenario s; const int d = thorough?9:7; s.name = "signals-depth" + std::to_string(d); s.setup = quiet; s.body = [=]{ signals(d, 4); }; v.push_back(s); }
    { Scenario s; s.name = "held-back"; s.setup = quiet; s.body = held; v.push_back(s); }
    { Scenario s; s.name = "many-outstanding"; s.setup = quiet; s.body = many; v.push_back(s); }
    return v;
}
