// R02: what a remote object does is what the local object does; requests that make no sense and streams that end or are damaged end
// in errors. The real client talks to the real server handler over a link in memory, which may fail at any byte.
#include <mc.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Remote.hpp>
#include <Remote/RemoteProxyDatagram.hpp>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
using namespace Pothos;

// ---- the link -----------------------------------------------------------------------------
// cut before a byte (mask 0) or damage it; direction 0: to the server. Identities make messages longer in the course of time, so the byte
// is given by the number of the message and its place in the header, payload or trailer
struct Fault { int dir = -1, message = 0, part = 0; size_t at = 0; int mask = 0; };
struct Link
{
    struct Way : std::streambuf
    {
        Link *l; int dir; std::string data; size_t pos = 0; bool cut = false;
        int message = 0, part = 0; size_t at = 0; uint32_t length = 0; std::vector<size_t> lengths;
        void advance(unsigned char c)
        {
            at++; if (part == 0 and at > 4) length = (length << 8) | c;
            if (part == 0 and at == 8) { lengths.push_back(length); at = 0; part = length?1:2; }
            else if (part == 1 and at == length) { at = 0; part = 2; }
            else if (part == 2 and at == 4) { at = 0; part = 0; length = 0; message++; }
        }
        std::streamsize xsputn(const char *s, std::streamsize n)
        {
            for (std::streamsize i = 0; i < n; i++)
            {
                if (l->closed) return i;
                char c = s[i]; const Fault &f = l->fault; const bool here = f.dir == dir and f.message == message and f.part == part and f.at == at; advance(c);
                if (here) { l->hit = true; if (f.mask == 0) cut = true; c ^= char(f.mask); }
                if (not cut) data.push_back(c);
            }
            return n;
        }
        int_type overflow(int_type ch) { const char x = traits_type::to_char_type(ch); return xsputn(&x, 1) == 1?ch:traits_type::eof(); }
        std::streamsize xsgetn(char *s, std::streamsize n)
        {
            if (dir == 1) while (data.size() - pos < size_t(n) and l->serve()) {}
            n = std::min<std::streamsize>(n, data.size() - pos); data.copy(s, n, pos); pos += n; return n;
        }
        int_type underflow(void) { return traits_type::eof(); }
    };
    Fault fault; bool hit = false, closed = false, done = false; Way up, down; std::ostream toServer, toClient; std::istream fromServer, fromClient; RemoteHandler handler; int served = 0; bool elsewhere = false; // a server in another process
    Link(void) : toServer(&up), toClient(&down), fromServer(&down), fromClient(&up) { up.l = down.l = this; up.dir = 0; down.dir = 1; }
    // the server handles one request; false when it cannot
    bool serve(void)
    {
        if (closed or up.pos == up.data.size()) return false;
        try
        {
            if (not elsewhere) done = handler.runHandlerOnce(fromClient, toClient);
            else { std::stringstream s; done = handler.runHandlerOnce(fromClient, s); ObjectKwargs r = recvDatagram(s); if (r.count("upid")) r["upid"] = Object(std::string("elsewhere")); sendDatagram(toClient, r); }
            served++;
        }
        catch (const std::exception &e) { closed = true; if (mc::tracing()) mc::trace(std::string("the server closes the session: ") + e.what()); return false; }
        if (done) closed = true;
        return true;
    }
    ProxyEnvironment::Sptr client(const std::string &name = "managed") { return RemoteClient::makeEnvironment(fromServer, toServer, name); }
};
// ---- objects ------------------------------------------------------------------------------
static int envs = 0, side = 0, alive[2] = {0, 0}; static void reset(void) { side = envs = alive[0] = alive[1] = 0; } // which world runs, and the objects that live in it
struct Side { int old; Side(int s) : old(side) { side = s; } ~Side(void) { side = old; } };
struct Counted
{
    int n, where; Counted(int n = 0) : n(n), where(side) { alive[where]++; } Counted(const Counted &o) : n(o.n), where(side) { alive[where]++; } ~Counted(void) { alive[where]--; } Counted &operator=(const Counted &o) { n = o.n; return *this; }
    int get(void) const { return n; } void add(const Counted &o) { n += o.n; } void addN(int k) { n += k; } Counted next(void) const { return Counted(n + 1); } std::string say(const std::string &s) const { return s + std::to_string(n); }
    void boom(void) { throw RangeException("boom", std::to_string(n)); } static int sum(int a, int b) { return a + b; }
};
struct Raw { int x = 0; }; // cannot be sent
static void setup(void)
{
    ManagedClass().registerConstructor<Counted, int>().registerMethod("get", &Counted::get).registerMethod("add", &Counted::add).registerMethod("addN", &Counted::addN).registerMethod("next", &Counted::next).registerMethod("say", &Counted::say).registerMethod("boom", &Counted::boom)
        .registerStaticMethod("sum", &Counted::sum).registerField("n", &Counted::n).commit("R02/Counted");
}
// the outcome of an operation: a value, a message of the object, or an error
static std::string outcome(const std::function<std::string(void)> &f)
{
    try { return f(); }
    catch (const ProxyExceptionMessage &e) { return "message " + e.message(); }
    catch (const Exception &e) { if (mc::tracing()) mc::trace(e.displayText()); return "error"; }
    catch (const std::exception &e) { return std::string("foreign error ") + e.what(); }
}
static std::string show(const Object &o) { return o.getTypeString() + " " + o.toString(); }

// ---- the same history on both sides --------------------------------------------------------
struct World
{
    Link *l; ProxyEnvironment::Sptr env, other; Proxy cls; std::vector<Proxy> slot; int me;
    World(int me, int slots) : l(nullptr), slot(slots), me(me) { Side s(me); if (me == 1) { l = new Link(); env = l->client(); } else env = ProxyEnvironment::make("managed"); cls = env->findProxy("R02/Counted"); }
    ~World(void) { Side s(me); slot.clear(); cls = Proxy(); env.reset(); delete l; }
};
static const char *kind(const Proxy &p) { return p?(p.getClassName() == Object(Counted()).getTypeString()?"Counted":p.getClassName() == "int"?"int":"other"):"-"; }
enum { MAKE, CONVERT_INT, CONVERT_STRING, CONVERT_RAW, GET, NEXT, BOOM, NOSUCH, ADD, ADDN, SAY, SUM, FIELD, SET_FIELD, TO_OBJECT, COMPARE, LOOK, FIND, FOREIGN, DROP, COPY, OPS };
static const char *opName[] = {"make an object", "convert a number", "convert a text", "convert what cannot be sent", "get", "next", "call that throws", "call that does not exist", "add another object", "add a number", "say", "static call", "read a field", "write a field", "convert to a local object", "compare", "look at", "find a class that does not exist", "pass a foreign object", "drop", "copy"};
static bool two(int op) { return op == ADD or op == COMPARE or op == COPY; }
static bool one(int op) { return two(op) or op == GET or op == NEXT or op == BOOM or op == NOSUCH or op == ADDN or op == SAY or op == FIELD or op == SET_FIELD or op == TO_OBJECT or op == LOOK or op == FOREIGN or op == DROP; }
static bool fills(int op) { return op == MAKE or op == CONVERT_INT or op == CONVERT_STRING or op == NEXT or op == SAY or op == SUM; }
static std::string perform(World &w, int op, int a, int b, int dst, const Proxy &foreign)
{
    Side s(w.me); auto &sl = w.slot; Proxy r;
    const std::string out = outcome([&]() -> std::string
    {
        switch (op)
        {
        case MAKE: r = w.cls(7); return "made";
        case CONVERT_INT: r = w.env->convertObjectToProxy(Object(int(5))); return "made";
        case CONVERT_STRING: r = w.env->convertObjectToProxy(Object(std::string("x"))); return "made";
        case CONVERT_RAW: w.env->convertObjectToProxy(Object(Raw())); return "made";
        case GET: return std::to_string(sl[a].call("get").convert<int>());
        case NEXT: r = sl[a].call("next"); return "made";
        case BOOM: sl[a].call("boom"); return "done";
        case NOSUCH: sl[a].call("nosuch", 1); return "done";
        case ADD: sl[a].call("add", sl[b]); return "done";
        case ADDN: sl[a].call("addN", 3); return "done";
        case SAY: r = sl[a].call("say", "n="); return r.convert<std::string>();
        case SUM: r = w.cls.call("sum", 20, 3); return std::to_string(r.convert<int>());
        case FIELD: return std::to_string(sl[a].get("n").convert<int>());
        case SET_FIELD: sl[a].set("n", 40); return "done";
        case TO_OBJECT: { const Object o = sl[a].toObject(); return o.type() == typeid(Counted)?std::string("Counted"):show(o); }
        case COMPARE: return std::to_string(sl[a].compareTo(sl[b]));
        case LOOK: { const bool c = std::string(kind(sl[a])) == "Counted"; return sl[a].getClassName() + (c?"":" " + sl[a].toString() + " " + std::to_string(sl[a].hashCode())); }
        case FIND: w.env->findProxy("R02/NoSuch"); return "found";
        case FOREIGN: sl[a].call("addN", foreign); return "done";
        case DROP: sl[a] = Proxy(); return "";
        case COPY: sl[b] = sl[a]; return "";
        }
        return "";
    });
    if (r) sl[dst] = r;
    return out;
}
static void histories(int slots, int depth, const std::vector<int> &ops)
{
    const bool envFirst = mc::choose(2, "end") == 1;
    World local(0, slots), remote(1, slots); std::shared_ptr<ProxyEnvironment> foreignEnv = ProxyEnvironment::make("managed"); Proxy foreign = foreignEnv->convertObjectToProxy(Object(int(9)));
    auto values = [&]{ std::string s; for (auto &p : local.slot) { s += kind(p); if (p) s += std::string(kind(p)) == "Counted"?std::to_string(p.call("get").convert<int>()):p.toString(); s += ","; for (auto &q : local.slot) s += char('0' + (p == q)); } return s; };
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        if (not mc::visit(mc::Hash().add(envFirst).add(values()).add(alive[0]).add(alive[1]).add(remote.l->closed).h, depth - d)) break;
        const int op = ops[mc::choose(ops.size(), "op")]; int a = 0, b = 0;
        if (one(op)) { a = mc::choose(slots, "object"); if (not local.slot[a]) break; }
        if (two(op)) { b = mc::choose(slots, "other"); if (op == COPY?a == b:not local.slot[b]) break; }
        const int dst = fills(op)?mc::choose(slots, "destination"):0;
        mc::step(); const std::string text = std::string(opName[op]) + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(dst) + " (" + kind(local.slot[a]) + ")";
        const bool counted = std::string(kind(local.slot[a])) == "Counted";
        std::string want = perform(local, op, a, b, dst, foreign), got = perform(remote, op, a, b, dst, foreign);
        if (mc::tracing()) mc::trace(text + ": " + got);
        if (op == CONVERT_RAW or (op == TO_OBJECT and counted)) want = "error"; // it cannot be sent
        mc::check(got == want, "outcome", text + " is '" + want + "' locally and '" + got + "' remotely");
        mc::check(not remote.l->closed, "session", text + " ended the session");
        mc::check(alive[0] == alive[1], "released", "after " + text + " the server keeps " + std::to_string(alive[1]) + " objects where " + std::to_string(alive[0]) + " are in use");
        { Side s(1); mc::check(outcome([&]{ return std::to_string(remote.cls.call("sum", 1, 2).convert<int>()); }) == "3", "session", "after " + text + " the connection does not work"); }
        for (int i = 0; i < slots; i++) mc::check(bool(local.slot[i]) == bool(remote.slot[i]), "outcome", text + " made a handle on one side only");
    }
    if (mc::failed()) return;
    // the end: in either order
    { Side s(1); if (envFirst) remote.env.reset(); remote.slot.clear(); } { Side s(0); local.slot.clear(); }
    mc::check(alive[1] == 0, "released", "all handles were dropped and the server keeps " + std::to_string(alive[1]) + " objects");
    mc::check(not remote.l->done, "session", "the session ended while the client had a handle");
    { Side s(1); remote.cls = Proxy(); if (not envFirst) remote.env.reset(); }
    mc::check(remote.l->done, "session", "the session has not ended although the client is gone"); mc::outcome(1);
}
// two clients of one server: each object is reachable from both, and lives as long as a handle of either
static void clients(int depth, bool apart)
{
    const int first = mc::choose(2, "end"); Side s(1); Link l[2]; l[1].elsewhere = apart; ProxyEnvironment::Sptr env[2] = {l[0].client(), l[1].client()}; Proxy cls[2], obj[2]; int val[2] = {0, 0}; for (int i = 0; i < 2; i++) cls[i] = env[i]->findProxy("R02/Counted");
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        if (not mc::visit(mc::Hash().add(first).add(bool(obj[0])).add(bool(obj[1])).add(val[0]).add(val[1]).h, depth - d)) break;
        const int op = mc::choose(5, "op"), w = mc::choose(2, "client"); mc::step();
        if (op > 0 and not obj[w]) break;
        if (mc::tracing()) mc::trace(std::string(op == 0?"make":op == 1?"drop":op == 2?"add the object of the other client":op == 3?"get":"add a number of the other client") + " at " + std::to_string(w));
        if (op == 0) { obj[w] = cls[w](2 + w); val[w] = 2 + w; }
        if (op == 1) { obj[w] = Proxy(); val[w] = 0; }
        if (op == 2) { if (not obj[1-w]) break; const std::string r = outcome([&]{ obj[w].call("add", obj[1-w]); return std::string("done"); }); mc::check(r == (apart?"error":"done"), "shared", (apart?"an object of another server is taken for one of this server: ":"an object of another client of the same server is refused: ") + r); if (not apart) val[w] += val[1-w]; if (val[w] > 20) break; }
        if (op == 4) { const Proxy k = env[1-w]->convertObjectToProxy(Object(int(1))); const std::string r = outcome([&]{ obj[w].call("addN", k); return std::string("done"); }); mc::check(r == "done", "shared", "a number of another client is refused: " + r); if (++val[w] > 20) break; }
        if (op == 3) mc::check(obj[w].call("get").convert<int>() == val[w], "outcome", "wrong value");
        mc::check(alive[1] == bool(obj[0]) + bool(obj[1]), "released", "the server keeps " + std::to_string(alive[1]) + " objects");
    }
    for (int k = 0; k < 2; k++) { const int i = k?1-first:first; obj[i] = Proxy(); cls[i] = Proxy(); env[i].reset(); mc::check(l[i].done, "session", "the session of a client has not ended"); if (k == 0) mc::check(not l[1-first].done, "session", "the session of the other client ended"); }
    mc::check(alive[1] == 0, "released", "objects remain"); mc::outcome(2);
}
// the environment of a session lives on the server exactly as long as the session
struct CountedEnv : ProxyEnvironment { CountedEnv(void) { envs++; } ~CountedEnv(void) { envs--; } std::string getName(void) const { return "r02"; } Proxy findProxy(const std::string &) { return ProxyEnvironment::make("managed")->findProxy("R02/Counted"); } void serialize(const Proxy &, std::ostream &) {} Proxy deserialize(std::istream &) { return Proxy(); } };
static ProxyEnvironment::Sptr makeCounted(const ProxyEnvironmentArgs &) { return ProxyEnvironment::Sptr(new CountedEnv()); }
static void sessions(int depth)
{
    struct Reg { Reg(void) { PluginRegistry::addCall("/proxy/environment/r02", &makeCounted); } ~Reg(void) { PluginRegistry::remove("/proxy/environment/r02"); } } reg;
    Side s(1); std::unique_ptr<Link> l[2]; ProxyEnvironment::Sptr env[2]; Proxy h[2];
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash k; for (int i = 0; i < 2; i++) k.add(bool(env[i])).add(bool(h[i])).add(l[i] and not l[i]->closed); if (not mc::visit(k.h, depth - d)) break;
        const int op = mc::choose(4, "op"), w = mc::choose(2, "client"); mc::step();
        if (mc::tracing()) mc::trace(std::string(op == 0?"connect":op == 1?"make a handle":op == 2?"drop the environment":"drop the handle") + " " + std::to_string(w));
        if (op == 0) { if (env[w] or h[w]) break; l[w].reset(new Link()); env[w] = l[w]->client("r02"); }
        if (op == 1) { if (not env[w] or h[w]) break; h[w] = env[w]->findProxy("any"); }
        if (op == 2) { if (not env[w]) break; env[w].reset(); }
        if (op == 3) { if (not h[w]) break; h[w] = Proxy(); }
        int n = 0; for (int i = 0; i < 2; i++) { const bool on = env[i] or h[i]; n += on; if (l[i]) mc::check(l[i]->done == not on, "session", on?"a session ended too early":"a session has not ended although nothing uses it"); }
        mc::check(envs == n, "released", "the server keeps " + std::to_string(envs) + " environments for " + std::to_string(n) + " sessions");
    }
    for (int i = 0; i < 2; i++) { h[i] = Proxy(); env[i].reset(); } mc::outcome(3);
}
// ---- a session over a link that fails ------------------------------------------------------
static std::vector<std::string> script(Link &l, std::set<size_t> *frames = nullptr)
{
    Side s(1); std::vector<std::string> out; ProxyEnvironment::Sptr env; Proxy cls, a, b, c;
    auto add = [&](const std::function<std::string(void)> &f) { out.push_back(outcome(f)); };
    add([&]{ env = l.client(); return std::string("env"); });
    if (env) add([&]{ cls = env->findProxy("R02/Counted"); return std::string("cls"); });
    if (cls) { add([&]{ a = cls(4); return std::string("a"); }); add([&]{ return std::to_string(cls.call("sum", 1, 2).convert<int>()); }); }
    if (a) { add([&]{ b = a.call("next"); return std::string("b"); }); add([&]{ return std::to_string(a.call("get").convert<int>()); }); add([&]{ return a.call("say", "s").convert<std::string>(); }); add([&]{ a.call("boom"); return std::string("?"); }); }
    if (env) add([&]{ c = env->convertObjectToProxy(Object(std::string("text"))); return std::string("c"); });
    if (c) { add([&]{ return c.toString(); }); add([&]{ return std::to_string(c.hashCode()); }); add([&]{ return c.getClassName(); }); add([&]{ return show(c.toObject()); }); add([&]{ return std::to_string(c.compareTo(c)); }); }
    const bool all = env and cls and a and b and c; a = b = c = cls = Proxy(); env.reset(); out.push_back(all?"":"incomplete");
    return out;
}
struct Good { std::vector<std::string> out; std::vector<size_t> len[2]; int served; };
static const Good &good(void)
{
    static Good g; if (not g.out.empty()) return g;
    Link l; g.out = script(l); g.served = l.served; if (alive[1] != 0 or not l.done) mc::fail("session", "a whole session does not end well");
    g.len[0] = l.up.lengths; g.len[1] = l.down.lengths; return g;
}
enum Damage { CUT, FRAME };
static void broken(Damage how, int dir, int masks)
{
    const Good &g = good(); Link l; Fault &f = l.fault; f.dir = dir; static const int mask[] = {0x01, 0x80, 0xff, 0x20};
    f.message = mc::choose(g.len[dir].size(), "message"); f.part = how == FRAME?2*mc::choose(2, "part"):mc::choose(3, "part");
    f.at = mc::choose(f.part == 0?8:f.part == 2?4:g.len[dir][f.message] + 4, "byte"); if (how != CUT) f.mask = mask[mc::choose(masks, "damage")];
    if (how == FRAME and f.part == 0 and f.at == 4) return; // lengths of many megabytes
    const auto out = script(l); mc::step(out.size()); mc::state(mc::Hash().add(f.message).add(f.part).add(f.at).add(how).add(dir).add(f.mask).h);
    if (not l.hit) return;
    if (mc::tracing()) for (auto &s : out) mc::trace(s);
    bool failed = false; size_t n = 0;
    for (size_t i = 0; i + 1 < out.size(); i++)
    {
        const std::string &s = out[i];
        if (s == "error") { failed = true; continue; }
        mc::check(not failed, "after-failure", "'" + s + "' after the connection had failed");
        mc::check(n < g.out.size() and s == g.out[n], "wrong-result", "the outcome is '" + s + "' in place of '" + g.out[n] + "'"); n++;
    }
    mc::check(not failed or n < g.out.size() - 1, "wrong-result", "more outcomes than calls");
    mc::check(l.served <= g.served, "wrong-result", "more requests were handled than were made"); mc::outcome(n);
}
// ---- requests that make no sense -----------------------------------------------------------
static void requests(bool pairs)
{
    static const char *actions[] = {"findProxy", "convertObjectToProxy", "convertProxyToObject", "call", "compareTo", "hashCode", "toString", "getClassName", "~RemoteProxyHandle", "RemoteProxyEnvironment", "~RemoteProxyEnvironment", "nosuch", ""};
    Side s(1); Link l; auto env = l.client(); Proxy cls = env->findProxy("R02/Counted"), obj = cls(3), num = env->convertObjectToProxy(Object(int(1)));
    // ask directly
    auto ask = [&](ObjectKwargs q, ObjectKwargs &r) { std::stringstream a, b; q["tid"] = Object(uint32_t(1)); sendDatagram(a, q); RemoteHandler h; try { h.runHandlerOnce(a, b); r = recvDatagram(b); return true; } catch (const std::exception &e) { if (mc::tracing()) mc::trace(std::string("session closed: ") + e.what()); return false; } };
    ObjectKwargs e0; e0["action"] = Object(std::string("RemoteProxyEnvironment")); e0["name"] = Object(std::string("managed")); ObjectKwargs r; if (not ask(e0, r)) { mc::fail("session", "no environment"); return; } const Object envID = r.at("envID");
    auto find = [&](void) { ObjectKwargs q; q["action"] = Object(std::string("findProxy")); q["envID"] = envID; q["name"] = Object(std::string("R02/Counted")); ask(q, r); return r.at("handleID"); };
    const Object clsID = find(); ObjectKwargs k; k["action"] = Object(std::string("convertObjectToProxy")); k["envID"] = envID; k["local"] = Object(int(3)); ask(k, r); const Object numID = r.at("handleID"), otherID = (ask(k, r), r.at("handleID"));
    const Object ids[] = {Object(), Object(size_t(0)), Object(size_t(99999999)), Object(std::string("x")), envID, numID, otherID, clsID, Object(int(-1))}; const int IDS = 9;
    static const char *idName[] = {"missing", "0", "unknown", "text", "an environment", "a number", "another number", "a class", "negative"};
    static const char *names[] = {"missing", "R02/Counted", "R02/NoSuch", "sum", "managed"};
    const int act = mc::choose(13, "action"), e = mc::choose(IDS, "envID"), h = mc::choose(IDS, "handleID"), n = mc::choose(6, "name"), more = mc::choose(pairs?IDS:4, "other"); mc::step();
    const int o = pairs?more:more == 3?5:more; // the other id, first argument
    ObjectKwargs q; q["action"] = Object(std::string(actions[act])); if (act == 12) q["action"] = Object(int(3));
    if (e) q["envID"] = ids[e]; if (h) q["handleID"] = ids[h]; if (n == 5) q["name"] = Object(int(1)); else if (n) q["name"] = Object(std::string(names[n])); if (o) { q["otherID"] = ids[o]; q["0"] = ids[o]; q["local"] = ids[o]; }
    const std::string text = std::string(act == 12?"no action":actions[act]) + " envID " + idName[e] + " handleID " + idName[h] + " name " + (n == 5?"number":names[n]) + " other " + idName[o];
    mc::state(mc::Hash().add(text).h);
    ObjectKwargs reply; const bool answered = ask(q, reply); const bool error = not answered or reply.count("errorMsg") != 0; if (mc::tracing()) mc::trace(text + ": " + (not answered?"closed":error?"error":"reply"));
    auto isEnv = [&](int i) { return i == 4; }; auto isProxy = [&](int i) { return i >= 5 and i <= 7; };
    bool bad = false;
    if (act == 0) bad = not isEnv(e) or n != 1; else if (act == 1) bad = not isEnv(e) or o == 0; else if (act == 2) bad = not isEnv(e) or not isProxy(h);
    else if (act == 3) bad = not isProxy(h) or (o and not isProxy(o)) or n == 0 or n == 5; else if (act == 4) bad = not isProxy(h) or not isProxy(o); else if (act <= 7) bad = not isProxy(h);
    else if (act == 9) bad = n != 4; else if (act >= 11) bad = true;
    const bool free = act == 8 or act == 10 or (act == 3 and not bad) or (act == 4 and not bad) or (act == 2 and h == 7); // the outcome belongs to the object
    if (not free) mc::check(error == bad, bad?"accepted":"refused", text + (bad?" is answered as if it made sense":" is refused"));
    // everything else goes on
    mc::check(obj.call("get").convert<int>() == 3 and num.toString() == "1", "session", "after " + text + " another session is broken");
    if (act != 8 and act != 10)
    {
        ObjectKwargs t; t["action"] = Object(std::string("toString")); t["handleID"] = numID; ObjectKwargs a; const bool ok = ask(t, a);
        mc::check(ok and a.count("result") and a.at("result").extract<std::string>() == "3", "session", "after " + text + " an object is gone");
    }
    mc::outcome(mc::Hash().add(error).add(act).h);
    // give everything back
    for (auto &id : {numID, otherID, clsID}) { ObjectKwargs t; t["action"] = Object(std::string("~RemoteProxyHandle")); t["handleID"] = id; ask(t, r); } ObjectKwargs t; t["action"] = Object(std::string("~RemoteProxyEnvironment")); t["envID"] = envID; ask(t, r);
    if (reply.count("handleID")) { t["action"] = Object(std::string("~RemoteProxyHandle")); t["handleID"] = reply.at("handleID"); ask(t, r); }
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v; static bool once = false;
    auto seq = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = [=]{ reset(); f(); }; s.setup = []{ if (not once) { once = true; setup(); } }; v.push_back(s); };
    std::vector<int> all; for (int i = 0; i < OPS; i++) all.push_back(i);
    seq("history", [=]{ histories(2, thorough?5:4, all); });
    seq("objects", [=]{ histories(2, thorough?6:5, {MAKE, NEXT, ADD, DROP, COPY, BOOM}); });
    if (thorough) seq("three", [=]{ histories(3, 4, {MAKE, NEXT, ADD, DROP, COPY, BOOM, CONVERT_RAW, TO_OBJECT, SAY}); });
    seq("clients", [=]{ clients(thorough?8:6, false); });
    seq("servers", [=]{ clients(thorough?8:6, true); });
    seq("sessions", [=]{ sessions(thorough?7:5); });
    seq("cut-requests", [=]{ broken(CUT, 0, 1); });
    seq("cut-replies", [=]{ broken(CUT, 1, 1); });
    seq("frame-requests", [=]{ broken(FRAME, 0, thorough?4:2); });
    seq("frame-replies", [=]{ broken(FRAME, 1, thorough?4:2); });
    seq("requests", [=]{ requests(thorough); });
    return v;
}
