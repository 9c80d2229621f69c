// R01: threads that share one remote connection. The client side is the real RemoteProxyEnvironment on in-memory streams; a server
// thread answers pending requests in any order and may let the connection fail at any reply boundary; every interleaving within the bound.
#include <mc.hpp>
#include <Remote/RemoteProxy.hpp>
#include <Remote/RemoteProxyDatagram.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Proxy.hpp>
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <memory>
#include <mutex>
#include <streambuf>
#include <thread>
#include <vector>
using namespace Pothos;

// one direction of a connection
struct Pipe : std::streambuf
{
    std::mutex m; std::condition_variable c; std::string data; bool closed = false;
    std::streamsize xsputn(const char *s, std::streamsize n) { std::lock_guard<std::mutex> l(m); if (closed) return 0; data.append(s, n); c.notify_all(); return n; }
    int_type overflow(int_type ch) { const char x = traits_type::to_char_type(ch); return xsputn(&x, 1) == 1?ch:traits_type::eof(); }
    std::streamsize xsgetn(char *s, std::streamsize n)
    {
        std::unique_lock<std::mutex> l(m); while (std::streamsize(data.size()) < n and not closed) c.wait(l);
        n = std::min<std::streamsize>(n, data.size()); data.copy(s, n); data.erase(0, n); return n;
    }
    int_type underflow(void) { return traits_type::eof(); }
    void close(void) { std::lock_guard<std::mutex> l(m); closed = true; c.notify_all(); }
    bool pending(void) { std::lock_guard<std::mutex> l(m); return not data.empty(); }
};
enum Fault { NONE, END, MID, GARBLED, NOT_ARGS, NO_TID, REFUSES, FAULTS };
static const char *faultName[] = {"none", "end of stream", "end inside a reply", "bad frame", "reply of a wrong kind", "reply without identity", "requests are refused"};
struct Conn
{
    Pipe up, down; std::ostream toServer, toClient; std::istream fromServer, fromClient; std::shared_ptr<RemoteProxyEnvironment> env;
    Conn(void) : toServer(&up), toClient(&down), fromServer(&down), fromClient(&up) {}
    void answer(const ObjectKwargs &req) { ObjectKwargs r; r["tid"] = req.at("tid"); if (req.count("n")) r["n"] = req.at("n"); r["envID"] = Object(size_t(1)); r["upid"] = r["nodeId"] = r["peerAddr"] = Object(std::string("x")); sendDatagram(toClient, r); }
    void fault(Fault f, const ObjectKwargs &req)
    {
        if (f == MID) { const size_t before = [&]{ std::lock_guard<std::mutex> l(down.m); return down.data.size(); }(); (void)before; std::stringstream s; ObjectKwargs r; r["tid"] = req.at("tid"); sendDatagram(s, r); const std::string b = s.str().substr(0, s.str().size()/2); toClient.write(b.data(), b.size()); }
        if (f == GARBLED) { const std::string b(64, 'x'); toClient.write(b.data(), b.size()); } // the stream stays open
        if (f == NOT_ARGS) { std::stringstream s; ObjectKwargs e; sendDatagram(s, e); std::ostringstream p; Object(std::string("hello")).serialize(p); std::string b = s.str().substr(0, 4); const uint32_t n = p.str().size(); for (int i = 24; i >= 0; i -= 8) b.push_back(char(n >> i)); b += p.str() + s.str().substr(s.str().size() - 4); toClient.write(b.data(), b.size()); }
        if (f == NO_TID) { ObjectKwargs r; sendDatagram(toClient, r); }
        if (f == REFUSES) up.close();
        if (f == END or f == MID or f == REFUSES) down.close();
    }
};
// clients make their calls; the server chooses what to do next while requests are pending
// a patient server goes on only when its reply has been delivered
static void session(int clients, int calls, bool faults, const std::vector<Fault> &which, bool patient = false)
{
    std::unique_ptr<Conn> c; 
    {
        mc::quiet(true); c.reset(new Conn());
        std::thread first([&]{ c->answer(recvDatagram(c->fromClient)); });
        c->env = std::make_shared<RemoteProxyEnvironment>(c->fromServer, c->toServer, "managed", ProxyEnvironmentArgs()); first.join(); mc::quiet(false);
    }
    Fault f = NONE; bool failed = false;
    std::vector<std::thread> th; std::vector<int> good(clients, 0), bad(clients, 0); std::vector<std::atomic<int>> got(clients);
    for (int i = 0; i < clients; i++) th.emplace_back([&, i]
    {
        for (int k = 0; k < calls; k++)
        {
            ObjectKwargs req; req["action"] = Object(std::string("call")); req["n"] = Object(int(i*10 + k));
            bool threw = false; int n = -1;
            try { n = c->env->transact(req).at("n").extract<int>(); } catch (const Exception &) { threw = true; }
            if (threw) { bad[i]++; if (not faults) mc::fail("spurious", "a call fails although the connection does not"); }
            else { good[i]++; if (bad[i]) mc::fail("after-failure", "a call succeeds after an earlier one reported that the connection has failed"); if (n != i*10 + k) mc::fail("wrong-reply", "call " + std::to_string(i*10 + k) + " received the reply of call " + std::to_string(n)); got[i]++; }
        }
    });
    // the server is this thread
    std::vector<ObjectKwargs> pending; int read = 0, answered = 0;
    while (answered < clients*calls)
    {
        const bool must = pending.empty(), can = read < clients*calls and (must or c->up.pending());
        const int P = int(pending.size()), F = (faults and not must)?int(which.size()):0, n = P + F + (can?1:0);
        const int op = mc::choose(n, "server");
        if (op < P) { const int who = pending[op].at("n").extract<int>()/10, had = got[who]; c->answer(pending[op]); pending.erase(pending.begin() + op); answered++; if (patient) mc::await([&]{ return got[who] > had; }); }
        else if (op < P + F) { f = which[op - P]; failed = true; if (mc::tracing()) mc::trace(std::string("the connection fails: ") + faultName[f]); c->fault(f, pending[0]); break; }
        else { pending.push_back(recvDatagram(c->fromClient)); read++; }
    }
    for (auto &t : th) t.join(); // nobody waits for ever
    int g = 0, b = 0; for (int i = 0; i < clients; i++) { g += good[i]; b += bad[i]; }
    mc::check(g <= answered and g + b == clients*calls, "replies", "more calls succeeded than were answered");
    mc::quiet(true);
    if (failed)
    {
        bool threw = false; ObjectKwargs req; req["action"] = Object(std::string("call"));
        if (b == 0) {} // nobody has noticed
        else { try { c->env->transact(req); } catch (const Exception &) { threw = true; } mc::check(threw, "after-failure", "a call on the failed connection does not report it"); }
        if (f == GARBLED or f == NOT_ARGS or f == NO_TID) c->down.close();
        if (f != REFUSES) { c->down.close(); }
    }
    mc::outcome(mc::Hash().add(f).add(g).add(b).h);
    std::thread last([&]{ if (not failed) { try { c->answer(recvDatagram(c->fromClient)); } catch (const Exception &) {} } });
    c->env.reset(); c->up.close(); last.join();
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; s.freeSwitch = thorough; v.push_back(s); };
    const std::vector<Fault> some = {END, GARBLED}, more = {MID, NOT_ARGS, NO_TID, REFUSES};
    thr("two", thorough?3:2, []{ session(2, 1, false, {}); });
    thr("two-twice", thorough?2:1, []{ session(2, 2, false, {}); });
    thr("three", thorough?2:1, []{ session(3, 1, false, {}); });
    thr("two-patient", thorough?2:1, []{ session(2, 2, false, {}, true); });
    thr("three-patient", thorough?2:1, []{ session(3, 1, false, {}, true); });
    thr("two-fail", thorough?3:2, [=]{ session(2, 1, true, some); });
    thr("two-fail-more", thorough?3:2, [=]{ session(2, 1, true, more); });
    thr("three-fail", thorough?2:1, [=]{ session(3, 1, true, some); });
    if (thorough) thr("two-twice-fail", 2, [=]{ session(2, 2, true, {END, MID, GARBLED, NOT_ARGS, NO_TID, REFUSES}); });
    return v;
}
