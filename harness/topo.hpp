// Topologies of programmable blocks: futures run at once, worker threads never run; a reference for what a design means.
#pragma once
#include <mc.hpp>
#include <Framework/WorkerActor.hpp>
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/InputPortImpl.hpp>
#include <Pothos/Framework/OutputPortImpl.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Object.hpp>
#include <json.hpp>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>
#include <pthread.h>
typedef nlohmann::json json;
#ifndef BLK_REAL_THREADS
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    static unsigned long n = 1; *t = ++n;
    if (std::strstr(typeid(*(std::thread::_State *)arg).name(), "__future_base")) fn(arg); // std::async
    return 0;
}
extern "C" int pthread_join(pthread_t, void **) { return 0; }
#endif

struct TBlock : Pothos::Block
{
    int activated = 0, deactivated = 0, refused = 0, worked = 0, workedOutside = 0; bool failActivate = false, failDeactivate = false, failManager = false;
    std::string accepts, custom; bool limited = false; // domains of peers it works with, and those it brings its own manager for
    TBlock(const std::string &name, int ins, int outs, const std::string &inDomain = "", const std::string &outDomain = "") { this->setName(name); for (int i = 0; i < ins; i++) this->setupInput(i, "", inDomain); for (int i = 0; i < outs; i++) this->setupOutput(i, "", outDomain); }
    std::shared_ptr<Pothos::BufferManager> manager(const std::string &domain) { const std::string d = domain.empty()?"-":domain; if (limited and accepts.find(d) == std::string::npos) throw Pothos::PortDomainError("domain " + d); if (custom.find(d) == std::string::npos) return std::shared_ptr<Pothos::BufferManager>(); return Pothos::BufferManager::make("generic", Pothos::BufferManagerArgs()); }
    std::shared_ptr<Pothos::BufferManager> getOutputBufferManager(const std::string &, const std::string &d) { return manager(d); }
    bool isActive(void) const { return activated > deactivated; }
    void work(void) { worked++; if (not isActive()) workedOutside++; }
    void activate(void) { if (failActivate) { refused++; throw Pothos::Exception("activation fails"); } activated++; }
    std::shared_ptr<Pothos::BufferManager> getInputBufferManager(const std::string &, const std::string &d) { if (failManager) throw Pothos::Exception("no manager"); return manager(d); }
    void run(void) { _actor->flagInternalChange(); _actor->processTask(false); }
    void deactivate(void) { deactivated++; if (failDeactivate) throw Pothos::Exception("deactivation fails"); }
    std::vector<std::string> take(const std::string &port) { std::vector<std::string> r; auto p = this->input(port); while (p->hasMessage()) r.push_back(p->popMessage().extract<std::string>()); return r; }
};
// the block that the commit puts between memory domains
struct Bridge : TBlock
{
    static std::set<Bridge *> &all(void) { static std::set<Bridge *> s; return s; }
    Bridge(void) : TBlock("", 1, 1) { all().insert(this); } ~Bridge(void) { all().erase(this); }
    void work(void) { TBlock::work(); auto i = this->input(0); while (i->hasMessage()) this->output(0)->postMessage(i->popMessage()); }
    static Pothos::Block *make(void) { return new Bridge(); }
};
// ---- what a design means ---------------------------------------------------------------------
typedef std::pair<std::string, std::string> End; // (object name, port)
typedef std::pair<End, End> Edge;
inline std::string text(const Edge &e) { return e.first.first + "[" + e.first.second + "]->" + e.second.first + "[" + e.second.second + "]"; }
inline std::string text(const std::multiset<Edge> &s) { std::string r; for (auto &e : s) r += " " + text(e); return r; }
struct Design { std::map<std::string, std::vector<Edge>> edges; }; // per topology name, in the order of insertion
struct Meaning { const Design &d; std::string top; std::set<std::string> topos;
    // node: name, port, and for the port of a topology which side of it
    typedef std::tuple<std::string, std::string, int> Node;
    Node node(const std::string &level, const End &e, bool src) const { if (e.first == level) return Node(e.first, e.second, src?1:2); if (topos.count(e.first)) return Node(e.first, e.second, src?2:1); return Node(e.first, e.second, 0); }
    std::multiset<Edge> flat(void) const
    {
        std::vector<std::pair<Node, Node>> all; std::set<std::string> used = {top}; std::vector<std::string> todo = {top};
        while (not todo.empty()) { const std::string l = todo.back(); todo.pop_back(); auto it = d.edges.find(l); if (it == d.edges.end()) continue; for (auto &e : it->second) { all.emplace_back(node(l, e.first, true), node(l, e.second, false)); for (auto &n : {e.first.first, e.second.first}) if (topos.count(n) and used.insert(n).second) todo.push_back(n); } }
        std::set<Edge> r;
        for (auto &s : all) if (std::get<2>(s.first) == 0)
        {
            std::set<Node> seen; std::vector<Node> at = {s.second};
            while (not at.empty()) { Node n = at.back(); at.pop_back(); if (not seen.insert(n).second) continue; if (std::get<2>(n) == 0) { r.insert(Edge(End(std::get<0>(s.first), std::get<1>(s.first)), End(std::get<0>(n), std::get<1>(n)))); continue; } for (auto &x : all) if (x.first == n) at.push_back(x.second); }
        }
        return std::multiset<Edge>(r.begin(), r.end());
    }
    static std::set<std::string> ports(const std::vector<Edge> &es, const std::string &self, bool input) { std::set<std::string> r; for (auto &e : es) { if (input and e.first.first == self) r.insert(e.first.second); if (not input and e.second.first == self) r.insert(e.second.second); } return r; }
};
// ---- the world: named blocks and topologies -------------------------------------------------
struct World
{
    bool distinct; explicit World(bool distinct = false) : distinct(distinct) {} // objects share one display name unless distinct
    std::map<std::string, std::shared_ptr<TBlock>> blocks; std::map<std::string, std::shared_ptr<Pothos::Topology>> topos; Design d; std::map<std::string, std::string> nameOf; // by uid
    void block(const std::string &n, int ins, int outs, const std::string &id = "", const std::string &od = "") { blocks[n] = std::make_shared<TBlock>(distinct?n:"same", ins, outs, id, od); nameOf[blocks[n]->uid()] = n; }
    void topo(const std::string &n) { topos[n] = Pothos::Topology::make(); topos[n]->setName(distinct?n:"same"); nameOf[topos[n]->uid()] = n; }
    Pothos::Object object(const std::string &n) { auto it = blocks.find(n); if (it != blocks.end()) return Pothos::Object(std::shared_ptr<Pothos::Block>(it->second)); return Pothos::Object(topos.at(n)); }
    std::set<std::string> topoNames(void) const { std::set<std::string> r; for (auto &t : topos) r.insert(t.first); return r; }
    bool has(const std::string &level, const End &e, bool src)
    {
        if (e.first == level) return true;
        auto it = blocks.find(e.first); if (it == blocks.end()) return Meaning::ports(d.edges[e.first], e.first, not src).count(e.second) != 0;
        return e.second.find_first_not_of("0123456789") == std::string::npos; // numbered ports appear as needed
    }
    // perform, compare acceptance with the design, update the design
    void connect(const std::string &l, const Edge &e)
    {
        auto &es = d.edges[l]; const bool want = has(l, e.first, true) and has(l, e.second, false) and std::find(es.begin(), es.end(), e) == es.end();
        bool ok = true; try { topos[l]->_connect(object(e.first.first), e.first.second, object(e.second.first), e.second.second); } catch (const Pothos::TopologyConnectError &) { ok = false; }
        mc::check(ok == want, "connect", l + ": connect " + text(e) + (ok?" was accepted":" was refused")); if (ok) es.push_back(e);
    }
    void disconnect(const std::string &l, const Edge &e)
    {
        auto &es = d.edges[l]; auto it = std::find(es.begin(), es.end(), e);
        bool ok = true; try { topos[l]->_disconnect(object(e.first.first), e.first.second, object(e.second.first), e.second.second); } catch (const Pothos::TopologyConnectError &) { ok = false; }
        mc::check(ok == (it != es.end()), "disconnect", l + ": disconnect " + text(e) + (ok?" was accepted":" was refused")); if (ok and it != es.end()) es.erase(it);
    }
    std::multiset<Edge> want(const std::string &top) const { return Meaning{d, top, topoNames()}.flat(); }
    std::multiset<Edge> dumped(const std::string &top, const char *mode)
    {
        const json o = json::parse(topos[top]->dumpJSON(std::string("{\"mode\":\"") + mode + "\"}")); std::multiset<Edge> r;
        for (auto &c : o["connections"]) r.insert(Edge(End(nameOf[c["srcId"].get<std::string>()], c["srcName"].get<std::string>()), End(nameOf[c["dstId"].get<std::string>()], c["dstName"].get<std::string>())));
        return r;
    }
    // the connections data really takes
    std::multiset<Edge> flowing(void)
    {
        std::multiset<Edge> r;
        for (auto &b : blocks) for (auto o : b.second->outputs()) o->postMessage(b.first + " " + o->name());
        for (auto b : Bridge::all()) b->run();
        for (auto &b : blocks) for (auto i : b.second->inputs()) for (auto &m : b.second->take(i->name())) { const size_t s = m.find(' '); r.insert(Edge(End(m.substr(0, s), m.substr(s + 1)), End(b.first, i->name()))); }
        return r;
    }
    void names(const std::string &l)
    {
        for (int in = 0; in < 2; in++) { auto got = in?topos[l]->inputPortNames():topos[l]->outputPortNames(); std::multiset<std::string> g(got.begin(), got.end()); auto w = Meaning::ports(d.edges[l], l, in); mc::check(g == std::multiset<std::string>(w.begin(), w.end()), "port-names", l + ": the " + (in?"input":"output") + " ports do not follow the edges"); }
    }
    void top(const std::string &l)
    {
        std::multiset<Edge> w(d.edges[l].begin(), d.edges[l].end()), g = dumped(l, "top"); mc::check(g == w, "edges", l + " has" + text(g) + " but should have" + text(w)); names(l);
        for (auto &e : d.edges[l]) for (int out = 0; out < 2; out++) { const End &n = out?e.first:e.second; auto it = blocks.find(n.first); if (it == blocks.end()) continue; auto ports = out?it->second->outputPortNames():it->second->inputPortNames(); mc::check(std::find(ports.begin(), ports.end(), n.second) != ports.end(), "port-gone", "the port of " + text(e) + " is gone"); }
    }
};
inline Edge edge(const std::string &s) // "A.0>B.0"
{
    const size_t g = s.find('>'); auto end = [](const std::string &t) { const size_t p = t.find('.'); return End(t.substr(0, p), t.substr(p + 1)); };
    return Edge(end(s.substr(0, g)), end(s.substr(g + 1)));
}
