// T02: every commit moves the running system exactly to the design, whatever happened before.
#include "topo.hpp"
using namespace Pothos;

struct Seen { int on, off; };
enum Kind { PLAIN, TWO_CUSTOM, DOMAINS };
static void history(const std::vector<std::pair<std::string, std::string>> &edges, int depth, const std::vector<std::string> &refusing, const std::string &faults, Kind kind = PLAIN)
{
    World w; w.topo("S"); w.topo("T");
    if (kind == PLAIN) { w.block("A", 1, 1); w.block("B", 1, 1); w.block("C", 1, 1); }
    if (kind == TWO_CUSTOM) { w.block("A", 1, 1); for (auto n : {"B", "C"}) { w.block(n, 1, 1, "x"); w.blocks[n]->custom = "-"; } }
    if (kind == DOMAINS)
    {
        static BlockRegistry reg("/blocks/copier", &Bridge::make);
        w.block("X", 0, 1, "", "x"); w.blocks["X"]->limited = true; w.blocks["X"]->accepts = "x"; w.blocks["X"]->custom = "x"; // a source that cannot reach the host
        w.block("A", 0, 1, "", "x"); w.blocks["A"]->limited = true; w.blocks["A"]->accepts = "x-"; w.blocks["A"]->custom = "x-";
        w.block("H", 0, 1); w.block("C", 1, 0, "y"); w.blocks["C"]->limited = true; w.blocks["C"]->accepts = "y-"; w.blocks["C"]->custom = "-";
        w.block("D", 1, 0); w.block("E", 1, 0, "x"); w.blocks["E"]->limited = true; w.blocks["E"]->accepts = "x-";
    }
    auto suits = [&](const Edge &e) { auto f = w.blocks.find(e.first.first), t = w.blocks.find(e.second.first); const bool fb = f == w.blocks.end(), tb = t == w.blocks.end(); // an unnamed end is a bridge
        auto ok = [](TBlock &b, const std::string &d) { try { b.manager(d); return true; } catch (const PortDomainError &) { return false; } };
        return (fb or ok(*f->second, tb?"":t->second->input(0)->domain())) and (tb or ok(*t->second, fb?"":f->second->output(0)->domain())); };
    std::multiset<Edge> running; bool clean = true; // what the last commit established; whether it succeeded
    std::set<std::string> moved; // blocks that entered or left in commits that failed
    auto members = [](const std::multiset<Edge> &es) { std::set<std::string> r; for (auto &e : es) { r.insert(e.first.first); r.insert(e.second.first); } return r; };
    auto counts = [&] { std::map<std::string, Seen> r; for (auto &b : w.blocks) r[b.first] = Seen{b.second->activated, b.second->deactivated}; return r; };
    auto work = [&](const char *when) { for (auto &b : w.blocks) b.second->run(); for (auto &b : w.blocks) { mc::check(b.second->workedOutside == 0, "work-window", std::string("block ") + b.first + " was worked while not active " + when); const int n = b.second->activated - b.second->deactivated; mc::check(n == 0 or n == 1, "activation", std::string("block ") + b.first + " was activated or deactivated twice in a row " + when); } };
    auto commit = [&](void) {
        const auto want = w.want("T"); const auto before = counts(); std::set<std::string> in = members(want), was = members(running);
        bool ok = true; try { w.topos["T"]->commit(); } catch (const Exception &) { ok = false; }
        std::set<std::string> refused; for (auto &b : w.blocks) if ((b.second->failActivate and in.count(b.first) and not before.at(b.first).on - before.at(b.first).off) or (b.second->failDeactivate and before.at(b.first).on > before.at(b.first).off and not in.count(b.first))) refused.insert(b.first);
        bool manager = false; for (auto &e : want) if (w.blocks[e.second.first]->failManager) manager = true; // only an entering flow asks
        if (kind == TWO_CUSTOM and want.count(edge("A.0>B.0")) and want.count(edge("A.0>C.0"))) manager = true; // not supported
        if (ok) mc::check(refused.empty(), "reported", "the commit succeeds though " + (refused.empty()?"":*refused.begin()) + " refuses");
        else mc::check(not refused.empty() or manager, "spurious", "the commit fails though nothing refuses");
        if (mc::failed()) return;
        for (auto &b : w.blocks)
        {
            const auto &o = before.at(b.first); const int on = b.second->activated - o.on, off = b.second->deactivated - o.off, active = o.on - o.off; 
            if (not ok) { mc::check(on <= (in.count(b.first) and not active) and off <= (not in.count(b.first) and active), "failed-commit", "a failed commit switched " + b.first + " without reason"); continue; }
            mc::check(on == (in.count(b.first) and not active), "activates", "block " + b.first + (on?" was activated without entering":" takes part but is not activated"));
            mc::check(off == (not in.count(b.first) and active), "deactivates", "block " + b.first + (off?" was deactivated without leaving":" does not take part but stays active"));
        }
        clean = ok; if (ok) running = want;
        if (ok) { const auto flow = w.flowing(); mc::check(flow == want, "flows", "data flows over" + text(flow) + " but should over" + text(want)); const auto ren = w.dumped("T", "rendered"); if (kind != DOMAINS) mc::check(ren == want, "rendered", "reported as" + text(ren) + " but should be" + text(want));
            else { for (auto &e : ren) mc::check(suits(e), "domains", "the direct connection" + text(std::multiset<Edge>{e}) + " joins incompatible memory"); std::map<std::string, std::set<std::string>> doms; for (auto &e : ren) if (not e.first.first.empty()) doms[e.first.first].insert(w.blocks.count(e.second.first)?w.blocks[e.second.first]->input(0)->domain():""); for (auto &x : doms) mc::check(x.second.size() == 1, "one-domain", "the buffers of " + x.first + " go to more than one memory domain"); size_t n = 0; for (auto b : Bridge::all()) n += b->isActive(); std::set<std::string> ids; const json o = json::parse(w.topos["T"]->dumpJSON("{\"mode\":\"rendered\"}")); for (auto &b : o["blocks"].items()) if (w.nameOf[b.key()].empty()) ids.insert(b.key()); mc::check(n == ids.size(), "bridges", std::to_string(n) + " bridges are active, there are " + std::to_string(ids.size()) + " in use"); } }
        work(ok?"after a commit":"after a failed commit");
    };
    const int E = int(edges.size()), R = int(refusing.size()), F = int(faults.size());
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; h.add(clean); for (auto &t : w.d.edges) { h.add(t.first); for (auto &e : t.second) h.add(text(e)); }
        for (auto &e : running) h.add(text(e)); for (auto &b : w.blocks) { h.add(b.second->isActive()); for (auto o : b.second->outputs()) { h.add(o->name()); } for (auto i : b.second->inputs()) h.add(i->name()); }
        if (not clean) h.add(text(w.flowing()));
        { std::vector<std::string> rf; for (auto &e : w.dumped("T", "rendered")) rf.push_back(text(e)); for (auto &s : rf) h.add(s); }
        mc::state(h.h); if (not mc::visit(h.h, depth - d)) return;
        const int op = mc::choose(E + 3 + R*F, "op"); mc::step();
        if (op == E + 2) break;
        if (op < E)
        {
            const Edge e = edge(edges[op].second); auto &es = w.d.edges[edges[op].first]; const bool on = std::find(es.begin(), es.end(), e) == es.end();
            if (mc::tracing()) mc::trace(edges[op].first + (on?": connect ":": disconnect ") + text(e));
            const auto before = counts(); if (on) w.connect(edges[op].first, e); else w.disconnect(edges[op].first, e);
            for (auto &b : w.blocks) mc::check(b.second->activated == before.at(b.first).on and b.second->deactivated == before.at(b.first).off, "edit-acts", "an edit takes effect before the commit");
            if (clean) mc::check(w.flowing() == running, "edit-flows", "an edit changes the flows before the commit");
        }
        else if (op == E) { if (mc::tracing()) mc::trace("commit"); commit(); }
        else if (op == E + 1) { if (mc::tracing()) mc::trace("disconnect all"); w.topos["T"]->disconnectAll(); w.d.edges["T"].clear(); if (clean) mc::check(w.flowing() == running, "edit-flows", "an edit changes the flows before the commit"); }
        else
        {
            TBlock &b = *w.blocks[refusing[(op - E - 3)/F]]; const char f = faults[(op - E - 3)%F]; bool &flag = f == 'a'?b.failActivate:f == 'd'?b.failDeactivate:b.failManager;
            if (mc::tracing()) mc::trace("commit while " + refusing[(op - E - 3)/F] + (f == 'a'?" refuses activation":f == 'd'?" refuses deactivation":" has no buffer manager"));
            flag = true; commit(); flag = false;
        }
    }
    if (mc::failed()) return;
    if (mc::tracing()) mc::trace("the topology is destroyed");
    w.topos.erase("T");
    work("after the topology is destroyed"); for (auto &b : w.blocks) mc::check(not b.second->isActive(), "destroyed", "block " + b.first + " stays active when the topology is gone");
    mc::check(w.flowing().empty(), "destroyed-flows", "data flows when the topology is gone");
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("flat", [t]{ history({{"T", "A.0>B.0"}, {"T", "B.0>C.0"}, {"T", "A.0>C.0"}, {"T", "A.1>C.0"}}, t?8:6, {}, ""); });
    add("nested", [t]{ history({{"S", "S.i>B.0"}, {"S", "B.0>S.o"}, {"S", "S.i>S.o"}, {"T", "A.0>S.i"}, {"T", "S.o>C.0"}, {"T", "C.0>S.i"}}, t?8:6, {}, ""); });
    add("refusing", [t]{ history({{"T", "A.0>B.0"}, {"T", "B.0>C.0"}, {"T", "A.0>C.0"}}, t?7:5, {"A", "B"}, "ad"); });
    add("no-manager", [t]{ history({{"T", "A.0>B.0"}, {"T", "A.0>C.0"}, {"T", "C.0>B.0"}}, t?7:5, {"B", "C"}, "m"); });
    add("two-custom", [t]{ history({{"T", "A.0>B.0"}, {"T", "A.0>C.0"}, {"T", "C.0>A.0"}}, t?8:6, {}, "", TWO_CUSTOM); });
    add("domains", [t]{ history({{"T", "X.0>E.0"}, {"T", "A.0>C.0"}, {"T", "A.0>D.0"}, {"T", "A.0>E.0"}, {"T", "H.0>C.0"}, {"T", "H.0>D.0"}}, t?7:5, {}, "", DOMAINS); });
    return s;
}
