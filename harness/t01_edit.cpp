// T01: editing a topology behaves like a set of edges; flattening composes edges through nested designs exactly.
#include "topo.hpp"
using namespace Pothos;

// ---- all edit histories ----------------------------------------------------------------------
static void edits(int depth, const std::vector<std::string> &cand, bool nested)
{
    World w; w.block("A", 1, 1); w.block("B", 1, 2); w.topo("T"); if (nested) w.topo("S");
    std::vector<Edge> es; for (auto &c : cand) es.push_back(edge(c));
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; for (auto &t : w.d.edges) { h.add(t.first); for (auto &e : t.second) h.add(text(e)); } for (auto &t : w.topos) { h.add(t.second->dumpJSON("{\"mode\":\"top\"}").size()); for (auto &n : t.second->inputPortNames()) h.add(n); for (auto &n : t.second->outputPortNames()) h.add(n); }
        for (auto &b : w.blocks) { for (auto &n : b.second->inputPortNames()) h.add(n); for (auto &n : b.second->outputPortNames()) h.add(n); }
        if (not mc::visit(h.h, depth - d)) return;
        const int op = mc::choose(int(es.size())*2 + 1, "op"); mc::step();
        if (op == int(es.size())*2) { if (mc::tracing()) mc::trace("disconnect all"); w.topos["T"]->disconnectAll(); w.d.edges["T"].clear(); }
        else
        {
            const Edge &e = es[op/2]; const std::string l = (e.first.first == "S" and e.second.first != "T" and e.second.first != "A") or (e.second.first == "S" and e.first.first == "B")?"S":"T";
            if (mc::tracing()) mc::trace(l + ": " + (op%2?"disconnect ":"connect ") + text(e));
            if (op%2) w.disconnect(l, e); else w.connect(l, e);
        }
        w.top("T"); if (nested) w.top("S");
    }
}
// ---- all designs over a set of possible edges --------------------------------------------------
struct Possible { const char *level; const char *edge; };
static void designs(const std::vector<Possible> &p, const std::vector<std::string> &topos, bool deep)
{
    size_t count = 0;
    World w; for (auto &n : {"A", "B", "C"}) w.block(n, 1, 1); w.block("M", 1, 1); w.block("N", 1, 1); for (auto &t : topos) w.topo(t);
    mc::Hash h;
    for (size_t i = 0; i < p.size() and not mc::failed(); i++)
    {
        if (not mc::choose(2, p[i].edge)) { h.add(0); continue; }
        h.add(1); count++; if (mc::tracing()) mc::trace(std::string(p[i].level) + ": connect " + p[i].edge);
        w.connect(p[i].level, edge(p[i].edge));
    }
    mc::step(); mc::state(h.h); if (mc::failed()) return;
    w.topos["T"]->commit();
    const auto want = w.want("T"), ren = w.dumped("T", "rendered"), flow = w.flowing();
    mc::check(ren == want, "flattened", "flattened to" + text(ren) + " but should be" + text(want));
    mc::check(flow == want, "flows", "data flows over" + text(flow) + " but should over" + text(want));
    // committing again changes nothing
    if (deep) w.topos["T"]->commit(); if (deep) mc::check(w.flowing() == want, "flows-again", "a second commit changes the flows");
    // all of it is undone
    w.topos["T"]->disconnectAll(deep?mc::choose(2, "recursive"):count%2); w.topos["T"]->commit(); mc::check(w.flowing().empty(), "flows-after", "data flows after everything is disconnected");
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("edit", [t]{ edits(t?5:4, {"A.0>B.0", "B.0>A.0", "T.p>B.0", "A.0>B.1", "B.1>T.q", "A.0>T.q", "T.p>T.q", "A.1>B.0", "A.1>T.q", "A.x>B.0", "T.p>A.y", "T.p>B.1"}, false); });
    add("edit-nested", [t]{ edits(t?6:5, {"S.i>B.0", "B.0>S.o", "S.i>S.o", "A.0>S.i", "S.o>A.0", "T.p>S.i", "S.o>T.q"}, true); });
    // one level, several ports, passing through, looping back
    static const std::vector<Possible> one = {{"S", "S.i>M.0"}, {"S", "M.0>S.o"}, {"S", "S.i>S.o"}, {"S", "S.i>S.p"}, {"S", "S.j>S.o"}, {"S", "S.j>M.0"}, {"T", "A.0>S.i"}, {"T", "B.0>S.j"}, {"T", "S.o>C.0"}, {"T", "S.p>A.0"}, {"T", "S.o>S.j"}, {"T", "A.0>C.0"}};
    add("one-level", [t]{ designs(one, {"T", "S"}, t); });
    // two designs side by side, equal names for inputs and outputs
    static const std::vector<Possible> two = {{"S", "S.0>M.0"}, {"S", "M.0>S.0"}, {"S", "S.0>S.0"}, {"R", "R.0>N.0"}, {"R", "N.0>R.0"}, {"R", "R.0>R.0"}, {"T", "A.0>S.0"}, {"T", "B.0>R.0"}, {"T", "S.0>R.0"}, {"T", "R.0>S.0"}, {"T", "R.0>C.0"}, {"T", "S.0>B.0"}};
    add("side-by-side", [t]{ designs(two, {"T", "S", "R"}, t); });
    // nested twice
    static const std::vector<Possible> deep = {{"R", "R.i>M.0"}, {"R", "M.0>R.o"}, {"R", "R.i>R.o"}, {"S", "S.i>R.i"}, {"S", "R.o>S.o"}, {"S", "S.i>S.o"}, {"S", "N.0>R.i"}, {"S", "R.o>N.0"}, {"T", "A.0>S.i"}, {"T", "B.0>S.i"}, {"T", "S.o>C.0"}, {"T", "S.o>S.i"}};
    add("nested-twice", [t]{ designs(deep, {"T", "S", "R"}, t); });
    if (t) { static const std::vector<Possible> big = {{"S", "S.i>M.0"}, {"S", "M.0>S.o"}, {"S", "S.i>S.o"}, {"S", "S.i>S.p"}, {"R", "R.i>N.0"}, {"R", "N.0>R.o"}, {"R", "R.i>R.o"}, {"R", "R.j>R.o"}, {"T", "A.0>S.i"}, {"T", "B.0>S.i"}, {"T", "S.o>R.i"}, {"T", "S.p>R.j"}, {"T", "S.p>R.i"}, {"T", "R.o>C.0"}, {"T", "R.o>S.i"}, {"T", "S.o>C.0"}}; add("two-by-two", [t]{ designs(big, {"T", "S", "R"}, t); }); }
    return s;
}
