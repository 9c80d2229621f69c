// T04: a design is what its description says, a damaged description is refused, and the dumps list exactly the design.
#include "topo.hpp"
#include <Pothos/Framework/BlockRegistry.hpp>
#include <Pothos/Framework/ThreadPool.hpp>
using namespace Pothos;

// ---- descriptions ----------------------------------------------------------------------------
struct JBlock : TBlock
{
    struct Log { std::string path, name; std::vector<std::string> args, calls; JBlock *live; };
    static std::vector<Log> &logs(void) { static std::vector<Log> l; return l; } static int &alive(void) { static int n = 0; return n; }
    size_t n;
    JBlock(const std::string &path, const std::vector<std::string> &args) : TBlock("", 1, 1), n(logs().size())
    {
        logs().push_back(Log{path, "", args, {}, this}); alive()++; this->registerCall(this, "set", &JBlock::set); this->registerCall(this, "text", &JBlock::text); this->registerCall(this, "refuse", &JBlock::refuse);
    }
    ~JBlock(void) { alive()--; if (n < logs().size()) logs()[n].live = nullptr; }
    void set(int v) { logs()[n].calls.push_back("set " + std::to_string(v)); }
    void text(const std::string &v) { logs()[n].calls.push_back("text " + v); }
    void refuse(void) { throw Exception("refused"); }
    static Block *one(int v) { if (v < 0) throw Exception("negative"); return new JBlock("/t/one", {std::to_string(v)}); }
    static Block *two(int v, const std::string &s) { return new JBlock("/t/two", {std::to_string(v), s}); }
};
// the reference reading of a description
struct Malformed {}; struct Unclear {};
struct Val { bool number; long i; std::string s; };
struct Made { std::string path, name; std::vector<std::string> args, calls; std::string pool; };
struct Reading
{
    typedef std::vector<std::pair<std::string, Val>> Env;
    static Val eval(const json &j, const Env &env)
    {
        if (j.is_number_integer()) return Val{true, j.get<long>(), ""}; if (not j.is_string()) throw Unclear();
        const std::string s = j; auto var = [&](const std::string &n, Val &v) { for (auto &e : env) if (e.first == n) { v = e.second; return true; } return false; };
        Val v; if (var(s, v)) return v; if (not s.empty() and s.find_first_not_of("0123456789") == std::string::npos) return Val{true, std::stol(s), ""};
        const size_t p = s.find('+'); if (p != std::string::npos and s.find_first_not_of("0123456789", p + 1) == std::string::npos and var(s.substr(0, p), v)) { if (not v.number) throw Unclear(); return Val{true, v.i + std::stol(s.substr(p + 1)), ""}; }
        if (s.size() > 1 and s[0] == '"') return Val{false, 0, s.substr(1, s.size() - 2)}; return Val{false, 0, s};
    }
    static void vars(const json &o, const char *key, Env &env)
    {
        if (not o.count(key)) return; const json &v = o[key]; std::vector<std::pair<std::string, json>> l;
        if (v.is_array()) for (auto &e : v) { if (not e.is_object() or not e.count("name") or not e.count("value") or not e["name"].is_string()) throw Malformed(); l.emplace_back(e["name"], e["value"]); }
        else if (v.is_object()) for (auto &e : v.items()) l.emplace_back(e.key(), e.value()); else throw Malformed();
        for (auto &e : l) { for (auto &x : env) if (x.first == e.first) throw Unclear(); env.emplace_back(e.first, eval(e.second, env)); }
    }
    static std::vector<std::string> typed(const json &a, size_t from, const std::string &types, const Env &env)
    {
        std::vector<std::string> r; std::vector<Val> vs; for (size_t i = from; i < a.size(); i++) vs.push_back(eval(a[i], env)); if (vs.size() < types.size()) throw Malformed(); if (vs.size() > types.size()) throw Unclear();
        for (size_t i = 0; i < types.size(); i++) { if (types[i] == 'i') { if (not vs[i].number) throw Malformed(); r.push_back(std::to_string(vs[i].i)); } else { if (vs[i].number) throw Unclear(); r.push_back(vs[i].s); } } return r;
    }
    std::vector<Made> blocks; std::vector<Edge> edges;
    Reading(const json &o)
    {
        if (not o.is_object()) throw Malformed(); std::set<std::string> ids = {"self", "this", ""}; Env env; std::set<std::string> pools;
        if (o.count("threadPools")) { if (not o["threadPools"].is_object()) throw Malformed(); for (auto &p : o["threadPools"].items()) { if (not p.value().is_object()) throw Malformed(); pools.insert(p.key()); } }
        vars(o, "globals", env);
        if (o.count("blocks")) { if (not o["blocks"].is_array()) throw Malformed(); for (auto &b : o["blocks"]) {
            if (not b.is_object() or not b.count("id") or not b["id"].is_string() or not b.count("path") or not b["path"].is_string()) throw Malformed();
            Made m; m.name = b["id"]; m.path = b["path"]; if (not ids.insert(m.name).second) throw Malformed(); if (m.path != "/t/one" and m.path != "/t/two") throw Malformed();
            Env local = env; vars(b, "locals", local); const json args = b.count("args")?b["args"]:json::array(); if (not args.is_array()) throw Malformed();
            m.args = typed(args, 0, m.path == "/t/one"?"i":"is", local); if (m.path == "/t/one" and m.args[0][0] == '-') throw Malformed();
            const json calls = b.count("calls")?b["calls"]:json::array(); if (not calls.is_array()) throw Malformed();
            for (auto &c : calls) { if (not c.is_array() or c.empty() or not c[0].is_string()) throw Malformed(); const std::string n = c[0]; if (n != "set" and n != "text") throw Malformed(); m.calls.push_back(n + " " + typed(c, 1, n == "set"?"i":"s", local)[0]); }
            m.pool = pools.count("")?"":"-"; if (b.count("threadPool")) { if (not b["threadPool"].is_string()) throw Malformed(); const std::string p = b["threadPool"]; if (not p.empty() and not pools.count(p)) throw Malformed(); m.pool = pools.count(p)?p:"-"; }
            blocks.push_back(m); } }
        if (o.count("connections")) { if (not o["connections"].is_array()) throw Malformed(); for (auto &c : o["connections"]) {
            if (not c.is_array() or c.size() != 4) throw Malformed(); if (not c[0].is_string() or not c[2].is_string()) throw Malformed(); auto id = [&](const json &j) -> std::string { const std::string s = j; if (not ids.count(s)) throw Malformed(); return (s == "self" or s == "this")?"":s; };
            auto port = [](const json &j) { return j.is_string()?j.get<std::string>():j.dump(); };
            Edge e(End(id(c[0]), port(c[1])), End(id(c[2]), port(c[3]))); for (auto n : {&e.first, &e.second}) if (not n->first.empty() and (n->second.empty() or n->second.find_first_not_of("0123456789") != std::string::npos)) throw Malformed();
            if (std::find(edges.begin(), edges.end(), e) != edges.end()) throw Malformed(); edges.push_back(e); } }
    }
};
struct Site { const char *at; std::vector<json> alternatives; }; // an alternative of "<none>" removes the field
static void description(int limit)
{
    static BlockRegistry r1("/t/one", &JBlock::one), r2("/t/two", &JBlock::two);
    static const json base = json::parse(R"({"threadPools":{"p":{}},"globals":[{"name":"x","value":2},{"name":"y","value":"x+3"}],
        "blocks":[{"id":"a","path":"/t/one","args":["y"],"locals":[{"name":"k1","value":"x+7"}],"calls":[["set","x"],["text","zz"]],"threadPool":"p"},{"id":"b","path":"/t/two","args":[7,"\"x\""],"locals":[{"name":"l","value":"y+1"}],"calls":[["set","l"]]}],
        "connections":[["a",0,"b",0],["self","in","a","0"],["b",0,"","out"]]})");
    const json none = "<none>"; auto J = [](const char *s) { return json::parse(s); };
    static const std::vector<Site> sites = {
        {"", {J("[]"), J("5"), J("{}")}},
        {"/threadPools", {none, 5, J("[1]"), J(R"({"q":{}})"), J(R"({"p":{},"":{}})"), J(R"({"p":5})")}},
        {"/globals", {none, 5, J("[5]"), J(R"([{"name":"x"}])"), J(R"([{"value":1}])"), J(R"([{"name":5,"value":1}])"), J(R"({"x":4,"y":9})"), J(R"([{"name":"y","value":"x+1"},{"name":"x","value":4}])"), J(R"([{"name":"x","value":"\"t\""},{"name":"y","value":"x"}])"), "x"}},
        {"/blocks", {none, 5, J("[5]"), J("[]"), J("[[]]"), "x"}},
        {"/blocks/0/id", {none, 5, "b", "c", "self", ""}}, {"/blocks/1/id", {none, "a", "c", "this", J("[]")}},
        {"/blocks/0/path", {none, 5, "/t/none", "/t/two", ""}},
        {"/blocks/0/args", {none, 5, J("[1]"), J("[\"zz\"]"), J("[-1]"), J("[]"), J("[\"x+10\"]"), J("[\"11\"]"), J("[\"l\"]")}},
        {"/blocks/0/calls", {none, 5, J("[]"), J("[5]"), J("[[]]"), J("[[5]]"), J("[\"set\"]"), J("[[\"nope\"]]"), J("[[\"set\"]]"), J("[[\"refuse\"]]"), J(R"([["text","\"x\""],["set","y"],["set",3],["set","x+1"]])"), J(R"([["set","zz"]])"), J(R"([["set",1],["refuse"]])")}},
        {"/blocks/0/threadPool", {none, "nope", 5, "", "q"}},
        {"/blocks/1/args", {J(R"(["l","zz"])"), J(R"([1,"k1"])"), J(R"([1])"), J(R"([1,"\"y\""])"), J(R"(["x","l+zz"])")}},
        {"/blocks/1/locals", {none, 5, J(R"([{"name":"l","value":"x"},{"name":"v1","value":"l+1"}])"), J(R"([{"name":"l"}])"), J(R"({"l":1})")}},
        {"/blocks/1/calls", {none, J(R"([["set","v1"]])"), J(R"([["text","l+q"],["set","l+2"]])")}},
        {"/connections", {none, 5, J("[]"), J("[5]"), J("[[]]"), "x"}},
        {"/connections/0/0", {"b", "c", "zz", 5, ""}}, {"/connections/0/1", {"0", 1, "zz", true, -1}}, {"/connections/0/2", {"a", "zz", "this", 5}}, {"/connections/0/3", {1, "zz", ""}}, {"/connections/0", {J(R"(["a",0,"b"])"), J(R"(["a",0,"b",0,0])"), J(R"(["b",0,"self","out"])"), J(R"(["","in","a",0])")}},
        {"/connections/1", {J(R"(["self","in","self","out"])"), J(R"(["this","in","b",0])")}},
    };
    json d = base; int left = limit; mc::Hash h;
    for (size_t i = 0; i < sites.size() and left; i++)
    {
        const json::json_pointer p(sites[i].at); if (not d.contains(p)) continue;
        const int c = mc::choose(int(sites[i].alternatives.size()) + 1, sites[i].at); if (not c) continue; left--; const json &v = sites[i].alternatives[c - 1];
        if (v == none) d[p.parent_pointer()].erase(p.back()); else if (p.empty()) d = v; else d[p] = v;
    }
    const std::string desc = d.dump(); if (mc::tracing()) mc::trace(desc); h.add(desc); mc::state(h.h); mc::step();
    bool clear = true, good = true; std::unique_ptr<Reading> r; try { r.reset(new Reading(d)); } catch (const Malformed &) { good = false; } catch (const Unclear &) { clear = false; }
    JBlock::logs().clear(); JBlock::alive() = 0; std::shared_ptr<Topology> t; std::string err;
    try { t = Topology::make(desc); } catch (const std::exception &e) { err = e.what(); }
    if (not t) mc::check(JBlock::alive() == 0, "leak", "a refused description leaves blocks behind");
    if (not clear) return;
    mc::check(bool(t) == good, good?"refused":"accepted", std::string(good?"refused: ":"accepted: ") + desc + " " + err); if (not t or mc::failed()) return;
    auto &logs = JBlock::logs(); mc::check(logs.size() == r->blocks.size(), "blocks", "a different number of blocks was made of " + desc); if (mc::failed()) return;
    std::map<std::string, std::string> name; name[t->uid()] = ""; std::multiset<Edge> got; std::set<std::string> conn; for (auto &e : r->edges) { conn.insert(e.first.first); conn.insert(e.second.first); }
    for (size_t i = 0; i < logs.size(); i++)
    {
        auto &l = logs[i]; auto &m = r->blocks[i]; mc::check(l.path == m.path and l.args == m.args, "arguments", m.name + " was not made as described by " + desc); mc::check(l.calls == m.calls, "calls", "the calls on " + m.name + " are not those described by " + desc);
        mc::check(bool(l.live) == (conn.count(m.name) != 0), "kept", m.name + (l.live?" stays without connection":" is connected but gone")); if (not l.live) continue;
        name[l.live->uid()] = m.name; mc::check(l.live->getName() == m.name, "name", "a block is not named by its id"); 
        for (size_t k = 0; k < i; k++) if (logs[k].live and not (m.pool == "-" and r->blocks[k].pool == "-")) mc::check((l.live->getThreadPool().getContainer() == logs[k].live->getThreadPool().getContainer()) == (m.pool == r->blocks[k].pool), "pool", m.name + " is not in the described thread pool of " + desc);
    }
    const json dump = json::parse(t->dumpJSON(R"({"mode":"top"})")); for (auto &c : dump["connections"]) got.insert(Edge(End(name[c["srcId"].get<std::string>()], c["srcName"].get<std::string>()), End(name[c["dstId"].get<std::string>()], c["dstName"].get<std::string>())));
    mc::check(got == std::multiset<Edge>(r->edges.begin(), r->edges.end()), "connections", "has" + text(got) + " but should have" + text(std::multiset<Edge>(r->edges.begin(), r->edges.end())) + " from " + desc);
    t.reset(); mc::check(JBlock::alive() == 0, "leak", "the blocks outlive the design");
}
// ---- dumps --------------------------------------------------------------------------------------
struct Possible { const char *level; const char *edge; };
static void dumps(const std::vector<Possible> &p, const std::vector<std::string> &topos)
{
    World w(true); for (auto &n : {"A", "B", "C"}) w.block(n, 1, 1); w.block("M", 1, 1); w.block("N", 1, 1); for (auto &t : topos) w.topo(t);
    w.blocks["A"]->registerSlot("slot"); w.blocks["C"]->registerSignal("sig"); w.blocks["M"]->setupInput("extra", typeid(float)); w.blocks["M"]->setupOutput("more", "float32, 3");
    mc::Hash h;
    for (size_t i = 0; i < p.size() and not mc::failed(); i++) { const bool on = mc::choose(2, p[i].edge); h.add(on); if (not on) continue; if (mc::tracing()) mc::trace(std::string(p[i].level) + ": connect " + p[i].edge); w.connect(p[i].level, edge(p[i].edge)); }
    mc::step(); mc::state(h.h); if (mc::failed()) return;
    // which objects the design has at every level, and the names of the nested ones
    std::map<std::string, std::string> full; std::set<std::string> seen; std::function<void(const std::string &, const std::string &)> visit = [&](const std::string &l, const std::string &prefix) { for (auto &e : w.d.edges[l]) for (auto n : {e.first.first, e.second.first}) if (n != l and seen.insert(n).second) { if (w.blocks.count(n)) full[n] = prefix + n; else visit(n, prefix + n + "/"); } };
    visit("T", "");
    auto ports = [&](const json &b, const std::string &n, const std::string &what) { for (int in = 0; in < 2; in++) { std::vector<std::string> g; const char *k = in?"inputs":"outputs"; if (b.count(k)) for (auto &i : b[k]) g.push_back(i["name"].get<std::string>() + (i["isSigSlot"].get<bool>()?"!":"") + ":" + std::to_string(i["size"].get<int>()) + i["dtype"].get<std::string>());
        std::vector<std::string> want; if (w.blocks.count(n)) { if (in) for (auto &pn : w.blocks[n]->inputPortNames()) { auto i = w.blocks[n]->input(pn); want.push_back(i->name() + (i->isSlot()?"!":"") + ":" + std::to_string(i->dtype().size()) + i->dtype().toMarkup()); } else for (auto &pn : w.blocks[n]->outputPortNames()) { auto o = w.blocks[n]->output(pn); want.push_back(o->name() + (o->isSignal()?"!":"") + ":" + std::to_string(o->dtype().size()) + o->dtype().toMarkup()); } }
        if (w.topos.count(n)) { std::multiset<std::string> gn; for (auto &s : g) gn.insert(s.substr(0, s.find(':'))); std::set<std::string> wn = Meaning::ports(w.d.edges[n], n, in); mc::check(gn == std::multiset<std::string>(wn.begin(), wn.end()), "ports", std::string(k) + " of " + n + " in the " + what + " dump"); }
        else { auto txt = [](const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += " " + s; return r; }; mc::check(g == want, "ports", std::string(k) + " of " + n + " in the " + what + " dump are" + txt(g) + " but should be" + txt(want)); } } };
    auto listed = [&](const json &o) { std::map<std::string, json> r; if (o.count("blocks")) for (auto &b : o["blocks"].items()) r[w.nameOf[b.key()]] = b.value(); return r; };
    // flat
    { const auto want = w.want("T"), got = w.dumped("T", "flat"); mc::check(got == want, "flat", "the flat dump has" + text(got) + " but should have" + text(want)); const auto bs = listed(json::parse(w.topos["T"]->dumpJSON())); std::set<std::string> names; for (auto &b : bs) { mc::check(full.count(b.first), "flat-blocks", "the flat dump lists " + b.first); if (mc::failed()) return; mc::check(b.second["name"] == full[b.first], "flat-name", b.second["name"].get<std::string>() + " should be " + full[b.first]); ports(b.second, b.first, "flat"); } mc::check(bs.size() == full.size(), "flat-blocks", "the flat dump lacks blocks"); }
    // by level
    std::function<void(const json &, const std::string &)> level = [&](const json &o, const std::string &l) {
        std::multiset<Edge> got, want(w.d.edges[l].begin(), w.d.edges[l].end()); for (auto &c : o["connections"]) got.insert(Edge(End(w.nameOf[c["srcId"].get<std::string>()], c["srcName"].get<std::string>()), End(w.nameOf[c["dstId"].get<std::string>()], c["dstName"].get<std::string>())));
        mc::check(got == want, "level", "the dump of " + l + " has" + text(got) + " but should have" + text(want)); std::set<std::string> in; for (auto &e : want) { in.insert(e.first.first); in.insert(e.second.first); } in.erase(l);
        const auto bs = listed(o); std::set<std::string> names; for (auto &b : bs) names.insert(b.first); mc::check(names == in, "level-blocks", "the dump of " + l + " lists other blocks than it has"); if (mc::failed()) return;
        for (auto &b : bs) { mc::check(b.second["name"] == b.first, "level-name", "a block has the wrong name"); ports(b.second, b.first, "top"); if (w.topos.count(b.first)) level(b.second, b.first); } };
    level(json::parse(w.topos["T"]->dumpJSON(R"({"mode":"top"})")), "T"); if (mc::failed()) return;
    // the drawing shows the same connections, the statistics the same blocks
    { const std::string dot = w.topos["T"]->toDotMarkup(); size_t n = 0; for (size_t i = 0; (i = dot.find(" -> ", i)) != std::string::npos; i++) n++; mc::check(n == w.want("T").size(), "drawing", "the drawing has " + std::to_string(n) + " connections"); }
    { const json st = json::parse(w.topos["T"]->queryJSONStats()); std::set<std::string> names, want; for (auto &b : st.items()) names.insert(w.nameOf[b.key()]); for (auto &f : full) want.insert(f.first); mc::check(names == want, "statistics", "the statistics are not those of the blocks of the design"); if (mc::failed()) return; for (auto &b : st.items()) mc::check(b.value()["blockName"] == full[w.nameOf[b.key()]], "statistics-name", "a block has the wrong name"); }
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("description", [t]{ description(t?4:2); });
    static const std::vector<Possible> two = {{"S", "S.i>M.0"}, {"S", "M.0>S.o"}, {"S", "S.i>S.o"}, {"R", "R.0>N.0"}, {"R", "N.0>R.0"}, {"R", "R.0>R.0"}, {"T", "A.0>S.i"}, {"T", "S.o>R.0"}, {"T", "R.0>C.0"}, {"T", "T.p>A.0"}};
    add("side-by-side", []{ dumps(two, {"T", "S", "R"}); });
    static const std::vector<Possible> deep = {{"R", "R.i>M.0"}, {"R", "M.0>R.o"}, {"R", "R.i>R.o"}, {"S", "S.i>R.i"}, {"S", "R.o>S.o"}, {"S", "S.i>S.o"}, {"S", "N.0>R.i"}, {"T", "A.0>S.i"}, {"T", "S.o>C.0"}, {"T", "S.o>T.q"}};
    add("nested-twice", []{ dumps(deep, {"T", "S", "R"}); });
    return s;
}
