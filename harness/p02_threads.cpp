// P02: the plugin registry and the tables kept by its handlers, used by several threads at once. Every small program is
// run under every schedule; the results must be those of some sequential order, and no access may race.
#include <mc.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <thread>
#include <memory>
#include <map>
#include <atomic>
#include <algorithm>
using namespace Pothos;

// ---- the registry --------------------------------------------------------------------------
static const char *const path[] = {"/p02/a", "/p02/a/b", "/p02/c/d"};
enum { ADD_A, ADD_B, ADD_D, REMOVE_A, REMOVE_B, GET_A, GET_B, EMPTY_A, EXISTS_A, LIST_TOP, LIST_A, NOPS, DUMP = NOPS };
static const char *const opName[] = {"add a", "add a/b", "add c/d", "remove a", "remove a/b", "get a", "get a/b", "empty a", "exists a", "list", "list a", "dump"};
typedef std::map<std::string, int> Model; // path -> object
struct Order { std::vector<std::string> top; };
struct Ref // the tree as one thread sees it
{
    Model in; std::vector<std::string> top; // children in order of first insertion
    std::string live(void) const { std::string r; for (auto &t : top) { bool l = false; for (auto &p : in) if (p.first == "/p02/" + t or p.first.compare(0, 6 + t.size(), "/p02/" + t + "/") == 0) l = true; if (l) r += t + " "; } return r; }
    std::string apply(int op, int id)
    {
        switch (op)
        {
        case ADD_A: case ADD_B: case ADD_D: { const char *p = path[op]; const std::string t = op == ADD_D?"c":"a"; if (std::find(top.begin(), top.end(), t) == top.end()) top.push_back(t); if (in.count(p)) return "error"; in[p] = id; return "ok"; }
        case REMOVE_A: case REMOVE_B: { const char *p = path[op - REMOVE_A]; if (not in.count(p)) return "error"; std::string r = std::to_string(in[p]); in.erase(p); return r; }
        case GET_A: case GET_B: { const char *p = path[op - GET_A]; return in.count(p)?std::to_string(in[p]):"error"; }
        case EMPTY_A: return in.count(path[0])?"0":"1";
        case EXISTS_A: return (in.count(path[0]) or in.count(path[1]))?"1":"0";
        case LIST_TOP: return live();
        case LIST_A: return in.count(path[1])?"b ":"";
        case DUMP: { std::string r; for (auto &p : in) r += p.first + " "; return r; }
        }
        return "";
    }
};
static std::string perform(int op, int id)
{
    try
    {
        auto text = [](const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += s + " "; return r; };
        switch (op)
        {
        case ADD_A: case ADD_B: case ADD_D: PluginRegistry::add(path[op], id); return "ok";
        case REMOVE_A: case REMOVE_B: { Plugin p = PluginRegistry::remove(path[op - REMOVE_A]); return std::to_string(p.getObject().extract<int>()); }
        case GET_A: case GET_B: { Plugin p = PluginRegistry::get(path[op - GET_A]); return std::to_string(p.getObject().extract<int>()); }
        case EMPTY_A: return PluginRegistry::empty(path[0])?"1":"0";
        case EXISTS_A: return PluginRegistry::exists(path[0])?"1":"0";
        case LIST_TOP: return text(PluginRegistry::list("/p02"));
        case LIST_A: return text(PluginRegistry::list(path[0]));
        case DUMP:
        {
            const auto d = PluginRegistry::dump(); std::vector<std::string> found;
            std::function<void(const PluginRegistryInfoDump &)> walk = [&](const PluginRegistryInfoDump &x) { if (x.pluginPath.compare(0, 5, "/p02/") == 0 and not x.objectType.empty()) found.push_back(x.pluginPath); for (auto &s : x.subInfo) walk(s); };
            for (auto &s : d.subInfo) if (s.pluginPath == "/p02") walk(s); std::sort(found.begin(), found.end()); return text(found);
        }
        }
    }
    catch (const PluginRegistryError &) { return "error"; }
    return "";
}
static bool explained(Ref ref, const std::vector<std::vector<std::pair<int, std::string>>> &prog, std::vector<size_t> at, const std::vector<std::pair<int, std::string>> &after)
{
    bool all = true;
    for (size_t t = 0; t < prog.size(); t++) if (at[t] < prog[t].size())
    {
        all = false; Ref next = ref; auto &o = prog[t][at[t]];
        if (next.apply(o.first, int(10*t + at[t])) != o.second) continue;
        auto a = at; a[t]++; if (explained(next, prog, a, after)) return true;
    }
    if (not all) return false;
    for (auto &o : after) if (ref.apply(o.first, 99) != o.second) return false;
    return true;
}
static void run(const std::vector<std::vector<int>> &progs, bool filled)
{
    Ref ref; if (filled) { PluginRegistry::add(path[0], 77); ref.apply(ADD_A, 77); }
    std::vector<std::vector<std::pair<int, std::string>>> done(progs.size()); std::vector<std::thread> th;
    auto body = [&](size_t t) { for (size_t i = 0; i < progs[t].size(); i++) done[t].emplace_back(progs[t][i], perform(progs[t][i], int(10*t + i))); };
    for (size_t t = 1; t < progs.size(); t++) th.emplace_back([&, t]{ body(t); });
    body(0); for (auto &t : th) t.join();
    std::vector<std::pair<int, std::string>> after; for (int op : {GET_A, GET_B, LIST_TOP, LIST_A}) after.emplace_back(op, perform(op, 0));
    if (not explained(ref, done, std::vector<size_t>(progs.size()), after))
    {
        std::string t; for (auto &p : done) { t += " ["; for (auto &o : p) t += std::string(opName[o.first]) + "=" + o.second + "; "; t += "]"; } t += " then"; for (auto &o : after) t += std::string(" ") + opName[o.first] + "=" + o.second + ";";
        mc::fail("not-sequential", "no order of the operations gives" + t);
    }
    mc::Hash h; for (auto &p : done) for (auto &o : p) h.add(o.second); mc::outcome(h.h);
}
// ---- a handler is told exactly once of everything -------------------------------------------
static std::atomic<int> *told = nullptr;
static void handler(const Plugin &p, const std::string &e) { const std::string n = p.getPath().toString(); int i = n == path[0]?0:n == path[1]?1:2; told[2*i + (e == "add"?0:1)]++; }
static void events(const std::vector<std::vector<int>> &progs)
{
    std::unique_ptr<std::atomic<int>[]> count(new std::atomic<int>[6]()); told = count.get();
    PluginRegistry::addCall("/p02", &handler);
    std::vector<std::vector<std::string>> res(progs.size()); std::vector<std::thread> th;
    auto body = [&](size_t t) { for (size_t i = 0; i < progs[t].size(); i++) res[t].push_back(perform(progs[t][i], int(10*t + i))); };
    for (size_t t = 1; t < progs.size(); t++) th.emplace_back([&, t]{ body(t); });
    body(0); for (auto &t : th) t.join();
    int want[6] = {}; for (size_t t = 0; t < progs.size(); t++) for (size_t i = 0; i < progs[t].size(); i++) if (res[t][i] != "error") { const int op = progs[t][i]; if (op <= ADD_D) want[2*op]++; else want[2*(op - REMOVE_A) + 1]++; }
    for (int i = 0; i < 6; i++) mc::check(count[i] == want[i], "events", "a handler was told of " + std::to_string(int(count[i])) + " of " + std::to_string(want[i]) + (i%2?" removals":" additions"));
    mc::outcome(mc::Hash().add(want[0]).add(want[1]).add(want[2]).add(want[3]).h);
}
// ---- the tables behind conversions, comparisons, hashes, texts, classes ----------------------
struct X { int v; }; struct Y { int v; };
static Y xToY(const X &x) { return Y{x.v + 1}; }
static int compareX(const X &a, const X &b) { return a.v - b.v; }
static size_t hashX(const X &x) { return size_t(x.v); }
static std::string showX(const X &x) { return "X" + std::to_string(x.v); }
static void change(int table, bool on)
{
    static const char *const at[] = {"/object/convert/p02/x", "/object/compare/p02/x", "/object/hash/p02/x", "/object/tostring/p02/x", "/managed/p02/x"};
    if (not on) { PluginRegistry::remove(at[table]); return; }
    switch (table)
    {
    case 0: PluginRegistry::addCall(at[0], &xToY); break;
    case 1: PluginRegistry::addCall(at[1], &compareX); break;
    case 2: PluginRegistry::addCall(at[2], &hashX); break;
    case 3: PluginRegistry::addCall(at[3], &showX); break;
    case 4: { ManagedClass c; c.registerConstructor<X>(); PluginRegistry::add(at[4], c); } break;
    }
}
// 1: as registered, 0: as not registered, 2: wrong
static int use(int table)
{
    const Object x(X{5});
    switch (table)
    {
    case 0: try { return x.convert<Y>().v == 6?1:2; } catch (const ObjectConvertError &) { return 0; }
    case 1: try { return x.compareTo(Object(X{3})) == 2?1:2; } catch (const ObjectCompareError &) { return 0; }
    case 2: return x.hashCode() == 5;
    case 3: return x.toString() == "X5";
    case 4: try { return ManagedClass::lookup(typeid(X)).type() == typeid(X)?1:2; } catch (const ManagedClassLookupError &) { return 0; }
    }
    return 2;
}
// a writer registers and removes, readers use: each reader sees a run of old results, then new ones
static void tables(int table, int readers, bool removing)
{
    if (removing) change(table, true); std::vector<std::vector<int>> seen(readers); std::vector<std::thread> th;
    for (int r = 0; r < readers; r++) th.emplace_back([&, r]{ for (int i = 0; i < 2; i++) seen[r].push_back(use(table)); });
    change(table, not removing);
    mc::check(use(table) == int(not removing), "table-own", "a thread does not see its own registration");
    for (auto &t : th) t.join();
    for (auto &s : seen) { for (int v : s) mc::check(v != 2, "table-result", "a wrong result"); if (s.size() == 2) mc::check(removing?s[0] >= s[1]:s[0] <= s[1], "table-order", "results go back and forth"); }
    mc::check(use(table) == int(not removing), "table-final", "after all threads the table is wrong");
    mc::Hash h; for (auto &s : seen) for (int v : s) h.add(v); mc::outcome(h.h);
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; v.push_back(s); };
    thr("one-one", thorough?6:3, []{ int f = mc::choose(2, "filled"), a = mc::choose(NOPS, "a"), b = mc::choose(NOPS, "b"); if (b < a) return; run({{a}, {b}}, f); });
    thr("one-two", thorough?3:1, []{ int f = mc::choose(2, "filled"), a = mc::choose(5, "a"), b = mc::choose(NOPS, "b"), c = mc::choose(NOPS, "c"); if (b == c and b >= GET_A) return; run({{a}, {b, c}}, f); });
    thr("one-one-one", thorough?3:1, [thorough]{ int f = mc::choose(2, "filled"), a = mc::choose(thorough?5:2, "a")*(thorough?1:3), b = mc::choose(NOPS, "b"), c = mc::choose(NOPS, "c"); if (c < b) return; run({{a}, {b}, {c}}, f); });
    if (thorough) thr("two-two", 2, []{ int f = mc::choose(2, "filled"), a = mc::choose(5, "a"), a2 = mc::choose(5, "a2"), b = mc::choose(NOPS, "b"), c = mc::choose(NOPS, "c"); run({{a, a2}, {b, c}}, f); });
    thr("dump", thorough?2:1, []{ int f = mc::choose(2, "filled"), a = mc::choose(5, "a"); run({{a}, {DUMP}}, f); });
    thr("events", thorough?4:2, []{ static const std::vector<int> p[] = {{ADD_A}, {ADD_A, REMOVE_A}, {ADD_B, REMOVE_B}, {ADD_B, ADD_D}, {REMOVE_A, REMOVE_B}}; int a = mc::choose(5, "a"), b = mc::choose(5, "b"); if (b < a) return; events({p[a], p[b]}); });
    thr("tables", thorough?4:2, []{ int t = mc::choose(5, "table"), r = mc::choose(2, "removing"); tables(t, 1, r); });
    thr("tables-two-readers", thorough?3:1, []{ int t = mc::choose(5, "table"), r = mc::choose(2, "removing"); tables(t, 2, r); });
    return v;
}
