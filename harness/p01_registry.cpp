// P01: the plugin registry against a reference tree: all add / remove / handler histories, all module load / unload histories,
// all short path texts. Modules are stand-ins: dlopen of a "fake:" path runs a registration function.
#include <mc.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Object.hpp>
#include <map>
#include <set>
#include <algorithm>
#include <dlfcn.h>
using namespace Pothos;

// ---- stand-in for the dynamic loader -------------------------------------------------------
struct FakeModule { std::function<void(void)> init; bool ok; int open = 0; };
static std::map<std::string, FakeModule> *fakes = nullptr; static bool lastFake = false; static int closed = 0;
extern "C" void *dlopen(const char *path, int flags)
{
    if (path and std::string(path).compare(0, 5, "fake:") == 0) { lastFake = true; auto &f = (*fakes)[path]; if (not f.ok) return nullptr; f.init(); f.open++; return &f; }
    lastFake = false; static auto real = (void *(*)(const char *, int))dlsym(RTLD_NEXT, "dlopen"); return real(path, flags);
}
extern "C" int dlclose(void *h)
{
    if (fakes) for (auto &p : *fakes) if (&p.second == h) { p.second.open--; closed++; return 0; }
    static auto real = (int (*)(void *))dlsym(RTLD_NEXT, "dlclose"); return real(h);
}
extern "C" char *dlerror(void) { static char msg[] = "fake module does not load"; if (lastFake) return msg; static auto real = (char *(*)(void))dlsym(RTLD_NEXT, "dlerror"); return real(); }

// every execution has a part of the tree of its own
static std::string freshPrefix(void)
{
    static unsigned n = 0; n++; char b[64]; snprintf(b, sizeof b, "/p01/n%u/n%u/n%u", n/10000, n/100%100, n%100); return b;
}
// ---- the tree ------------------------------------------------------------------------------
typedef std::vector<std::pair<std::string, std::string>> Events; // (event, path)
static std::map<int, Events> *heard = nullptr;
struct Handler { int id; bool throws; void operator()(const Plugin &p, const std::string &e) const { (*heard)[id].emplace_back(e, p.getPath().toString()); if (throws) throw Exception("handler"); } };
struct Entry { int kind = 0; int id = 0; }; // kind 0 none, 1 plain, 2 handler, 3 handler that throws
static bool below(const std::string &p, const std::string &root) { return p.size() > root.size() and p.compare(0, root.size(), root) == 0 and p[root.size()] == '/'; }
static void tree(int depth, const std::vector<std::string> &rel, int kinds, bool dumps)
{
    const std::string P = freshPrefix(); std::map<int, Events> ev; heard = &ev;
    std::vector<std::string> path; for (auto &r : rel) path.push_back(P + r);
    std::vector<Entry> in(path.size()); std::vector<std::string> order; // nodes in order of first insertion
    int serial = 0;
    auto note = [&](const std::string &p) { for (size_t i = P.size(); ; i++) if (i == p.size() or (i > P.size() and p[i] == '/')) { const std::string n = p.substr(0, i); if (std::find(order.begin(), order.end(), n) == order.end()) order.push_back(n); if (i == p.size()) break; } };
    std::set<std::string> nodes; for (auto &p : path) for (size_t i = P.size(); i <= p.size(); i++) if (i == p.size() or p[i] == '/') nodes.insert(p.substr(0, i));
    nodes.insert(path[0] + "/none"); nodes.insert(P + "/none/none");
    struct Clean { std::vector<std::string> &p; std::vector<Entry> &in; ~Clean(void) { for (size_t i = 0; i < p.size(); i++) if (not PluginRegistry::empty(p[i])) { try { PluginRegistry::remove(p[i]); } catch (...) {} } } } clean{path, in};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; for (auto &e : in) h.add(e.kind); for (auto &o : order) h.add(o.substr(P.size())); h.add(rel.size());
        if (not mc::visit(h.h, depth - d)) return;
        const int op = mc::choose(int(path.size())*(kinds + 1), "op"); const int i = op / (kinds + 1), what = op % (kinds + 1);
        std::map<int, Events> want; int k = 0; const std::string &p = path[i]; int id = ++serial;
        if (mc::tracing()) mc::trace(std::string(what == 0?"remove ":what == 1?"add plugin ":what == 2?"add handler ":"add failing handler ") + rel[i]);
        if (what == 0)
        {
            Plugin got; try { got = PluginRegistry::remove(p); k = 1; } catch (const PluginRegistryError &) {}
            mc::check(k == int(in[i].kind != 0), "remove", k?"removed what is not there":"a plugin cannot be removed");
            if (k) { mc::check(got.getPath().toString() == p, "remove", "removed another plugin"); if (in[i].kind == 1) mc::check(got.getObject().extract<int>() == in[i].id, "remove", "removed another object"); const int gone = in[i].kind; in[i] = Entry(); (void)gone; for (size_t j = 0; j < path.size(); j++) if (in[j].kind >= 2 and below(p, path[j])) want[in[j].id].emplace_back("remove", p); }
        }
        else
        {
            try
            {
                if (what == 1) PluginRegistry::add(Plugin(p, Object(id)));
                else PluginRegistry::addCall(p, std::function<void(const Plugin &, const std::string &)>(Handler{id, what == 3}));
                k = 1;
            }
            catch (const PluginRegistryError &) {}
            mc::check(k == int(in[i].kind == 0), "add", k?"added to an occupied path":"a free path was refused");
            if (k)
            {
                in[i].kind = what; in[i].id = id; note(p);
                for (size_t j = 0; j < path.size(); j++) if (in[j].kind >= 2 and below(p, path[j])) want[in[j].id].emplace_back("add", p);
                if (what >= 2) for (size_t j = 0; j < path.size(); j++) if (in[j].kind and below(path[j], p)) want[id].emplace_back("add", path[j]);
            }
        }
        mc::step();
        auto sorted = [](std::map<int, Events> m) { for (auto it = m.begin(); it != m.end();) { std::sort(it->second.begin(), it->second.end()); if (it->second.empty()) it = m.erase(it); else ++it; } return m; };
        if (sorted(ev) != sorted(want)) { std::string t; for (auto &e : ev) for (auto &x : e.second) t += " " + x.first + " " + x.second.substr(P.size()); mc::fail("events", "handlers were told:" + t); return; }
        ev.clear();
        // what every query gives, for all nodes including those that never existed
        for (int pass = 0; pass < 2; pass++) for (auto &n : nodes)
        {
            int kind = 0, oid = 0; for (size_t j = 0; j < path.size(); j++) if (path[j] == n) { kind = in[j].kind; oid = in[j].id; }
            bool any = kind != 0; std::vector<std::string> kids;
            for (size_t j = 0; j < path.size(); j++) if (in[j].kind and below(path[j], n)) any = true;
            for (auto &o : order) if (below(o, n) and o.find('/', n.size() + 1) == std::string::npos) { bool live = false; for (size_t j = 0; j < path.size(); j++) if (in[j].kind and (path[j] == o or below(path[j], o))) live = true; if (live) kids.push_back(o.substr(n.size() + 1)); }
            mc::check(PluginRegistry::empty(n) == (kind == 0), "empty", n.substr(P.size()) + ": empty() is wrong");
            mc::check(PluginRegistry::exists(n) == any, "exists", n.substr(P.size()) + ": exists() is wrong");
            if (PluginRegistry::list(n) != kids) mc::fail("list", n.substr(P.size()) + ": list() is wrong");
            if (kind or mc::fresh()) { int g = 0; Plugin q; try { q = PluginRegistry::get(n); g = 1; } catch (const PluginRegistryError &) {} mc::check(g == int(kind != 0), "get", n.substr(P.size()) + ": get() is wrong"); if (g and kind == 1) mc::check(q.getObject().type() == typeid(int) and q.getObject().extract<int>() == oid and q.getPath().toString() == n, "get", n.substr(P.size()) + ": another plugin"); if (g and kind > 1) mc::check(q.getObject().type() == typeid(Callable), "get", ""); }
        }
        // the dump shows the same tree
        if (dumps and mc::fresh() and d == depth - 1)
        {
            const auto dump = PluginRegistry::dump(); const PluginRegistryInfoDump *at = &dump; bool ok = dump.pluginPath == "/";
            for (auto &name : PluginPath(P).listNodes()) { const PluginRegistryInfoDump *next = nullptr; for (auto &s : at->subInfo) if (s.pluginPath.substr(s.pluginPath.rfind('/') + 1) == name) next = &s; if (next == nullptr) { at = nullptr; break; } at = next; }
            std::set<std::string> live; std::function<void(const PluginRegistryInfoDump &)> walk = [&](const PluginRegistryInfoDump &x) { if (not x.objectType.empty()) live.insert(x.pluginPath); for (auto &s : x.subInfo) walk(s); }; if (at) walk(*at);
            std::set<std::string> wantLive; for (size_t j = 0; j < path.size(); j++) if (in[j].kind) wantLive.insert(path[j]);
            mc::check(ok and live == wantLive, "dump", "the dump does not show the registered plugins");
        }
    }
}
// ---- modules -------------------------------------------------------------------------------
static void modules(int depth)
{
    const std::string P = freshPrefix(); std::map<std::string, FakeModule> fm; fakes = &fm; closed = 0;
    std::map<int, Events> ev; heard = &ev;
    struct Reg { int module; int value; }; std::map<std::string, Reg> in; // path -> owner (-1 none)
    const std::string name[3] = {"fake:" + P + ":0", "fake:" + P + ":1", "fake:" + P + ":bad"};
    fm[name[0]] = FakeModule{[&]{ ModuleVersion v("v0"); PluginRegistry::add(P + "/a", 100); PluginRegistry::add(P + "/s/b", 101); }, true};
    fm[name[1]] = FakeModule{[&]{ ModuleVersion v("v1"); PluginRegistry::add(P + "/s/c", 102); }, true};
    fm[name[2]] = FakeModule{[]{}, false};
    PluginRegistry::addCall(P, std::function<void(const Plugin &, const std::string &)>(Handler{1, false}));
    const std::vector<std::string> own[2] = {{P + "/a", P + "/s/b"}, {P + "/s/c"}}; const std::string mine = P + "/s/r";
    std::vector<std::string> all = {P + "/a", P + "/s/b", P + "/s/c", mine};
    std::unique_ptr<PluginModule> held[2], copy; int copyOf = -1; bool loaded[2] = {false, false}; int failedLoads = 0;
    struct Clean { std::unique_ptr<PluginModule> *h; std::unique_ptr<PluginModule> &c; std::string p; std::vector<std::string> &all; ~Clean(void) { h[0].reset(); h[1].reset(); c.reset(); for (auto &a : all) { try { PluginRegistry::remove(a); } catch (...) {} } try { PluginRegistry::remove(p); } catch (...) {} fakes = nullptr; } } clean{held, copy, P, all};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; for (auto &p : in) h.add(p.first.substr(P.size())).add(p.second.module); h.add(loaded[0]).add(loaded[1]).add(copyOf).add(bool(held[0])).add(bool(held[1])).add(failedLoads);
        if (not mc::visit(h.h, depth - d)) return;
        const int op = mc::choose(12, "op"); mc::step(); std::multiset<std::pair<std::string, std::string>> want;
        auto unload = [&](int m) { loaded[m] = false; for (auto it = in.begin(); it != in.end();) if (it->second.module == m) { want.insert({"remove", it->first}); it = in.erase(it); } else ++it; };
        if (op < 2)
        {
            if (loaded[op]) return; bool clash = false; for (auto &p : own[op]) if (in.count(p)) clash = true; if (clash) return;
            if (mc::tracing()) mc::trace("load module " + std::to_string(op));
            held[op].reset(new PluginModule(name[op])); loaded[op] = true; int v = op == 0?100:102; for (auto &p : own[op]) { in[p] = Reg{op, v++}; want.insert({"add", p}); }
            mc::check(held[op]->getFilePath() == name[op] and held[op]->getVersion() == (op?"v1":"v0"), "module", "path or version of a module");
            auto a = held[op]->getPluginPaths(), b = own[op]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); mc::check(a == b, "module-paths", "the plugins of a module");
        }
        else if (op < 4) { const int m = op - 2; if (not held[m]) return; if (mc::tracing()) mc::trace("drop module " + std::to_string(m)); if (copyOf != m) unload(m); held[m].reset(); }
        else if (op < 6) { const int m = op - 4; if (not held[m] or copyOf >= 0) return; if (mc::tracing()) mc::trace("copy the handle of module " + std::to_string(m)); copy.reset(new PluginModule(*held[m])); copyOf = m; }
        else if (op == 6) { if (copyOf < 0) return; if (mc::tracing()) mc::trace("drop the copy"); if (not held[copyOf]) unload(copyOf); copy.reset(); copyOf = -1; }
        else if (op == 7) { if (failedLoads) return; if (mc::tracing()) mc::trace("load a module that fails"); int k = 0; try { PluginModule m(name[2]); } catch (const PluginModuleError &) { k = 1; } mc::check(k == 1, "load-error", "a module that does not load"); failedLoads = 1; }
        else if (op == 8) { if (in.count(mine)) return; if (mc::tracing()) mc::trace("add a plugin"); PluginRegistry::add(mine, 200); in[mine] = Reg{-1, 200}; want.insert({"add", mine}); }
        else
        {
            static const int which[] = {0, 2, 3}; const std::string &p = all[which[op - 9]]; if (not in.count(p)) return;
            if (mc::tracing()) mc::trace("remove " + p.substr(P.size()));
            PluginRegistry::remove(p); in.erase(p); want.insert({"remove", p});
        }
        std::multiset<std::pair<std::string, std::string>> got(ev[1].begin(), ev[1].end()); ev.clear();
        if (got != want) { std::string t; for (auto &g : got) t += " " + g.first + " " + g.second.substr(P.size()); mc::fail("events", "told:" + t); return; }
        for (auto &p : all)
        {
            mc::check(PluginRegistry::empty(p) != bool(in.count(p)), "contents", p.substr(P.size()) + (in.count(p)?" is missing":" is still there"));
            if (in.count(p) and not PluginRegistry::empty(p))
            {
                const Plugin q = PluginRegistry::get(p); const Reg &r = in[p];
                mc::check(q.getObject().extract<int>() == r.value, "contents", "another plugin at " + p.substr(P.size()));
                mc::check(q.getModule().getFilePath() == (r.module < 0?"":name[r.module]), "owner", p.substr(P.size()) + " belongs to module <" + q.getModule().getFilePath() + ">");
            }
        }
        for (int m = 0; m < 2; m++) mc::check(fm[name[m]].open == int(loaded[m]), "loaded", loaded[m]?"a module is unloaded while in use":"a module stays loaded");
    }
}
// ---- path texts ----------------------------------------------------------------------------
static void paths(int len)
{
    static const char al[] = {'/', 'a', 'Z', '0', '_', '-', ' ', '.', '\0', '\xe4'}; std::string t; const int n = mc::choose(len + 1, "length");
    for (int i = 0; i < n; i++) t += al[mc::choose(int(sizeof al), "char")];
    bool ok = t == "/"; std::vector<std::string> names;
    if (not ok and not t.empty() and t[0] == '/')
    {
        ok = true; std::string cur; for (size_t i = 1; i <= t.size(); i++) { if (i == t.size() or t[i] == '/') { if (cur.empty()) ok = false; names.push_back(cur); cur.clear(); } else { cur += t[i]; if (not ((t[i] >= 'a' and t[i] <= 'z') or (t[i] >= 'A' and t[i] <= 'Z') or (t[i] >= '0' and t[i] <= '9') or t[i] == '_' or t[i] == '-')) ok = false; } }
    }
    if (t.empty()) return; // what an empty text means is not stated
    mc::step(); mc::state(mc::Hash().add(t).h);
    int k = 0; try { PluginPath p(t); k = 1; mc::check(p.toString() == t and p.listNodes() == names and p == PluginPath(t), "path", "path " + t); for (const char *sub : {"b", "b/c"}) { PluginPath j = p.join(sub); mc::check(j.toString() == (t == "/"?"":t) + "/" + sub, "join", t + " joined with " + sub + " is " + j.toString()); } if (t != "/") mc::check(PluginPath("/q", p).toString() == "/q" + t, "concatenate", t); } catch (const PluginPathError &) {}
    mc::check(k == int(ok), "path-text", "<" + t + "> " + (k?"accepted":"refused"));
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("tree", [t]{ tree(t?6:5, {"/A", "/A/x", "/A/x/y", "/A/z"}, 2, false); });
    add("tree-names", [t]{ tree(t?6:4, {"/A", "/AB", "/A/B", "/AB/B", "/B"}, 2, false); });
    add("failing-handler", [t]{ tree(t?5:4, {"/A", "/A/x", "/A/x/y"}, 3, true); });
    add("modules", [t]{ modules(t?9:7); });
    add("paths", [t]{ paths(t?6:5); });
    return s;
}
