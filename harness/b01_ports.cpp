// B01: port names, indexes and lookups agree; automatic ports come and go.
#include "blk.hpp"
#include <Pothos/Exception.hpp>
using namespace Pothos;
// memory of removed ports is used again at once
extern "C" const char *__asan_default_options(void) { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }
static std::string S(size_t n) { return std::to_string(n); }

struct MP { std::string name, dtype, domain, alias; bool automatic, sig; std::vector<int> subs; const void *ptr; };
struct Model
{
    std::vector<MP> p;
    int find(const std::string &n) const { for (size_t i = 0; i < p.size(); i++) if (p[i].name == n) return int(i); return -1; }
};
static int indexOf(const std::string &n)
{
    if (n.empty() or n.size() > 9 or (n.size() > 1 and n[0] == '0')) return -1;
    for (char c : n) if (c < '0' or c > '9') return -1;
    return std::stoi(n);
}
static const char *DT[] = {"uint8", "float32", "complex_int16"};
static const std::vector<std::string> UNIVERSE = {"0", "1", "2", "3", "4", "a", "00", "99999999999", ""};

struct InSide
{
    typedef InputPort Port;
    static const char *what(void) { return "input"; }
    static Port *setup(Blk &b, const std::string &n, const DType &d, const std::string &dom) { return b.setupInput(n, d, dom); }
    static Port *setupI(Blk &b, size_t n, const DType &d, const std::string &dom) { return b.setupInput(n, d, dom); }
    static Port *get(Blk &b, const std::string &n) { return b.input(n); }
    static Port *get(Blk &b, size_t n) { return b.input(n); }
    static const std::vector<Port *> &indexed(Blk &b) { return b.inputs(); }
    static const std::map<std::string, Port *> &all(Blk &b) { return b.allInputs(); }
    static std::vector<std::string> names(Blk &b) { return b.inputPortNames(); }
    static std::vector<PortInfo> infos(Blk &b) { return b.inputPortInfo(); }
    static size_t pointers(Blk &b) { return b.workInfo().inputPointers.size(); }
    static void autoAlloc(Blk &b, const std::string &n) { b._actor->autoAllocateInput(n); }
    static void autoDel(Blk &b, const std::string &n) { b._actor->autoDeleteInput(n); }
    static bool isSig(Port *p) { return p->isSlot(); }
    static void regSig(Blk &b, const std::string &n) { b.registerSlot(n); }
    static void alias(Blk &b, const std::string &n, const std::string &a) { b.setInputAlias(n, a); }
    static void sub(Blk &b, const std::string &n, Blk &h, int i, bool on) { connectBlk(h, S(i), b, n, on); }
};
struct OutSide
{
    typedef OutputPort Port;
    static const char *what(void) { return "output"; }
    static Port *setup(Blk &b, const std::string &n, const DType &d, const std::string &dom) { return b.setupOutput(n, d, dom); }
    static Port *setupI(Blk &b, size_t n, const DType &d, const std::string &dom) { return b.setupOutput(n, d, dom); }
    static Port *get(Blk &b, const std::string &n) { return b.output(n); }
    static Port *get(Blk &b, size_t n) { return b.output(n); }
    static const std::vector<Port *> &indexed(Blk &b) { return b.outputs(); }
    static const std::map<std::string, Port *> &all(Blk &b) { return b.allOutputs(); }
    static std::vector<std::string> names(Blk &b) { return b.outputPortNames(); }
    static std::vector<PortInfo> infos(Blk &b) { return b.outputPortInfo(); }
    static size_t pointers(Blk &b) { return b.workInfo().outputPointers.size(); }
    static void autoAlloc(Blk &b, const std::string &n) { b._actor->autoAllocateOutput(n); }
    static void autoDel(Blk &b, const std::string &n) { b._actor->autoDeleteOutput(n); }
    static bool isSig(Port *p) { return p->isSignal(); }
    static void regSig(Blk &b, const std::string &n) { b.registerSignal(n); }
    static void alias(Blk &b, const std::string &n, const std::string &a) { b.setOutputAlias(n, a); }
    static void sub(Blk &b, const std::string &n, Blk &h, int i, bool on) { connectBlk(b, n, h, S(i), on); }
};

template <typename T> static void verify(Blk &b, const Model &m)
{
    auto bad = [&](const std::string &s) { if (not mc::failed()) mc::fail("ports-inconsistent", std::string(T::what()) + "s: " + s); };
    // names in order of creation
    const auto names = T::names(b);
    if (names.size() != m.p.size()) return bad("lists " + S(names.size()) + " names, expected " + S(m.p.size()));
    for (size_t i = 0; i < names.size(); i++) if (names[i] != m.p[i].name) return bad("name " + S(i) + " is " + names[i] + ", expected " + m.p[i].name);
    const auto infos = T::infos(b);
    if (infos.size() != m.p.size()) return bad("port info has the wrong size");
    const auto &all = T::all(b);
    if (all.size() != m.p.size()) return bad("the map of all ports has " + S(all.size()) + " entries, expected " + S(m.p.size()));
    int maxIdx = -1;
    for (size_t i = 0; i < m.p.size(); i++)
    {
        const auto &e = m.p[i];
        typename T::Port *p = nullptr;
        try { p = T::get(b, e.name); } catch (const PortAccessError &) { return bad("port " + e.name + " is not found"); }
        if (p == nullptr or p != e.ptr) return bad("port " + e.name + " is a different port");
        if (p->name() != e.name or p->index() != indexOf(e.name)) return bad("port " + e.name + " has name " + p->name() + " and index " + std::to_string(p->index()));
        if (p->dtype() != DType(e.dtype) or p->domain() != e.domain) return bad("port " + e.name + " has type " + p->dtype().toString() + " domain " + p->domain() + ", expected " + e.dtype + " " + e.domain);
        if (T::isSig(p) != e.sig) return bad("port " + e.name + " signal/slot state is wrong");
        if (p->alias() != (e.alias.empty()?e.name:e.alias)) return bad("port " + e.name + " has alias " + p->alias());
        if (infos[i].name != e.name or infos[i].alias != p->alias() or infos[i].dtype != p->dtype() or infos[i].isSigSlot != e.sig) return bad("the info of port " + e.name + " is wrong");
        auto it = all.find(e.name);
        if (it == all.end() or it->second != p) return bad("port " + e.name + " is not in the map of all ports");
        maxIdx = std::max(maxIdx, indexOf(e.name));
    }
    for (const auto &n : UNIVERSE) if (m.find(n) == -1)
    {
        try { T::get(b, n); return bad("unknown port \"" + n + "\" is found"); } catch (const PortAccessError &) {}
    }
    const auto &idx = T::indexed(b);
    if (int(idx.size()) != maxIdx + 1) return bad("has " + S(idx.size()) + " indexed ports, expected " + S(maxIdx + 1));
    if (T::pointers(b) != idx.size()) return bad("work info has " + S(T::pointers(b)) + " pointers for " + S(idx.size()) + " indexed ports");
    for (int i = 0; i <= maxIdx + 1; i++)
    {
        const int k = m.find(S(i));
        if (i <= maxIdx and idx[i] != ((k == -1)?nullptr:m.p[k].ptr)) return bad("indexed port " + S(i) + " is wrong");
        try { auto p = T::get(b, size_t(i)); if (k == -1) return bad("unknown port index " + S(i) + " is found"); if (p != m.p[k].ptr) return bad("port index " + S(i) + " is a different port"); }
        catch (const PortAccessError &) { if (k != -1) return bad("port index " + S(i) + " is not found"); }
    }
}
namespace peek
{
    template <typename A> auto autos(mc::Hash &h, A &a, const void *p, int) -> decltype((void)a.automaticPorts.count(nullptr), bool()) { h.add(a.automaticPorts.count((void *)p)).add(a.automaticPorts.size()); return true; }
    template <typename A> bool autos(mc::Hash &, A &, const void *, long) { return false; }
}
template <typename T> static void hashSide(mc::Hash &h, bool &ok, Blk &b, const Model &m)
{
    h.add(m.p.size());
    for (auto &e : m.p)
    {
        h.add(e.name).add(e.dtype).add(e.domain).add(e.alias).add(e.automatic).add(e.sig).add(e.subs.size());
        for (int s : e.subs) h.add(s);
        if (not peek::autos(h, *b._actor, e.ptr, 0)) ok = false;
    }
}

template <typename T> static std::string op(Blk &b, Blk &h, Model &m, int o, int nNames)
{
    static const std::vector<std::string> N = {"0", "1", "2", "3", "a", "00", "99999999999"};
    const std::string n = N[o % nNames]; const int k = m.find(n); o /= nNames;
    auto add = [&](const char *dt, const char *dom, bool automatic, bool sig)
    {
        typename T::Port *p = nullptr;
        try { p = T::get(b, n); } catch (const PortAccessError &) { mc::fail("port-missing", std::string(T::what()) + " " + n + " was not created"); return; }
        m.p.push_back(MP{n, dt, dom, "", automatic, sig, {}, p});
    };
    switch (o)
    {
    case 0: case 1:
    {
        const char *dt = DT[o], *dom = o?"gpu":"";
        try { if (o == 0 and indexOf(n) != -1) T::setupI(b, size_t(indexOf(n)), dt, dom); else T::setup(b, n, dt, dom); if (k != -1) mc::fail("duplicate-port", n + " was set up twice"); else add(dt, dom, false, false); }
        catch (const Exception &) { if (k == -1) mc::fail("setup-refused", "setup of " + n + " fails"); }
        return std::string("setup ") + T::what() + " " + n + " " + dt;
    }
    case 2: // what connecting does
    {
        std::string dt, dom; bool expect = false;
        if (k == -1 and indexOf(n) != -1) for (int i = indexOf(n) - 1; i >= 0 and not expect; i--) { const int j = m.find(S(i)); if (j != -1) { expect = true; dt = m.p[j].dtype; dom = m.p[j].domain; } }
        try { T::autoAlloc(b, n); } catch (const std::exception &) { if (expect) mc::fail("auto-refused", "automatic creation of " + n + " fails"); }
        if (expect) { add(dt.c_str(), dom.c_str(), true, false); m.p.empty()?void():void(m.p.back().dtype = dt); }
        return std::string("auto-create ") + T::what() + " " + n;
    }
    case 3: // what disconnecting does
        T::autoDel(b, n);
        if (k != -1 and m.p[k].automatic and m.p[k].subs.empty()) m.p.erase(m.p.begin() + k);
        return std::string("auto-remove ") + T::what() + " " + n;
    case 4: case 5: // subscribe / unsubscribe the helper
    {
        const int i = o - 4;
        if (k == -1 or m.p[k].sig) return "";
        auto &s = m.p[k].subs; auto it = std::find(s.begin(), s.end(), i);
        const bool on = it == s.end();
        T::sub(b, n, h, i, on);
        if (on) s.push_back(i); else s.erase(it);
        return std::string(on?"subscribe ":"unsubscribe ") + T::what() + " " + n + " helper " + S(i);
    }
    case 6:
        if (k == -1) { try { T::alias(b, n, "x"); mc::fail("alias-unknown", "an alias was set on an unknown port"); } catch (const PortAccessError &) {} return "alias of unknown"; }
        m.p[k].alias = m.p[k].alias.empty()?"A" + n:"";
        T::alias(b, n, m.p[k].alias);
        return "alias " + n;
    case 7:
    {
        try { T::regSig(b, n); if (k != -1) mc::fail("duplicate-port", n + " was registered twice"); else add("", "", false, true); }
        catch (const PortAccessError &) { if (k == -1) mc::fail("setup-refused", "registration of " + n + " fails"); }
        return std::string("signal/slot ") + n;
    }
    }
    return "";
}

static void run(bool in, bool out, int nNames, int nOps, int depth, int noPrune)
{
    Blk b, h; for (int i = 0; i < 2; i++) { h.setupInput(i); h.setupOutput(i); }
    Model mi, mo;
    for (int d = 0; d < depth; d++)
    {
        int o = mc::choose(nNames*nOps*(in and out?2:1));
        std::string what;
        if (in and (not out or o < nNames*nOps)) what = op<InSide>(b, h, mi, o, nNames);
        else what = op<OutSide>(b, h, mo, o - (in?nNames*nOps:0), nNames);
        if (what.empty()) return;
        if (mc::tracing()) mc::trace(what);
        mc::step();
        if (mc::fresh() and not mc::failed()) verify<InSide>(b, mi);
        if (mc::fresh() and not mc::failed()) verify<OutSide>(b, mo);
        if (mc::failed()) return;
        mc::Hash hs; bool ok = true;
#ifdef MC_NO_PEEK
        ok = false;
#endif
        hashSide<InSide>(hs, ok, b, mi); hashSide<OutSide>(hs, ok, b, mo);
        if (not ok and d + 1 >= noPrune) return;
        if (ok and not mc::visit(hs.h, depth - d - 1)) return;
    }
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const char *n, bool in, bool out, int names, int ops, int q, int th, int np) { const int d = thorough?th:q; Scenario s; s.name = std::string(n) + "-depth" + std::to_string(d); s.body = [=]{ run(in, out, names, ops, d, np); }; v.push_back(s); };
    add("inputs", true, false, 4, 6, 5, 7, 4);
    add("outputs", false, true, 4, 6, 5, 7, 4);
    add("inputs-odd-names", true, false, 7, 8, 3, 5, 3);
    add("outputs-odd-names", false, true, 7, 8, 3, 5, 3);
    add("both", true, true, 3, 5, 5, 6, 4);
    return v;
}
