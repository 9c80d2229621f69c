// K01: callables apply the right function to the right arguments: all bind / unbind / copy histories, all argument tuples
// against every parameter list, all overload sets of blocks, managed classes and block factories.
#include "blk.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Framework/Topology.hpp>
#include <Pothos/Framework/BlockRegistry.hpp>
using namespace Pothos;

// ---- what was invoked --------------------------------------------------------------------
struct Seen { int fcn; std::string args; };
static std::vector<Seen> seen;
static std::string show(int v) { return "i" + std::to_string(v); }
static std::string show(long long v) { return "l" + std::to_string(v); }
static std::string show(signed char v) { return "b" + std::to_string(int(v)); }
static std::string show(double v) { return "d" + std::to_string(v); }
static std::string show(const std::string &v) { return "s" + v; }
static std::string show(const std::vector<int> &v) { std::string s = "v"; for (int x : v) s += std::to_string(x) + ";"; return s; }
static std::string show(const Object &o)
{
    if (o.type() == typeid(int)) return show(o.extract<int>());
    if (o.type() == typeid(long long)) return show(o.extract<long long>());
    if (o.type() == typeid(signed char)) return show(o.extract<signed char>());
    if (o.type() == typeid(double)) return show(o.extract<double>());
    if (o.type() == typeid(std::string)) return show(o.extract<std::string>());
    if (o.type() == typeid(std::vector<int>)) return show(o.extract<std::vector<int>>());
    return o.getTypeString();
}
static std::string join(void) { return ""; }
template <typename T, typename... R> static std::string join(const T &v, const R &... r) { return show(v) + "," + join(r...); }
template <int N, typename... A> static int fcn(A... a) { seen.push_back(Seen{N, join(a...)}); return 1000 + N; }
template <int N, typename... A> static void fcnVoid(const A &... a) { seen.push_back(Seen{N, join(a...)}); }

struct Sig { Callable call; std::vector<const std::type_info *> types; bool isVoid; };
template <int N, typename... A> static Sig sig(void) { return Sig{Callable(&fcn<N, A...>), {&typeid(A)...}, false}; }
template <int N, typename... A> static Sig sigVoid(void) { return Sig{Callable(&fcnVoid<N, A...>), {&typeid(A)...}, true}; }

// ---- bind / unbind / copy histories ------------------------------------------------------
static Object valueFor(const std::type_info &t, int k)
{
    if (t == typeid(int)) return Object(int(k));
    if (t == typeid(std::string)) return Object("t" + std::to_string(k));
    if (t == typeid(double)) return Object(double(k) + 0.5);
    return Object((long long)(k));
}
static void checkBound(const Callable &c, const Sig &s, const std::vector<int> &bound, int n)
{
    std::vector<size_t> open;
    for (size_t i = 0; i < s.types.size(); i++) if (bound[i] < 0) open.push_back(i);
    mc::check(c.getNumArgs() == open.size(), "arity", "reported " + std::to_string(c.getNumArgs()) + " open arguments, there are " + std::to_string(open.size()));
    mc::check(c.type(-1) == (s.isVoid?typeid(void):typeid(int)), "return-type", "");
    for (size_t i = 0; i < open.size(); i++) mc::check(c.type(int(i)) == *s.types[open[i]], "arg-type", "type of open argument " + std::to_string(i));
    if (mc::fresh()) for (int bad : {-2, int(open.size()), int(open.size()) + 1}) { int k = 0; try { c.type(bad); } catch (const CallableArgumentError &) { k = 1; } mc::check(k, "arg-type", "the type of an argument that is not there"); }
    std::string text = s.isVoid?"void(":"int("; 
    // call with the exact number of arguments, given in their own type
    std::vector<Object> args; std::string want;
    for (size_t i = 0, j = 0; i < s.types.size(); i++)
    {
        Object o = valueFor(*s.types[i], bound[i] < 0?50 + int(j):bound[i]);
        if (bound[i] < 0) { args.push_back(o); j++; }
        want += show(o) + ",";
    }
    seen.clear();
    Object r = c.opaqueCall(args.data(), args.size());
    mc::step();
    mc::check(seen.size() == 1 and seen[0].fcn == n and seen[0].args == want, "arguments", "called with " + (seen.empty()?"nothing":seen[0].args) + " instead of " + want);
    if (s.isVoid) mc::check(not r, "result", "a call without result gave one"); else mc::check(r.type() == typeid(int) and r.extract<int>() == 1000 + n, "result", "wrong result");
    // with fewer arguments nothing may be called
    if (mc::fresh()) for (size_t m = 0; m < args.size(); m++)
    {
        seen.clear(); int k = 0;
        try { c.opaqueCall(args.data(), m); } catch (const CallableArgumentError &) { k = 1; }
        mc::check(k == 1 and seen.empty(), "missing-argument", "called with an argument missing");
    }
    // with an argument that does not convert nothing may be called
    if (mc::fresh()) for (size_t m = 0; m < args.size(); m++)
    {
        auto bad = args; bad[m] = Object(std::vector<std::complex<float>>(1)); seen.clear(); int k = 0;
        try { c.opaqueCall(bad.data(), bad.size()); } catch (const CallableArgumentError &) { k = 1; }
        mc::check(k == 1 and seen.empty(), "bad-argument", "called with an argument that does not convert");
    }
}
static void binding(int depth)
{
    static std::vector<Sig> sigs;
    if (sigs.empty()) { sigs.push_back(sig<0>()); sigs.push_back(sig<1, int>()); sigs.push_back(sigVoid<2, int, std::string>()); sigs.push_back(sig<3, std::string, int, double>()); sigs.push_back(sigVoid<4, double, int, std::string, long long>()); }
    const int n = mc::choose(int(sigs.size()), "function"); const Sig &s = sigs[n]; const size_t ar = s.types.size();
    if (mc::tracing()) mc::trace("function with " + std::to_string(ar) + " arguments");
    Callable c[2] = {s.call, Callable()}; bool have[2] = {true, false};
    std::vector<int> bound[2] = {std::vector<int>(ar + 2, -1), std::vector<int>(ar + 2, -1)};
    checkBound(c[0], s, bound[0], n);
    int serial = 0; (void)serial;
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; h.add(n).add(have[1]); for (int k = 0; k < 2; k++) for (int b : bound[k]) h.add(b);
        if (not mc::visit(h.h, depth - d)) return;
        const int which = have[1]?mc::choose(2, "which"):0;
        const int kinds = int(ar) + 2;
        const int op = mc::choose(3*kinds + 2, "op");
        if (op < kinds*2)
        {
            const int pos = op % kinds, v = 1 + pos + 10*(op/kinds);
            // bound in its own type, or in one that converts
            const std::type_info &t = pos < int(ar)?*s.types[pos]:typeid(int);
            if (t == typeid(int) and op >= kinds) c[which].bind((long)(v), pos); else c[which].bind(valueFor(t, v), pos);
            bound[which][pos] = v;
            if (mc::tracing()) mc::trace("bind argument " + std::to_string(pos));
        }
        else if (op < kinds*3) { const int pos = op % kinds; c[which].unbind(pos); bound[which][pos] = -1; if (mc::tracing()) mc::trace("unbind argument " + std::to_string(pos)); }
        else if (op == kinds*3) { c[1 - which] = c[which]; have[1 - which] = true; bound[1 - which] = bound[which]; if (mc::tracing()) mc::trace("copy"); }
        else { if (not have[1]) return; c[which] = Callable(); have[which] = false; if (which == 0) { std::swap(c[0], c[1]); std::swap(bound[0], bound[1]); std::swap(have[0], have[1]); } bound[1].assign(ar + 2, -1); if (mc::tracing()) mc::trace("drop"); }
        for (int k = 0; k < 2; k++) if (have[k]) checkBound(c[k], s, bound[k], n);
    }
    if (not have[1] and mc::fresh())
    {
        int k = 0;
        try { c[1].opaqueCall(nullptr, 0); } catch (const CallableNullError &) { k++; }
        try { c[1].getNumArgs(); } catch (const CallableNullError &) { k++; }
        try { c[1].type(0); } catch (const CallableNullError &) { k++; }
        mc::check(k == 3 and not c[1], "null", "a null callable does not fail as documented");
    }
}

// ---- all argument tuples against every parameter list -----------------------------------
static const std::vector<Object> &argPool(void)
{
    static std::vector<Object> p;
    if (p.empty()) p = {Object(7), Object(300), Object((long long)(5000000000ll)), Object(2.0), Object(-1.5), Object("text"), Object("12"), Object(std::vector<int>{1, 2}), Object(), Object(ObjectVector{Object(3)}), Object(true), Object((signed char)(-4))};
    return p;
}
// the argument as the parameter type, if it converts
static bool tryConvert(const Object &o, const std::type_info &t, std::string &out)
{
    try { out = show(o.convert(t)); return true; } catch (const Exception &) { return false; }
}
static std::vector<Sig> &pool(void)
{
    static std::vector<Sig> s;
    if (s.empty()) s = {sig<0>(), sig<1, int>(), sig<2, std::string>(), sigVoid<3, signed char>(), sig<4, int, std::string>(), sig<5, std::string, int>(), sigVoid<6, double, double>(), sig<7, std::vector<int>>(), sig<8, int, int, std::string>(), sig<9, long long, std::vector<int>>()};
    return s;
}
// outcome of calling f with args: 0 refused, 1 invoked as expected
static const size_t NONE = 99;
static std::string expectArgs(const Sig &s, const std::vector<Object> &args, bool &ok)
{
    std::string want; ok = args.size() == s.types.size();
    for (size_t i = 0; ok and i < args.size(); i++) { std::string t; ok = tryConvert(args[i], *s.types[i], t); want += t + ","; }
    return want;
}
static std::vector<Object> chooseArgs(int maxLen, int poolSize)
{
    std::vector<Object> a; const int n = mc::choose(maxLen + 1, "count");
    for (int i = 0; i < n; i++) a.push_back(argPool()[mc::choose(poolSize, "arg")]);
    return a;
}
static std::string listing(const std::vector<Object> &a) { std::string s = "("; for (auto &o : a) s += show(o) + ","; return s + ")"; }
static void arguments(int maxLen)
{
    const int n = mc::choose(int(pool().size()), "function"); const Sig &s = pool()[n];
    const auto args = chooseArgs(maxLen, int(argPool().size()));
    if (args.size() > s.types.size()) return; // what surplus arguments do is not stated
    mc::Hash h; h.add(n); for (auto &o : args) h.add(show(o)); mc::state(h.h); mc::step();
    bool ok; const std::string want = expectArgs(s, args, ok);
    seen.clear(); int got = 0; Object r;
    try { r = s.call.opaqueCall(args.data(), args.size()); got = 1; } catch (const Exception &) {}
    mc::check(got == int(ok), "converts", s.call.toString() + listing(args) + (got?" was called":" was refused"));
    mc::check(seen.size() == size_t(ok) and (not ok or (seen[0].fcn == n and seen[0].args == want)), "arguments", s.call.toString() + listing(args) + " got " + (seen.empty()?"nothing":seen[0].args));
}

// ---- overload sets -----------------------------------------------------------------------
struct Result { int fcn; std::string args; };
// check one call of a set of overloads: exactly one matching overload is invoked with the converted arguments, or nothing
static void judge(const std::vector<int> &set, const std::vector<Object> &args, bool called, const std::string &error, const Object &result, const std::string &what)
{
    bool typeMatch = false, anyOk = false, allOk = true;
    for (int f : set)
    {
        const Sig &s = pool()[f]; bool m = args.size() == s.types.size();
        for (size_t i = 0; m and i < args.size(); i++) m = args[i].canConvert(*s.types[i]);
        if (not m) continue;
        typeMatch = true; bool ok; expectArgs(s, args, ok); if (ok) anyOk = true; else allOk = false;
    }
    std::string text = what + " of overloads"; for (int f : set) text += " " + pool()[f].call.toString(); text += " with " + listing(args);
    if (called)
    {
        if (not anyOk) { mc::fail("no-match", text + " was called although none matches"); return; }
        if (seen.size() != 1) { mc::fail("invocations", text + " invoked " + std::to_string(seen.size()) + " functions"); return; }
        bool in = false; for (int f : set) in = in or f == seen[0].fcn;
        if (not in) { mc::fail("wrong-function", text + " invoked something else"); return; }
        bool ok; const std::string want = expectArgs(pool()[seen[0].fcn], args, ok);
        if (not ok or want != seen[0].args) { mc::fail("wrong-overload", text + " invoked " + pool()[seen[0].fcn].call.toString() + " with " + seen[0].args); return; }
        if (pool()[seen[0].fcn].isVoid) mc::check(not result, "result", text + " gave a result"); else mc::check(result.canConvert(typeid(int)) and result.convert<int>() == 1000 + seen[0].fcn, "result", text + " gave another result");
    }
    else
    {
        mc::check(seen.empty(), "invoked-and-failed", text + " failed but something was invoked");
        mc::check(not typeMatch or not allOk, "refused", text + " was refused: " + error);
    }
}
static std::vector<int> chooseSet(int maxSet)
{
    // any selection, in any order of registration
    std::vector<int> set; const int k = 1 + mc::choose(maxSet, "overloads");
    for (int i = 0; i < k; i++) { const int f = mc::choose(int(pool().size()), "overload"); for (int g : set) if (g == f) return {}; set.push_back(f); }
    return set;
}
static void blockCalls(int maxSet, int maxLen, int args_)
{
    const auto set = chooseSet(maxSet); if (set.empty()) return;
    const bool topology = set.size() == 1 and mc::choose(2, "topology");
    std::shared_ptr<Blk> b; std::shared_ptr<Topology> t;
    if (topology) { t = Topology::make(); t->registerCallable("f", pool()[set[0]].call); t->registerCallable("other", Callable(&fcn<77>)); }
    else { b.reset(new Blk()); b->registerCallable("a", Callable(&fcn<77>)); for (int f : set) b->registerCallable("f", pool()[f].call); b->registerCallable("g", Callable(&fcn<78>)); }
    const Connectable &k = topology?(Connectable &)*t:(Connectable &)*b;
    const auto args = chooseArgs(maxLen, args_);
    if (set.size() == 1 and args.size() > pool()[set[0]].types.size()) return;
    mc::Hash h; for (int f : set) h.add(f); h.add(topology); for (auto &o : args) h.add(show(o)); mc::state(h.h); mc::step();
    seen.clear(); bool called = false; std::string err; Object r;
    try { r = k.opaqueCallMethod("f", args.data(), args.size()); called = true; } catch (const BlockCallNotFound &e) { err = e.displayText(); } catch (const Exception &e) { err = e.displayText(); }
    judge(set, args, called, err, r, topology?"topology call":"block call");
    // names without a call fail and invoke nothing
    seen.clear(); int kind = 0; if (mc::fresh() and args.empty()) { try { k.opaqueCallMethod("ff", args.data(), args.size()); } catch (const BlockCallNotFound &) { kind = 1; } mc::check(kind == 1 and seen.empty(), "unknown", "a name that is not registered was called"); }
    // slots appear exactly for calls without result
    if (not topology and mc::fresh() and args.empty()) { bool anyVoid = false; for (int f : set) anyVoid = anyVoid or pool()[f].isVoid; int slots = 0; for (auto &p : b->inputPortInfo()) if (p.name == "f" and p.isSigSlot) slots++; mc::check(slots == int(anyVoid), "slot", "automatic slot"); }
}

// ---- managed classes ---------------------------------------------------------------------
struct Base { int id; Base(int i = 0): id(i) {} virtual ~Base(void) {} int field = 5; std::string baseCall(int v) { seen.push_back(Seen{id, "base" + show(v)}); return "B"; } int both(int v) { seen.push_back(Seen{id, "baseboth" + show(v)}); return 1; } };
struct Derived : Base
{
    Derived(void): Base(500) { seen.push_back(Seen{500, "new"}); }
    Derived(int i): Base(i) { seen.push_back(Seen{i, "new" + show(i)}); }
    Derived(const std::string &s, int i): Base(i) { seen.push_back(Seen{i, "new" + show(s) + show(i)}); }
    int m0(void) { seen.push_back(Seen{id, "m0"}); return 10; }
    int m1(int a) const { seen.push_back(Seen{id, "m1" + show(a)}); return 11; }
    int m1s(const std::string &a) { seen.push_back(Seen{id, "m1s" + show(a)}); return 12; }
    int m2(const std::string &a, int b) { seen.push_back(Seen{id, "m2" + show(a) + show(b)}); return 13; }
    Object opq(const Object *a, const size_t n) { std::string s = "opq"; for (size_t i = 0; i < n; i++) s += show(a[i]); seen.push_back(Seen{id, s}); return Object(14); }
    int &ref(void) { return field; }
};
static Object wild(const std::string &name, const Object *a, const size_t n) { std::string s = "wild" + name; for (size_t i = 0; i < n; i++) s += show(a[i]); seen.push_back(Seen{0, s}); return Object(15); }
static void registerManaged(void)
{
    static bool once = false; if (once) return; once = true;
    ManagedClass().registerConstructor<Base, int>().registerMethod("baseCall", &Base::baseCall).registerMethod("both", &Base::both).registerField("field", &Base::field).commit("K01/Base");
    ManagedClass().registerConstructor<Derived>().registerConstructor<Derived, int>().registerConstructor<Derived, const std::string &, int>()
        .registerBaseClass<Derived, Base>()
        .registerMethod("m", Callable(&Derived::m0)).registerMethod("m", Callable(&Derived::m1)).registerMethod("m", Callable(&Derived::m1s)).registerMethod("m", Callable(&Derived::m2))
        .registerMethod("ref", &Derived::ref)
        .registerMethod("both", &Derived::m2)
        .registerOpaqueMethod("opq", Callable(&Derived::opq))
        .registerStaticMethod("s", Callable(&fcn<1, int>)).registerStaticMethod("s", Callable(&fcn<4, int, std::string>)).registerStaticMethod("s", Callable(&fcn<7, std::vector<int>>))
        .registerWildcardStaticMethod(Callable(&wild))
        .commit("K01/Derived");
}
static void managed(int maxLen, int args_)
{
    registerManaged();
    auto env = ProxyEnvironment::make("managed"); auto cls = env->findProxy("K01/Derived");
    const auto args = chooseArgs(maxLen, args_);
    std::vector<Proxy> pargs; for (auto &o : args) pargs.push_back(env->convertObjectToProxy(o));
    auto canAll = [&](const std::vector<const std::type_info *> &t) { if (t.size() != args.size()) return false; for (size_t i = 0; i < t.size(); i++) { std::string x; if (not tryConvert(args[i], *t[i], x)) return false; } return true; };
    auto typesAll = [&](const std::vector<const std::type_info *> &t) { if (t.size() != args.size()) return false; for (size_t i = 0; i < t.size(); i++) if (not args[i].canConvert(*t[i])) return false; return true; };
    auto conv = [&](size_t i, const std::type_info &t) { std::string x; tryConvert(args[i], t, x); return x; };
    const int what = mc::choose(10, "what"), inst = what >= 1 and what <= 6?mc::choose(3, "instance"):0;
    mc::Hash h; h.add(what).add(inst); for (auto &o : args) h.add(show(o)); mc::state(h.h); mc::step();
    Proxy obj; int id = 500;
    if (what >= 1 and what <= 6)
    {
        // the instance as a value, a pointer or a shared pointer
        if (inst == 0) obj = cls(41); else if (inst == 1) obj = cls.call("new", 42); else obj = cls.call("shared", 43);
        id = 41 + inst;
    }
    // candidate outcomes: (invocation, result)
    typedef std::vector<const std::type_info *> Types; const std::type_info &I = typeid(int), &S = typeid(std::string), &V = typeid(std::vector<int>);
    std::vector<std::pair<std::string, int>> can; bool must = false; // must: at least one overload matches and converts, none fails
    auto add = [&](const Types &t, const std::string &s, int r) { if (canAll(t)) { can.emplace_back(s, r); must = true; } };
    auto mayFail = [&](const Types &t) { return typesAll(t) and not canAll(t); };
    std::string name; bool excused = false;
    if (what == 0) // constructors
    { name = "()"; add({}, "new", -1); if (canAll({&I})) add({&I}, "new" + conv(0, I), -2); if (canAll({&S, &I})) add({&S, &I}, "new" + conv(0, S) + conv(1, I), -2); excused = mayFail({&I}) or mayFail({&S, &I}); obj = cls; }
    else if (what == 1) // overloaded method
    { name = "m"; add({}, "m0", 10); if (canAll({&I})) add({&I}, "m1" + conv(0, I), 11); if (canAll({&S})) add({&S}, "m1s" + conv(0, S), 12); if (canAll({&S, &I})) add({&S, &I}, "m2" + conv(0, S) + conv(1, I), 13); excused = mayFail({&I}) or mayFail({&S, &I}); }
    else if (what == 2) // opaque method
    { name = "opq"; std::string s = "opq"; for (auto &o : args) s += show(o); can.emplace_back(s, 14); must = true; }
    else if (what == 3) // inherited method
    { name = "baseCall"; if (canAll({&I})) { can.emplace_back("base" + conv(0, I), -3); must = true; } excused = mayFail({&I}); }
    else if (what == 4) // in both classes with different parameters
    { name = "both"; if (canAll({&S, &I})) add({&S, &I}, "m2" + conv(0, S) + conv(1, I), 13); if (canAll({&I})) add({&I}, "baseboth" + conv(0, I), 1); excused = mayFail({&I}) or mayFail({&S, &I}); }
    else if (what == 5) // a field
    {
        const int before = obj.call("get:field"); mc::check(before == 5, "field", "initial value of a field");
        int k = 0; seen.clear();
        try { obj.getHandle()->call("set:field", pargs.data(), pargs.size()); k = 1; } catch (const Exception &) {}
        std::string x; const bool ok = args.size() == 1 and tryConvert(args[0], I, x);
        mc::check(k == int(ok), "field", "setting a field with " + listing(args));
        const int after = obj.call("get:field"); mc::check(after == (ok?args[0].convert<int>():5), "field", "a field set to " + listing(args) + " reads " + std::to_string(after));
        if (inst == 1) obj.call("delete");
        return;
    }
    else if (what == 6) // a method returning a reference gives the field itself
    {
        if (not args.empty()) { if (inst == 1) obj.call("delete"); return; }
        Proxy r = obj.call("ref"); obj.call("set:field", 123); mc::check(r.convert<int>() == 123, "reference", "a returned reference is a copy");
        if (inst == 1) obj.call("delete");
        return;
    }
    else if (what == 7) // static overloads, else the wildcard
    {
        name = "s"; obj = cls; std::string s = "wilds"; for (auto &o : args) s += show(o);
        if (typesAll({&I})) { if (canAll({&I})) can.emplace_back(conv(0, I) + ",", 1001); } if (typesAll({&I, &S})) { if (canAll({&I, &S})) can.emplace_back(conv(0, I) + "," + conv(1, S) + ",", 1004); } if (typesAll({&V})) { if (canAll({&V})) can.emplace_back(conv(0, V) + ",", 1007); }
        if (not typesAll({&I}) and not typesAll({&I, &S}) and not typesAll({&V})) can.emplace_back(s, 15);
        must = not can.empty(); excused = mayFail({&I}) or mayFail({&I, &S}) or mayFail({&V});
    }
    else if (what == 8) { name = "anything"; obj = cls; std::string s = "wildanything"; for (auto &o : args) s += show(o); can.emplace_back(s, 15); must = true; }
    else { name = "nosuch"; obj = cls(44); id = 44; }
    seen.clear(); bool called = false; Proxy r; std::string err;
    try { r = obj.getHandle()->call(name, pargs.data(), pargs.size()); called = true; } catch (const ProxyHandleCallError &e) { err = e.displayText(); } catch (const ProxyExceptionMessage &e) { err = e.displayText(); }
    const std::string text = "managed " + name + listing(args);
    if (called)
    {
        bool ok = seen.size() == 1;
        if (ok) { ok = false; for (auto &c : can) ok = ok or (c.first == seen[0].args and (c.second == -1 or c.second == -2 or (c.second == -3?r.convert<std::string>() == "B":r.convert<int>() == c.second))); }
        if (not ok) { mc::fail("managed-call", text + " invoked " + (seen.empty()?"nothing":std::to_string(seen.size()) + " " + seen[0].args) + " and gave " + r.toString()); return; }
        if (what >= 1 and what <= 4) mc::check(seen[0].fcn == id, "instance", text + " was invoked on another instance");
        if (what == 0) { const int mId = seen[0].fcn; seen.clear(); r.call("m"); mc::check(seen.size() == 1 and seen[0].fcn == mId and seen[0].args == "m0", "instance", "the constructed instance"); }
    }
    else { mc::check(seen.empty(), "invoked-and-failed", text + " failed but something was invoked"); mc::check(not must or excused, "refused", text + " was refused: " + err); }
    if (inst == 1 and obj) obj.call("delete");
}
// a class that is registered, removed and registered again
struct Temp { int v = 1; int get(void) { return v; } };
static void lifecycle(int depth)
{
    bool reg = false; auto env = ProxyEnvironment::make("managed"); Proxy inst;
    struct Clean { bool &r; ~Clean(void) { if (r) ManagedClass::unload("K01/Temp"); } } clean{reg};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        if (not mc::visit(mc::Hash().add(reg).add(bool(inst)).h, depth - d)) return;
        const int op = mc::choose(4, "op"); mc::step();
        if (mc::tracing()) mc::trace(op == 0?"register":op == 1?"unload":op == 2?"make":"call");
        if (op == 0)
        {
            int k = 0; try { ManagedClass().registerConstructor<Temp>().registerMethod("get", &Temp::get).commit("K01/Temp"); k = 1; } catch (const PluginRegistryError &) {}
            mc::check(k == int(not reg), "commit", "registering a class"); if (k) reg = true;
        }
        else if (op == 1) { int k = 0; try { ManagedClass::unload("K01/Temp"); k = 1; } catch (const PluginRegistryError &) {} mc::check(k == int(reg), "unload", "removing a class"); if (k) reg = false; }
        else if (op == 2)
        {
            int k = 0; try { inst = env->findProxy("K01/Temp")(); k = 1; } catch (const ProxyEnvironmentFindError &) {}
            mc::check(k == int(reg), "find", "finding a class"); if (not k) inst = env->convertObjectToProxy(Object(Temp()));
        }
        else if (inst)
        {
            int k = 0; try { k = inst.call("get"); } catch (const ManagedClassLookupError &) {} catch (const Exception &e) { k = -1; if (mc::tracing()) mc::trace(e.displayText()); }
            mc::check(k == int(reg), "removed-class", reg?"calling a method of a registered class":"a method of a class that is not registered: no lookup error");
        }
        int k = 0; try { k = ManagedClass::lookup(typeid(Temp)).type() == typeid(Temp)?1:-1; } catch (const ManagedClassLookupError &) {} catch (const Exception &) { k = -2; }
        mc::check(k == int(reg), "lookup", reg?"a registered class is not found":"a removed class is still looked up");
    }
}
// converters of a proxy environment that are registered, removed and registered again
struct K01Handle;
struct K01Env : ProxyEnvironment { std::string getName(void) const { return "k01env"; } Proxy findProxy(const std::string &) { return Proxy(); } void serialize(const Proxy &, std::ostream &) {} Proxy deserialize(std::istream &) { return Proxy(); } };
struct K01Handle : ProxyHandle
{
    std::shared_ptr<ProxyEnvironment> env; int v; K01Handle(std::shared_ptr<ProxyEnvironment> e, int x): env(e), v(x) {}
    ProxyEnvironment::Sptr getEnvironment(void) const { return env; } Proxy call(const std::string &, const Proxy *, const size_t) { return Proxy(); } int compareTo(const Proxy &) const { return 0; } size_t hashCode(void) const { return size_t(v); } std::string toString(void) const { return std::to_string(v); } std::string getClassName(void) const { return "K01Number"; }
};
static Proxy toK01(ProxyEnvironment::Sptr env, const int &v) { return Proxy(new K01Handle(env, v)); }
static int fromK01(const Proxy &p) { return std::dynamic_pointer_cast<K01Handle>(p.getHandle())->v; }
static void converters(int depth)
{
    std::shared_ptr<ProxyEnvironment> env(new K01Env()); bool reg[2] = {false, false};
    static const char *path[] = {"/proxy/converters/k01env/int_to_number", "/proxy/converters/k01env/number_to_int"};
    struct Clean { bool *r; ~Clean(void) { for (int i = 0; i < 2; i++) if (r[i]) PluginRegistry::remove(path[i]); } } clean{reg};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        if (not mc::visit(mc::Hash().add(reg[0]).add(reg[1]).h, depth - d)) return;
        const int op = mc::choose(4, "op"), w = op % 2; mc::step();
        if (mc::tracing()) mc::trace((op < 2?"add ":"remove ") + std::string(path[w]));
        if (op < 2) { if (reg[w]) return; if (w == 0) PluginRegistry::addCall(path[0], &toK01); else PluginRegistry::add(path[1], ProxyConvertPair("K01Number", Callable(&fromK01))); reg[w] = true; }
        else { if (not reg[w]) return; PluginRegistry::remove(path[w]); reg[w] = false; }
        int k = 0; Proxy p(new K01Handle(env, 6)); Object o;
        try { p = env->convertObjectToProxy(Object(33)); k = std::dynamic_pointer_cast<K01Handle>(p.getHandle())->v; } catch (const ProxyEnvironmentConvertError &) {} catch (const Exception &e) { k = -1; }
        mc::check(k == (reg[0]?33:0), "to-proxy", reg[0]?"a registered conversion to a proxy failed":"a conversion to a proxy that is not registered any more does not fail as documented");
        k = 0; const int v = reg[0]?33:6; try { k = env->convertProxyToObject(p).extract<int>(); } catch (const ProxyEnvironmentConvertError &) {} catch (const Exception &e) { k = -1; }
        mc::check(k == (reg[1]?v:0), "from-proxy", reg[1]?"a registered conversion from a proxy failed":"a conversion from a proxy that is not registered any more does not fail as documented");
        k = 0; try { env->convertObjectToProxy(Object(3.5)); } catch (const ProxyEnvironmentConvertError &) { k = 1; } mc::check(k == 1, "to-proxy", "a conversion that was never registered");
    }
}
// ---- block factories ---------------------------------------------------------------------
template <int N, typename... A> static Block *makeBlk(A... a) { seen.push_back(Seen{N, join(a...)}); return new Blk(); }
template <int N, typename... A> static std::shared_ptr<Block> makeBlkS(A... a) { seen.push_back(Seen{N, join(a...)}); return std::shared_ptr<Block>(new Blk()); }
template <int N, typename... A> static Topology *makeTop(A... a) { seen.push_back(Seen{N, join(a...)}); return new Topology(); }
template <int N, typename... A> static std::shared_ptr<Topology> makeTopS(A... a) { seen.push_back(Seen{N, join(a...)}); return std::shared_ptr<Topology>(new Topology()); }
static Object makeOpaque(const Object *a, const size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += show(a[i]) + ","; seen.push_back(Seen{4, s}); return Object(std::shared_ptr<Block>(new Blk())); }
static void factories(int maxLen, int args_)
{
    const auto args = chooseArgs(maxLen, args_); const int kind = mc::choose(6, "kind");
    mc::Hash h; h.add(kind); for (auto &o : args) h.add(show(o)); mc::state(h.h); mc::step();
    static const char *path[] = {"/k01/block", "/k01/shared", "/k01/topology", "/k01/topology_shared", "/k01/opaque", "/k01/nosuch"};
    static bool once = false;
    if (not once)
    {
        once = true;
        BlockRegistry(path[0], Callable(&makeBlk<0, int, std::string>)); BlockRegistry(path[1], Callable(&makeBlkS<1>)); BlockRegistry(path[2], Callable(&makeTop<2, std::string>)); BlockRegistry(path[3], Callable(&makeTopS<3, int>)); BlockRegistry(path[4], Callable(&makeOpaque));
        BlockRegistry("/k01/bad", Callable(&fcn<5, int>)); BlockRegistry("k01/bad2", Callable(&makeBlk<6>)); BlockRegistry(path[0], Callable(&makeBlk<7, int, std::string>));
        mc::check(not BlockRegistry::doesBlockExist("/k01/bad"), "factory", "a function that makes no block was accepted");
    }
    const std::type_info &I = typeid(int), &S = typeid(std::string);
    const std::vector<const std::type_info *> types[] = {{&I, &S}, {}, {&S}, {&I}};
    bool ok = kind == 4; std::string want;
    if (kind < 4) { ok = types[kind].size() == args.size(); for (size_t i = 0; ok and i < args.size(); i++) { std::string x; ok = tryConvert(args[i], *types[kind][i], x); want += x + ","; } }
    else if (kind == 4) for (auto &o : args) want += show(o) + ",";
    auto env = ProxyEnvironment::make("managed"); auto reg = env->findProxy("Pothos/BlockRegistry");
    std::vector<Proxy> p; for (auto &o : args) p.push_back(env->convertObjectToProxy(o));
    seen.clear(); Proxy r; bool called = false; std::string err;
    try { r = reg.getHandle()->call(path[kind], p.data(), p.size()); called = true; } catch (const Exception &e) { err = e.displayText(); }
    mc::check(called == ok, "factory", std::string(path[kind]) + listing(args) + (called?" was made":" was refused: " + err));
    mc::check(seen.size() == size_t(ok) and (not ok or (seen[0].fcn == kind and seen[0].args == want)), "factory-arguments", std::string(path[kind]) + listing(args) + " got " + (seen.empty()?"nothing":seen[0].args));
    if (called and kind < 4) mc::check(r.call<std::string>("getName") == path[kind], "factory-name", "name of a block made by the registry");
    mc::check(BlockRegistry::doesBlockExist(path[kind]) == (kind != 5), "factory", "doesBlockExist");
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("binding", [t]{ binding(t?6:4); });
    add("arguments", [t]{ arguments(3); });
    add("block-calls", [t]{ blockCalls(2, 2, 12); });
    add("block-calls-3", [t]{ blockCalls(3, t?2:1, t?12:9); });
    add("managed", [t]{ managed(t?3:2, 12); });
    add("lifecycle", [t]{ lifecycle(t?8:6); });
    add("converters", [t]{ converters(t?8:6); });
    add("factories", [t]{ factories(3, 12); });
    return s;
}
