// O01: handles to an opaque object share its value, keep it alive and free it exactly once.
#include <mc.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Exception.hpp>
#include <Pothos/Object/Containers.hpp>
#include <map>
#include <set>
#include <memory>
using namespace Pothos;

// ---- counted values
static std::map<const void *, int> live; static std::map<int, int> perId;
static void born(const void *p, int id) { if (live.count(p)) mc::fail("double-construct", "constructed over a live value"); live[p] = id; perId[id]++; }
static void died(const void *p, int id) { auto it = live.find(p); if (it == live.end() or it->second != id) { mc::fail("double-destroy", "a value that is not alive was destroyed"); return; } live.erase(it); if (--perId[id] == 0) perId.erase(id); }
struct Leaf
{
    int id; explicit Leaf(int i):id(i) { born(this, id); }
    Leaf(const Leaf &o):id(o.id) { born(this, id); } ~Leaf(void) { died(this, id); id = -1; }
};
struct Node
{
    int id; Object child; Node(int i, const Object &c):id(i), child(c) { born(this, id); }
    Node(const Node &o):id(o.id), child(o.child) { born(this, id); } ~Node(void) { died(this, id); id = -1; }
};

// ---- the reference: values with their child, handles name a value
struct Val { int id; bool node; int child; }; // child: value id or 0
struct Model
{
    std::map<int, Val> vals; std::vector<int> h; int next = 1;
    int refs(int id) const { int n = 0; for (int x : h) n += x == id; for (auto &v : vals) n += v.second.node and v.second.child == id; return n; }
    void collect(void) { for (bool again = true; again; ) { again = false; for (auto it = vals.begin(); it != vals.end(); ) if (refs(it->first) == 0) { it = vals.erase(it); again = true; } else ++it; } }
    bool reaches(int from, int to) const { for (int x = from; x != 0; x = vals.at(x).child) { if (x == to) return true; if (not vals.at(x).node) break; } return false; }
};

static int newLeaf(Model &m, int slot)
{ int id = m.next++; m.vals[id] = Val{id, false, 0}; m.h[slot] = id; return id; }

static void verifyHandle(const Model &m, const Object &o, int id, int depth)
{
    if (bool(o) != (id != 0)) { mc::fail("null-state", "handle is " + std::string(o?"set":"null") + " but should be " + (id?"set":"null")); return; }
    if (id == 0)
    {
        if (o.type() != typeid(NullObject)) { mc::fail("type", "null handle reports another type"); return; }
        if (o.unique()) { mc::fail("unique", "null handle reports a unique value"); return; }
        try { o.extract<Leaf>(); mc::fail("extract-wrong", "null handle yields a value"); } catch (const ObjectConvertError &) {}
        return;
    }
    const Val &v = m.vals.at(id);
    if (o.type() != (v.node?typeid(Node):typeid(Leaf))) { mc::fail("type", "handle reports another type"); return; }
    if (o.unique() != (m.refs(id) == 1)) { mc::fail("unique", "unique() is " + std::to_string(o.unique()) + " with " + std::to_string(m.refs(id)) + " handles"); return; }
    const int got = v.node?o.extract<Node>().id:o.extract<Leaf>().id;
    if (got != id) { mc::fail("value", "handle yields value " + std::to_string(got) + ", expected " + std::to_string(id)); return; }
    try { if (v.node) o.extract<Leaf>(); else o.extract<Node>(); mc::fail("extract-wrong", "extraction as another type succeeded"); return; } catch (const ObjectConvertError &) {}
    try { o.extract<int>(); mc::fail("extract-wrong", "extraction as another type succeeded"); return; } catch (const ObjectConvertError &) {}
    try { o.extract<Object>(); mc::fail("extract-wrong", "extraction as Object succeeded"); return; } catch (const ObjectConvertError &) {}
    try { o.extract<NullObject>(); mc::fail("extract-wrong", "extraction as null succeeded"); return; } catch (const ObjectConvertError &) {}
    // conversion to the own type shares, conversion to Object wraps the same value
    { Object same = o.convert(v.node?typeid(Node):typeid(Leaf)); if (not (same == o)) { mc::fail("convert-own", "conversion to the own type does not share the value"); return; }
      if (o.unique()) { mc::fail("unique", "unique() with a second handle"); return; } }
    { Object wrap = o.convert(typeid(Object)); if (wrap.type() != typeid(Object) or not (wrap.extract<Object>() == o)) { mc::fail("convert-object", "conversion to Object does not hold the value"); return; } }
    // writable access only for a sole owner
    { Object &w = const_cast<Object &>(o); const bool sole = m.refs(id) == 1;
      try { int &r = v.node?w.ref<Node>().id:w.ref<Leaf>().id; if (not sole) { mc::fail("ref-shared", "writable access to a shared value"); return; } if (r != id) mc::fail("value", "ref yields another value"); }
      catch (const ObjectConvertError &) { if (sole) { mc::fail("ref-unique", "writable access refused to the only handle"); return; } } }
    if (v.node and depth < 4) verifyHandle(m, o.extract<Node>().child, v.child, depth+1);
}

static void handles(const int n, const int depth, bool prune)
{
    live.clear(); perId.clear();
    Model m; m.h.assign(n, 0);
    {
        std::vector<std::unique_ptr<Object>> H; for (int i = 0; i < n; i++) H.emplace_back(new Object());
        for (int d = 0; d < depth and not mc::failed(); d++)
        {
            enum { MAKE, NODE, COPY, MOVE, RECOPY, REMOVE_, DROP, KID, KIDMOVE, SETKID, MOVECTOR, SWAP, DOUBLE, NOPS };
            const int op = mc::choose(NOPS, "op");
            const int i = mc::choose(n, "i");
            const bool two = op == NODE or op == COPY or op == MOVE or op == RECOPY or op == SETKID or op == MOVECTOR or op == SWAP;
            const int j = two?mc::choose(n, "j"):0;
            Object &a = *H[i], &b = *H[j]; const char *name = "";
            int &ma = m.h[i], &mb = m.h[j];
            const bool nodeA = ma != 0 and m.vals[ma].node;
            switch (op)
            {
            case MAKE: name = "make leaf"; if (m.vals.size() > 3) return; { int id = newLeaf(m, i); switch (id%4) { case 0: a = Object(Leaf(id)); break; case 1: { Leaf l(id); a = Object(l); break; } case 2: a = Object::make(Leaf(id)); break; default: a = Object::emplace<Leaf>(id); } } break;
            case NODE: name = "make node holding j"; if (m.vals.size() > 3) return; { int id = m.next++; m.vals[id] = Val{id, true, mb}; a = Object(Node(id, b)); ma = id; } break;
            case COPY: name = "i = j"; a = b; ma = mb; break;
            case MOVE: name = "i = move(j)"; a = std::move(b); if (i != j) { ma = mb; mb = 0; } else if (not a) { ma = 0; } break; // a self-move may leave it empty, never invalid
            case RECOPY: name = "i rebuilt as a copy of j"; if (i == j) return; H[i].reset(); ma = 0; m.collect(); H[i].reset(new Object(b)); ma = mb; break;
            case MOVECTOR: name = "i rebuilt from move(j)"; if (i == j) return; H[i].reset(); ma = 0; m.collect(); H[i].reset(new Object(std::move(b))); ma = mb; mb = 0; break;
            case REMOVE_: name = "destroy and make empty"; H[i].reset(); H[i].reset(new Object()); ma = 0; break;
            case DROP: name = "i = Object()"; a = Object(); ma = 0; break;
            case KID: name = "i = i's child"; if (not nodeA) return; a = a.extract<Node>().child; ma = m.vals[ma].child; break;
            case KIDMOVE: name = "i = move(i's child)"; if (not nodeA or m.refs(ma) != 1) return; { int c = m.vals[ma].child; a = std::move(a.ref<Node>().child); m.vals[ma].child = 0; ma = c; } break;
            case SETKID: name = "i's child = j"; if (not nodeA or m.refs(ma) != 1 or m.reaches(mb, ma)) return; a.ref<Node>().child = b; m.vals[ma].child = mb; break;
            case SWAP: name = "swap"; if (i == j) return; std::swap(a, b); std::swap(ma, mb); break;
            case DOUBLE: name = "copy of a copy, dropped"; { Object t(a); Object u(t); t = std::move(u); u = t; t = Object(); if (not (u == a)) mc::fail("value", "a copy differs from its source"); } break;
            }
            m.collect();
            if (mc::tracing()) mc::trace(std::string(name) + " i=" + std::to_string(i) + " j=" + std::to_string(j));
            mc::step();
            // exactly the referenced values are alive, one instance each
            if (perId.size() != m.vals.size()) { mc::fail("lifetime", std::to_string(perId.size()) + " values alive, " + std::to_string(m.vals.size()) + " referenced"); return; }
            for (auto &v : m.vals) { auto it = perId.find(v.first); if (it == perId.end() or it->second != 1) { mc::fail("lifetime", "value " + std::to_string(v.first) + " is referenced but not alive exactly once"); return; } }
            if (mc::fresh())
            {
                for (int k = 0; k < n; k++) { verifyHandle(m, *H[k], m.h[k], 0); if (mc::failed()) return; }
                for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) { if ((*H[k] == *H[l]) != (m.h[k] == m.h[l])) { mc::fail("identity", "handles disagree about sharing a value"); return; } }
            }
            mc::Hash h; std::map<int, int> canon; // values are named by the order in which the handles reach them
            for (int x : m.h) for (int y = x; ; y = m.vals[y].child) { if (y == 0) { h.add(0); break; } if (canon.count(y)) { h.add(canon[y]); break; } canon.emplace(y, int(canon.size())+1); h.add(canon[y]).add(m.vals[y].node); if (not m.vals[y].node) break; }
            // the implementation's own sharing, so that equal model states with different hidden state are kept apart
            for (int k = 0; k < n; k++) { h.add(H[k]->_impl?H[k]->_impl->counter.load():0); }
            h.add(n);
            mc::state(h.h);
            if (prune and not mc::visit(h.h, depth-d-1)) break;
        }
    }
    if (mc::failed()) return;
    mc::check(live.empty(), "leak", std::to_string(live.size()) + " values left after all handles are gone");
}

// ---- how values get in and out: every kind of construction, exact types only
struct Base_ { virtual ~Base_(void) {} int x = 1; }; struct Derived_ : Base_ { int y = 2; };
static int freeFcn(int a) { return a+1; }
template <typename T> static bool ex(const Object &o) { try { o.extract<T>(); return true; } catch (const ObjectConvertError &) { return false; } }
typedef bool (*Probe)(const Object &);
struct Kind { const char *name; const std::type_info *type; Probe probe; };
template <typename T> static Kind kind(const char *n) { return Kind{n, &typeid(T), &ex<T>}; }
static void kinds(void)
{
    static const std::vector<Kind> K = {kind<bool>("bool"), kind<char>("char"), kind<signed char>("schar"), kind<unsigned char>("uchar"), kind<short>("short"), kind<unsigned short>("ushort"),
        kind<int>("int"), kind<unsigned>("uint"), kind<long>("long"), kind<unsigned long>("ulong"), kind<long long>("llong"), kind<unsigned long long>("ullong"), kind<float>("float"), kind<double>("double"),
        kind<std::string>("string"), kind<std::vector<int>>("vint"), kind<ObjectVector>("ovec"), kind<ObjectMap>("omap"), kind<Object>("Object"), kind<Base_>("Base"), kind<Derived_>("Derived"), kind<Base_ *>("Base*"), kind<int *>("int*"),
        kind<int (*)(int)>("fptr"), kind<std::shared_ptr<int>>("shared"), kind<NullObject>("null"), kind<const char *>("cstr")};
    static int iv = 5; static const std::string cs("abc"); static std::shared_ptr<int> sp(new int(3)); static Base_ bb; static Derived_ dd;
    struct Case { const char *type; std::function<Object(void)> make; };
    static const std::vector<Case> C = {
        {"bool", []{ return Object(true); }}, {"char", []{ return Object(char('c')); }}, {"schar", []{ return Object((signed char)3); }}, {"uchar", []{ return Object((unsigned char)3); }},
        {"short", []{ return Object(short(3)); }}, {"ushort", []{ return Object((unsigned short)3); }}, {"int", []{ return Object(3); }}, {"int", []{ const int v = 3; return Object(v); }}, {"int", []{ return Object(iv); }}, {"int", []{ int &r = iv; return Object::make(r); }},
        {"uint", []{ return Object(3u); }}, {"long", []{ return Object(3l); }}, {"ulong", []{ return Object(3ul); }}, {"llong", []{ return Object(3ll); }}, {"ullong", []{ return Object(3ull); }}, {"float", []{ return Object(3.f); }}, {"double", []{ return Object(3.); }},
        {"string", []{ return Object("abc"); }}, {"string", []{ return Object(cs); }}, {"string", []{ return Object(std::string("abc")); }}, {"string", []{ return Object::emplace<std::string>(3, 'x'); }}, {"string", []{ const char *p = "abc"; return Object(p); }},
        {"vint", []{ return Object(std::vector<int>{1, 2}); }}, {"vint", []{ return Object::emplace<std::vector<int>>(2, 7); }}, {"ovec", []{ return Object(ObjectVector(2, Object(1))); }}, {"omap", []{ return Object(ObjectMap()); }},
        {"Object", []{ return Object::make(Object(1)); }}, {"Base", []{ return Object(bb); }}, {"Derived", []{ return Object(dd); }}, {"Base*", []{ return Object((Base_ *)&dd); }}, {"int*", []{ return Object(&iv); }},
        {"shared", []{ return Object(sp); }}, {"null", []{ return Object(); }}, {"null", []{ return Object(NullObject()); }}, {"int", []{ Object a(3); return Object(a); }}, {"int", []{ const Object a(3); return Object(a); }}, {"int", []{ Object a(3); return Object(std::move(a)); }},
    };
    const int c = mc::choose(int(C.size()), "construct"); const int k = mc::choose(int(K.size()), "as");
    Object o = C[c].make(); mc::step();
    const bool own = std::string(C[c].type) == K[k].name;
    if (mc::tracing()) mc::trace(std::string("stored as ") + C[c].type + " #" + std::to_string(c) + ", extracted as " + K[k].name);
    mc::state(mc::Hash().add(c).add(k).h);
    mc::check((o.type() == *K[k].type) == own, "type", std::string(C[c].type) + " vs " + K[k].name);
    if (own and std::string(K[k].name) == "null") return; // extraction of the null value has nothing to refer to
    mc::check(K[k].probe(o) == own, own?"extract-own":"extract-wrong", std::string(C[c].type) + " as " + K[k].name);
    if (mc::failed() or not own) return;
    const std::string n = K[k].name;
    bool ok = true;
    if (n == "int") ok = o.extract<int>() == 3 or o.extract<int>() == 5;
    if (n == "string") ok = o.extract<std::string>() == "abc" or o.extract<std::string>() == "xxx";
    if (n == "bool") ok = o.extract<bool>(); if (n == "char") ok = o.extract<char>() == 'c'; if (n == "double") ok = o.extract<double>() == 3; if (n == "ullong") ok = o.extract<unsigned long long>() == 3; if (n == "short") ok = o.extract<short>() == 3;
    if (n == "Derived") ok = o.extract<Derived_>().y == 2; if (n == "Base*") ok = o.extract<Base_ *>() == &dd; if (n == "int*") ok = o.extract<int *>() == &iv; if (n == "shared") ok = o.extract<std::shared_ptr<int>>() == sp and sp.use_count() == 2;
    if (n == "vint") ok = o.extract<std::vector<int>>() == std::vector<int>{1, 2} or o.extract<std::vector<int>>() == std::vector<int>{7, 7};
    if (n == "ovec") ok = o.extract<ObjectVector>().size() == 2 and o.extract<ObjectVector>()[1].extract<int>() == 1;
    mc::check(ok, "value", n);
    Object().operator=(o); o = Object(); mc::check(sp.use_count() == 1, "leak", "the stored value was not destroyed");
    (void)freeFcn;
}

// ---- a constructor that throws leaves nothing behind
struct Thrower { static int alive; bool counted; explicit Thrower(int v):counted(true) { if (v) throw std::runtime_error("no"); alive++; } Thrower(const Thrower &o):counted(true) { if (o.counted and failCopy) throw std::runtime_error("no copy"); alive++; } ~Thrower(void) { alive--; } static bool failCopy; };
int Thrower::alive = 0; bool Thrower::failCopy = false;
static void throwing(void)
{
    Thrower::alive = 0; Thrower::failCopy = false;
    const int how = mc::choose(3, "how"); const int pre = mc::choose(2, "pre"); mc::step(); mc::state(mc::Hash().add(how).add(pre).h);
    { Object o; if (pre) o = Object(7);
      try { if (how == 0) o = Object::emplace<Thrower>(1); if (how == 1) { Thrower t(0); Thrower::failCopy = true; o = Object(t); } if (how == 2) { Thrower t(0); Thrower::failCopy = true; o = Object::make(t); } mc::fail("throw-swallowed", "the constructor's exception was lost"); return; } catch (const std::runtime_error &) {}
      if (pre) mc::check(o.extract<int>() == 7 and o.unique(), "throw-effect", "a failed construction changed the target"); else mc::check(not o, "throw-effect", "a failed construction changed the target"); }
    mc::check(Thrower::alive == 0, "leak", "");
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; v.push_back(s); };
    add("two-handles-all-sequences", [=]{ handles(2, thorough?5:4, false); });
    add("two-handles-states", [=]{ handles(2, thorough?20:10, true); });
    add("three-handles-states", [=]{ handles(3, thorough?12:7, true); });
    add("construction-and-extraction", kinds);
    add("throwing-construction", throwing);
    return v;
}
