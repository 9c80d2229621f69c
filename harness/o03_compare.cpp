// O03: comparing, hashing and printing objects agrees with their values, for all pairs of boundary values of all types.
#include <mc.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Object/Exception.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <complex>
#include <cmath>
#include <limits>
#include <set>
#include <algorithm>
using namespace Pothos;
typedef long double LD;
static std::string str(LD v) { char b[64]; snprintf(b, sizeof b, "%.20Lg", v); return b; }

struct Num { LD v; Object o; std::string text; bool integer; size_t type; };
static std::vector<Num> nums; static std::vector<size_t> firstOf;
template <typename T> static void put(const std::set<LD> &g)
{
    firstOf.push_back(nums.size());
    for (LD x : g)
    {
        bool ok = std::is_floating_point<T>::value?std::abs(x) <= (LD)std::numeric_limits<T>::max() and (LD)(T)x == x
            :x == std::trunc(x) and x >= (LD)std::numeric_limits<T>::min() and x <= (LD)std::numeric_limits<T>::max();
        if (ok) nums.push_back(Num{x, Object(T(x)), std::to_string(T(x)), not std::is_floating_point<T>::value, firstOf.size()-1});
    }
    // minus zero is the same value as zero
    if (std::is_floating_point<T>::value) nums.push_back(Num{0, Object(T(-0.0)), std::to_string(T(-0.0)), false, firstOf.size()-1});
}
static void build(void)
{
    if (not nums.empty()) return;
    std::set<LD> s; auto both = [&](LD v) { s.insert(v); s.insert(-v); };
    for (LD v : {0.L, 1.L, 2.L, 97.L, 0.5L, 0.25L, 1.5L, 1e30L, 1e300L, 1e-30L}) both(v);
    for (int b : {7, 8, 15, 16, 24, 31, 32, 53, 54, 62, 63, 64}) { const LD p = std::ldexp((LD)1, b); for (LD d : {0.L, 1.L, 2.L, 0.5L}) { both(p-d); both(p+d); } both((LD)std::nextafter(double(p), 0.)); both((LD)std::nextafter(double(p), 1e30)); both((LD)std::nextafterf(float(p), 0.f)); }
    both(std::numeric_limits<float>::max()); both(std::numeric_limits<double>::max()); both(std::numeric_limits<double>::denorm_min()); both(std::numeric_limits<float>::min());
    both((LD)(double)0.1); both((LD)0.1f);
    put<char>(s); put<signed char>(s); put<unsigned char>(s); put<short>(s); put<unsigned short>(s); put<int>(s); put<unsigned>(s); put<long>(s); put<unsigned long>(s); put<long long>(s); put<unsigned long long>(s); put<float>(s); put<double>(s);
}
static int sgn(LD a, LD b) { return a < b?-1:a > b?1:0; }
static int sgni(int x) { return x < 0?-1:x > 0?1:0; }

// all pairs of numbers
static void numbers(void)
{
    build();
    const Num &a = nums[mc::choose(int(nums.size()), "a")];
    mc::state(mc::Hash().add(str(a.v)).add(a.type).h);
    for (const Num &b : nums)
    {
        const int want = sgn(a.v, b.v); int got;
        try { got = sgni(a.o.compareTo(b.o)); } catch (const Exception &e) { mc::fail("compare-error", a.o.getTypeString() + " with " + b.o.getTypeString() + ": " + e.displayText()); return; }
        mc::step();
        const std::string pair = a.o.getTypeString() + " " + str(a.v) + " and " + b.o.getTypeString() + " " + str(b.v);
        if (got != want) { mc::fail("order", pair + " compare as " + std::to_string(got)); return; }
        if (a.o.equals(b.o) != (want == 0) or (a.o < b.o) != (want < 0) or (a.o > b.o) != (want > 0)) { mc::fail("operators", pair + ": equals, < or > disagree with the order"); return; }
        if (a.type == b.type and want == 0 and a.o.hashCode() != b.o.hashCode()) { mc::fail("hash", pair + " are equal but hash differently"); return; }
    }
    // the hash does not depend on the handle or on earlier calls
    Object c(a.o); mc::check(c.hashCode() == a.o.hashCode() and a.o.hashCode() == c.hashCode(), "hash", "hash changes between calls");
    mc::check(a.o.toString() == a.text, "print", a.o.getTypeString() + " " + str(a.v) + " prints as " + a.o.toString());
    // a remade object with the same value hashes the same
    Object again = a.o.convert(a.o.type()); mc::check(again.hashCode() == a.o.hashCode(), "hash", "");
    // the same through proxies of the local environment
    auto env = ProxyEnvironment::make("managed"); Proxy pa = env->convertObjectToProxy(a.o);
    for (size_t t = 0; t < firstOf.size(); t++) { const Num &b = nums[firstOf[t]]; Proxy pb = env->convertObjectToProxy(b.o); mc::check(sgni(pa.compareTo(pb)) == sgn(a.v, b.v), "proxy-order", "through proxies"); }
    mc::check(pa.hashCode() == a.o.hashCode(), "proxy-hash", "");
}
// sorting any small selection: keys of a map stay apart exactly when their values differ
static void mapKeys(void)
{
    build();
    static std::vector<size_t> big; if (big.empty()) for (size_t i = 0; i < nums.size(); i++) if (std::abs(nums[i].v) >= std::ldexp((LD)1, 62) and std::abs(nums[i].v) <= std::ldexp((LD)1, 64)+3) big.push_back(i);
    const size_t i = big[mc::choose(int(big.size()), "a")], j = big[mc::choose(int(big.size()), "b")]; mc::step();
    mc::state(mc::Hash().add(i).add(j).h);
    for (size_t k = 0; k < big.size(); k += 7)
    {
        const Num *n[3] = {&nums[i], &nums[j], &nums[big[k]]}; ObjectMap m; std::map<LD, int> ref;
        for (int x = 0; x < 3; x++) { m[n[x]->o] = Object(x); ref[n[x]->v] = x; }
        bool ok = m.size() == ref.size(); auto it = m.begin(); if (ok) for (auto &r : ref) { ok = ok and it->second.extract<int>() == r.second; ++it; }
        for (int x = 0; x < 3 and ok; x++) ok = m.count(n[x]->o) == 1 and m[n[x]->o].extract<int>() == ref[n[x]->v];
        if (not ok) { mc::fail("map", "a map with keys " + str(n[0]->v) + ", " + str(n[1]->v) + ", " + str(n[2]->v)); return; }
    }
}
static void texts(void)
{
    auto pick = [&](void) { std::string s; static const char al[] = {'a', 'b', '\0', '\xff'}; int len = mc::choose(4, "len"); for (int i = 0; i < len; i++) s += al[mc::choose(4, "c")]; return s; };
    const std::string a = pick(), b = pick(); mc::step(); mc::state(mc::Hash().add(a).add(b).h);
    const Object oa(a), ob(b); const int want = sgni(a.compare(b));
    mc::check(sgni(oa.compareTo(ob)) == want and oa.equals(ob) == (want == 0) and (oa < ob) == (want < 0) and (oa > ob) == (want > 0), "text-order", "text order");
    if (a == b) mc::check(oa.hashCode() == ob.hashCode(), "hash", "equal texts hash differently");
    mc::check(oa.hashCode() == std::hash<std::string>()(a) or oa.hashCode() == Object(a).hashCode(), "hash", "");
    if (a.find('\0') == std::string::npos) mc::check(oa.toString() == "\"" + a + "\"", "print", "text prints as " + oa.toString());
}
// what cannot be compared fails with the documented error; the operators then fall back on the hash
struct Plain { int v; };
static void incomparable(void)
{
    static std::vector<std::pair<std::string, Object>> pool;
    if (pool.empty())
    {
        auto put = [&](const char *k, const Object &o) { pool.emplace_back(k, o); };
        put("null", Object()); put("null", Object(NullObject())); put("num", Object(3)); put("num", Object(-2.5)); put("text", Object("3")); put("text", Object("")); put("bool", Object(true)); put("bool", Object(false));
        put("plain", Object(Plain{1})); put("plain", Object(Plain{1})); put("cpx", Object(std::complex<double>(1, 2))); put("cpx", Object(std::complex<float>(1, -1))); put("num", Object(std::complex<double>(3, 0))); put("vec", Object(std::vector<int>(1, 3))); put("vec", Object(ObjectVector(1, Object(3)))); put("ptr", Object(&typeid(int)));
        put("cpx", Object(std::complex<int>(1, 1))); put("inf", Object(std::numeric_limits<float>::infinity()));
    }
    const int i = mc::choose(int(pool.size()), "a"), j = mc::choose(int(pool.size()), "b"); mc::step(); mc::state(mc::Hash().add(i).add(j).h);
    const auto &a = pool[i], &b = pool[j]; int kind = 0, got = 0;
    const bool comparable = (a.first == b.first) and (a.first == "null" or a.first == "num" or a.first == "text");
    try { got = a.second.compareTo(b.second); kind = 1; } catch (const ObjectCompareError &) { kind = 2; } catch (const Exception &e) { mc::fail("error-kind", a.first + " with " + b.first + ": " + e.displayText()); return; }
    mc::check(kind == (comparable?1:2), "supported", a.first + " with " + b.first + (kind == 1?" compared":" refused"));
    try
    {
        const bool eq = a.second.equals(b.second), lt = a.second < b.second, gt = a.second > b.second;
        mc::check(int(eq) + int(lt) + int(gt) == 1, "operators", "exactly one of equals, <, > has to hold");
        mc::check(eq == b.second.equals(a.second) and lt == (b.second > a.second), "operators", "not antisymmetric");
        if (i == j) mc::check(eq, "self", "an object differs from itself");
        if (i == j) { Object c(a.second); mc::check(c.equals(a.second) and c.hashCode() == a.second.hashCode(), "self", "a second handle differs"); }
        if (comparable) mc::check(eq == (got == 0), "operators", "equals disagrees with the order");
        a.second.toString();
    }
    catch (const Exception &e) { mc::fail("operators", a.first + " with " + b.first + ": " + e.displayText()); }
}
static void printing(void)
{
    struct P { Object o; std::string want; };
    static const std::vector<P> ps = {{Object(true), "true"}, {Object(false), "false"}, {Object("a\"b"), "\"a\"b\""}, {Object(ObjectVector{Object(1), Object("x")}), "[1, \"x\"]"}, {Object(std::vector<int>{1, -2}), "[1, -2]"}, {Object(ObjectVector()), "[]"},
        {Object(std::complex<double>(1, 2)), "1.000000+2.000000j"}, {Object(std::complex<double>(1, -2)), "1.000000-2.000000j"}, {Object(std::complex<double>(0, 2)), "2.000000j"}, {Object(std::complex<int>(3, -4)), "3-4j"}, {Object(std::complex<int>(3, 0)), "3"}, {Object(std::complex<int>(0, -4)), "-4j"},
        {Object(ObjectVector{Object(ObjectVector{Object(1)}), Object(2)}), "[[1], 2]"}, {Object((signed char)-5), "-5"}, {Object((unsigned char)200), "200"}, {Object(~0ull), "18446744073709551615"}, {Object(std::numeric_limits<long long>::min()), "-9223372036854775808"}, {Object(ObjectKwargs{{"k", Object(1)}}), "{\"k\": 1}"}};
    const auto &p = ps[mc::choose(int(ps.size()), "p")]; mc::step(); mc::state(mc::Hash().add(p.want).h);
    mc::check(p.o.toString() == p.want, "print", p.want + " prints as " + p.o.toString());
}
// ---- registered comparison, hash and print functions come and go
struct TA { int v; }; struct TB { int v; };
static int cmpAA(const TA &a, const TA &b) { return a.v - b.v; } static int cmpAB(const TA &a, const TB &b) { return a.v - b.v; } static int cmpBA(const TB &a, const TA &b) { return a.v - b.v; }
static size_t hashA(const TA &a) { return 1000 + a.v; } static std::string strA(const TA &a) { return "A" + std::to_string(a.v); }
static void registering(int depth)
{
    bool in[5] = {}; static const char *paths[5] = {"/object/compare/mc_aa", "/object/compare/mc_ab", "/object/compare/mc_ba", "/object/hash/mc_a", "/object/tostring/mc_a"};
    static const Callable calls[5] = {Callable(&cmpAA), Callable(&cmpAB), Callable(&cmpBA), Callable(&hashA), Callable(&strA)};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        const int e = mc::choose(5, "which"); if (mc::tracing()) mc::trace(std::string(in[e]?"remove ":"add ") + paths[e]);
        try { if (in[e]) PluginRegistry::remove(paths[e]); else PluginRegistry::add(paths[e], calls[e]); in[e] = not in[e]; } catch (const Exception &ex) { mc::fail("registry", ex.displayText()); break; }
        mc::step();
        if (mc::fresh())
        {
            const Object a1(TA{1}), a2(TA{2}), a1b(TA{1}), b1(TB{1}), b3(TB{3});
            auto cmp = [&](const Object &x, const Object &y, bool on, int want) { bool did = false; int got = 0; try { got = x.compareTo(y); did = true; } catch (const ObjectCompareError &) {} catch (const Exception &ex) { mc::fail("error-kind", ex.displayText()); return; } if (did != on or (did and sgni(got) != want)) mc::fail("registered", did?"compared although not registered, or wrongly":"a registered comparison was refused"); };
            cmp(a1, a2, in[0], -1); cmp(a2, a1, in[0], 1); cmp(a1, a1b, in[0], 0); cmp(a1, b3, in[1], -1); cmp(a2, b1, in[1], 1); cmp(b3, a1, in[2], 1); cmp(b1, a2, in[2], -1); cmp(b1, b3, false, 0); cmp(a1, Object(1), false, 0);
            try {
            if (in[3]) mc::check(a1.hashCode() == 1001 and a1b.hashCode() == 1001 and a2.hashCode() == 1002, "registered", "the registered hash is not used"); else mc::check(a1.hashCode() != 1001 and a1.hashCode() != a1b.hashCode() and Object(a1).hashCode() == a1.hashCode(), "registered", "hash without a function");
            mc::check((a1.toString() == "A1") == in[4], "registered", "printed as " + a1.toString());
            mc::check(a1.equals(a1b) == (in[0] or in[3]), "registered", "equals"); }
            catch (const Exception &ex) { mc::fail("error-kind", ex.displayText()); }
        }
        mc::Hash h; for (bool x : in) h.add(x); mc::state(h.h);
    }
    for (int e = 0; e < 5; e++) if (in[e]) try { PluginRegistry::remove(paths[e]); } catch (const Exception &) {}
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; v.push_back(s); };
    add("all-number-pairs", numbers); add("large-map-keys", mapKeys); add("all-short-texts", texts); add("incomparable-pairs", incomparable); add("printing", printing);
    add("register-remove-sequences", [=]{ registering(thorough?7:5); });
    return v;
}
