// O02: conversions preserve the value or fail. All pairs of numeric types are enumerated over every value of the small
// types and all boundary values of the large ones, against exact arithmetic (long double holds every operand exactly).
#include <mc.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Object/Exception.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Util/TypeInfo.hpp>
#include <complex>
#include <cmath>
#include <limits>
#include <set>
using namespace Pothos;

// the SIMD sources are not part of this build: stand-ins with the documented meaning (element-wise cast)
template <typename I, typename O> struct Cast { static O go(const I &i) { return O(i); } };
template <typename I, typename O> struct Cast<std::complex<I>, std::complex<O>> { static std::complex<O> go(const std::complex<I> &i) { return std::complex<O>(O(i.real()), O(i.imag())); } };
template <typename I, typename O> void simdConvertBuffer(const void *in, void *out, size_t n) { for (size_t k = 0; k < n; k++) ((O *)out)[k] = Cast<I, O>::go(((const I *)in)[k]); }
#define INST(A, B) template void simdConvertBuffer<A, B>(const void *, void *, size_t);
#define ROW(A) INST(A, char) INST(A, signed char) INST(A, unsigned char) INST(A, short) INST(A, unsigned short) INST(A, int) INST(A, unsigned) INST(A, long) INST(A, unsigned long) INST(A, long long) INST(A, unsigned long long) INST(A, float) INST(A, double)
ROW(char) ROW(signed char) ROW(unsigned char) ROW(short) ROW(unsigned short) ROW(int) ROW(unsigned) ROW(long) ROW(unsigned long) ROW(long long) ROW(unsigned long long) ROW(float) ROW(double)
#define CROW(A) INST(std::complex<A>, std::complex<signed char>) INST(std::complex<A>, std::complex<short>) INST(std::complex<A>, std::complex<int>) INST(std::complex<A>, std::complex<long>) INST(std::complex<A>, std::complex<long long>) INST(std::complex<A>, std::complex<float>) INST(std::complex<A>, std::complex<double>)
CROW(signed char) CROW(short) CROW(int) CROW(long) CROW(long long) CROW(float) CROW(double)

typedef long double LD;
static std::string str(LD v) { char b[64]; snprintf(b, sizeof b, "%.20Lg", v); return b; }

// ---- boundary values
static const std::vector<LD> &grid(void)
{
    static std::vector<LD> g;
    if (g.empty())
    {
        std::set<LD> s; auto put = [&](LD v) { s.insert(v); s.insert(-v); };
        for (LD v : {0.L, 1.L, 2.L, 3.L, 10.L, 100.L, 200.L, 1000.L, 40000.L}) put(v);
        for (int b : {7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64})
        {
            const LD p = std::ldexp((LD)1, b);
            for (LD d : {0.L, 1.L, 2.L, 0.5L, 0.25L, 1.5L, 3.L}) { put(p-d); put(p+d); }
            put(std::nextafter(double(p), 0.)); put(std::nextafter(double(p), 1e30)); put(std::nextafterf(float(p), 0.f)); put(std::nextafterf(float(p), 1e30f));
        }
        for (LD v : {0.1L, 0.5L, 0.75L, 0.9999999999L, 1.5L, 3.141592653589793L, 1e-30L, 1e-300L, 1e30L, 1e300L, 65504.3L}) put(v);
        put(std::numeric_limits<float>::max()); put(std::nextafter(double(std::numeric_limits<float>::max()), 1e300)); put(std::numeric_limits<float>::min()); put(std::numeric_limits<float>::denorm_min());
        put(std::numeric_limits<double>::max()); put(std::numeric_limits<double>::min()); put(std::numeric_limits<double>::denorm_min());
        g.assign(s.begin(), s.end());
        g.push_back(std::numeric_limits<LD>::infinity()); g.push_back(-std::numeric_limits<LD>::infinity()); g.push_back(std::numeric_limits<LD>::quiet_NaN());
    }
    return g;
}
template <typename T> static bool holds(LD v) // is v exactly a value of T?
{
    if (std::is_floating_point<T>::value) return std::isnan(v) or std::isinf(v) or (std::abs(v) <= (LD)std::numeric_limits<T>::max() and (LD)(T)v == v);
    return not std::isnan(v) and not std::isinf(v) and v == std::trunc(v) and v >= (LD)std::numeric_limits<T>::min() and v <= (LD)std::numeric_limits<T>::max();
}
template <typename T> static const std::vector<T> &valuesOf(void)
{
    static std::vector<T> v;
    if (v.empty())
    {
        if (std::is_integral<T>::value and sizeof(T) <= 2) for (long x = std::numeric_limits<T>::min(); x <= (long)std::numeric_limits<T>::max(); x++) v.push_back(T(x));
        else for (LD x : grid()) if (holds<T>(x)) v.push_back(T(x)); else if (std::is_floating_point<T>::value and std::abs(x) <= (LD)std::numeric_limits<T>::max()) v.push_back(T(x));
    }
    return v;
}
template <typename T> struct Parts { static const bool cpx = false; typedef T R; static LD re(const T &v) { return v; } static LD im(const T &) { return 0; } };
template <typename T> struct Parts<std::complex<T>> { static const bool cpx = true; typedef T R; static LD re(const std::complex<T> &v) { return v.real(); } static LD im(const std::complex<T> &v) { return v.imag(); } };

// may "got" (of real type R) be the result for the exact value v?
template <typename R> static bool faithful(LD v, LD got)
{
    if (std::isnan(v)) return std::is_floating_point<R>::value and std::isnan(got);
    if (std::is_floating_point<R>::value)
    {
        if (std::isinf(v)) return got == v;
        return std::abs(v) <= (LD)std::numeric_limits<R>::max() and got == (LD)(R)v; // nearest
    }
    if (std::isinf(v)) return false;
    const LD t = std::trunc(v);
    return t >= (LD)std::numeric_limits<R>::min() and t <= (LD)std::numeric_limits<R>::max() and got == t;
}
enum { UNSUPPORTED, RANGE, VALUE, OTHER };
struct Outcome { int kind; LD re, im; std::string why; };
template <typename O> static Outcome convertOne(const Object &in)
{
    Outcome r{OTHER, 0, 0, ""};
    try { Object o = in.convert(typeid(O)); if (o.type() != typeid(O)) { r.why = "result type " + o.getTypeString(); return r; } const O &v = o.extract<O>(); r.kind = VALUE; r.re = Parts<O>::re(v); r.im = Parts<O>::im(v); }
    catch (const RangeException &) { r.kind = RANGE; }
    catch (const ObjectConvertError &) { r.kind = UNSUPPORTED; }
    catch (const Exception &e) { r.why = e.displayText(); }
    return r;
}
// is this outcome right for the value?
template <typename I, typename O> static std::string judge(const I &in, const Outcome &r)
{
    typedef typename Parts<O>::R R; const LD re = Parts<I>::re(in), im = Parts<I>::im(in);
    if (r.kind == OTHER) return "fails with an unexpected error " + r.why;
    if (r.kind == UNSUPPORTED) return "is refused as unsupported";
    if (Parts<O>::cpx)
    {
        // the components of a complex result are only claimed where they fit
        if (not (std::abs(re) <= (LD)std::numeric_limits<R>::max() and std::abs(im) <= (LD)std::numeric_limits<R>::max())) return "";
        if (r.kind == RANGE) return "is refused although the value fits";
        return (faithful<R>(re, r.re) and faithful<R>(im, r.im))?"":"gives " + str(r.re) + "," + str(r.im);
    }
    if (Parts<I>::cpx and not (im == 0)) return r.kind == RANGE?"":"drops an imaginary part";
    if (r.kind == RANGE) return (holds<R>(re) and not std::isinf(re) and not std::isnan(re))?"is refused although the value fits":"";
    return faithful<R>(re, r.re)?"":"gives " + str(r.re);
}
template <typename I, typename O> static void pairOf(const I &in, bool supported)
{
    const Object o(in);
    const bool can = o.canConvert(typeid(O));
    if (can != Object::canConvert(typeid(I), typeid(O))) { mc::fail("can-disagree", "the two canConvert queries disagree"); return; }
    Outcome r = convertOne<O>(o); mc::step();
    if (o.canConvert(typeid(O)) != can) { mc::fail("can-changed", "canConvert changed after a conversion"); return; }
    if (can != supported) { mc::fail("support", "canConvert says " + std::to_string(can)); return; }
    if (not can) { if (r.kind != UNSUPPORTED) mc::fail("can-convert", "canConvert says no, the conversion gives something else"); return; }
    const std::string bad = judge<I, O>(in, r);
    if (not bad.empty()) mc::fail("value", Util::typeInfoToString(typeid(I)) + " " + str(Parts<I>::re(in)) + (Parts<I>::cpx?"," + str(Parts<I>::im(in)):"") + " to " + Util::typeInfoToString(typeid(O)) + " " + bad);
}
// vectors: element-wise the same as the scalar conversion, or fail as a whole
template <typename I, typename O> static void vectors(const std::vector<I> &in)
{
    Object o(in); std::vector<Outcome> each; bool range = false;
    const bool can = o.canConvert(typeid(std::vector<O>));
    for (auto &v : in) { Outcome r = convertOne<O>(Object(v)); if (std::is_same<I, O>::value) { r.kind = VALUE; r.re = Parts<I>::re(v); r.im = Parts<I>::im(v); } range = range or r.kind == RANGE; each.push_back(r); }
    std::string bad;
    try
    {
        Object res = o.convert(typeid(std::vector<O>)); const auto &out = res.extract<std::vector<O>>();
        if (not can) bad = "converted although canConvert said no";
        else if (out.size() != in.size()) bad = "has " + std::to_string(out.size()) + " elements";
        else for (size_t k = 0; k < in.size() and bad.empty(); k++)
        {
            Outcome r{VALUE, Parts<O>::re(out[k]), Parts<O>::im(out[k]), ""};
            bad = judge<I, O>(in[k], r);
        }
    }
    catch (const RangeException &) { if (not range) bad = "is refused although every element fits"; }
    catch (const ObjectConvertError &) { if (can) bad = "is refused as unsupported"; }
    catch (const Exception &e) { bad = "fails with " + e.displayText(); }
    mc::step();
    if (not bad.empty()) { std::string s; for (auto &v : in) s += " " + str(Parts<I>::re(v)); mc::fail("vector", "vector of " + Util::typeInfoToString(typeid(I)) + s + " to " + Util::typeInfoToString(typeid(O)) + " " + bad); }
}

template <typename... T> struct List {};
typedef List<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double> Reals;
typedef std::complex<float> CF; typedef std::complex<double> CD;
template <typename T> static std::vector<T> complexValues(void)
{
    typedef typename T::value_type R; std::vector<T> v; const auto &r = valuesOf<R>(); std::vector<R> small;
    if (std::is_floating_point<R>::value) small = r; else { for (LD x : grid()) if (holds<R>(x)) small.push_back(R(x)); }
    for (R x : small) for (LD i : {0.L, 1.L, -2.L}) v.push_back(T(x, R(i)));
    for (R x : small) v.push_back(T(R(1), x));
    return v;
}
template <typename I> struct From
{
    template <typename O> static void to(const std::vector<I> &vals, size_t a, size_t b, bool supported) { for (size_t k = a; k < b and not mc::failed(); k++) pairOf<I, O>(vals[k], supported); }
    template <typename... O> static void all(List<O...>, int which, const std::vector<I> &vals, size_t a, size_t b, bool supported)
    { int n = 0; (void)std::initializer_list<int>{(n++ == which?(to<O>(vals, a, b, supported), 0):0)...}; }
    // all vectors of up to two elements over a smaller grid, and each value in each place of a longer vector
    template <typename O> static void vec(const std::vector<I> &v)
    {
        vectors<I, O>({}); 
        for (size_t k = 0; k < v.size() and not mc::failed(); k++) { vectors<I, O>({v[k]}); vectors<I, O>({I(1), v[k]}); vectors<I, O>({v[k], I(1), I(2)}); std::vector<I> longer(17, I(1)); longer[16] = v[k]; vectors<I, O>(longer); }
    }
    template <typename... O> static void allVec(List<O...>, int which, const std::vector<I> &v) { int n = 0; (void)std::initializer_list<int>{(n++ == which?(vec<O>(v), 0):0)...}; }
};
typedef List<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, CF, CD> Dst; static const int NDST = 15;
template <typename I> static void oneFrom(const std::vector<I> &vals, bool supported)
{
    const int dst = mc::choose(NDST, "to"); const size_t per = 4096; const int parts = int((vals.size()+per-1)/per);
    const int part = mc::choose(parts, "part");
    mc::state(mc::Hash().add(Util::typeInfoToString(typeid(I))).add(dst).add(part).h);
    From<I>::all(Dst(), dst, vals, part*per, std::min(vals.size(), (part+1)*per), supported);
}
template <typename... I> static void realFrom(List<I...>, int which) { int n = 0; (void)std::initializer_list<int>{(n++ == which?(oneFrom<I>(valuesOf<I>(), true), 0):0)...}; }
static void numbers(void)
{
    const int src = mc::choose(15, "from");
    if (src < 13) realFrom(Reals(), src);
    else if (src == 13) { static const auto v = complexValues<CF>(); oneFrom<CF>(v, true); }
    else { static const auto v = complexValues<CD>(); oneFrom<CD>(v, true); }
}
template <typename I> static void oneVec(const std::vector<I> &vals)
{
    std::vector<I> v = vals;
    if (v.size() > 1000) { std::vector<I> w; std::set<LD> g(grid().begin(), grid().begin()+grid().size()-3); for (auto &x : v) if (g.count(Parts<I>::re(x))) w.push_back(x); v = w; }
    const int dst = mc::choose(NDST, "to"); mc::state(mc::Hash().add(Util::typeInfoToString(typeid(I))).add(dst).h);
    From<I>::allVec(Dst(), dst, v);
}
template <typename... I> static void vecFrom(List<I...>, int which) { int n = 0; (void)std::initializer_list<int>{(n++ == which?(oneVec<I>(valuesOf<I>()), 0):0)...}; }
static void numberVectors(void)
{
    const int src = mc::choose(15, "from");
    if (src < 13) vecFrom(Reals(), src);
    else if (src == 13) { static const auto v = complexValues<CF>(); oneVec<CF>(v); }
    else { static const auto v = complexValues<CD>(); oneVec<CD>(v); }
}
// complex integers only widen to complex numbers
template <typename I> static void complexInt(void)
{
    static const auto v = complexValues<I>(); const int which = mc::choose(2, "to"); mc::state(mc::Hash().add(Util::typeInfoToString(typeid(I))).add(which).h);
    if (which == 0) From<I>::template to<std::complex<double>>(v, 0, v.size(), true);
    else if (std::is_same<I, std::complex<long long>>::value) From<I>::template to<std::complex<double>>(v, 0, v.size(), true);
    else for (auto &x : v) { if (mc::failed()) break; Outcome r = convertOne<std::complex<long long>>(Object(x)); mc::step(); if (r.kind != VALUE or r.re != Parts<I>::re(x) or r.im != Parts<I>::im(x)) mc::fail("value", "complex integer widened to " + str(r.re) + "," + str(r.im)); }
}
static void complexInts(void)
{ switch (mc::choose(5, "from")) { case 0: complexInt<std::complex<signed char>>(); break; case 1: complexInt<std::complex<short>>(); break; case 2: complexInt<std::complex<int>>(); break; case 3: complexInt<std::complex<long>>(); break; default: complexInt<std::complex<long long>>(); } }

// types without a conversion: refused, whatever was attempted before
struct Plain { int v; };
static void unsupported(void)
{
    const std::vector<Object> src = {Object(Plain{1}), Object(), Object("12"), Object(std::string()), Object(true), Object(&typeid(int)), Object(std::vector<Plain>(1)), Object(7), Object(7.5)};
    const std::vector<const std::type_info *> dst = {&typeid(Plain), &typeid(NullObject), &typeid(std::string), &typeid(bool), &typeid(std::vector<Plain>), &typeid(int), &typeid(double), &typeid(CF)};
    const int s = mc::choose(int(src.size()), "src"), d = mc::choose(int(dst.size()), "dst"), s2 = mc::choose(int(src.size()), "src2"), d2 = mc::choose(int(dst.size()), "dst2");
    mc::state(mc::Hash().add(s).add(d).add(s2).add(d2).h);
    for (int round = 0; round < 2; round++)
    {
        const auto &o = round?src[s2]:src[s]; const auto &t = round?*dst[d2]:*dst[d]; const bool can = o.canConvert(t); bool did = false; Object r;
        try { r = o.convert(t); did = true; } catch (const ObjectConvertError &) {} catch (const Exception &e) { mc::fail("error-kind", e.displayText()); return; }
        mc::step();
        const bool expect = o.type() == t or (round?s2:s) >= 7 and (t == typeid(int) or t == typeid(double) or t == typeid(CF));
        mc::check(can == expect and did == expect, "support", o.getTypeString() + " to " + Util::typeInfoToString(t) + ": can " + std::to_string(can) + " did " + std::to_string(did));
        mc::check(o.canConvert(t) == can, "can-changed", "canConvert changed after a conversion");
        if (did and not (r.type() == t)) mc::fail("value", "result of another type");
        mc::check(o.canConvert(typeid(Object)) and o.convert(typeid(Object)).extract<Object>() == o, "to-object", "conversion to Object");
    }
}

// ---- text and bytes
static void text(void)
{
    std::string s; const int len = mc::choose(4, "len"); static const char alphabet[] = {'a', '\0', '\x7f', '\x80', '\xff', '\n'};
    for (int i = 0; i < len; i++) s += alphabet[mc::choose(6, "c")];
    mc::step(); mc::state(mc::Hash().add(s).h);
    try
    {
        auto v = Object(s).convert<std::vector<char>>(); mc::check(std::string(v.begin(), v.end()) == s, "text", "string to bytes");
        mc::check(Object(v).convert<std::string>() == s, "text", "bytes to string");
        std::vector<signed char> sv(s.begin(), s.end()); mc::check(Object(sv).convert<std::string>() == s, "text", "signed bytes to string");
        std::vector<unsigned char> uv(s.begin(), s.end()); mc::check(Object(uv).convert<std::string>() == s, "text", "unsigned bytes to string");
        mc::check(Object(s).convert<std::string>() == s, "text", "string to string");
    }
    catch (const Exception &e) { mc::fail("text", e.displayText()); }
}
static void allBytes(void)
{
    std::string s; const int k = mc::choose(257, "k"); if (k == 256) for (int i = 0; i < 256; i++) s += char(i); else s = std::string(3, char(k));
    mc::step(); mc::state(mc::Hash().add(s).h);
    auto v = Object(s).convert<std::vector<char>>(); mc::check(Object(v).convert<std::string>() == s and std::string(v.begin(), v.end()) == s, "text", "byte " + std::to_string(k));
}

// ---- containers
template <typename T> static void container(const std::vector<T> &pool)
{
    const int len = mc::choose(4, "len"); std::vector<T> v; for (int i = 0; i < len; i++) v.push_back(pool[mc::choose(int(pool.size()), "e")]);
    mc::step(); mc::state(mc::Hash().add(Util::typeInfoToString(typeid(T))).add(len).h);
    try
    {
        auto ov = Object(v).convert<ObjectVector>();
        if (ov.size() != v.size()) { mc::fail("container", "vector to object vector: size"); return; }
        for (size_t i = 0; i < v.size(); i++) if (ov[i].type() != typeid(T) or not (ov[i].extract<T>() == T(v[i]))) { mc::fail("container", "vector to object vector: element"); return; }
        mc::check(Object(ov).convert<std::vector<T>>() == v, "container", "object vector to vector");
        auto pv = Object(v).convert<ProxyVector>(); mc::check(pv.size() == v.size() and Object(pv).convert<std::vector<T>>() == v, "container", "vector via proxy vector");
        std::vector<std::vector<T>> mat = {v, {}, v}; mc::check(Object(Object(mat).convert<ObjectVector>()).convert<std::vector<std::vector<T>>>() == mat, "container", "matrix round trip");
    }
    catch (const Exception &e) { mc::fail("container", e.displayText()); }
}
static void containers(void)
{
    switch (mc::choose(11, "type"))
    {
    case 0: container<int>({0, -5, 7}); break; case 1: container<unsigned char>({0, 200}); break; case 2: container<double>({0.5, -1e9}); break; case 3: container<std::string>({"", "a", std::string("\0b", 2)}); break;
    case 4: container<std::complex<float>>({CF(1, 2), CF(0, -1)}); break; case 5: container<unsigned long long>({0ull, ~0ull}); break; case 6: container<bool>({true, false}); break;
    case 7: container<char>({'a', '\0'}); break; case 8: container<short>({-32768, 3}); break; case 9: container<float>({0.25f, 3e30f}); break; default: container<long>({-1l, 1l<<62}); break;
    }
}
// mixed numbers into a typed vector: each element as the scalar conversion, or fail as a whole
static void mixed(void)
{
    static const std::vector<Object> pool = {Object(1), Object(300), Object(-1), Object(2.5), Object(1e10), Object("x"), Object(std::complex<double>(3, 1)), Object(true), Object(65u)};
    const int len = mc::choose(3, "len")+1; ObjectVector ov; for (int i = 0; i < len; i++) ov.push_back(pool[mc::choose(int(pool.size()), "e")]);
    mc::step(); mc::state(mc::Hash().add(len).h);
    auto as = [&](auto tag, const char *name)
    {
        typedef decltype(tag) T; std::vector<T> want; bool ok = true;
        for (auto &o : ov) try { want.push_back(o.convert<T>()); } catch (const Exception &) { ok = false; break; }
        for (int via = 0; via < 2; via++)
        {
            bool did = false; std::vector<T> got;
            try { got = via?Object(Object(ov).convert<ProxyVector>()).convert<std::vector<T>>():Object(ov).convert<std::vector<T>>(); did = true; } catch (const Exception &) {}
            mc::check(did == ok and (not did or got == want), "mixed", std::string("mixed objects to vector of ") + name);
        }
    };
    if (mc::fresh()) { as(0, "int"); as((unsigned char)0, "uchar"); as(0., "double"); as(CF(), "complex"); as(std::string(), "string"); }
    // object vector to itself through proxies: the same elements
    auto back = Object(Object(ov).convert<ProxyVector>()).convert<ObjectVector>();
    mc::check(back.size() == ov.size(), "mixed", "size"); for (size_t i = 0; i < ov.size() and not mc::failed(); i++) mc::check(back[i].type() == ov[i].type() and back[i].equals(ov[i]), "mixed", "element changed");
}
static void maps(void)
{
    static const std::vector<std::string> keys = {"a", "b", "", "ab"}; static const std::vector<Object> vals = {Object(1), Object("x"), Object(), Object(std::vector<int>(2, 3))};
    const int mask = mc::choose(16, "keys"), shift = mc::choose(4, "values"); mc::step(); mc::state(mc::Hash().add(mask).add(shift).h);
    ObjectKwargs kw; ObjectMap om; ObjectSet os; std::vector<std::string> ks;
    for (int i = 0; i < 4; i++) if (mask >> i & 1) { const Object &v = vals[(i+shift)%4]; kw[keys[i]] = v; om[Object(keys[i])] = v; os.insert(Object(keys[i])); ks.push_back(keys[i]); }
    try
    {
        auto same = [&](const ObjectKwargs &k) { if (k.size() != kw.size()) return false; auto i = k.begin(); for (auto &p : kw) { if (i->first != p.first or i->second.type() != p.second.type() or not (i->second == p.second)) return false; ++i; } return true; };
        auto m = Object(kw).convert<ObjectMap>(); mc::check(m.size() == kw.size(), "maps", "kwargs to object map: size");
        for (auto &p : kw) { auto it = m.find(Object(p.first)); mc::check(it != m.end() and it->second == p.second and it->first.type() == typeid(std::string), "maps", "kwargs to object map: entry"); if (mc::failed()) return; }
        mc::check(same(Object(m).convert<ObjectKwargs>()), "maps", "kwargs round trip"); mc::check(same(Object(om).convert<ObjectKwargs>()), "maps", "object map to kwargs");
        auto pm = Object(om).convert<ProxyMap>(); mc::check(pm.size() == om.size(), "maps", "object map to proxy map: size");
        auto om2 = Object(pm).convert<ObjectMap>(); mc::check(om2.size() == om.size(), "maps", "proxy map to object map: size");
        for (auto &p : om) { auto it = om2.find(p.first); mc::check(it != om2.end() and it->second == p.second, "maps", "proxy map round trip"); if (mc::failed()) return; }
        mc::check(same(Object(pm).convert<ObjectKwargs>()), "maps", "proxy map to kwargs");
        auto ps = Object(os).convert<ProxySet>(); auto os2 = Object(ps).convert<ObjectSet>(); mc::check(ps.size() == os.size() and os2.size() == os.size(), "maps", "set size");
        for (auto &o : os) mc::check(os2.count(o) == 1, "maps", "set element");
        bool allText = true; for (auto &p : kw) allText = allText and p.second.type() == typeid(std::string);
        typedef std::map<std::string, std::string> SM; bool did = false; SM sm; try { sm = Object(pm).convert<SM>(); did = true; } catch (const Exception &) {}
        mc::check(did == allText and (not did or sm.size() == kw.size()), "maps", "proxy map to text map");
    }
    catch (const Exception &e) { mc::fail("maps", e.displayText()); }
}

// ---- registering and removing conversions
struct TA { std::string t; }; struct TB { std::string t; }; struct TC { std::string t; };
template <typename A, typename B, char c> static B conv(const A &a) { return B{a.t + c}; }
struct Edge { int from, to; char mark; const char *name; Callable call; };
static const std::vector<Edge> &edges(void)
{
    static const std::vector<Edge> e = {{0, 1, 'x', "a_b", Callable(&conv<TA, TB, 'x'>)}, {1, 2, 'y', "b_c", Callable(&conv<TB, TC, 'y'>)}, {0, 2, 'z', "a_c", Callable(&conv<TA, TC, 'z'>)}, {2, 0, 'u', "c_a", Callable(&conv<TC, TA, 'u'>)}, {2, 1, 'v', "c_b", Callable(&conv<TC, TB, 'v'>)}};
    return e;
}
static const std::type_info &ty(int i) { return i == 0?typeid(TA):i == 1?typeid(TB):typeid(TC); }
static Object ob(int i) { return i == 0?Object(TA{"s"}):i == 1?Object(TB{"s"}):Object(TC{"s"}); }
static std::string tag(const Object &o) { if (o.type() == typeid(TA)) return o.extract<TA>().t; if (o.type() == typeid(TB)) return o.extract<TB>().t; return o.extract<TC>().t; }
static void registering(int depth)
{
    const auto &E = edges(); std::vector<bool> in(E.size(), false);
    const PluginPath base("/object/convert/mc");
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        const int e = mc::choose(int(E.size()), "edge"); const PluginPath p = base.join(E[e].name);
        if (mc::tracing()) mc::trace(std::string(in[e]?"remove ":"add ") + E[e].name);
        try { if (in[e]) PluginRegistry::remove(p); else PluginRegistry::add(p, E[e].call); in[e] = not in[e]; } catch (const Exception &ex) { mc::fail("registry", ex.displayText()); break; }
        mc::step();
        if (mc::fresh()) for (int rep = 0; rep < 2 and not mc::failed(); rep++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
        {
            std::set<std::string> ways;
            if (a == b) ways.insert("s");
            else
            {
                for (size_t i = 0; i < E.size(); i++) if (in[i] and E[i].from == a and E[i].to == b) ways.insert(std::string("s") + E[i].mark);
                if (ways.empty()) for (size_t i = 0; i < E.size(); i++) if (in[i] and E[i].from == a) for (size_t j = 0; j < E.size(); j++) if (in[j] and E[j].from == E[i].to and E[j].to == b) ways.insert(std::string("s") + E[i].mark + E[j].mark);
            }
            const Object o = ob(a);
            if (o.canConvert(ty(b)) != not ways.empty()) { mc::fail("support", "canConvert disagrees with the registered conversions"); break; }
            bool did = false; std::string got; try { got = tag(o.convert(ty(b))); did = true; } catch (const ObjectConvertError &) {} catch (const Exception &ex) { mc::fail("error-kind", ex.displayText()); break; }
            if (did != not ways.empty()) { mc::fail("support", did?"a conversion that is not registered was used":"a registered conversion was refused"); break; }
            if (did and not ways.count(got)) { mc::fail("path", "converted by " + got); break; }
        }
        mc::Hash h; for (bool x : in) h.add(x); mc::state(h.h);
        if (mc::failed()) break;
    }
    for (size_t i = 0; i < E.size(); i++) if (in[i]) try { PluginRegistry::remove(base.join(E[i].name)); } catch (const Exception &) {}
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; v.push_back(s); };
    add("numbers-all-pairs", numbers);
    add("number-vectors-all-pairs", numberVectors);
    add("complex-integers", complexInts);
    add("unsupported-pairs-twice", unsupported);
    add("text-and-bytes", text); add("every-byte", allBytes);
    add("typed-containers", containers); add("mixed-containers", mixed); add("maps-and-sets", maps);
    add("register-remove-sequences", [=]{ registering(thorough?7:5); });
    return v;
}
