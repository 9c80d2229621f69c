// D01: element types describe themselves unambiguously. Every alias, dimension, spelling and construction is enumerated.
#include <mc.hpp>
#include <Pothos/Framework/DType.hpp>
#include <Pothos/Framework/Exception.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Util/TypeInfo.hpp>
#include <Pothos/Archive.hpp>
#include <complex>
#include <cstdint>
#include <set>
#include <map>
#include <sstream>
using namespace Pothos;

struct Base { std::string name; size_t size; bool isFloat, isInt, isSigned, isComplex, isCustom, specified; std::vector<std::string> aliases; std::vector<const std::type_info *> types; };
static std::vector<Base> makeBases(void)
{
    std::vector<Base> v;
#define NUM(T, nm, fl, in, si, ...) { v.push_back(Base{nm, sizeof(T), fl, in, si, false, false, true, __VA_ARGS__}); }
#define CPX(T, nm, fl, in, si, ...) { v.push_back(Base{std::string("complex_") + nm, sizeof(std::complex<T>), fl, in, si, true, false, true, __VA_ARGS__}); }
    NUM(int8_t, "int8", false, true, true, std::vector<std::string>{"int8", "sint8", "char", "schar", "byte", "octet", "signed char"}, {&typeid(char), &typeid(signed char)});
    NUM(uint8_t, "uint8", false, true, false, std::vector<std::string>{"uint8", "uchar", "unsigned char"}, {&typeid(unsigned char)});
    NUM(int16_t, "int16", false, true, true, std::vector<std::string>{"int16", "sint16", "short", "sshort"}, {&typeid(short)});
    NUM(uint16_t, "uint16", false, true, false, std::vector<std::string>{"uint16", "ushort", "unsigned short"}, {&typeid(unsigned short)});
    NUM(int32_t, "int32", false, true, true, std::vector<std::string>{"int32", "sint32", "int", "sint"}, {&typeid(int)});
    NUM(uint32_t, "uint32", false, true, false, std::vector<std::string>{"uint32", "uint", "unsigned int"}, {&typeid(unsigned int)});
    NUM(int64_t, "int64", false, true, true, std::vector<std::string>{"int64", "sint64", "long", "slong", "long long", "slong long", "longlong", "slonglong", "llong", "sllong"}, {&typeid(long), &typeid(long long)});
    NUM(uint64_t, "uint64", false, true, false, std::vector<std::string>{"uint64", "ulong", "ulong long", "ulonglong", "ullong", "unsigned long", "unsigned long long"}, {&typeid(unsigned long), &typeid(unsigned long long)});
    NUM(float, "float32", true, false, false, std::vector<std::string>{"float32", "float"}, {&typeid(float)});
    NUM(double, "float64", true, false, false, std::vector<std::string>{"float64", "double"}, {&typeid(double)});
    CPX(int8_t, "int8", false, true, true, std::vector<std::string>{"complex_int8", "complex_sint8"}, {&typeid(std::complex<char>), &typeid(std::complex<signed char>)});
    CPX(uint8_t, "uint8", false, true, false, std::vector<std::string>{"complex_uint8"}, {&typeid(std::complex<unsigned char>)});
    CPX(int16_t, "int16", false, true, true, std::vector<std::string>{"complex_int16", "complex_sint16"}, {&typeid(std::complex<short>)});
    CPX(uint16_t, "uint16", false, true, false, std::vector<std::string>{"complex_uint16"}, {&typeid(std::complex<unsigned short>)});
    CPX(int32_t, "int32", false, true, true, std::vector<std::string>{"complex_int32", "complex_sint32"}, {&typeid(std::complex<int>)});
    CPX(uint32_t, "uint32", false, true, false, std::vector<std::string>{"complex_uint32"}, {&typeid(std::complex<unsigned>)});
    CPX(int64_t, "int64", false, true, true, std::vector<std::string>{"complex_int64", "complex_sint64"}, {&typeid(std::complex<long>), &typeid(std::complex<long long>)});
    CPX(uint64_t, "uint64", false, true, false, std::vector<std::string>{"complex_uint64"}, {&typeid(std::complex<unsigned long>), &typeid(std::complex<unsigned long long>)});
    CPX(float, "float32", true, false, false, std::vector<std::string>{"complex_float32", "complex64"}, {&typeid(std::complex<float>)});
    CPX(double, "float64", true, false, false, std::vector<std::string>{"complex_float64", "complex128"}, {&typeid(std::complex<double>)});
    v.push_back(Base{"custom", 1, false, false, false, false, true, true, {"custom"}, {}});
    v.push_back(Base{"unspecified", 1, false, false, false, false, false, false, {"", "unspecified"}, {}});
    return v;
}
static const std::vector<Base> &bases(void) { static const auto v = makeBases(); return v; }
static const size_t DIMS[] = {1, 0, 2, 3, 4, 7, 8, 10, 255, 256, 257, 65535, 65536, 1000003, 4294967295ull, 4294967296ull, 1ull << 58};
static const int nDims = sizeof(DIMS)/sizeof(DIMS[0]);

static std::string variant(const std::string &s, int v) // spelling variants that denote the same name
{
    std::string o = s;
    for (size_t i = 0; i < o.size(); i++) if (v == 1 or (v == 2 and i % 2 == 0) or (v == 3 and i == 0)) o[i] = char(toupper(o[i]));
    return o;
}
static void describe(const DType &t, const Base &b, size_t dim, const std::string &how)
{
    auto bad = [&](const std::string &s) { if (not mc::failed()) mc::fail("dtype-wrong", how + ": " + s); };
    if (t.name() != b.name) bad("name is " + t.name() + ", expected " + b.name);
    if (t.dimension() != dim) bad("dimension is " + std::to_string(t.dimension()) + ", expected " + std::to_string(dim));
    if (t.elemSize() != b.size) bad("element size is " + std::to_string(t.elemSize()) + ", expected " + std::to_string(b.size));
    if (t.size() != b.size*dim) bad("size is " + std::to_string(t.size()) + ", expected " + std::to_string(b.size*dim));
    if (t.isFloat() != b.isFloat or t.isInteger() != b.isInt or t.isSigned() != b.isSigned or t.isComplex() != b.isComplex or t.isCustom() != b.isCustom or bool(t) != b.specified) bad("the kind flags are wrong");
    mc::step(); mc::state(mc::Hash().add(how).h);
}
static void roundTrip(const DType &t, const std::string &how)
{
    try
    {
        const DType u(t.toMarkup());
        if (u != t or not (u == t) or u.toMarkup() != t.toMarkup() or u.toString() != t.toString() or u.elemType() != t.elemType()) mc::fail("markup", how + ": " + t.toMarkup() + " parses to " + u.toString());
        // the printed form is the name, followed by the dimension in brackets when there is something to say
        const auto s = t.toString();
        if (s.find(t.name()) != 0) mc::fail("to-string", how + ": printed as " + s);
        const auto br = s.find('[');
        const size_t d = (br == std::string::npos)?1:std::stoull(s.substr(br + 1));
        if (d != t.dimension() or (br != std::string::npos and (s.back() != ']' or br != t.name().size()))) mc::fail("to-string", how + ": printed as " + s);
        // through an opaque object, by text and by serialization
        Object o(t); if (o.extract<DType>() != t or o.toString() != s) mc::fail("object", how + ": object prints " + o.toString());
        std::stringstream ss; o.serialize(ss); Object p; p.deserialize(ss);
        if (p.extract<DType>() != t or p.extract<DType>().name() != t.name()) mc::fail("serialize", how);
    }
    catch (const Exception &ex) { mc::fail("markup", how + ": " + t.toMarkup() + ": " + ex.displayText()); }
}
static void one(void)
{
    const auto &B = bases();
    const Base &b = B[mc::choose(int(B.size()))]; const size_t dim = DIMS[mc::choose(nDims)];
    const int form = mc::choose(6);
    if (form < 5)
    {
        const std::string &al = b.aliases[mc::choose(int(b.aliases.size()))]; const int v = mc::choose(4);
        const std::string a = variant(al, v), D = std::to_string(dim);
        const std::string how = "\"" + a + "\" dimension " + D + " form " + std::to_string(form);
        if (mc::tracing()) mc::trace(how);
        try
        {
            DType t;
            switch (form)
            {
            case 0: if (dim != 1) return; t = DType(a); break;
            case 1: if (dim != 1) { t = DType((a + "," + D).c_str()); } else t = DType(a.c_str()); break;
            case 2: t = DType(a, dim); break;
            case 3: t = DType(" " + a + " ,  " + D + " "); break;
            case 4: t = DType::fromDType(DType(a, 5), dim); break;
            }
            describe(t, b, dim, how); roundTrip(t, how);
            if (t != DType(b.name, dim)) mc::fail("alias", how + " differs from " + b.name);
        }
        catch (const DTypeUnknownError &) { mc::fail("alias-rejected", how + " is rejected"); }
    }
    else
    {
        if (b.types.empty()) return;
        const auto &ty = *b.types[mc::choose(int(b.types.size()))];
        const std::string how = Util::typeInfoToString(ty) + " dimension " + std::to_string(dim);
        if (mc::tracing()) mc::trace(how);
        try
        {
            const DType t(ty, dim); describe(t, b, dim, how); roundTrip(t, how);
            if (t != DType(b.name, dim)) mc::fail("alias", how + " differs from " + b.name);
            if (dim == 1 and DType(ty) != t) mc::fail("alias", how + " differs without a dimension");
        }
        catch (const DTypeUnknownError &) { mc::fail("alias-rejected", how + " is rejected"); }
    }
}
static void pairs(void)
{
    const auto &B = bases(); const int nb = int(B.size());
    const int i = mc::choose(nb), j = mc::choose(nb), k = mc::choose(nDims), l = mc::choose(nDims);
    const DType s(B[i].name, DIMS[k]), t(B[j].name, DIMS[l]);
    const bool eq = (i == j and k == l);
    if (mc::tracing()) mc::trace(s.toMarkup() + " / " + t.toMarkup());
    mc::step(); mc::state(mc::Hash().add(i).add(j).add(k).add(l).h);
    if ((s == t) != eq or (s != t) == eq or (t == s) != eq) mc::fail("equality", s.toMarkup() + " and " + t.toMarkup() + " compare " + (eq?"different":"equal"));
    if ((s.toMarkup() == t.toMarkup()) != eq or (s.toString() == t.toString()) != eq) mc::fail("ambiguous", s.toMarkup() + " and " + t.toMarkup() + " print alike");
    const DType u = DType::fromDType(s, t.dimension());
    if (u.name() != s.name() or u.elemType() != s.elemType() or u.elemSize() != s.elemSize() or u.dimension() != t.dimension() or s.dimension() != DIMS[k]) mc::fail("from-dtype", s.toMarkup() + " with dimension " + std::to_string(t.dimension()) + " is " + u.toMarkup());
}
static std::set<std::string> known(void)
{
    std::set<std::string> k;
    for (auto &b : bases()) { for (auto &a : b.aliases) k.insert(a); for (auto t : b.types) { std::string n; for (char c : std::string(t->name())) n += char(tolower(c)); k.insert(n); k.insert(Util::typeInfoToString(*t)); } }
    return k;
}
static void rejected(const std::string &s)
{
    static const auto K = known();
    const auto b = s.find_first_not_of(' '), e = s.find_last_not_of(' ');
    if (K.count(s) or b == std::string::npos or K.count(s.substr(b, e - b + 1))) return;
    mc::step(); mc::state(mc::Hash().add(s).h);
    for (int form = 0; form < 3; form++)
    {
        try
        {
            DType t = (form == 0)?DType(s):(form == 1)?DType(s + ", 2"):DType(s, 2);
            if (mc::tracing()) mc::trace("\"" + s + "\"");
            mc::fail("unknown-accepted", "the unknown name \"" + s + "\" is accepted as " + t.toString()); return;
        }
        catch (const DTypeUnknownError &) {}
    }
}
static const std::string ALPHA = "abcdefghijklmnopqrstuvwxyz0123456789_ [";
static void words(int len)
{
    std::string s;
    for (int i = 0; i < 2; i++) s += ALPHA[mc::choose(int(ALPHA.size()))];
    const int n = len - 2; std::string w(n, ' ');
    std::vector<int> c(n, 0);
    while (not mc::failed())
    {
        for (int i = 0; i < n; i++) w[i] = ALPHA[c[i]];
        rejected(s + w);
        int i = 0; while (i < n and ++c[i] == int(ALPHA.size())) c[i++] = 0;
        if (i == n) break;
    }
}
static void edits(void)
{
    const auto &B = bases(); const Base &b = B[mc::choose(int(B.size()))];
    for (const auto &a : b.aliases)
    {
        for (size_t p = 0; p <= a.size() and not mc::failed(); p++)
        {
            if (p < a.size()) { rejected(a.substr(0, p) + a.substr(p + 1)); rejected(a.substr(0, p)); rejected(a.substr(p)); }
            for (char c : ALPHA) { rejected(a.substr(0, p) + c + a.substr(p)); if (p < a.size()) rejected(a.substr(0, p) + c + a.substr(p + 1)); }
        }
        rejected("complex_complex_" + a); if (a.find("complex") != 0 and a != "" and not DType(a).isCustom()) rejected("u" + std::string("u") + a);
    }
    // dimensions that cannot be read
    for (const char *d : {"", " ", "x", "[2]", ",", "two"})
    {
        try { DType t(b.name + "," + d); mc::fail("dimension-accepted", b.name + "," + d + " is accepted as " + t.toString()); } catch (const DTypeUnknownError &) {}
    }
    for (auto t : {&typeid(void), &typeid(bool), &typeid(long double), &typeid(std::string), &typeid(wchar_t), &typeid(std::complex<long double>), &typeid(char *), &typeid(std::vector<int>)})
    {
        try { DType d(*t); mc::fail("type-accepted", std::string(t->name()) + " is accepted"); } catch (const DTypeUnknownError &) {}
    }
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario s; s.name = n; s.body = f; v.push_back(s); };
    add("descriptions", one); add("pairs", pairs); add("edited-names", edits);
    add("words-2", [] { words(2); }); add("words-3", [] { words(3); });
    if (thorough) add("words-4", [] { words(4); });
    return v;
}
