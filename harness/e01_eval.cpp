// E01: expressions evaluate to what arithmetic and nesting give, or fail; all short texts, all small trees, all constant histories.
#include <mc.hpp>
#include <Pothos/Util/EvalEnvironment.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Proxy.hpp>
#include <complex>
#include <map>
#include <memory>
using namespace Pothos;
typedef Util::EvalEnvironment Env;

// ---- reference values and parser -----------------------------------------------------------
struct V { char k = 'n'; double n = 0; std::string s; std::vector<V> l; std::vector<std::pair<V, V>> m; };
static V num(double d) { V v; v.n = d; return v; }
static V str(const std::string &s) { V v; v.k = 's'; v.s = s; return v; }
static V boolean(bool b) { V v; v.k = 'b'; v.n = b; return v; }
static std::string show(const V &v)
{
    if (v.k == 'n') return std::to_string(v.n);
    if (v.k == 'b') return v.n?"true":"false";
    if (v.k == 's') return "'" + v.s + "'";
    std::string t = v.k == 'l'?"[":"{"; for (auto &e : v.l) t += show(e) + ","; for (auto &p : v.m) t += show(p.first) + ":" + show(p.second) + ","; return t + (v.k == 'l'?"]":"}");
}
static bool same(const V &v, const Object &o)
{
    if (v.k == 's') return o.type() == typeid(std::string) and o.extract<std::string>() == v.s;
    if (v.k == 'b') return o.type() == typeid(bool) and o.extract<bool>() == (v.n != 0);
    if (v.k == 'n') { if (o.type() == typeid(bool) or o.type() == typeid(std::string)) return false; try { return o.convert<double>() == v.n; } catch (const Exception &) { return false; } }
    if (v.k == 'l')
    {
        if (o.type() != typeid(ProxyVector)) return false;
        const auto &p = o.extract<ProxyVector>(); if (p.size() != v.l.size()) return false;
        for (size_t i = 0; i < p.size(); i++) if (not same(v.l[i], p[i].toObject())) return false;
        return true;
    }
    if (o.type() != typeid(ProxyMap)) return false;
    const auto &p = o.extract<ProxyMap>(); if (p.size() != v.m.size()) return false;
    for (auto &e : v.m) { bool found = false; for (auto &q : p) if (same(e.first, q.first.toObject())) { if (found or not same(e.second, q.second.toObject())) return false; found = true; } if (not found) return false; }
    return true;
}
// MUST: the text has this value; MAY: it has this value or is refused (empty fields); FAIL: it has to be refused; ANY: not stated
enum Verdict { MUST, MAY, FAIL, ANY };
struct Ref
{
    const std::string &t; size_t p = 0; bool any = false, lenient = false; const std::map<std::string, V> &consts;
    struct Bad {};
    Ref(const std::string &s, const std::map<std::string, V> &c): t(s), consts(c) {}
    void ws(void) { while (p < t.size() and t[p] == ' ') p++; }
    char at(void) { ws(); return p < t.size()?t[p]:'\0'; }
    void need(char c) { if (at() != c) throw Bad(); p++; }
    V expr(void)
    {
        V a = term();
        while (at() == '+' or at() == '-') { const char op = t[p++]; const V b = term(); a = add(a, b, op); }
        return a;
    }
    V add(const V &a, const V &b, char op)
    {
        if (a.k == 'n' and b.k == 'n') return num(op == '+'?a.n+b.n:a.n-b.n);
        if (a.k == 'l' and b.k == 'l' and a.l.size() == b.l.size() and not a.l.empty()) { V r; r.k = 'l'; for (size_t i = 0; i < a.l.size(); i++) r.l.push_back(add(a.l[i], b.l[i], op)); return r; }
        any = true; return a;
    }
    V term(void)
    {
        V a = unary();
        while (at() == '*') { p++; const V b = unary(); if (a.k == 'n' and b.k == 'n') a = num(a.n*b.n); else any = true; }
        return a;
    }
    V neg(V a) { if (a.k == 'n') a.n = -a.n; else any = true; return a; }
    V unary(void)
    {
        if (at() == '-') { p++; if (at() == '-') any = true; return neg(unary()); }
        if (at() == '+') { any = true; p++; return unary(); }
        return primary();
    }
    V primary(void)
    {
        const char c = at();
        if (c == '(') { p++; V v = expr(); need(')'); return v; }
        if (c == '[')
        {
            p++; V v; v.k = 'l';
            while (true) { if (at() == ']') { p++; return v; } if (at() == ',') { lenient = true; p++; continue; } v.l.push_back(expr()); if (at() == ',') { p++; if (at() == ']') lenient = true; } else { need(']'); return v; } }
        }
        if (c == '{')
        {
            p++; V v; v.k = 'm';
            while (true)
            {
                if (at() == '}') { p++; return v; }
                if (at() == ',') { lenient = true; p++; continue; }
                while (at() == ':') { lenient = true; p++; }
                V k = expr(); need(':'); while (at() == ':') { lenient = true; p++; } V e = expr(); while (at() == ':') { lenient = true; p++; }
                if (k.k == 'l' or k.k == 'm') any = true;
                for (auto &q : v.m) if (show(q.first) == show(k)) any = true; // which of two equal keys wins is not stated
                v.m.emplace_back(k, e);
                if (at() == ',') { p++; if (at() == '}') lenient = true; } else { need('}'); return v; }
            }
        }
        if (c == '"')
        {
            p++; std::string s;
            while (true)
            {
                if (p >= t.size()) throw Bad();
                if (t[p] == '"') { p++; return str(s); }
                if (t[p] == '\\') { p++; if (p >= t.size()) throw Bad(); if (t[p] != '"' and t[p] != '\\') any = true; }
                s += t[p++];
            }
        }
        if (c >= '0' and c <= '9')
        {
            double d = 0; if (c == '0' and p + 1 < t.size() and t[p+1] == 'o') { p += 2; if (p >= t.size() or t[p] < '0' or t[p] > '7') throw Bad(); while (p < t.size() and t[p] >= '0' and t[p] <= '7') d = d*8 + (t[p++]-'0'); if (d > 4294967295.0) any = true; }
            else while (p < t.size() and t[p] >= '0' and t[p] <= '9') d = d*10 + (t[p++]-'0');
            if (p < t.size() and (isalnum(t[p]) or t[p] == '_')) throw Bad();
            return num(d);
        }
        if (isalpha(c) or c == '_')
        {
            std::string n; while (p < t.size() and (isalnum(t[p]) or t[p] == '_')) n += t[p++];
            auto it = consts.find(n); if (it == consts.end()) throw Bad();
            return it->second;
        }
        throw Bad();
    }
    Verdict run(V &v)
    {
        try { v = expr(); if (at() != '\0') throw Bad(); } catch (const Bad &) { return FAIL; }
        return any?ANY:lenient?MAY:MUST;
    }
};
// evaluate a text and judge it
static void judge(Env &env, const std::string &text, const std::map<std::string, V> &consts)
{
    Ref ref(text, consts); V want; Verdict v = ref.run(want);
    // where something is not stated only the balance of brackets and quotes counts
    if (v == FAIL and ref.any) { v = ANY; int depth = 0; bool quote = false; std::string st; for (size_t i = 0; i < text.size(); i++) { const char c = text[i]; if (quote) { if (c == '\\') i++; else if (c == '"') quote = false; continue; } if (c == '"') quote = true; else if (c == '(' or c == '[' or c == '{') st += c; else if (c == ')' or c == ']' or c == '}') { const char o = c == ')'?'(':c == ']'?'[':'{'; if (st.empty() or st.back() != o) { v = FAIL; break; } st.pop_back(); } } if (quote or not st.empty()) v = FAIL; (void)depth; }
    mc::step(); mc::state(mc::Hash().add(text).h);
    int got = 0; Object o; std::string err;
    try { o = env.eval(text); got = 1; } catch (const Exception &e) { err = e.displayText(); } catch (const std::exception &e) { mc::fail("error-kind", "<" + text + "> ends in another exception: " + e.what()); return; }
    if (mc::tracing()) mc::trace("<" + text + "> gives " + (got?o.toString():"error " + err));
    if (v == MUST and not got) mc::fail("refused", "<" + text + "> was refused: " + err);
    else if ((v == MUST or (v == MAY and got)) and not same(want, o)) mc::fail("value", "<" + text + "> gives " + o.toString() + " instead of " + show(want));
    else if (v == FAIL and got) mc::fail("accepted", "malformed <" + text + "> gives " + o.toString());
}
static std::map<std::string, V> xOnly(void) { std::map<std::string, V> c; c["x"] = num(3); return c; }
static std::shared_ptr<Env> envX(void) { static std::shared_ptr<Env> e; if (not e) { e = Env::make(); e->registerConstantExpr("x", "3"); } return e; }
static void texts(const std::vector<std::string> &alphabet, int len)
{
    std::string t; const int n = mc::choose(len, "length") + 1;
    for (int i = 0; i < n; i++) t += alphabet[mc::choose(int(alphabet.size()), "piece")];
    // the reference does not know how blanks split words and numbers; a blank between them makes the text malformed
    static const auto c = xOnly();
    judge(*envX(), t, c);
}
// ---- well-formed trees ---------------------------------------------------------------------
static std::string tree(int depth, bool inExpr)
{
    static const char *leaf[] = {"1", "x", "\"a\"", "\"\\\\\"", "\"],\\\"}\""};
    const int k = depth == 0?mc::choose(5, "leaf"):mc::choose(10, "kind");
    if (k < 5) return leaf[k];
    const std::string sp = mc::choose(2, "space")?" ":"";
    if (k == 5) return "(" + sp + tree(depth-1, true) + sp + ")";
    if (k == 6) { const std::string a = tree(depth-1, true); return a + sp + "+" + sp + tree(depth-1, true); }
    if (k == 7) return "[" + sp + tree(depth-1, false) + sp + "," + sp + tree(depth-1, false) + sp + "]";
    if (k == 8) return "[" + sp + tree(depth-1, false) + sp + "]";
    return "{" + sp + tree(0, false) + sp + ":" + sp + tree(depth-1, false) + sp + "}";
    (void)inExpr;
}
static void trees(int depth) { const std::string t = tree(depth, false); static const auto c = xOnly(); judge(*envX(), t, c); }
// ---- numbers -------------------------------------------------------------------------------
static void numbers(int len)
{
    // digits in all notations, alone, in a sum and in a list
    static const char *prefix[] = {"", "0x", "0o", "-", "0o1", "1e", "0.", "12.", "1.5e-"}; static const char digit[] = "0189afABCo-. ";
    const int p = mc::choose(9, "prefix"); std::string t = prefix[p]; const int n = 1 + mc::choose(len, "length");
    for (int i = 0; i < n; i++) t += digit[mc::choose(int(sizeof digit - 1), "digit")];
    mc::state(mc::Hash().add(t).h); mc::step();
    double want = 0; bool must = false, octal = t.compare(0, 2, "0o") == 0; size_t used = 0;
    std::string body = t;
    if (octal) { must = true; for (size_t i = 2; i < t.size(); i++) { if (t[i] < '0' or t[i] > '7') must = false; want = want*8 + (t[i]-'0'); } if (t.size() == 2) must = false; }
    else if (t.compare(0, 2, "0x") == 0) { must = true; for (size_t i = 2; i < t.size(); i++) if (not isxdigit(t[i])) must = false; if (must) want = double(std::stoull(t.substr(2), nullptr, 16)); if (t.size() == 2) must = false; }
    else { bool plain = true; for (size_t i = 0; i < t.size(); i++) if (not isdigit(t[i]) and t[i] != '.' and not (t[i] == '-' and (i == 0 or t[i-1] == 'e')) and t[i] != 'e') plain = false; if (plain) { try { want = std::stod(t, &used); must = used == t.size() and t.back() != '.' and t[0] != '.'; } catch (...) { must = false; } } }
    Env &env = *envX();
    for (const std::string &f : {std::string("%"), std::string("% + 1"), std::string("%+1"), std::string("[%,7]"), std::string("(%)")})
    {
        std::string e = f; e.replace(e.find('%'), 1, t); int got = 0; Object o; std::string err;
        try { o = env.eval(e); got = 1; } catch (const Exception &x) { err = x.displayText(); } catch (const std::exception &x) { mc::fail("error-kind", "<" + e + ">: " + x.what()); return; }
        const double w = f.find('+') != std::string::npos?want + 1:want;
        if (must)
        {
            if (not got) { mc::fail("number", "<" + e + "> was refused: " + err); return; }
            const Object r = f[0] == '['?o.extract<ProxyVector>().at(0).toObject():o;
            if (r.convert<double>() != w) { mc::fail("number", "<" + e + "> gives " + o.toString()); return; }
        }
        else if (octal and got and t.find_first_not_of("01234567", 2) != std::string::npos and t.find_first_of("-+ ") == std::string::npos and t.back() != '.') { mc::fail("number", "malformed octal number <" + e + "> gives " + o.toString()); return; }
        else if (octal and got and t.size() > 2 and (t[2] < '0' or t[2] > '7')) { mc::fail("number", "malformed octal number <" + e + "> gives " + o.toString()); return; }
    }
}
// ---- constants -----------------------------------------------------------------------------
static void constants(int depth)
{
    auto env = Env::make(); std::map<std::string, V> c;
    static const char *key[] = {"a", "bb"};
    static const char *expr[] = {"1", "\"t\"", "[1,[2]]", "a+1", "bb", "{1:[a]}", "[a,bb]", "1+", "]", "nosuch", "[1]+[[2]+[4]]", "[[1]+[2]]+[[3]]"};
    for (int d = 0; d < depth and not mc::failed(); d++)
    {
        mc::Hash h; for (auto &p : c) h.add(p.first).add(show(p.second));
        if (not mc::visit(h.h, depth - d)) return;
        const int op = mc::choose(2*12 + 2*4 + 2 + 3, "op"); mc::step();
        if (op < 24)
        {
            const std::string k = key[op / 12], e = expr[op % 12]; Ref ref(e, c); V v; const Verdict w = ref.run(v); if (w == ANY or w == MAY) return;
            if (mc::tracing()) mc::trace("register " + k + " as " + e);
            int got = 0; std::string err; try { env->registerConstantExpr(k, e); got = 1; } catch (const Exception &x) { err = x.displayText(); }
            mc::check(got == int(w == MUST), "register", "registering " + k + " as " + e + (got?" worked":" failed: " + err));
            if (got) { if (show(v).size() > 60) return; c[k] = v; }
        }
        else if (op < 32)
        {
            const std::string k = key[(op-24) / 4]; const int w = (op-24) % 4; struct Plain { int x; };
            V l; l.k = 'l'; l.l = {num(5), str("u")}; const V vals[] = {num(2.5), boolean(true), l};
            const Object objs[] = {Object(2.5f), Object(true), Object(ObjectVector{Object((short)5), Object("u")}), Object(Plain{1})};
            if (mc::tracing()) mc::trace("register " + k + " as object " + objs[w].toString());
            int got = 0; try { env->registerConstantObj(k, objs[w]); got = 1; } catch (const Exception &) {}
            mc::check(got == int(w < 3), "register-object", "registering an object"); if (got) c[k] = vals[w];
        }
        else if (op < 34) { if (mc::tracing()) mc::trace(std::string("unregister ") + key[op-32]); env->unregisterConstant(key[op-32]); c.erase(key[op-32]); }
        else
        {
            static const char *bad[] = {"", "1a", "a b"}; int got = 0;
            try { env->registerConstantExpr(bad[op-34], "1"); got = 1; } catch (const Exception &) {}
            mc::check(got == 0, "bad-name", std::string("registered a constant named <") + bad[op-34] + ">");
        }
        for (const char *e : {"a", "bb", "a+bb", "[a, bb]", "{\"k\":a}", "([a])", "aa", "[[a],[1]+[2]]"}) if (not mc::failed()) judge(*env, e, c);
    }
}
// ---- objects registered as constants come back -----------------------------------------------
static void objects(void)
{
    struct Item { Object o; V v; }; static std::vector<Item> pool;
    if (pool.empty())
    {
        auto put = [&](const Object &o, const V &v) { pool.push_back(Item{o, v}); };
        for (int n : {0, 1, -1, 127, -128}) { put(Object((signed char)n), num(n)); put(Object((short)n), num(n)); put(Object(n), num(n)); put(Object((long)n), num(n)); put(Object((long long)n), num(n)); put(Object((float)n), num(n)); put(Object((double)n/4), num(n/4.)); if (n >= 0) { put(Object((unsigned char)n), num(n)); put(Object((unsigned short)n), num(n)); put(Object((unsigned)n), num(n)); put(Object((unsigned long)n), num(n)); put(Object((unsigned long long)n), num(n)); } }
        put(Object(2147483647), num(2147483647)); put(Object((long long)-2147483649ll), num(-2147483649.)); put(Object(4294967295u), num(4294967295.)); put(Object((long long)9007199254740991ll), num(9007199254740991.)); put(Object((unsigned long long)9007199254740991ull), num(9007199254740991.));
        put(Object(true), boolean(true)); put(Object(false), boolean(false));
        for (const char *s : {"", "a", "\"", "\\", "[1,2]", "a\nb"}) put(Object(s), str(s));
        V l; l.k = 'l'; put(Object(ObjectVector()), l); l.l = {num(1)}; put(Object(std::vector<int>{1}), l); put(Object(ObjectVector{Object(1)}), l); l.l = {num(1), str("b")}; put(Object(ObjectVector{Object(1), Object("b")}), l);
        V n; n.k = 'l'; n.l = {l, num(7), V(l)}; put(Object(ObjectVector{Object(ObjectVector{Object(1), Object("b")}), Object(7), Object(ObjectVector{Object(1), Object("b")})}), n);
        V m; m.k = 'm'; put(Object(ObjectMap()), m); ObjectMap om; om[Object("k")] = Object(3); m.m = {{str("k"), num(3)}}; put(Object(om), m); om[Object("j")] = Object(ObjectVector{Object(1), Object("b")}); m.m.emplace_back(str("j"), l); put(Object(om), m);
        ObjectMap o2; o2[Object(1)] = Object(om); V m2; m2.k = 'm'; m2.m = {{num(1), m}}; put(Object(o2), m2);
    }
    const int i = mc::choose(int(pool.size()), "object"), how = mc::choose(5, "use"); mc::step(); mc::state(mc::Hash().add(i).add(how).h);
    const Item &it = pool[i]; auto env = Env::make(); env->registerConstantObj("obj", it.o);
    static const char *use[] = {"obj", "[obj]", "(obj)", "{1:obj}", "[[obj],obj]"}; const V &v = it.v; V w, x;
    if (how == 0 or how == 2) w = v; else if (how == 1) { w.k = 'l'; w.l = {v}; } else if (how == 3) { w.k = 'm'; w.m = {{num(1), v}}; } else { x.k = 'l'; x.l = {v}; w.k = 'l'; w.l = {x, v}; }
    const Object r = env->eval(use[how]);
    mc::check(same(w, r), "object", it.o.toString() + " of type " + it.o.getTypeString() + " registered as k: " + use[how] + " gives " + r.toString());
}
std::vector<mc::Scenario> mc::scenarios(bool t)
{
    std::vector<Scenario> s;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario c; c.name = n; c.body = f; s.push_back(c); };
    add("characters", [t]{ texts({"1", "2", "+", "-", "*", "(", ")", "[", "]", "{", "}", ",", ":", "\"", "x", " ", "\\"}, t?5:4); });
    add("pieces", [t]{ texts({"[1", "]", "[", "{1:", "}", "(", ")", "+", ",", "\"a\"", "\"\\\\\"", " ", "x", "[2]", "\"]\"", ":"}, t?6:5); });
    add("trees", [t]{ trees(t?3:2); });
    add("numbers", [t]{ numbers(t?4:3); });
    add("constants", [t]{ constants(t?4:3); });
    add("objects", []{ objects(); });
    return s;
}
