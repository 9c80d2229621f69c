// D02: converting, splitting and joining buffers keeps every element. All pairs of element types and of vector lengths,
// all boundary values at every position, all element counts, through all four calls; all short append histories.
#include "blk.hpp"
#include <Pothos/Framework/Exception.hpp>
#include <complex>
#include <cmath>
#include <limits>
#include <set>
using namespace Pothos;

// the SIMD sources are not part of this build: stand-ins with the documented meaning (element-wise cast)
template <typename I, typename O> struct Cast { static O go(const I &i) { return O(i); } };
template <typename I, typename O> struct Cast<std::complex<I>, std::complex<O>> { static std::complex<O> go(const std::complex<I> &i) { return std::complex<O>(O(i.real()), O(i.imag())); } };
template <typename I, typename O> void simdConvertBuffer(const void *in, void *out, size_t n) { for (size_t k = 0; k < n; k++) ((O *)out)[k] = Cast<I, O>::go(((const I *)in)[k]); }
#define INST(A, B) template void simdConvertBuffer<A, B>(const void *, void *, size_t); template void simdConvertBuffer<std::complex<A>, std::complex<B>>(const void *, void *, size_t);
#define ROW(A) INST(A, int8_t) INST(A, uint8_t) INST(A, int16_t) INST(A, uint16_t) INST(A, int32_t) INST(A, uint32_t) INST(A, int64_t) INST(A, uint64_t) INST(A, float) INST(A, double)
ROW(int8_t) ROW(uint8_t) ROW(int16_t) ROW(uint16_t) ROW(int32_t) ROW(uint32_t) ROW(int64_t) ROW(uint64_t) ROW(float) ROW(double)

typedef long double LD;
struct El { const char *name; size_t size; bool isInt, isSigned; };
static const El ELS[] = {{"int8", 1, true, true}, {"uint8", 1, true, false}, {"int16", 2, true, true}, {"uint16", 2, true, false}, {"int32", 4, true, true}, {"uint32", 4, true, false},
    {"int64", 8, true, true}, {"uint64", 8, true, false}, {"float32", 4, false, true}, {"float64", 8, false, true}};
static const int NEL = 10;
static LD getv(const void *p, int e)
{
    switch (e) { case 0: return *(const int8_t *)p; case 1: return *(const uint8_t *)p; case 2: return *(const int16_t *)p; case 3: return *(const uint16_t *)p; case 4: return *(const int32_t *)p;
    case 5: return *(const uint32_t *)p; case 6: return *(const int64_t *)p; case 7: return *(const uint64_t *)p; case 8: return *(const float *)p; default: return *(const double *)p; }
}
static void putv(void *p, int e, LD v)
{
    switch (e) { case 0: *(int8_t *)p = int8_t(v); break; case 1: *(uint8_t *)p = uint8_t(v); break; case 2: *(int16_t *)p = int16_t(v); break; case 3: *(uint16_t *)p = uint16_t(v); break;
    case 4: *(int32_t *)p = int32_t(v); break; case 5: *(uint32_t *)p = uint32_t(v); break; case 6: *(int64_t *)p = int64_t(v); break; case 7: *(uint64_t *)p = uint64_t(v); break;
    case 8: *(float *)p = float(v); break; default: *(double *)p = double(v); }
}
static LD lo(int e) { return ELS[e].isInt?(ELS[e].isSigned?-std::ldexp((LD)1, int(8*ELS[e].size) - 1):0):(e == 8)?-(LD)std::numeric_limits<float>::max():-(LD)std::numeric_limits<double>::max(); }
static LD hi(int e) { return ELS[e].isInt?std::ldexp((LD)1, int(8*ELS[e].size) - (ELS[e].isSigned?1:0)) - 1:-lo(e); }
// what the value v of type i becomes as type o: the nearest value in a floating point type, truncated towards zero from
// a floating point type to an integer, modulo 2^bits between integers
static LD expect(LD v, int i, int o)
{
    if (not ELS[o].isInt) return (o == 8)?(LD)float(v):(LD)double(v);
    v = std::trunc(v);
    if (v >= lo(o) and v <= hi(o)) return v;
    const LD m = std::ldexp((LD)1, int(8*ELS[o].size));
    LD r = std::fmod(v, m); if (r < 0) r += m; if (r > hi(o)) r -= m;
    return r;
}
// the values of type i whose conversion to type o is defined by the language
static const std::vector<LD> &values(int i, int o)
{
    static std::vector<LD> cache[NEL][NEL];
    auto &g = cache[i][o];
    if (not g.empty()) return g;
    std::set<LD> s; auto put = [&](LD v) { s.insert(v); s.insert(-v); };
    for (LD v : {0.L, 1.L, 2.L, 3.L, 77.L, 100.L, 0.25L, 1.5L, 2.75L, 1e-3L, 123456.789L, 1e30L}) put(v);
    for (int b : {7, 8, 15, 16, 24, 31, 32, 53, 63, 64}) for (LD d : {-1.L, -0.5L, 0.L, 1.L}) put(std::ldexp((LD)1, b) + d);
    for (LD v : s)
    {
        if (ELS[i].isInt and v != std::trunc(v)) continue;
        if (v < lo(i) or v > hi(i)) continue;
        const LD in = (i == 8)?(LD)float(v):(i == 9)?(LD)double(v):v;  // as stored
        if (not ELS[i].isInt and ELS[o].isInt and (std::trunc(in) < lo(o) or std::trunc(in) > hi(o))) continue;
        if (not ELS[o].isInt and (in < lo(o) or in > hi(o))) continue;
        g.push_back(in);
    }
    return g;
}
static std::string num(LD v) { char b[64]; snprintf(b, sizeof b, "%.20Lg", v); return b; }
static DType type(int e, bool cpx, size_t dim) { return DType((cpx?"complex_":"") + std::string(ELS[e].name), dim); }

// a chunk of given type in the middle of a larger buffer, everything around it marked
struct Framed
{
    static const size_t BEFORE = 16, AFTER = 16;
    BufferChunk whole, chunk; std::string image;
    Framed(const DType &t, size_t elems): whole(BEFORE + t.size()*elems + AFTER), chunk(whole)
    {
        for (size_t k = 0; k < whole.length; k++) whole.as<unsigned char *>()[k] = (unsigned char)(0xA5 ^ k);
        chunk.address += BEFORE; chunk.length = t.size()*elems; chunk.dtype = t;
        save();
    }
    void save(void) { image.assign(whole.as<const char *>(), whole.length); }
    // only the first n bytes of the chunk may have changed
    bool intact(size_t n = 0) const
    {
        const char *w = whole.as<const char *>();
        return std::memcmp(w, image.data(), BEFORE) == 0 and std::memcmp(w + BEFORE + n, image.data() + BEFORE + n, whole.length - BEFORE - n) == 0;
    }
};

static const size_t DIM[] = {1, 2, 3, 4};
// the calls: 0 convert(dtype), 1 convert(buffer), 2 convertComplex(dtype), 3 convertComplex(buffers)
static void conversions(int maxElems)
{
    const int i = mc::choose(NEL); const bool ci = mc::choose(2); const int o = mc::choose(NEL); const bool co = mc::choose(2);
    const size_t di = DIM[mc::choose(4)], dO = DIM[mc::choose(4)];
    const int call = mc::choose(4);
    const DType ti = type(i, ci, di), to = type(o, co, dO);
    const size_t ci1 = ci?2:1;
    const auto &vals = values(i, o);
    const bool possible = (call < 2)?not (ci and not co):(ci and not co);
    std::string where = ti.toString() + " to " + to.toString() + ((call < 2)?" by convert":" by convertComplex") + ((call % 2)?" into a buffer":"");
    for (size_t n = 0; n <= size_t(maxElems); n++) for (size_t ask = 0; ask <= n; ask++) for (size_t rot = 0; rot < ((n == size_t(maxElems) and ask == 0 and possible)?vals.size():1); rot++)
    {
        const size_t take = ask?ask:n, prim = take*di, outE = prim/dO; const bool fits = (prim % dO) == 0;
        Framed in(ti, n); size_t at = rot;
        for (size_t k = 0; k < n*di*ci1; k++) putv(in.chunk.as<char *>() + k*ELS[i].size, i, vals[at++ % vals.size()]);
        in.save();
        auto v = [&](size_t k, bool im) { return vals[(rot + k*ci1 + (im?1:0)) % vals.size()]; };
        std::string what = where + ", " + std::to_string(ask) + " of " + std::to_string(n) + " elements";
        if (mc::tracing() and rot == 0) mc::trace(what);
        mc::step();
        auto bad = [&](const char *k, const std::string &s) { if (not mc::failed()) mc::fail(k, what + ": " + s); };
        // element k (counted in scalars) of the result
        auto scalar = [&](const BufferChunk &c, size_t k, bool im, LD want)
        {
            const size_t w = c.dtype.isComplex()?2:1;
            const LD got = getv(c.as<const char *>() + (k*w + (im?1:0))*ELS[o].size, o);
            if (got != want) bad("value", "scalar " + std::to_string(k) + (im?" (imaginary)":"") + " is " + num(got) + ", expected " + num(want));
        };
        auto contents = [&](const BufferChunk &c, int part) // part: 0 everything, 1 real part only, 2 imaginary part only
        {
            for (size_t k = 0; k < prim and not mc::failed(); k++)
            {
                if (part == 1) scalar(c, k, false, expect(v(k, false), i, o));
                else if (part == 2) scalar(c, k, false, expect(v(k, true), i, o));
                else { scalar(c, k, false, expect(v(k, false), i, o)); if (co) scalar(c, k, true, ci?expect(v(k, true), i, o):0); }
            }
        };
        auto shape = [&](const BufferChunk &c)
        {
            if (c.dtype != to) bad("type", "the result has type " + c.dtype.toString());
            if (c.length != outE*to.size() or c.elements() != outE) bad("length", "the result has " + std::to_string(c.elements()) + " elements in " + std::to_string(c.length) + " bytes, expected " + std::to_string(outE));
            return not mc::failed();
        };
        if (call % 2 == 0)
        {
            bool threw = false;
            try
            {
                if (call == 0)
                {
                    BufferChunk r = in.chunk.convert(to, ask);
                    if (possible and fits and shape(r)) { contents(r, 0); if (not in.intact()) bad("input", "the input was changed"); BufferChunk keep = r; r.clear(); in.chunk.clear(); std::string().swap(in.image); in.whole.clear(); contents(keep, 0); continue; }
                }
                else
                {
                    auto r = in.chunk.convertComplex(to, ask);
                    if (possible and fits and shape(r.first) and shape(r.second)) { contents(r.first, 1); contents(r.second, 2); }
                }
            }
            catch (const BufferConvertError &) { threw = true; }
            if (not possible and not threw) bad("not-possible", "no error");
            if (possible and fits and threw) bad("rejected", "an error");
            if (not fits and not threw) bad("not-possible", "no error although the scalars do not fill whole elements");
            if (not in.intact()) bad("input", "the input was changed");
        }
        else
        {
            // outputs: too small by one element, exact, larger; the second output (for parts) gets the other size
            for (int extra = -1; extra <= 1 and not mc::failed(); extra++) for (int which = 0; which < ((call == 3)?2:1); which++)
            {
                if (extra < 0 and (outE == 0 or not fits)) continue;
                const size_t have = size_t(long(outE) + extra + (fits?0:1));
                Framed a(to, (which == 0)?have:outE + 1), b(to, (which == 0)?outE + 1:have);
                bool threw = false; size_t r = 0;
                try { r = (call == 1)?in.chunk.convert(a.chunk, ask):in.chunk.convertComplex(a.chunk, b.chunk, ask); }
                catch (const BufferConvertError &) { threw = true; }
                if (not in.intact()) bad("input", "the input was changed");
                const bool ok = possible and fits and extra >= 0;
                const size_t wrote = ok?outE*to.size():0;
                if (threw == ok) bad(ok?"rejected":"not-possible", std::string(ok?"an error":"no error") + " with room for " + std::to_string(have) + " elements");
                if (not a.intact(wrote) or not b.intact((call == 3)?wrote:0)) bad("outside", "memory outside of the result was changed");
                if (not ok or mc::failed()) continue;
                if (r != outE) bad("count", "reports " + std::to_string(r) + " elements, expected " + std::to_string(outE));
                if (call == 1) contents(a.chunk, 0); else { contents(a.chunk, 1); contents(b.chunk, 2); }
            }
        }
        if (mc::failed()) return;
    }
    mc::state(mc::Hash().add(i).add(int(ci)).add(o).add(int(co)).add(int(di)).add(int(dO)).add(call).h);
}
// the parts go to buffers of one type; types without a conversion are refused by every call and nothing is written
static void refused(void)
{
    const int call = mc::choose(4), a = mc::choose(NEL*2), b = mc::choose(NEL*2), odd = mc::choose(4), side = mc::choose(3);
    const DType odds[] = {DType(), DType("custom"), DType("custom", 4), DType("custom", 8)};
    const DType x = type(a % NEL, a >= NEL, 1), y = type(b % NEL, b >= NEL, 1);
    if (side < 2 and b != 0) return;       // one type is enough there
    if (side == 2 and (call != 3 or odd != 0 or x == y)) return;
    Framed in(side == 1?odds[odd]:type(0, false, 1), 4); if (side == 0) { in.chunk.dtype = x; in.chunk.length = x.size(); }
    if (side == 2) { in.chunk.dtype = type(a % NEL, true, 1); in.chunk.length = 0; }
    const DType out = (side == 0)?odds[odd]:x;
    Framed r(out, 16), s((side == 2)?y:out, 16);
    if (mc::tracing()) mc::trace(in.chunk.dtype.toString() + " to " + out.toString() + " / " + s.chunk.dtype.toString() + " call " + std::to_string(call));
    bool threw = false;
    try
    {
        if (call == 0) in.chunk.convert(out); else if (call == 1) in.chunk.convert(r.chunk);
        else if (call == 2) in.chunk.convertComplex(out); else in.chunk.convertComplex(r.chunk, s.chunk);
    }
    catch (const BufferConvertError &) { threw = true; }
    mc::step(); mc::state(mc::Hash().add(call).add(a).add(b).add(odd).add(side).h);
    const std::string what = in.chunk.dtype.toString() + " to " + out.toString() + ((side == 2)?" and " + y.toString():std::string()) + " by call " + std::to_string(call);
    if (not threw) mc::fail("not-possible", what + ": no error");
    if (not in.intact() or not r.intact() or not s.intact()) mc::fail("outside", what + ": memory was changed");
}
// appending: two destinations, all sources
static void appends(int depth)
{
    struct M { std::string bytes; DType t; bool null = true; };
    unsigned char stamp = 1;
    auto fill = [&](BufferChunk &c) { for (size_t k = 0; k < c.length; k++) c.as<unsigned char *>()[k] = stamp++ % 251; };
    auto mod = [](const BufferChunk &c) { M m; m.null = not c; m.t = c.dtype; m.bytes.assign(c.as<const char *>(), c.length); return m; };
    std::vector<BufferChunk> src; std::vector<M> model;
    { BufferChunk c("int16", 3); fill(c); src.push_back(c); BufferChunk d = c; d.address += 2; d.length = 2; src.push_back(d); }
    { BufferChunk c("float32", 2); fill(c); src.push_back(c); }
    { BufferChunk c("int8", 4); fill(c); c.length = 0; src.push_back(c); }
    // a piece that wraps around the end of a circular buffer, and one that spans consecutive buffers of a slab
    auto circ = SharedBuffer::makeCirc(4096);
    { BufferChunk c(circ); c.dtype = DType("int8"); c.address += circ.getLength() - 3; c.length = 7; fill(c); src.push_back(c); }
    auto mgr = makeManager("generic", 3, 4); BufferAccumulator acc;
    for (int k = 0; k < 3; k++) { auto c = mgr->front(); mgr->pop(4); c.dtype = DType("int8"); acc.push(BufferChunk(c)); }
    acc.require(12); { auto c = acc.front(); fill(c); if (c.length > 6) { c.address += 1; c.length = 9; } src.push_back(c); }
    src.push_back(BufferChunk());
    for (auto &c : src) model.push_back(mod(c));
    BufferChunk d[2]; M m[2];
    const int ns = int(src.size());
    for (int step = 0; step < depth; step++)
    {
        const int to = (step == 0)?0:mc::choose(2), from = mc::choose(ns + 2);
        const M f = (from < ns)?model[from]:m[from - ns];
        if (mc::tracing()) mc::trace("append to " + std::to_string(to) + (from < ns?" source ":" destination ") + std::to_string(from < ns?from:from - ns));
        d[to].append((from < ns)?src[from]:d[from - ns]);
        if (m[to].null) m[to] = f; else m[to].bytes += f.bytes;
        mc::step();
        for (int k = 0; k < ns + 2; k++)
        {
            const M &w = (k < ns)?model[k]:m[k - ns]; const BufferChunk &c = (k < ns)?src[k]:d[k - ns];
            const std::string what = (k < ns)?"source " + std::to_string(k):"destination " + std::to_string(k - ns);
            if (bool(c) == w.null) mc::fail("null", what);
            else if (c.dtype != w.t) mc::fail("type", what + " has type " + c.dtype.toString() + ", expected " + w.t.toString());
            else if (c.length != w.bytes.size()) mc::fail("length", what + " has " + std::to_string(c.length) + " bytes, expected " + std::to_string(w.bytes.size()));
            else if (std::memcmp(c.as<const void *>(), w.bytes.data(), w.bytes.size()) != 0) mc::fail("contents", what + " has other contents");
            if (mc::failed()) return;
        }
        // writing to a joined buffer must not show up elsewhere: after the second append it has memory of its own
        mc::Hash h; h.add(step); for (int k = 0; k < 2; k++) h.add(m[k].bytes).add(m[k].t.toMarkup()).add(int(m[k].null)); mc::state(h.h);
    }
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { Scenario s; s.name = n; s.body = f; v.push_back(s); };
    for (int k = 1; k <= (thorough?9:4); k++) add("conversions-" + std::to_string(k), [k] { conversions(k); });
    add("refused", [] { refused(); });
    for (int k = 2; k <= (thorough?6:4); k++) add("appends-" + std::to_string(k), [k] { appends(k); });
    return v;
}
