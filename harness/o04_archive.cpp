// O04: every supported value survives serialization, values can be concatenated, and input that ends early is an error.
#include <mc.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Object/Exception.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Archive.hpp>
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/Packet.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/System.hpp>
#include <Remote/RemoteProxyDatagram.hpp>
#include <complex>
#include <cmath>
#include <cstring>
#include <limits>
#include <set>
#include <sstream>
using namespace Pothos;

// ---- equality of everything that can be stored
static bool same(const Object &a, const Object &b);
template <typename T> static bool sameT(const T &a, const T &b) { return a == b; }
static bool sameT(const float &a, const float &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static bool sameT(const double &a, const double &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <typename T> static bool sameT(const std::complex<T> &a, const std::complex<T> &b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static bool sameT(const Object &a, const Object &b) { return same(a, b); }
static bool sameT(const Label &a, const Label &b) { return a.id == b.id and a.index == b.index and a.width == b.width and same(a.data, b.data); }
static bool sameT(const BufferChunk &a, const BufferChunk &b) { return bool(a) == bool(b) and (not a or (a.length == b.length and a.dtype == b.dtype and std::memcmp(a.as<const void *>(), b.as<const void *>(), a.length) == 0)); }
static bool sameT(const PortInfo &a, const PortInfo &b) { return a.name == b.name and a.alias == b.alias and a.isSigSlot == b.isSigSlot and a.dtype == b.dtype; }
static bool sameT(const ThreadPoolArgs &a, const ThreadPoolArgs &b) { return a.numThreads == b.numThreads and a.priority == b.priority and a.affinityMode == b.affinityMode and a.affinity == b.affinity and a.yieldMode == b.yieldMode; }
static bool sameT(const System::NumaInfo &a, const System::NumaInfo &b) { return a.nodeNumber == b.nodeNumber and a.totalMemory == b.totalMemory and a.freeMemory == b.freeMemory and a.cpus == b.cpus; }
static bool sameT(const System::HostInfo &a, const System::HostInfo &b) { return a.osName == b.osName and a.osVersion == b.osVersion and a.osArchitecture == b.osArchitecture and a.nodeName == b.nodeName and a.nodeId == b.nodeId and a.processorCount == b.processorCount and a.pid == b.pid; }
static bool sameT(const PluginRegistryInfoDump &a, const PluginRegistryInfoDump &b) { if (a.pluginPath != b.pluginPath or a.objectType != b.objectType or a.modulePath != b.modulePath or a.moduleVersion != b.moduleVersion or a.subInfo.size() != b.subInfo.size()) return false; for (size_t i = 0; i < a.subInfo.size(); i++) if (not sameT(a.subInfo[i], b.subInfo[i])) return false; return true; }
static bool sameT(const Proxy &a, const Proxy &b) { return same(a.toObject(), b.toObject()); }
static bool sameT(const ObjectKwargs &a, const ObjectKwargs &b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto &p : b) { if (i->first != p.first or not same(i->second, p.second)) return false; ++i; } return true; }
static bool sameT(const ObjectMap &a, const ObjectMap &b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto &p : b) { if (not same(i->first, p.first) or not same(i->second, p.second)) return false; ++i; } return true; }
static bool sameT(const ObjectSet &a, const ObjectSet &b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto &p : b) { if (not same(*i, p)) return false; ++i; } return true; }
template <typename T> static bool sameT(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (not sameT(T(a[i]), T(b[i]))) return false; return true; }
static bool sameT(const Packet &a, const Packet &b) { return sameT(a.payload, b.payload) and sameT(a.metadata, b.metadata) and sameT(a.labels, b.labels); }
template <typename T> static bool tryT(const Object &a, const Object &b, bool &res) { if (a.type() != typeid(T)) return false; res = b.type() == typeid(T) and sameT(a.extract<T>(), b.extract<T>()); return true; }
static bool same(const Object &a, const Object &b)
{
    if (not a or not b) return not a and not b;
    bool r = false;
#define T2(T) tryT<T>(a, b, r) or tryT<std::vector<T>>(a, b, r)
    if (T2(bool) or T2(char) or T2(signed char) or T2(unsigned char) or T2(short) or T2(unsigned short) or T2(int) or T2(unsigned) or T2(long) or T2(unsigned long) or T2(long long) or T2(unsigned long long) or T2(float) or T2(double)
        or T2(std::complex<float>) or T2(std::complex<double>) or T2(std::string) or T2(Label) or T2(PortInfo) or T2(System::NumaInfo) or T2(PluginRegistryInfoDump)) return r;
    if (tryT<Object>(a, b, r) or tryT<ObjectVector>(a, b, r) or tryT<ObjectSet>(a, b, r) or tryT<ObjectMap>(a, b, r) or tryT<ObjectKwargs>(a, b, r) or tryT<BufferChunk>(a, b, r) or tryT<DType>(a, b, r) or tryT<Packet>(a, b, r)
        or tryT<ThreadPoolArgs>(a, b, r) or tryT<System::HostInfo>(a, b, r) or tryT<Proxy>(a, b, r) or tryT<ProxyVector>(a, b, r)) return r;
    mc::fail("harness", "no equality for " + a.getTypeString()); return false;
}
static std::string save(const Object &o) { std::ostringstream os; o.serialize(os); return os.str(); }

// what holds for every value
static void roundTrip(const Object &v, const char *what, bool truncate = true)
{
    std::string bytes;
    try { bytes = save(v); } catch (const Exception &e) { mc::fail("save", std::string(what) + ": " + e.displayText()); return; }
    mc::step();
    if (save(v) != bytes) { mc::fail("save-differs", std::string(what) + ": two saves give different bytes"); return; }
    // alone and followed by something else: exactly its own bytes are used
    for (int tail = 0; tail < 2; tail++)
    {
        std::istringstream is(bytes + (tail?save(Object("next")) + save(Object(v)):std::string())); Object o;
        try { o.deserialize(is); } catch (const Exception &e) { mc::fail("load", std::string(what) + ": " + e.displayText()); return; }
        if (not same(v, o)) { mc::fail("value", std::string(what) + ": the loaded value differs"); return; }
        if (size_t(is.tellg()) != bytes.size()) { mc::fail("consumed", std::string(what) + ": " + std::to_string(is.tellg()) + " of " + std::to_string(bytes.size()) + " bytes consumed"); return; }
        if (tail) { Object n, m; try { n.deserialize(is); m.deserialize(is); } catch (const Exception &e) { mc::fail("concatenated", e.displayText()); return; } if (not same(n, Object("next")) or not same(m, v)) { mc::fail("concatenated", std::string(what) + ": the value after it differs"); return; } }
    }
    // the same through a request datagram
    {
        ObjectKwargs kw; kw["v"] = v; kw["w"] = Object(7); std::stringstream ss; ObjectKwargs got;
        try { sendDatagram(ss, kw); sendDatagram(ss, kw); got = recvDatagram(ss); } catch (const Exception &e) { mc::fail("datagram", e.displayText()); return; }
        if (not sameT(got, kw)) { mc::fail("datagram", std::string(what) + ": differs through a datagram"); return; }
        try { got = recvDatagram(ss); } catch (const Exception &e) { mc::fail("datagram", e.displayText()); return; }
        if (not sameT(got, kw)) { mc::fail("datagram", std::string(what) + ": the second datagram differs"); return; }
    }
    if (not truncate) return;
    for (size_t n = 0; n < bytes.size(); n++)
    {
        std::istringstream is(bytes.substr(0, n)); Object o;
        try { o.deserialize(is); mc::fail("truncated", std::string(what) + " cut to " + std::to_string(n) + " of " + std::to_string(bytes.size()) + " bytes loads a value"); return; }
        catch (const ObjectSerializeError &) {} catch (const Exception &e) { mc::fail("truncated-error", std::string(what) + ": " + e.displayText()); return; }
        if (o) { mc::fail("truncated", std::string(what) + " leaves a value behind after failing"); return; }
        mc::step();
    }
}
template <typename T> static void direct(const T &v)
{
    // without an object around it: value, sentinel, value
    std::ostringstream os; { Archive::OStreamArchiver ar(os); ar << v; ar << int(-77777); ar << v; }
    std::istringstream is(os.str()); T a = T(), b = T(); int s = 0;
    try { Archive::IStreamArchiver ar(is); ar >> a; ar >> s; ar >> b; } catch (const Exception &e) { mc::fail("direct", e.displayText()); return; }
    mc::check(sameT(a, v) and s == -77777 and sameT(b, v) and size_t(is.tellg()) == os.str().size(), "direct", "archived number differs");
    for (size_t n = 0; n < os.str().size(); n++)
    { std::istringstream cut(os.str().substr(0, n)); try { Archive::IStreamArchiver ar(cut); T x; ar >> x; int y; ar >> y; ar >> x; mc::fail("truncated", "archive cut to " + std::to_string(n) + " bytes loads"); return; } catch (const ArchiveException &) {} catch (const Exception &e) { mc::fail("truncated-error", e.displayText()); return; } }
    mc::step();
}
template <typename T> static std::vector<T> intValues(void)
{
    std::set<T> s; if (sizeof(T) == 1) for (int i = std::numeric_limits<T>::min(); i <= (int)std::numeric_limits<T>::max(); i++) s.insert(T(i));
    for (unsigned b = 0; b < sizeof(T)*8; b++) for (int d = -2; d <= 2; d++) { unsigned long long p = (1ull << b) + d; s.insert(T(p)); s.insert(T(0-p)); s.insert(T(~p)); }
    s.insert(std::numeric_limits<T>::min()); s.insert(std::numeric_limits<T>::max());
    return std::vector<T>(s.begin(), s.end());
}
template <typename T> static void ints(void)
{
    static const auto v = intValues<T>(); const int k = mc::choose(int(v.size()), "v"); mc::state(mc::Hash().add(typeid(T).name()).add(k).h);
    if (mc::tracing()) mc::trace(std::to_string(v[k]));
    direct(v[k]); if (mc::failed()) return; roundTrip(Object(v[k]), "integer"); if (mc::failed()) return;
    roundTrip(Object(std::vector<T>{v[k], T(1), v[k]}), "integer vector", false); direct(std::complex<T>(v[k], T(3)));
}
template <typename T, typename U> static void floats(void)
{
    static std::vector<T> v; if (v.empty())
    {
        std::set<U> bits; for (unsigned b = 0; b < sizeof(U)*8; b++) { bits.insert(U(1) << b); bits.insert(~(U(1) << b)); bits.insert((U(1) << b)-1); bits.insert(~((U(1) << b)-1)); }
        for (T x : {T(0), T(-0.0), T(1), T(-1), T(0.1), T(1e10), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max()}) { U u; std::memcpy(&u, &x, sizeof u); bits.insert(u); }
        for (U u : bits) { T x; std::memcpy(&x, &u, sizeof u); v.push_back(x); }
    }
    const int k = mc::choose(int(v.size()), "v"); mc::state(mc::Hash().add(typeid(T).name()).add(k).h);
    direct(v[k]); if (mc::failed()) return; roundTrip(Object(v[k]), "float"); if (mc::failed()) return;
    roundTrip(Object(std::complex<T>(v[k], T(2))), "complex"); if (mc::failed()) return; roundTrip(Object(std::vector<std::complex<T>>{std::complex<T>(T(1), v[k])}), "complex vector");
}
static void numbers(void)
{
    switch (mc::choose(14, "type"))
    {
    case 0: ints<char>(); break; case 1: ints<signed char>(); break; case 2: ints<unsigned char>(); break; case 3: ints<short>(); break; case 4: ints<unsigned short>(); break; case 5: ints<int>(); break; case 6: ints<unsigned>(); break;
    case 7: ints<long>(); break; case 8: ints<unsigned long>(); break; case 9: ints<long long>(); break; case 10: ints<unsigned long long>(); break; case 11: floats<float, unsigned>(); break; case 12: floats<double, unsigned long long>(); break;
    default: { bool b = mc::choose(2, "b"); direct(b); roundTrip(Object(b), "bool"); roundTrip(Object(std::vector<bool>{b, true, false, b}), "bool vector"); }
    }
}
static void shorts(void) // every 16-bit number
{
    const int hi = mc::choose(256, "hi"); mc::state(hi);
    for (int lo = 0; lo < 256 and not mc::failed(); lo++) { std::ostringstream os; { Archive::OStreamArchiver ar(os); ar << (short)(hi*256+lo); ar << (unsigned short)(hi*256+lo); ar << int(short(hi*256+lo)); ar << (unsigned)(hi*256+lo); ar << (long long)(short(hi*256+lo)); }
        std::istringstream is(os.str()); short a; unsigned short b; int c; unsigned d; long long e; Archive::IStreamArchiver ar(is); ar >> a; ar >> b; ar >> c; ar >> d; ar >> e; mc::step();
        mc::check(a == (short)(hi*256+lo) and b == (unsigned short)(hi*256+lo) and c == a and d == b and e == a, "direct", "number " + std::to_string(hi*256+lo)); }
}
// ---- nested values: every combination up to a depth
static std::string textOf(int k) { switch (k) { case 0: return ""; case 1: return "a"; case 2: return std::string("\0\xff", 2); case 3: return std::string(127, 'x'); default: return std::string(128, 'y'); } }
static BufferChunk chunkOf(int k) { if (k == 0) return BufferChunk(); static const size_t n[] = {0, 1, 3, 130}; static const char *t[] = {"", "uint8", "complex_int16", "float32, 2"}; BufferChunk c(DType(t[k]), n[k]); for (size_t i = 0; i < c.length; i++) c.as<unsigned char *>()[i] = (unsigned char)(i*7+k); return c; }
static Object gen(int depth, int &budget)
{
    const int scalars = 10, total = depth > 0?19:scalars;
    const int k = budget-- > 0?mc::choose(total, "kind"):0;
    switch (k)
    {
    case 0: return Object(); case 1: return Object(-5000000000ll); case 2: return Object(textOf(mc::choose(5, "text"))); case 3: return Object(2.5); case 4: return Object(chunkOf(mc::choose(4, "chunk")));
    case 5: return Object(DType("complex_float32", 3)); case 6: return Object(std::vector<std::string>{textOf(mc::choose(2, "text")), "b"}); case 7: return Object(std::vector<int>()); case 8: return Object(DType()); case 9: return Object(true);
    case 10: return Object(ObjectVector());
    case 11: { ObjectVector v; v.push_back(gen(depth-1, budget)); return Object(v); }
    case 12: { ObjectVector v; v.push_back(gen(depth-1, budget)); v.push_back(gen(depth-1, budget)); return Object(v); }
    case 13: { ObjectKwargs m; m["k"] = gen(depth-1, budget); m[""] = Object(1); return Object(m); }
    case 14: { ObjectMap m; m[Object(3)] = gen(depth-1, budget); m[Object(-1.5)] = Object("x"); return Object(m); }
    case 15: { Label l("id" + textOf(mc::choose(2, "text")), gen(depth-1, budget), ~0ull-3, 9); return Object(l); }
    case 16: { Packet p; p.payload = chunkOf(mc::choose(4, "chunk")); p.metadata["m"] = gen(depth-1, budget); p.labels.push_back(Label("l", Object(7), 1)); return Object(p); }
    case 17: return Object::make(gen(depth-1, budget)); // copy of the object itself
    default: { Object inner = gen(depth-1, budget); return Object(Object::Emplace<Object>(), inner); } // an object inside an object
    }
}
static void nested(int depth, int budget) { Object o = gen(depth, budget); mc::state(mc::Hash().add(save(o)).h); roundTrip(o, "nested value"); }
// ---- one of every registered kind
static void kinds(void)
{
    static std::vector<std::pair<const char *, Object>> v;
    if (v.empty())
    {
        auto put = [&](const char *n, const Object &o) { v.emplace_back(n, o); };
        System::HostInfo h; h.osName = "a"; h.osVersion = "b"; h.osArchitecture = "c"; h.nodeName = "d"; h.nodeId = "e"; h.processorCount = 300; h.pid = "99"; put("host info", Object(h));
        System::NumaInfo n; n.nodeNumber = 2; n.totalMemory = 1ull << 40; n.freeMemory = 77; n.cpus = {1, 2, 200}; put("numa info", Object(n)); put("numa infos", Object(std::vector<System::NumaInfo>(2, n)));
        ThreadPoolArgs t; t.numThreads = 5; t.priority = -0.25; t.affinityMode = "CPU"; t.affinity = {0, 3}; t.yieldMode = "SPIN"; put("thread pool args", Object(t));
        PortInfo p; p.name = "0"; p.alias = "in"; p.isSigSlot = true; p.dtype = DType("int16", 2); put("port info", Object(p)); put("port infos", Object(std::vector<PortInfo>{p, PortInfo()}));
        PluginRegistryInfoDump d; d.pluginPath = "/a"; d.objectType = "T"; d.modulePath = "m"; d.moduleVersion = "1"; d.subInfo.push_back(d); put("registry dump", Object(d)); put("registry dumps", Object(std::vector<PluginRegistryInfoDump>(2, d)));
        put("label", Object(Label("x", Object(1), 3, 4))); put("labels", Object(std::vector<Label>{Label("x", Object(), 3), Label("", Object("y"), 0, 0)}));
        put("object set", Object(ObjectSet{Object(3), Object(1), Object(2)})); put("object set of text", Object(ObjectSet{Object("b"), Object("a")})); put("empty set", Object(ObjectSet())); put("empty map", Object(ObjectMap())); put("empty kwargs", Object(ObjectKwargs())); put("packet", Object(Packet()));
        for (auto &name : {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "complex_int8", "complex_uint64", "complex_float64", ""}) { put("dtype", Object(DType(name, 1))); put("dtype", Object(DType(name, 300))); }
        put("custom dtype", Object(DType::fromDType(DType("custom"), 5))); put("custom dtype", Object(DType("custom", 12)));
        auto env = ProxyEnvironment::make("managed"); put("proxy", Object(env->makeProxy(5))); put("proxies", Object(ProxyVector{env->makeProxy(std::string("a")), env->makeProxy(2.5)})); put("null proxy", Object(env->convertObjectToProxy(Object())));
    }
    const auto &k = v[mc::choose(int(v.size()), "kind")]; mc::state(mc::Hash().add(k.first).add(save(k.second)).h); if (mc::tracing()) mc::trace(k.first);
    roundTrip(k.second, k.first);
}
// ---- long values, around the sizes where length fields and buffers grow
static void longOnes(void)
{
    static const std::vector<size_t> sizes = {127, 128, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385, 70000};
    const size_t n = sizes[mc::choose(int(sizes.size()), "size")]; const int kind = mc::choose(4, "kind"); mc::state(n*4+kind);
    Object o;
    if (kind == 0) { std::string s(n, 'a'); for (size_t i = 0; i < n; i++) s[i] = char(i*31); o = Object(s); }
    if (kind == 1) { std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = int(i*2654435761u); o = Object(v); }
    if (kind == 2) { BufferChunk c(DType("uint8"), n); for (size_t i = 0; i < n; i++) c.as<unsigned char *>()[i] = (unsigned char)(i*13); o = Object(c); }
    if (kind == 3) { ObjectKwargs m; for (size_t i = 0; i < n/8; i++) m["key" + std::to_string(i)] = Object((long long)i - 1000); o = Object(m); }
    roundTrip(o, "long value", false); if (mc::failed()) return;
    const std::string b = save(o); for (size_t cut : {b.size()-1, b.size()-2, b.size()/2, b.size()-128, size_t(12)}) { if (cut >= b.size()) continue; std::istringstream is(b.substr(0, cut)); Object x; try { x.deserialize(is); mc::fail("truncated", "long value cut to " + std::to_string(cut)); return; } catch (const ObjectSerializeError &) {} mc::step(); }
}
// ---- what cannot be stored is refused, and unknown identifiers in the input are an error
struct Plain { int v; };
static void refused(void)
{
    static const std::vector<Object> bad = {Object(Plain{1}), Object(ObjectVector{Object(1), Object(Plain{2})}), Object(ObjectKwargs{{"a", Object(Plain{2})}}), Object(Object::Emplace<Object>(), Object(Plain{1})), Object(Label("x", Object(Plain{1}), 0)), Object(std::shared_ptr<int>())};
    const int k = mc::choose(int(bad.size()), "bad"); mc::step(); mc::state(k);
    try { save(bad[k]); mc::fail("save-unsupported", "a type without serialization was saved"); } catch (const ObjectSerializeError &) {} catch (const Exception &e) { mc::fail("error-kind", e.displayText()); }
}
static void unknownId(void)
{
    // version, not-null flag, then the identifier: all values with one byte changed
    const std::string good = save(Object(5)); const int pos = mc::choose(int(good.size()), "pos"), val = mc::choose(256, "byte");
    std::string bytes = good; bytes[pos] = char(val); mc::state(mc::Hash().add(bytes).h); mc::step();
    std::istringstream is(bytes + std::string(64, '\0')); Object o; bool loaded = false;
    try { o.deserialize(is); loaded = true; } catch (const ObjectSerializeError &) {} catch (const Exception &e) { mc::fail("error-kind", e.displayText()); return; }
    if (loaded and pos >= 2 and pos+1 < int(good.size()) and bytes != good) mc::fail("unknown-id", "an unknown type identifier loads a value");
    if (not loaded and o) mc::fail("unknown-id", "a value is left behind");
}
// datagrams cut short or with a damaged frame are refused
static void frames(void)
{
    static std::string good; if (good.empty()) { std::stringstream ss; ObjectKwargs kw; kw["a"] = Object(3); kw["b"] = Object("text"); sendDatagram(ss, kw); good = ss.str(); }
    const int mode = mc::choose(2, "mode"); const int n = mc::choose(int(good.size()), "pos"); std::string bytes = good; mc::step();
    if (mode == 0) bytes = good.substr(0, n); else { if (n >= 4 and n < int(good.size())-4) return; bytes[n] ^= char(1 << mc::choose(8, "bit")); }
    mc::state(mc::Hash().add(bytes).h);
    std::istringstream is(bytes); try { recvDatagram(is); mc::fail("frame", "a damaged datagram was accepted"); } catch (const Exception &) {} catch (const std::exception &e) { mc::fail("frame-error", e.what()); }
}
std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; v.push_back(s); };
    add("all-number-types-every-cut", numbers); add("every-16-bit-number", shorts); add("every-registered-kind-every-cut", kinds);
    add("nested-depth-1-every-cut", []{ nested(1, 3); }); add("nested-depth-2-every-cut", [=]{ nested(2, thorough?4:3); });
    add("long-values", longOnes); add("unsupported-types", refused); add("one-byte-changed", unknownId); add("datagram-frames", frames);
    return v;
}
