// O01 (threads): handles to one value copied, moved, dropped and written through by several threads at once.
#include <mc.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Exception.hpp>
#include <thread>
#include <memory>
using namespace Pothos;

struct V
{
    int x; int *ended; V(int x, int *e):x(x), ended(e) {} V(const V &o):x(o.x), ended(nullptr) {}
    ~V(void) { if (ended) { if (*ended) mc::fail("double-destroy", "the value was destroyed twice"); *ended = 1; } x = -1; }
};

// what a thread does with the handle it owns
enum { READ_DROP, COPY_DROP, MOVE_DROP, ASSIGN_OTHER, OWN_WRITE, SELF, CONVERT, NPROG };
static void program(int p, Object &own, bool &wrote)
{
    auto look = [&](const Object &o) { if (o.extract<V>().x < 7) mc::fail("value", "a held handle shows " + std::to_string(o.extract<V>().x)); };
    switch (p)
    {
    case READ_DROP: look(own); own = Object(); break;
    case COPY_DROP: { Object c(own); own = Object(); look(c); } break;
    case MOVE_DROP: { Object c(std::move(own)); look(c); own = std::move(c); look(own); } own = Object(); break;
    case ASSIGN_OTHER: { Object c(1); c = own; look(c); own = c; c = Object(2); look(own); } own = Object(); break;
    case OWN_WRITE: // only the last owner may write
        if (own.unique()) { try { own.ref<V>().x++; wrote = true; } catch (const ObjectConvertError &) { mc::fail("ref-unique", "writable access refused to the only handle"); } }
        own = Object(); break;
    case SELF: { Object &alias = own; own = alias; look(own); Object c(own); c = std::move(own); look(c); } break;
    case CONVERT: { Object c = own.convert(typeid(Object)); own = Object(); look(c.extract<Object>()); V copy = c.extract<Object>().extract<V>(); if (copy.x < 7) mc::fail("value", ""); } break;
    }
}

static void run(int n, const std::vector<int> &progs)
{
    std::unique_ptr<int> ended(new int(0)); bool wrote[3] = {false, false, false};
    std::vector<Object> own(n); own[0] = Object::emplace<V>(7, ended.get());
    for (int i = 1; i < n; i++) own[i] = own[0];
    std::vector<std::thread> th;
    for (int i = 1; i < n; i++) th.emplace_back([&, i]{ program(progs[i], own[i], wrote[i]); });
    program(progs[0], own[0], wrote[0]);
    for (auto &t : th) t.join();
    int writers = 0; for (int i = 0; i < n; i++) writers += wrote[i];
    mc::check(writers <= 1, "two-sole-owners", "two threads were each told to be the only owner");
    mc::check(*ended == 1, *ended?"double-destroy":"leak", "after all handles are gone the value is " + std::string(*ended?"destroyed":"still there"));
    mc::outcome(mc::Hash().add(writers).h);
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto thr = [&](const std::string &n, int bound, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; s.threaded = true; s.bound = bound; s.cache = true; v.push_back(s); };
    thr("two-threads", 1000000, []{ int a = mc::choose(NPROG, "a"), b = mc::choose(NPROG, "b"); if (b < a) return; run(2, {a, b}); });
    thr("three-threads", thorough?5:2, []{ int a = mc::choose(NPROG, "a"), b = mc::choose(NPROG, "b"), c = mc::choose(NPROG, "c"); if (b < a or c < b) return; run(3, {a, b, c}); });
    return v;
}
