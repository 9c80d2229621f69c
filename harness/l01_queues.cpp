// L01: RingDeque and OrderedQueue against a plain reference sequence.
#include <mc.hpp>
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/OrderedQueue.hpp>
#include <deque>
#include <memory>
#include <set>
#include <string>
using mc::choose; using mc::check;

static std::set<const void *> *live = nullptr; // addresses of constructed elements
struct Elem
{
    int v; int *heap;
    explicit Elem(int v = -1): v(v), heap(new int(v)) { born(); }
    Elem(const Elem &o): v(o.v), heap(new int(*o.heap)) { o.alive(); born(); }
    Elem(Elem &&o): v(o.v), heap(o.heap) { o.alive(); o.v = -2; o.heap = new int(-2); born(); }
    Elem &operator=(const Elem &o) { alive(); o.alive(); if (this != &o) { v = o.v; *heap = *o.heap; } return *this; }
    Elem &operator=(Elem &&o) { alive(); o.alive(); if (this != &o) { v = o.v; std::swap(heap, o.heap); o.v = -2; } return *this; }
    ~Elem(void) { if (live->erase(this) == 0) mc::fail("element-lifetime", "an element is destroyed that was not constructed, or twice"); delete heap; heap = nullptr; }
    void born(void) { if (not live->insert(this).second) mc::fail("element-lifetime", "an element is constructed over a live one"); }
    void alive(void) const { if (live->count(this) == 0) mc::fail("element-lifetime", "a dead element is used"); }
    int get(void) const { alive(); return (v == *heap)?v:-3; }
};

typedef Pothos::Util::RingDeque<Elem> Ring;
struct Model { std::deque<int> q; int off = 0; };

static std::string show(const std::deque<int> &q) { std::string s = "["; for (int v : q) s += std::to_string(v) + " "; return s + "]"; }

static void compare(const Ring &r, const Model &m, const char *which)
{
    check(r.size() == m.q.size(), "ring-size", std::string(which) + " size " + std::to_string(r.size()) + " expected " + show(m.q));
    check(r.empty() == m.q.empty(), "ring-empty", which);
    check(r.full() == (r.size() == r.capacity()), "ring-full", which);
    check(r.size() <= r.capacity(), "ring-capacity", which);
    if (mc::failed()) return;
    for (size_t i = 0; i < m.q.size(); i++)
        check(r[i].get() == m.q[i], "ring-content", std::string(which) + "[" + std::to_string(i) + "]=" + std::to_string(r[i].get()) + " expected " + show(m.q));
    if (not m.q.empty())
    {
        check(r.front().get() == m.q.front(), "ring-content", std::string(which) + " front");
        check(r.back().get() == m.q.back(), "ring-content", std::string(which) + " back");
    }
}

// hidden state of the implementation, where it can be seen (only to keep different states apart)
template <typename R> auto hidden(mc::Hash &h, R &r, int) -> decltype((void)(r._mask + r._frontIndex)) { h.add(r._mask).add(r._frontIndex & r._mask); }
template <typename R> void hidden(mc::Hash &, R &, long) {}
template <typename Q> auto hiddenQ(mc::Hash &h, Q &q, int) -> decltype((void)(q._pushedElems[q._indexToAck].second), (void)q._readyElems.size())
{ h.add(q._indexToAck).add(q._readyElems.size()); for (size_t i = 0; i < q._pushedElems.size(); i++) h.add(q._pushedElems[i].second); }
template <typename Q> void hiddenQ(mc::Hash &, Q &, long) {}

static void ringScenario(int depth, bool prune, bool two, int cap0)
{
    std::set<const void *> liveSet; live = &liveSet;
    {
        std::unique_ptr<Ring> A(new Ring(cap0)), B(two?new Ring(1):nullptr);
        Model a, b; int next = 1;
        for (int d = 0; d < depth; d++)
        {
            Ring *R = A.get(); Ring *O = B.get(); Model *m = &a, *o = &b;
            const int nops = two?20:15;
            const int which = two?choose(2):0;
            if (which) { std::swap(R, O); std::swap(m, o); }
            const int op = choose(nops);
            const char *nm = "?";
            switch (op)
            {
            case 0: if (R->full()) return; nm = "push_back"; { Elem e(next); R->push_back(e); } m->q.push_back(next++); break;
            case 1: if (R->full()) return; nm = "push_back&&"; R->push_back(Elem(next)); m->q.push_back(next++); break;
            case 2: if (R->full()) return; nm = "emplace_back"; { Elem &e = R->emplace_back(next); check(e.get() == next, "emplace-ref"); } m->q.push_back(next++); break;
            case 3: if (R->full()) return; nm = "push_front"; { Elem e(next); R->push_front(e); } m->q.push_front(next++); m->off--; break;
            case 4: if (R->full()) return; nm = "emplace_front"; { Elem &e = R->emplace_front(next); check(e.get() == next, "emplace-ref"); } m->q.push_front(next++); m->off--; break;
            case 5: if (m->q.empty()) return; nm = "pop_front"; R->pop_front(); m->q.pop_front(); m->off++; break;
            case 6: if (m->q.empty()) return; nm = "pop_back"; R->pop_back(); m->q.pop_back(); break;
            case 7: nm = "clear"; R->clear(); m->off += m->q.size(); m->q.clear(); break;
            case 8: if (m->q.size() < 2) return; nm = "write"; (*R)[1] = Elem(next); m->q[1] = next++; break;
            case 9: case 10: case 11: case 12:
            {
                const size_t n = (op == 9)?1:(op == 10)?2:(op == 11)?3:5;
                nm = "set_capacity"; R->set_capacity(n); m->off = 0;
                check(R->capacity() >= n or m->q.size() > n, "set-capacity", "capacity " + std::to_string(R->capacity()));
                break;
            }
            case 13: nm = "self copy assign"; { Ring &S = *R; *R = S; } break;
            case 14: nm = "self move assign"; { Ring &S = *R; *R = std::move(S); } break;
            case 15: nm = "copy assign"; *R = *O; *m = *o; m->off = 0; check(R->capacity() >= O->size(), "assign-capacity"); break;
            case 16: nm = "move assign"; *R = std::move(*O); *m = *o; O->clear(); o->q.clear(); o->off = 0; check(O->empty(), "moved-from"); O->set_capacity(2); break;
            case 17: { nm = "copy construct"; std::unique_ptr<Ring> C(new Ring(*O)); compare(*C, *o, "copy"); (which?B:A) = std::move(C); *m = *o; m->off = 0; break; }
            case 18: { nm = "move construct"; std::unique_ptr<Ring> C(new Ring(std::move(*O))); (which?B:A) = std::move(C); *m = *o; O->set_capacity(1); o->q.clear(); o->off = 0; break; }
            case 19: { nm = "replace"; std::unique_ptr<Ring> C(new Ring(3)); (which?B:A) = std::move(C); *m = Model(); break; }
            }
            mc::step();
            if (mc::tracing()) mc::trace(std::string(which?"B ":"A ") + nm + " -> A=" + show(a.q) + " B=" + show(b.q));
            compare(*A, a, "A"); if (B) compare(*B, b, "B");
            if (mc::failed()) { live = new std::set<const void *>; A.release(); B.release(); return; }
            check(liveSet.size() == a.q.size() + b.q.size(), "element-count", std::to_string(liveSet.size()) + " live elements, expected " + std::to_string(a.q.size() + b.q.size()));
            if (mc::failed()) { live = new std::set<const void *>; A.release(); B.release(); return; }
            mc::Hash h; h.add(a.q.size()).add(A->capacity()).add(a.off & 7).add(B?b.q.size():99).add(B?B->capacity():0).add(b.off & 7);
            for (Ring *r : {A.get(), B.get()}) if (r) { hidden(h, *r, 0); for (size_t i = 1; i < r->size(); i++) h.add(uint64_t(&(*r)[i] - &(*r)[0])); }
            if (prune) { if (not mc::visit(h.h, depth-d-1)) break; } else mc::state(h.h);
        }
    }
    check(liveSet.empty(), "element-leak", "elements left after destruction");
}

static void orderedScenario(int depth, int cap)
{
    std::set<const void *> liveSet; live = &liveSet;
    {
        Pothos::Util::OrderedQueue<Elem> Q(cap);
        check(Q.capacity() == size_t(cap), "ordered-capacity"); check(Q.empty(), "ordered-empty");
        // index i is out (with the user) or in (waiting or ready). The user takes the front and returns it later.
        std::vector<int> where(cap, 0); // 0 out, 1 returned, 2 ready
        std::deque<int> ready; int ack = 0;
        std::vector<int> gen(cap, 0);
        for (int d = 0; d < depth; d++)
        {
            const int op = choose(cap+1);
            if (op < cap)
            {
                if (where[op] != 0) return;
                if (choose(2)) { Elem e(op + 100*gen[op]); Q.push(e, op); } else Q.push(Elem(op + 100*gen[op]), op);
                where[op] = 1;
                while (where[ack] == 1) { where[ack] = 2; ready.push_back(ack); ack = (ack+1)%cap; }
                if (mc::tracing()) mc::trace("push index " + std::to_string(op));
            }
            else
            {
                if (ready.empty()) return;
                const int i = ready.front();
                check(not Q.empty() and Q.front().get() == i + 100*gen[i], "ordered-front");
                Q.pop(); ready.pop_front(); where[i] = 0; gen[i]++;
                if (mc::tracing()) mc::trace("pop index " + std::to_string(i));
            }
            mc::step();
            check(Q.empty() == ready.empty(), "ordered-empty", "expected " + std::to_string(ready.size()) + " ready");
            if (mc::failed()) return;
            if (not ready.empty()) check(Q.front().get() == ready.front() + 100*gen[ready.front()], "ordered-front", "got " + std::to_string(Q.front().get()) + " expected index " + std::to_string(ready.front()));
            if (mc::failed()) return;
            // everything that is back is released, now or as soon as what is missing comes back
            {
                auto copy = Q; auto r2 = ready; auto w2 = where; int ack2 = ack;
                for (int i = 0; i < cap; i++)
                {
                    while (not r2.empty())
                    {
                        if (copy.empty()) { mc::fail("ordered-lost", "index " + std::to_string(r2.front()) + " is back but is not released"); return; }
                        if (copy.front().get() != r2.front() + 100*gen[r2.front()]) { mc::fail("ordered-order", "index " + std::to_string(r2.front()) + " should be next"); return; }
                        copy.pop(); r2.pop_front();
                    }
                    if (not copy.empty()) { mc::fail("ordered-extra", "released although an earlier one is missing"); return; }
                    if (w2[ack2] == 2 or i+1 == cap) break;
                    if (w2[ack2] == 0) { copy.push(Elem(ack2 + 100*gen[ack2]), ack2); w2[ack2] = 1; }
                    while (w2[ack2] == 1) { w2[ack2] = 2; r2.push_back(ack2); ack2 = (ack2+1)%cap; }
                }
            }
            if (mc::failed()) return;
            mc::Hash h; hiddenQ(h, Q, 0); for (int w : where) h.add(w); h.add(ack).add(1000+cap);
            if (not mc::visit(h.h, depth-d-1)) break;
        }
    }
    if (not mc::failed()) check(liveSet.empty(), "element-leak", "elements left after destruction");
}

std::vector<mc::Scenario> mc::scenarios(bool thorough)
{
    std::vector<mc::Scenario> v;
    auto add = [&](const std::string &n, std::function<void(void)> f) { mc::Scenario s; s.name = n; s.body = f; v.push_back(s); };
    for (int cap = 1; cap <= 5; cap++)
    {
        add("ring-one-cap" + std::to_string(cap) + "-all-sequences", [=]{ ringScenario(thorough?6:5, false, false, cap); });
        add("ring-one-cap" + std::to_string(cap) + "-states", [=]{ ringScenario(thorough?30:16, true, false, cap); });
    }
    for (int cap = 1; cap <= 3; cap++)
    {
        add("ring-two-cap" + std::to_string(cap) + "-states", [=]{ ringScenario(thorough?12:9, true, true, cap); });
    }
    for (int cap = 1; cap <= (thorough?6:5); cap++)
        add("ordered-cap" + std::to_string(cap), [=]{ orderedScenario(thorough?40:24, cap); });
    return v;
}
