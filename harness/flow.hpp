// Blocks that send a numbered stream with labels and messages, pass it on, and check what arrives.
#pragma once
#include "blk.hpp"
#include <atomic>
#include <thread>
using namespace Pothos;
typedef int Elem;

struct Quiet { Quiet(void) { mc::quiet(true); } ~Quiet(void) { mc::quiet(false); } };
inline void lone(Blk &b) { b.setThreadPool(ThreadPool()); }

// produces the elements 0..total-1, a label on every multiple of three and a message before every even element
struct Source : Blk
{
    int total, next = 0, per, msgEvery, labelEvery; bool hold = false; int small = 0; // buffers of one element
    BufferManager::Sptr getOutputBufferManager(const std::string &n, const std::string &d) { return small?makeManager("generic", small, sizeof(Elem)):Blk::getOutputBufferManager(n, d); }
    void start(void) { hold = false; }
    Source(int total, int per, int labelEvery, int msgEvery) : total(total), per(per), msgEvery(msgEvery), labelEvery(labelEvery)
    {
        this->setupOutput(0, typeid(Elem)); lone(*this); this->registerCall(this, "start", &Source::start);
        onWork = [this](Blk &)
        {
            if (this->hold) return;
            auto out = this->output(0); int n = std::min<int>({this->per, int(out->elements()), this->total - next});
            if (n <= 0) return;
            Elem *m = out->buffer().as<Elem *>();
            for (int i = 0; i < n; i++) { m[i] = next + i; if (this->labelEvery and (next + i) % this->labelEvery == 0) out->postLabel(Label("at", next + i, i)); if (this->msgEvery and (next + i) % this->msgEvery == 0) out->postMessage(next + i); }
            next += n; out->produce(n);
        };
    }
    bool done(void) const { return next >= total; }
};
// takes what arrives and compares it with what was sent
struct Sink : Blk
{
    int total, next = 0, per, keep, labelEvery, msgEvery, msgs = 0, labels = 0; std::vector<BufferChunk> kept; Util::SpinLock *lock; std::vector<BufferChunk> *handed;
    Sink(int total, int per, int keep, int labelEvery, int msgEvery, Util::SpinLock *lock = nullptr, std::vector<BufferChunk> *handed = nullptr) : total(total), per(per), keep(keep), labelEvery(labelEvery), msgEvery(msgEvery), lock(lock), handed(handed)
    {
        this->setupInput(0, typeid(Elem)); lone(*this); this->registerCall(this, "got", &Sink::got);
        onWork = [this](Blk &)
        {
            auto in = this->input(0);
            while (in->hasMessage()) { const int v = in->popMessage().extract<int>(); if (v != msgs) mc::fail("messages", "message " + std::to_string(v) + " arrived in place of " + std::to_string(msgs)); msgs += this->msgEvery?this->msgEvery:1; }
            const int n = std::min<int>(this->per, in->elements()); if (n <= 0) return;
            const Elem *m = in->buffer().as<const Elem *>();
            for (int i = 0; i < n; i++) if (m[i] != next + i) mc::fail("elements", "element " + std::to_string(next + i) + " arrived as " + std::to_string(m[i]));
            for (auto &l : in->labels()) if (int(l.index) < n)
            {
                if (l.data.extract<int>() != next + int(l.index)) mc::fail("labels", "the label of element " + l.data.toString() + " arrived with element " + std::to_string(next + int(l.index)));
                labels++;
            }
            if (this->keep and (next / std::max(1, n)) % this->keep == 0) { BufferChunk c = in->buffer(); if (this->handed) { this->lock->lock(); this->handed->push_back(c); this->lock->unlock(); } else { kept.push_back(c); if (kept.size() > 1) kept.erase(kept.begin()); } }
            next += n; in->consume(n);
        };
    }
    bool done(void) const { return next >= total and (not msgEvery or msgs >= total); }
    void finish(void) { const int want = labelEvery?(total + labelEvery - 1)/labelEvery:0; mc::check(labels == want, "labels", std::to_string(labels) + " of " + std::to_string(want) + " labels arrived"); }
    void propagateLabels(const InputPort *) {}
    int got(void) { return next; }
};
// copies from input to output, in place where possible
struct Through : Blk
{
    int total, next = 0; bool inPlace = false;
    Through(int total, bool rbw) : total(total)
    {
        this->setupInput(0, typeid(Elem)); this->setupOutput(0, typeid(Elem)); lone(*this);
        if (rbw) this->output(0)->setReadBeforeWrite(this->input(0));
        onWork = [this](Blk &)
        {
            auto in = this->input(0); auto out = this->output(0); const int n = std::min<int>(in->elements(), out->elements()); if (n <= 0) return;
            const Elem *m = in->buffer().as<const Elem *>(); Elem *o = out->buffer().as<Elem *>();
            inPlace = inPlace or (const void *)m == (const void *)o;
            for (int i = 0; i < n; i++) { if (m[i] != next + i) mc::fail("elements", "element " + std::to_string(next + i) + " arrived as " + std::to_string(m[i])); o[i] = m[i]; }
            next += n; in->consume(n); out->produce(n);
        };
    }
    bool done(void) const { return next >= total; }
};
