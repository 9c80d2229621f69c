// Bounded-exhaustive exploration engine: public interface for harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
    // ---- choices -------------------------------------------------------
    // choose(n): branch over 0..n-1. Every combination is executed.
    int choose(int n, const char *tag = "");
    // deviate(n): like choose, but alternatives > 0 cost one deviation and are
    // only taken while the deviation bound of the scenario allows it.
    int deviate(int n, const char *tag = "");

    // ---- oracles -------------------------------------------------------
    // record a violation of this execution (the first one counts).
    // In threaded scenarios this ends the execution at once.
    void fail(const std::string &sig, const std::string &msg);
    bool failed(void);
    inline void check(bool ok, const char *sig, const std::string &msg = "")
    { if (not ok) fail(sig, msg); }

    // ---- statistics ----------------------------------------------------
    void state(uint64_t hash);    // a (canonical) state was reached
    // explicit-state pruning for sequential scenarios: false when the state was already explored with at
    // least depthLeft (< 63) further steps, in which case the execution should return at once
    bool visit(uint64_t hash, unsigned depthLeft);
    // false while repeating steps that an earlier execution already performed and checked (same choices)
    bool fresh(void);
    void step(size_t n = 1);      // a transition was executed and checked
    void outcome(uint64_t hash);  // final observation of this execution
    void trace(const std::string &line); // human readable step, kept for replay files
    bool tracing(void);           // true while replaying (avoid building strings otherwise)

    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        Hash &add(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8*i)) & 0xff; h *= 1099511628211ull; } return *this; }
        Hash &add(const std::string &s) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return add(s.size()); }
    };

    struct Scenario
    {
        std::string name;
        std::function<void(void)> body;
        int bound = 1000000;                  // deviation bound
        bool threaded = false;                // run under the thread scheduler, one process per execution
        std::function<void(void)> setup = {}; // run once per worker before the first execution
        // threaded only:
        bool freeSwitch = true;   // switches at blocking points cost nothing (false: cost 1 as well)
        bool timeouts = false;    // timed waits may also time out early (cost 1)
        size_t maxSteps = 20000;  // scheduling steps before "no progress" is reported
        size_t maxTimeouts = 300; // clock advances before "no progress" is reported
        bool races = true;        // report data races
        bool cache = false;       // prune executions reaching an already explored happens-before state (oracles must not depend on the order of independent steps)
        bool isolate = false;     // sequential scenario, but one process per execution
    };
    // provided by the harness
    std::vector<Scenario> scenarios(bool thorough);

    // ---- threaded scenarios -------------------------------------------
    void point(const char *tag = "");   // explicit scheduling point
    void await(const std::function<bool(void)> &pred); // block until true (synchronises with all threads)
    int self(void);                     // id of the running thread
    unsigned long long now(void);       // scheduling step counter (unique, monotone)
    void ignoreRaces(bool on);          // harness-only accesses of the calling thread
    void quiet(bool on);                // while on, threads are only switched where the running one cannot continue, in a fixed order (set-up phases)
    // exclusive region oracle: fails when two threads are inside the same region
    void enter(int region, bool shared = false);
    void leave(int region, bool shared = false);
}
