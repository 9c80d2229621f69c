// Interface between the explorer (mc.cpp) and the thread run-time (mcrt.cpp).
#pragma once
#include "mc.hpp"
namespace mcint
{
    enum { MAXPOINTS = 60000 };
    // one alternative choice point. cost: cost of taking an alternative other than 0
    int choicePoint(int n, int cost, const char *tag);
    // execute the body under the scheduler; returns when all threads are done or the execution failed
    void runThreaded(const mc::Scenario &sc);
    bool threadedAvailable(void);
    bool inThreaded(void);
    void abortThreaded(void) __attribute__((noreturn));
    // shared address table (grows over executions)
    bool cachePrune(uint64_t key); // true: everything from here on is explored elsewhere
    bool addrIsShared(uintptr_t a);
    void addrMarkShared(uintptr_t a);
    void countStep(void);
    void *rawMmap(size_t len);
}
extern "C" __attribute__((weak)) void mcrt_run(const mc::Scenario *sc);
extern "C" __attribute__((weak)) void mcrt_abort(void);
extern "C" __attribute__((weak)) int mcrt_active(void);
extern "C" __attribute__((weak)) void mcrt_note(uint64_t);
