// Interface of the controlled scheduler (lib/sched.cpp) used by C14.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sched {
enum { MAXT = 3, MAXP = 20000, MAXC = 4096 };
enum Status { OK = 0, RACE = 1, DEADLOCK = 2, STEPS = 3, RESULT = 4, DIVERGED = 5, DIED = 6, CONFLICTS = 7 };
struct Point { uint8_t cur, chosen, enabled, pad; };      // cur = 255: no running thread
struct Out {
    volatile uint32_t status, npoints, nconf, accesses;
    Point pt[MAXP];
    uint64_t conf[MAXC];        // 8-byte granules touched by two threads, at least one of them writing
    char msg[900];
};
// Runs n threads under the schedule that follows prefix and then never preempts; scheduling points are the accesses to
// the granules in conf, and all blocking. To be called once in a process.
void run(int n, void (*body)(int, void *), void *arg, const uint8_t *prefix, size_t nprefix, const uint64_t *conf, size_t nconf, Out *out);
}
