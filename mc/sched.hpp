// A cooperative scheduler and data-race detector for code compiled with -fsanitize=thread,
// linked against sched.cc instead of the sanitizer's own runtime.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {
constexpr int MAXT = 3;              // threads of a program
constexpr int CAP = 4096;            // scheduling points of a run
constexpr int NSYNC = 256;
struct Point { unsigned char pick, current, nenabled, enabled[MAXT + 1]; };   // current: 0 if it cannot go on
struct Run {                         // shared between the explorer and the process of the run
  int npoints; Point point[CAP];
  int nprefix; unsigned char prefix[CAP];
  int nshared; uintptr_t shared[NSYNC];          // synchronisation objects used by several threads: scheduling points
  bool found_shared;                             // a new one was met in this run
  bool complete, race, deadlock, toolong, unsupported, diverged;
  long long accesses, syncs, bytes;
  char text[1024];
};
void run(Run* r, int nthreads, void (*body)(int, void*), void* arg);  // threads 1..n
void point();                        // an operation of the program begins
}
