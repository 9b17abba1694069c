/* The environment of the code under test: the C random generator and the wall clock answer what the explorer says. */
#include "mc.hpp"
#include "simplebm.h"
#include <time.h>

extern "C" int rand(void) {
  mc::Env &e = mc::env();
  e.randCalls++;
  switch (e.randMode) {
    case 1: return 1;
    case 2: return RAND_MAX;
    case 3: return (int) (++e.randState & 0x3fffffff);
    case 4: return 1 + (int) (e.randState++ & 1);
    case 6: return 0;
    default:
      e.randState = e.randState * 6364136223846793005ull + 1442695040888963407ull + e.randMode;
      return (int) (e.randState >> 33) & RAND_MAX;
  }
}
extern "C" void srand(unsigned) {}
extern "C" time_t time(time_t *t) { time_t v = mc::env().timeNow; if (t) *t = v; return v; }

// ZEROMS has no definition of its own in the library (C++11): this C++17 unit provides it
const void *eopsiZeroMs = &SimpleBenchmark::ZEROMS;
