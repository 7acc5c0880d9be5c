#pragma once
#include <cstdint>
#define MAXFUNCS 65536
#define MAXCOV 1024
#define MAXWAIT 65536
struct Shared {  // one per harness, in MAP_SHARED memory
  uint64_t paths, assumed_away, violations, errors, live, queries, q_sat, q_unsat, q_unknown, dom_queries, solver_us, max_query_us, branches, instrs, asserts, samples, panics;
  volatile uint32_t stop;
  volatile uint32_t errlock;
  char err[4096];
  uint8_t cov[MAXCOV];
  uint8_t fn[MAXFUNCS];
  uint64_t procs, maxdepth;
};
struct Sched {  // shared by all harnesses
  volatile uint32_t lock; volatile int32_t tokens; volatile uint32_t nwait;
  struct W { volatile uint32_t go; uint32_t used; } w[MAXWAIT];
  uint32_t stack[MAXWAIT];
};
