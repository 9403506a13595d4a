// Cooperative threads: real pthreads of which exactly one runs; the switch
// points are every memory access, lock operation and static-initialisation
// guard of the instrumented sources (see hooks.cc).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sim {
struct Preempt { long at; int to; };                 // at the at-th switch point of the operation
struct Sched {
  virtual ~Sched() {}
  static void run(int n, std::function<void(int)> body, long limit);   // throws Violation from a thread, or on deadlock / no progress
  static int me();
  static void beginOp(const std::vector<Preempt>& p, int opKind);
  static void real(bool on);                          // the thread is in the code under test
  static long points();                               // switch points met in the current operation
  static void storm(unsigned seed, int oneIn);        // additionally switch at random, 1 in oneIn
  static long switches, blocked; static unsigned long long trace;
};
struct Real { Real() { Sched::real(true); } ~Real() { Sched::real(false); } };
#define REAL(expr) ([&]() { sim::Real _r; return expr; }())
}
