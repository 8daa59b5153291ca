#include "locks.h"
struct C07 : LockCheck { C07() : LockCheck("C07", true) {
  what = "The C06 workload (deadlock-free lock orders only, so every request must be granted): a state where every thread waits, or a bounded number of scheduler steps without progress, is a violation; up to 13 simultaneous readers; interrupted waits and stalls.";
  quick_runs = 80000; } };
static C07 c; static Reg reg(&c);
