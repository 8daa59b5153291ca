#include "locks.h"
struct C06 : LockCheck { C06() : LockCheck("C06", false) {
  what = "2-13 threads of 1-2 processes take and release read and write address locks, nested in a consistent order and recursively, on 1-24 addresses (adjacent, scattered, or all in one hash slot), with interrupted semaphore waits and stalled threads; a holder table is checked at every grant.";
  quick_runs = 80000; } };
static C06 c; static Reg reg(&c);
