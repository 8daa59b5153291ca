#include "blocks.h"
struct C01 : BlockCheck { C01() : BlockCheck("C01", false) {
  what = "1-4 threads of 1-3 processes allocate (256 bytes to a whole 256 MB segment, stores of 1 to 20+ segments, compact or linear use list), verify and release each other's shared blocks; every block handed out is checked for range, alignment and disjointness against an interval model and its contents are stamped and re-read until release.";
  quick_runs = 26000; } };
static C01 c; static Reg reg(&c);
