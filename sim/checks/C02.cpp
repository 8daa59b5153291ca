#include "blocks.h"
struct C02 : BlockCheck { C02() : BlockCheck("C02", true) {
  what = "The C01 workload plus concurrent list calls; at quiescent moments the five space lists must partition the segments and the region exactly as the model says, free buddies are joined, anchor bookkeeping space is conserved; then everything is released by random processes and the peak set is requested again without growth.";
  quick_runs = 22000; } };
static C02 c; static Reg reg(&c);
