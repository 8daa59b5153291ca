// C05: every attached process sees the same store.
#include "store.h"
struct C05 : StoreCheck {
  C05() : StoreCheck("C05", false) {
    what = "2-4 processes with 2-6 threads share blocks of 4 KB to 256 MB while the store grows and processes join, leave, rejoin or die; any thread of any process verifies, rewrites and releases any block, touching storage added after its process joined; lists and contents are compared in every process.";
    quick_runs = 12000;
  }
};
static C05 c; static Reg reg(&c);
