// C04: what was stored is found again.
#include "store.h"
struct C04 : StoreCheck {
  C04() : StoreCheck("C04", true) {
    what = "1-4 processes with 1-6 threads allocate, release and rewrite blocks of 4 KB to 256 MB and publish a root reference; between phases everybody detaches and any set of processes, old or new, joins again in any interleaving; lists, root, bookkeeping space and the contents of every live block are compared, then work continues.";
    quick_runs = 9000;
  }
};
static C04 c; static Reg reg(&c);
