// C09: string-keyed trees.
#include "strmap.h"
namespace {
struct C09 : StrMap { C09() : StrMap("C09", false) { what = "one string tree (expanding or fixed, created, with 2 KB or 4 KB pages, or initialised on a block, 16 KB to 1 MB blocks, clean or used storage) and a universe of 1 to 7000 keys of one of eight styles (numbers, common prefixes, the empty key, control and high bytes, paths, up to longer than a page), prefilled in ascending, descending or random order; 2-4 threads of 1-3 processes put, replace, get, test and remove single keys and batches, hold the lock over several calls, remove the smallest key, query and walk, with the tree locking itself or the callers holding its or another lock, key buffers private or in the store, null values; in some runs node pages of the tree taken, stamped and given back meanwhile by whichever thread; some threads stalled, some waits interrupted; then everything is verified, again after all left and rejoined, after removing everything in any order, refilling, filling and emptying twelve times, and on a new tree on the same storage."; } };
Reg reg(new C09);
}
