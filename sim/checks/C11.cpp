// C11: indexes.
#include "idxmap.h"
namespace {
struct C11 : IdxMap { C11() : IdxMap("C11", false) { what = "one index (expanding or fixed, created, with 2 KB or 4 KB pages, or initialised on a block, 16 KB to 1 MB blocks, clean or used storage) and a universe of 1 to 7000 keys: unsigned, signed, floating point (both zeros, infinities, denormals), addresses, or 1-15 words of one or mixed lengths, prefilled in ascending, descending or random order; 2-4 threads of 1-3 processes put, replace, get, test and remove single keys and batches, hold the lock over several calls, remove the smallest key, query and walk, with the index locking itself or the callers holding its or another lock, key buffers private or in the store, null values; some threads stalled, some waits interrupted; then everything is verified, again after all left and rejoined, after removing everything in any order, refilling, filling and emptying twelve times, and on a new index on the same storage."; } };
Reg reg(new C11);
}
