// C14: expandable heaps of simple heaps.
#include "cheap.h"
namespace {
struct C14 : CHeapCheck { C14() : CHeapCheck("C14", false) { what = "1-2 compound heaps (expanding or fixed, created or initialised on a block, 8 KB to 256 KB blocks with pages of 512 bytes to 32 KB, any load factor, clean or used storage, now and then forced past the capacity of both block lists); 2-4 threads of 1-3 processes allocate pages plainly and near objects, use them, release them directly or by an address inside, query, advise, destroy and recreate; a quarter with stalled threads, some with the callers holding the lock; at the end everything is released in random order, served again, and destroyed."; } };
Reg reg(new C14);
}
