// C12: indexes.
#include "idxmap.h"
namespace {
struct C12 : IdxMap { C12() : IdxMap("C12", true) { what = "the indexes, keys and concurrent changes of C11 with one thread walking again and again, with the index locking itself or held, on unchanging indexes and while others insert and remove, also the current key itself; at the end full walks, also after leaving and rejoining and over emptied and recreated indexes."; } };
Reg reg(new C12);
}
