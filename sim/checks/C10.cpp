// C10: string-keyed trees.
#include "strmap.h"
namespace {
struct C10 : StrMap { C10() : StrMap("C10", true) { what = "the trees, keys and concurrent changes of C09 with one thread walking again and again: from the beginning or from present, absent, shorter, longer and greatest start keys, with the tree locking itself or held, on unchanging trees and while others insert and remove, also the current key itself; at the end full walks, also after leaving and rejoining and over emptied and recreated trees."; } };
Reg reg(new C10);
}
