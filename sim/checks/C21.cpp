// C21: expandable heaps of queues.
#include "cheap.h"
namespace {
struct C21 : CHeapCheck { C21() : CHeapCheck("C21", true) { what = "as C14, with queues as pages (a sixth mixed with simple heaps): any thread puts entries into any queue (one producer and one consumer at a time), takes them out again in order, and releases queues from any process; bookkeeping is compared with a model whenever nothing is in progress."; } };
Reg reg(new C21);
}
