// C28: calls on something that is not an object of their kind.
#include "common.h"
#include "blocks.h"

namespace {
enum { K_HEAP, K_COMP, K_STACK, K_SPACE, K_LFH, K_LOG, K_PORTAL, K_SPCQ, K_MPMC, K_TREE, K_INDEX, K_CTX, NKIND };
static const char *kind_names[] = {"simple heap", "compound heap", "stack", "space", "lock-free heap", "logger", "portal", "single queue", "multi queue", "string tree", "index", "context"};
// families: what the type check of a plain call tells apart
static const int family[NKIND] = {1, 2, 3, 4, 5, 6, 7, 8, 8, 2, 2, 1};
// R_ZERO: null, 0 or false; R_NEG: -1; R_NZ: an error code; R_ANY: no result, or none that tells
enum { R_ZERO, R_NEG, R_NZ, R_ANY };
enum { FAM, EXACT, NEAR };      // which other objects are foreign; NEAR: the argument is an address inside an object
struct Fn { const char *name; int kind, how, ret; u64 (*call)(void *); };

static char key_s[] = "k1";
static SASIndexKey_t ikey;
static SPHLFLoggerHandle_t hlog; static SPHLFEntryHandle_t hent;
static SPHLFLogIterator_t itl; static SPHLFPortalIterator_t itp;
static void *arg_log, *arg_page, *arg_mem;     // a logger, a page of a compound heap, storage: valid other arguments

#define H SASSimpleHeap_t
#define F_(n, k, how, r, ...) {#n, k, how, r, [](void *v) -> u64 { return (u64)(A->n(__VA_ARGS__)); }},
#define FV(n, k, how, ...) {#n, k, how, R_ANY, [](void *v) -> u64 { A->n(__VA_ARGS__); return 0; }},
static const Fn fns[] = {
  // simple heap
  F_(SASSimpleHeapAlloc, K_HEAP, FAM, R_ZERO, (H)v, 64)
  F_(SASSimpleHeapAllocNoLock, K_HEAP, FAM, R_ZERO, (H)v, 64)
  F_(SASSimpleHeapFree, K_HEAP, FAM, R_NZ, (H)v, (char *)v + 1024, 64)
  F_(SASSimpleHeapFreeNoLock, K_HEAP, FAM, R_NZ, (H)v, (char *)v + 1024, 64)
  F_(SASSimpleHeapFreeSpace, K_HEAP, FAM, R_ZERO, (H)v)
  F_(SASSimpleHeapFreeSpaceNoLock, K_HEAP, FAM, R_ZERO, (H)v)
  F_(SASSimpleHeapEmpty, K_HEAP, FAM, R_ZERO, (H)v)
  F_(SASSimpleHeapEmptyNoLock, K_HEAP, FAM, R_ZERO, (H)v)
  F_(SASSimpleHeapDestroy, K_HEAP, EXACT, R_NZ, (H)v)
  F_(SASSimpleHeapDestroyNoLock, K_HEAP, EXACT, R_NZ, (H)v)
  F_(SASSimpleHeapNearFind, K_HEAP, NEAR, R_ZERO, v)
  F_(SASSimpleHeapNearAllocNoLock, K_HEAP, NEAR, R_ZERO, v, 64)
  FV(SASSimpleHeapNearDeallocNoLock, K_HEAP, NEAR, v, 64)
  // compound heap
  F_(SASCompoundHeapAlloc, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapAllocNoLock, K_COMP, FAM, R_ZERO, v)
  FV(SASCompoundHeapFree, K_COMP, FAM, v, (H)arg_page)
  FV(SASCompoundHeapFreeNoLock, K_COMP, FAM, v, (H)arg_page)
  F_(SASCompoundHeapAllocSize, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapAllocSpace, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapFreeSpace, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapFreeSpaceNoLock, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapGetLoadFactor, K_COMP, FAM, R_NEG, (SASCompoundHeap_t *)v)
  FV(SASCompoundHeapSetLoadFactor, K_COMP, FAM, (SASCompoundHeap_t *)v, 50)
  F_(SASCompoundHeapWriteAll, K_COMP, FAM, R_ZERO, v, 0)
  F_(SASCompoundHeapPurgeAll, K_COMP, FAM, R_ZERO, v, 0)
  F_(SASCompoundHeapBringAll, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapReleaseAll, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapSeqAccessAll, K_COMP, FAM, R_ZERO, v)
  F_(SASCompoundHeapRandomAccessAll, K_COMP, FAM, R_ZERO, v)
  FV(SASCompoundHeapDestroy, K_COMP, FAM, v)
  FV(SASCompoundHeapDestroyNoLock, K_COMP, FAM, v)
  F_(SPHCompoundPCQAlloc, K_COMP, FAM, R_ZERO, v)
  F_(SPHCompoundPCQAllocNoLock, K_COMP, FAM, R_ZERO, v)
  FV(SPHCompoundPCQFree, K_COMP, FAM, v, (SPHSinglePCQueue_t)arg_page)
  F_(SASCompoundHeapNearAlloc, K_COMP, NEAR, R_ZERO, v)
  F_(SASCompoundHeapNearAllocNoLock, K_COMP, NEAR, R_ZERO, v)
  FV(SASCompoundHeapNearDealloc, K_COMP, NEAR, v)
  FV(SASCompoundHeapNearDeallocNoLock, K_COMP, NEAR, v)
  // stack, space
  F_(SASSimpleStackAlloc, K_STACK, FAM, R_ZERO, v, 64)
  F_(SASSimpleStackAllocNoLock, K_STACK, FAM, R_ZERO, v, 64)
  F_(SASSimpleStackDealloc, K_STACK, FAM, R_NZ, v, (char *)v + 1024)
  F_(SASSimpleStackDeallocNoLock, K_STACK, FAM, R_NZ, v, (char *)v + 1024)
  F_(SASSimpleStackFreeSpace, K_STACK, FAM, R_ZERO, v)
  F_(SASSimpleStackFreeSpaceNoLock, K_STACK, FAM, R_ZERO, v)
  F_(SASSimpleStackDestroy, K_STACK, EXACT, R_NZ, v)
  F_(SASSimpleStackDestroyNoLock, K_STACK, EXACT, R_NZ, v)
  F_(SASSimpleStackNearAlloc, K_STACK, NEAR, R_ZERO, v, 64)
  F_(SASSimpleStackNearAllocNoLock, K_STACK, NEAR, R_ZERO, v, 64)
  F_(SASSimpleSpaceToAddr, K_SPACE, FAM, R_ZERO, v)
  F_(SASSimpleSpaceFromAddr, K_SPACE, FAM, R_ZERO, (char *)v + 4096)
  F_(SASSimpleSpaceFreeSpace, K_SPACE, FAM, R_ZERO, v)
  F_(SASSimpleSpaceDestroy, K_SPACE, EXACT, R_NZ, v)
  F_(SASSimpleSpaceDestroyNoLock, K_SPACE, EXACT, R_NZ, v)
  // lock-free heap
  F_(SPHLockFreeHeapAlloc, K_LFH, FAM, R_ZERO, v, 64)
  F_(SPHLockFreeHeapAlignAlloc, K_LFH, FAM, R_ZERO, v, 64, 64)
  F_(SPHLockFreeHeapFree, K_LFH, FAM, R_NZ, v, (char *)v + 1024)
  F_(SPHLockFreeHeapFreeChk, K_LFH, FAM, R_NZ, v, (char *)v + 1024, 64)
  F_(SPHLockFreeHeapFreeIn, K_LFH, FAM, R_NZ, v, (char *)v + 1024)
  F_(SPHLockFreeHeapFreeSpace, K_LFH, FAM, R_ZERO, v)
  F_(SPHLockFreeHeapDestroy, K_LFH, EXACT, R_NZ, v)
  F_(SPHLockFreeHeapNearFind, K_LFH, NEAR, R_ZERO, v)
  F_(SPHLockFreeHeapNearAlloc, K_LFH, NEAR, R_ZERO, v, 64)
  F_(SPHLockFreeHeapFreeNear, K_LFH, NEAR, R_NZ, v)
  F_(SPHLockFreeHeapFreeNearChk, K_LFH, NEAR, R_NZ, v, 64)
  // logger
  F_(SPHLFLoggerAllocRaw, K_LOG, FAM, R_ZERO, v, 64)
  F_(SPHLFLoggerAllocTimeStamped, K_LOG, FAM, R_ZERO, v, 1, 2, 64, &hlog)
  F_(SPHLFLoggerAllocTimeStampedNoLock, K_LOG, FAM, R_ZERO, v, 1, 2, 64, &hlog)
  F_(SPHLFLoggerAllocStrideTimeStamped, K_LOG, FAM, R_ZERO, v, 1, 2, &hlog)
  F_(SPHLFLoggerAllocStrideTimeStampedNoLock, K_LOG, FAM, R_ZERO, v, 1, 2, &hlog)
  F_(SPHLFLoggerCreateIterator, K_LOG, FAM, R_ZERO, v, &itl)
  F_(SPHLFLoggerFreeSpace, K_LOG, FAM, R_ZERO, v)
  F_(SPHLFLoggerFull, K_LOG, FAM, R_NZ, v)
  F_(SPHLFLoggerEmpty, K_LOG, FAM, R_ZERO, v)
  F_(SPHLFLoggerWrapped, K_LOG, FAM, R_ZERO, v)
  F_(SPHLFLoggerResetAsync, K_LOG, EXACT, R_NZ, v)
  F_(SPHLFLoggerResetIfFullSync, K_LOG, EXACT, R_NZ, v)
  F_(SPHLFLoggerPrefetch, K_LOG, FAM, R_NZ, v)
  F_(SPHLFLoggerSetCachePrefetch, K_LOG, FAM, R_NZ, v, 1)
  F_(SPHLFLoggerDestroy, K_LOG, EXACT, R_NZ, v)
  // portal
  F_(SPHLogPortalAddLogger, K_PORTAL, FAM, R_ZERO, v, (SPHLFLogger_t)arg_log)
  F_(SPHLogPortalGetCurrentLogger, K_PORTAL, FAM, R_ZERO, v)
  F_(SPHLogPortalGetLoggerByIndex, K_PORTAL, FAM, R_ZERO, v, 0)
  F_(SPHLogPortalGetCurrentIndex, K_PORTAL, FAM, R_NEG, v)
  F_(SPHLogPortalEntries, K_PORTAL, FAM, R_NEG, v)
  F_(SPHLogPortalCapacity, K_PORTAL, FAM, R_ZERO, v)
  F_(SPHLogPortalEmpty, K_PORTAL, FAM, R_ZERO, v)
  F_(SPHLFPortalCreateIterator, K_PORTAL, FAM, R_ZERO, v, &itp)
  F_(SPHLogPortalAllocRaw, K_PORTAL, FAM, R_ZERO, v, 64)
  F_(SPHLogPortalAllocTimeStamped, K_PORTAL, FAM, R_ZERO, v, 1, 2, 64, &hlog)
  F_(SPHLogPortalAllocStrideTimeStamped, K_PORTAL, FAM, R_ZERO, v, 1, 2, &hlog)
  F_(SPHLogPortalDestroy, K_PORTAL, EXACT, R_NZ, v)
  // queues
  F_(SPHSinglePCQueueGetStride, K_SPCQ, FAM, R_NEG, v)
  F_(SPHSinglePCQueueResetAsync, K_SPCQ, FAM, R_NZ, v)
  F_(SPHSinglePCQueueEmpty, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueFull, K_SPCQ, FAM, R_NZ, v)
  F_(SPHSinglePCQueueFreeSpace, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueAllocRaw, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueAllocStrideDirect, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueAllocStrideDirectSpin, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueAllocStrideDirectSpinPause, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueAllocStrideEntry, K_SPCQ, FAM, R_ZERO, v, 1, 2, &hent)
  F_(SPHSinglePCQueueAllocStrideTimeStamped, K_SPCQ, FAM, R_ZERO, v, 1, 2, &hent)
  F_(SPHSinglePCQueueGetNextComplete, K_SPCQ, FAM, R_ZERO, v, &hent)
  F_(SPHSinglePCQueueGetNextCompleteDirect, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueGetNextCompleteDirectSpin, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueGetNextCompleteDirectSpinPause, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueGetNextEntryDirect, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueFreeNextEntry, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueFreeNextEntryDirect, K_SPCQ, FAM, R_ZERO, v, (SPHLFEntryDirect_t)((char *)v + 1024))
  F_(SPHSinglePCQueueGetEntryTemplate, K_SPCQ, FAM, R_ZERO, v)
  F_(SPHSinglePCQueueSetCachePrefetch, K_SPCQ, FAM, R_NZ, v, 1)
  F_(SPHSinglePCQueuePrefetch, K_SPCQ, FAM, R_NZ, v)
  F_(SPHSinglePCQueueDestroy, K_SPCQ, EXACT, R_NZ, v)
  F_(SPHMPMCQGetStride, K_MPMC, FAM, R_NEG, v)
  F_(SPHMPMCQResetAsync, K_MPMC, FAM, R_NZ, v)
  F_(SPHMPMCQIsEmpty, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPMCQIsFull, K_MPMC, FAM, R_NZ, v)
  F_(SPHMPMCQFreeSpace, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPMCQGetEntryTemplate, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPMCQAllocStrideDirectSync, K_MPMC, FAM, R_ZERO, v)
  F_(SPHSPMCQAllocStrideDirect, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPMCQGetNextCompleteDirectSync, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPSCQGetNextCompleteDirect, K_MPMC, FAM, R_ZERO, v)
  F_(SPHMPMCQFreeEntryDirect, K_MPMC, FAM, R_ZERO, v, (SPHLFEntryDirect_t)((char *)v + 1024))
  F_(SPHMPMCQPrefetch, K_MPMC, FAM, R_NZ, v)
  F_(SPHMPMCQDestroy, K_MPMC, EXACT, R_NZ, v)
  // string tree
  F_(SASStringBTreePut, K_TREE, FAM, R_ZERO, v, key_s, arg_mem)
  F_(SASStringBTreePut_nolock, K_TREE, FAM, R_ZERO, v, key_s, arg_mem)
  F_(SASStringBTreeReplace, K_TREE, FAM, R_ZERO, v, key_s, arg_mem)
  F_(SASStringBTreeReplace_nolock, K_TREE, FAM, R_ZERO, v, key_s, arg_mem)
  F_(SASStringBTreeRemove, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeRemove_nolock, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeGet, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeGet_nolock, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeContainsKey, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeContainsKey_nolock, K_TREE, FAM, R_ZERO, v, key_s)
  F_(SASStringBTreeGetMinKey, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetMinKey_nolock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetMaxKey, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetMaxKey_nolock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeIsEmpty, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeIsEmpty_nolock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetCurCount, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetModCount, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetModCount_nolock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetRootNode, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeGetRootNodeNoLock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeAlloc, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeAllocNoLock, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeAllocSize, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeFreeSpace, K_TREE, FAM, R_ZERO, v)
  F_(SASStringBTreeFreeSpaceNoLock, K_TREE, FAM, R_ZERO, v)
  FV(SASStringBTreeDestroy, K_TREE, FAM, v)
  FV(SASStringBTreeDestroyNoLock, K_TREE, FAM, v)
  F_(SASStringBTreeNearAlloc, K_TREE, NEAR, R_ZERO, v)
  F_(SASStringBTreeNearAllocNoLock, K_TREE, NEAR, R_ZERO, v)
  FV(SASStringBTreeNearDealloc, K_TREE, NEAR, v)
  // index
  F_(SASIndexPut, K_INDEX, FAM, R_ZERO, v, &ikey, arg_mem)
  F_(SASIndexPut_nolock, K_INDEX, FAM, R_ZERO, v, &ikey, arg_mem)
  F_(SASIndexReplace, K_INDEX, FAM, R_ZERO, v, &ikey, arg_mem)
  F_(SASIndexReplace_nolock, K_INDEX, FAM, R_ZERO, v, &ikey, arg_mem)
  F_(SASIndexRemove, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexRemove_nolock, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexGet, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexGet_nolock, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexContainsKey, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexContainsKey_nolock, K_INDEX, FAM, R_ZERO, v, &ikey)
  F_(SASIndexGetMinKey, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetMinKey_nolock, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetMaxKey, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetMaxKey_nolock, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexIsEmpty, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexIsEmpty_nolock, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetModCount, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetModCount_nolock, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetRootNode, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexGetRootNode_nolock, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexAllocSize, K_INDEX, FAM, R_ZERO, v)
  F_(SASIndexFreeSpace, K_INDEX, FAM, R_ZERO, v)
  FV(SASIndexDestroy, K_INDEX, FAM, v)
  // context
  F_(SPHContextAddName, K_CTX, FAM, R_ZERO, v, key_s, arg_mem)
  F_(SPHContextRename, K_CTX, FAM, R_ZERO, v, key_s, "k2", arg_mem)
  F_(SPHContextFindByName, K_CTX, FAM, R_ZERO, v, key_s)
  F_(SPHContextFindByAddr, K_CTX, FAM, R_ZERO, v, arg_mem)
  F_(SPHContextGetNameEnum, K_CTX, FAM, R_ZERO, v)
  F_(SPHContextRemoveByName, K_CTX, FAM, R_NZ, v, key_s)
  F_(SPHContextRemoveByAddr, K_CTX, FAM, R_NZ, v, arg_mem)
  F_(SPHContextFreeSpace, K_CTX, FAM, R_ZERO, v)
  F_(SPHContextDestroy, K_CTX, EXACT, R_NZ, v)
};
enum { NF = sizeof fns / sizeof *fns };

struct C28 : Check {
  enum { CALL, OTHER, STALE, OWNHEAP, OWNTREE, OWNLOG, OWNBLOCK, PROBE, RACE };
  enum { D_RAW, D_SIG1, D_SIG2, D_TYPE, D_USER, D_ZERO, ND };
  // what the calls are aimed at; nothing may ever change there
  struct Victim { char *p; u64 size; int kind, damage; u64 head[3]; std::vector<unsigned char> was; };
  std::vector<Victim> vic;
  struct Own { void *heap = 0, *tree = 0, *log = 0; std::vector<std::pair<char *, u64>> mem; std::map<int, void *> map; u64 n = 0, logged = 0; } own[8];
  bool frozen = false; int allocs = 0;
  // several threads destroy one object at the same time
  struct Race { void *v = 0; int k = 0, in = 0, done = 0, ok = 0; bool go = false; } race;
  C28() : Check("C28") {
    what = "one object of every kind, storage that is no object, headers with one damaged word and user-defined objects are handed by 1-4 threads of 1-3 processes to 180 calls that are not theirs, directly and as an address inside, also in place of further arguments, and destroyed objects to the calls of their own kind, while other threads use heaps, trees, loggers and blocks of their own.";
    opnames = {"foreign-call", "foreign-argument", "stale-call", "own-heap", "own-tree", "own-logger", "own-block", "lock", "destroy-race"};
    probe_names = {"refused", "near_refused", "damaged_refused", "stale_refused", "double_destroy", "argument_refused", "raced"};
    real = {"sasalloc.h", "sasalloc.cpp", "sassimpleheap.cpp", "sascompoundheap.cpp", "sassimplestack.cpp", "sassimplespace.cpp", "sphlockfreeheap.cpp", "sphlflogger.cpp", "sphlogportal.cpp", "sphsinglepcqueue.cpp", "sphmultipcqueue.cpp", "sasstringbtree.cpp", "sasindex.cpp", "sphcontext.cpp", "saslock.cpp", "sassim.cpp"};
    stub = {"open, ftruncate, mmap, munmap, shmget, shmat, semaphores of the operating system"};
    quick_runs = 20000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nth = (int)r.range(p.nprocs, 4);
    p.cfg = {(long)r.next(), r.range(0, 3)};
    int focus = r.chance(1, 2) ? (int)r.below(NKIND) : -1;
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int n = (int)r.range(6, 30);
      for (int i = 0; i < n; i++) {
        int q = (int)r.below(20);
        Op o{CALL, (long)r.below(NF), (long)r.below(NKIND + ND * 3), (long)r.below(5), (long)r.next() & 0xffff};
        if (focus >= 0 && r.chance(1, 2)) { do o.a = (long)r.below(NF); while (fns[o.a].kind != focus); }
        if (q == 10 || q == 11) o.k = STALE;
        else if (q == 12) o.k = OTHER;
        else if (q == 13) o.k = OWNHEAP;
        else if (q == 14) o.k = OWNTREE;
        else if (q == 15) o.k = OWNLOG;
        else if (q == 16) o.k = OWNBLOCK;
        else if (q == 17) o.k = PROBE;
        else if (q == 18) o.k = RACE;
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(nth), (int)r.below(6), r.range(1, 200), r.logrange(50, 5000), 0});
    if (r.chance(1, 3)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 4), 0});
  }
  void *make(int k, u64 size, bool fill) {
    void *v = 0;
    switch (k) {
    case K_HEAP: v = A->SASSimpleHeapCreate(size); if (v && fill) A->SASSimpleHeapAlloc((H)v, 128); break;
    case K_COMP: v = A->SASCompoundHeapCreatePageSize(size * 4, 1024); if (v && fill) A->SASCompoundHeapAlloc(v); break;
    case K_STACK: v = A->SASSimpleStackCreate(size); if (v && fill) A->SASSimpleStackAlloc(v, 2048); break;
    case K_SPACE: v = A->SASSimpleSpaceCreate(size); break;
    case K_LFH: v = A->SPHLockFreeHeapCreate(size, 64); if (v && fill) A->SPHLockFreeHeapAlloc(v, 128); break;
    case K_LOG: { v = A->SPHLFCircularLoggerCreate(size, 128); SPHLFLoggerHandle_t h; if (v && fill && A->SPHLFLoggerAllocStrideTimeStamped(v, 1, 2, &h)) A->SPHLFLoggerEntryComplete(&h); break; }
    case K_PORTAL: v = A->SPHLogPortalCreate(size); break;
    case K_SPCQ: { v = A->SPHSinglePCQueueCreateWithStride(size, 128); SPHLFEntryHandle_t h; if (v && fill && A->SPHSinglePCQueueAllocStrideEntry(v, 1, 2, &h)) A->SPHSinglePCQueueEntryComplete(&h); break; }
    case K_MPMC: v = A->SPHMPMCQCreateWithStride(size, 128); break;
    case K_TREE: v = A->SASStringBTreeCreate(size * 8); if (v && fill) { A->SASStringBTreePut(v, "k1", v); A->SASStringBTreePut(v, "m", v); } break;
    case K_INDEX: v = A->SASIndexCreate(size * 8); if (v && fill) A->SASIndexPut(v, &ikey, v); break;
    case K_CTX: v = A->SPHContextCreate(size); if (v && fill) A->SPHContextAddName(v, "k1", v); break;
    }
    if (!v) fail("refused", "no %s could be created", kind_names[k]);
    return v;
  }
  // with what a call says about the object it was created as
  int destroy(int k, void *v) {
    switch (k) {
    case K_HEAP: return A->SASSimpleHeapDestroy((H)v);
    case K_COMP: A->SASCompoundHeapDestroy(v); return 0;
    case K_STACK: return A->SASSimpleStackDestroy(v);
    case K_SPACE: return A->SASSimpleSpaceDestroy(v);
    case K_LFH: return A->SPHLockFreeHeapDestroy(v);
    case K_LOG: return A->SPHLFLoggerDestroy(v);
    case K_PORTAL: return A->SPHLogPortalDestroy(v);
    case K_SPCQ: return A->SPHSinglePCQueueDestroy(v);
    case K_MPMC: return A->SPHMPMCQDestroy(v);
    case K_TREE: A->SASStringBTreeDestroy(v); return 0;
    case K_INDEX: A->SASIndexDestroy(v); return 0;
    case K_CTX: return A->SPHContextDestroy(v);
    }
    return 0;
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    A->SASIndexKeyInitUInt64(&ikey, 42);
    Rng r((u64)p.cfg[0]);
    u64 size = 16384;
    std::vector<int> order;
    for (int i = 0; i < NKIND + ND * 3; i++) order.push_back(i);
    for (size_t i = order.size() - 1; i; i--) std::swap(order[i], order[r.below(i + 1)]);
    vic.resize(order.size());
    for (int i : order) {
      Victim &v = vic[i];
      if (i < NKIND) {
        v.kind = i; v.damage = -1;
        v.p = (char *)make(i, size, p.cfg[1] != 0);
        v.size = ((SASBlockHeader *)v.p)->blockSize;
        if (v.size < size || v.size > size * 8) v.size = size;
      } else {
        // storage that is no object of the library, but looks like one of kind `kind`
        v.kind = (int)r.below(NKIND); v.damage = (i - NKIND) % ND; v.size = size;
        if (v.damage == D_RAW || v.damage == D_ZERO) {
          v.p = (char *)A->SASBlockAlloc(size);
          if (!v.p) fail("refused", "no block for storage");
          for (u64 k = 0; k + 8 <= size; k += 8) *(volatile u64 *)(v.p + k) = v.damage == D_ZERO ? 0 : stamp_word(i, k);
        } else {
          // a sound object but for one word of its header
          v.p = (char *)make(v.kind, size, p.cfg[1] != 0);
          SASBlockHeader *h = (SASBlockHeader *)v.p;
          v.size = h->blockSize;
          u64 bit = 1ULL << r.below(64);
          v.head[0] = h->blockSig1; v.head[1] = h->blockSig2; v.head[2] = h->blockType;
          if (v.damage == D_SIG1) h->blockSig1 = r.chance(1, 3) ? 0 : h->blockSig1 ^ bit;
          if (v.damage == D_SIG2) h->blockSig2 = r.chance(1, 3) ? 0 : h->blockSig2 ^ bit;
          if (v.damage == D_TYPE) h->blockType = (h->blockType & ~SAS_TYPE_MASK) | (sas_type_t)(r.range(0x90, 0xef) << 16);
          if (v.damage == D_USER) h->blockType = SAS_USERDEFINED_GROUP | (h->blockType & ~SAS_GROUP_MASK);
        }
      }
    }
    arg_log = vic[K_LOG].p; arg_mem = vic[NKIND].p + 512;
    if (p.cfg[1]) { arg_page = A->SASCompoundHeapAlloc(vic[K_COMP].p); if (!arg_page) fail("refused", "no page"); } else arg_page = vic[K_HEAP].p;
    for (auto &v : vic) {
      v.was.assign((unsigned char *)v.p, (unsigned char *)v.p + v.size);
      for (int i = 1; i < p.nprocs; i++) { proc_switch(i); if (memcmp(v.p, v.was.data(), v.size)) fail("setup", "processes see different contents"); }
      proc_switch(0);
    }
  }
  void same(const Victim &v, const char *call) {
    for (u64 k = 0; k < v.size; k++)
      if ((unsigned char)v.p[k] != v.was[k]) fail("foreign-touched", "%s on a %s: byte %llu of it changed from %02x to %02x", call, vname(v), (unsigned long long)k, v.was[k], (unsigned char)v.p[k]);
  }
  const char *vname(const Victim &v) {
    static const char *dn[] = {"block of user data", "header with a damaged first signature looking like a ", "header with a damaged second signature looking like a ", "header of an unknown type looking like a ", "user-defined object looking like a ", "zeroed block"};
    static char b[160];
    if (v.damage < 0) return kind_names[v.kind];
    snprintf(b, sizeof b, "%s%s", dn[v.damage], v.damage == D_RAW || v.damage == D_ZERO ? "" : kind_names[v.kind]);
    return b;
  }
  void judge(const Fn &f, u64 r, const char *on) {
    bool ok = f.ret == R_ANY || (f.ret == R_ZERO ? r == 0 : f.ret == R_NEG ? (int)r == -1 : (int)r != 0);
    if (!ok) fail("foreign-accepted", "%s on a %s returned %llx", f.name, on, (unsigned long long)r);
    note(f.ret == R_ANY ? 0 : r);
  }
  bool foreign(const Fn &f, const Victim &v) {
    if (v.damage >= 0) return f.how != NEAR && strcmp(f.name, "SASSimpleSpaceFromAddr");
    if (f.how == NEAR) return family[v.kind] != family[f.kind] && !(family[f.kind] <= 2 && family[v.kind] <= 2);
    if (f.how == EXACT) return v.kind != f.kind;
    return family[v.kind] != family[f.kind];
  }
  void own_op(int th, const Op &o) {
    Own &w = own[th];
    sim_wait([this] { return !frozen; });
    allocs++;
    switch (o.k) {
    case OWNHEAP:
      if (!w.heap) { w.heap = make(K_HEAP, 8192, false); break; }
      if (w.mem.size() && o.d % 3 == 0) {
        auto m = w.mem.back(); w.mem.pop_back();
        if (stamp_check(m.first, 96, m.second) >= 0) fail("bystander", "storage of a heap nobody else uses was overwritten");
        if (A->SASSimpleHeapFree((H)w.heap, m.first, 96)) fail("bystander", "the own heap refuses its storage");
      } else {
        char *m = (char *)A->SASSimpleHeapAlloc((H)w.heap, 96);
        if (m) { u64 id = th * 1000 + ++w.n; stamp_write(m, 96, id); w.mem.push_back({m, id}); }
        else if (w.mem.size() < 20) fail("bystander", "the own heap refuses storage");
      }
      break;
    case OWNTREE: {
      if (!w.tree) { w.tree = make(K_TREE, 16384, false); break; }
      int k = (int)(o.d % 6); char b[8]; snprintf(b, sizeof b, "t%d", k);
      void *g = A->SASStringBTreeGet(w.tree, b);
      if (g != (w.map.count(k) ? w.map[k] : nullptr)) fail("bystander", "the own tree gives %p for key %s", g, b);
      if (o.c & 1) { void *val = (void *)(0x1000 + ++w.n); if (!A->SASStringBTreePut(w.tree, b, val) != (bool)w.map.count(k)) fail("bystander", "put into the own tree"); if (!w.map.count(k)) w.map[k] = val; }
      else { A->SASStringBTreeRemove(w.tree, b); w.map.erase(k); }
      break;
    }
    case OWNLOG: {
      if (!w.log) { w.log = make(K_LOG, 8192, false); break; }
      SPHLFLoggerHandle_t h;
      if (!A->SPHLFLoggerAllocStrideTimeStamped(w.log, 3, 4, &h)) fail("bystander", "the own logger refuses an entry");
      A->SPHLFLoggerEntryComplete(&h); w.logged++;
      SPHLFLogIterator_t it; if (!A->SPHLFLoggerCreateIterator(w.log, &it)) fail("bystander", "the own logger has no iterator");
      u64 n = 0; while (A->SPHLFLoggerIteratorNext(&it, &h)) n++;
      u64 cap = (8192 - 128) / 128;
      if (w.logged < cap && n != w.logged) fail("bystander", "the own logger holds %llu of %llu entries", (unsigned long long)n, (unsigned long long)w.logged);
      break;
    }
    case OWNBLOCK: {
      char *b = (char *)A->SASBlockAlloc(16384);
      if (!b) fail("bystander", "no block");
      for (auto &v : vic) if (b < v.p + v.size && v.p < b + 16384) fail("bystander", "a block was handed out that a %s occupies", vname(v));
      stamp_write(b, 16384, th + 7);
      for (int i = 0; i < (int)(o.c); i++) sim_yield();
      if (stamp_check(b, 16384, th + 7) >= 0) fail("bystander", "a block nobody else uses was overwritten");
      A->SASBlockDealloc(b, 16384);
      break;
    }
    }
    allocs--;
  }
  void racer() {
    int k = race.k;
    int rc = destroy(k, race.v);
    logf_("destroy = %d", rc);
    if (!rc) race.ok++;
  }
  void op(int th, int, const Op &o) override {
    A->SASThreadSetUp();
    if (race.v && !race.go) {
      race.in++;
      sim_wait([this] { return race.go; });
      racer();
      race.done++;
      sim_wait([this] { return !race.v; });
    }
    switch (o.k) {
    case CALL: {
      const Fn &f = fns[o.a];
      size_t i = (size_t)o.b, n = 0;
      while (!foreign(f, vic[i]) && n++ < vic.size()) i = (i + 1) % vic.size();
      const Victim &v = vic[i];
      char *arg = v.p;
      if (f.how == NEAR) { static const u64 off[] = {0, 128, 256, 4096, 0}; arg += o.c == 4 ? (v.size - 64) : off[o.c]; }
      u64 r = f.call(arg);
      logf_("%s(%s) = %llx", f.name, vname(v), (unsigned long long)r);
      judge(f, r, vname(v));
      same(v, f.name);
      probe(v.damage >= 0 ? 2 : f.how == NEAR ? 1 : 0);
      return;
    }
    case OTHER: {
      // the right object, something else in place of a further argument
      const Victim *v = &vic[o.b];
      switch (o.c) {
      case 0: case 1: {
        if (v->damage < 0 && family[v->kind] == family[K_LOG]) v = &vic[K_STACK];
        void *r = A->SPHLogPortalAddLogger(vic[K_PORTAL].p, v->p);
        if (r) fail("foreign-accepted", "a portal takes a %s for a logger", vname(*v));
        break;
      }
      default:
        if (v->damage < 0 && family[v->kind] == family[K_HEAP]) v = &vic[K_STACK];
        if (o.c == 2) A->SASCompoundHeapFree(vic[K_COMP].p, (H)v->p); else A->SASCompoundHeapFreeNoLock(vic[K_COMP].p, (H)v->p);
      }
      same(*v, "as an argument"); same(vic[K_PORTAL], "SPHLogPortalAddLogger"); same(vic[K_COMP], "SASCompoundHeapFree");
      probe(5);
      return;
    }
    case STALE: {
      // while nobody takes or returns blocks: a destroyed object and the calls of its kind
      sim_wait([this] { return !frozen && !allocs; });
      frozen = true;
      int k = (int)(o.b % NKIND);
      char *v = (char *)make(k, 16384, o.c & 1);
      u64 bs = ((SASBlockHeader *)v)->blockSize;
      SPHLFLogIterator_t li; SPHLFPortalIterator_t pi; SPHLFLoggerHandle_t h;
      bool it = (k == K_LOG && A->SPHLFLoggerCreateIterator(v, &li)) || (k == K_PORTAL && A->SPHLFPortalCreateIterator(v, &pi));
      if (destroy(k, v)) fail("own-refused", "destroying a %s was refused", kind_names[k]);
      if (it) {
        void *e = k == K_LOG ? A->SPHLFLoggerIteratorNext(&li, &h) : A->SPHLFPortalIteratorNext(&pi, &h);
        if (e) fail("foreign-accepted", "the reader of a destroyed %s still finds entries", kind_names[k]);
      }
      std::vector<unsigned char> was((unsigned char *)v, (unsigned char *)v + bs);
      Rng r((u64)o.d);
      u64 free0 = freemem();
      for (int i = 0; i < 4; i++) {
        const Fn *f; int tries = 0;
        do f = &fns[r.below(NF)]; while ((f->kind != k && tries++ < 200) || f->how == NEAR || !strcmp(f->name, "SASSimpleSpaceFromAddr"));
        u64 x = f->call(v);
        char b[80]; snprintf(b, sizeof b, "destroyed %s", kind_names[k]);
        logf_("%s(%s) = %llx", f->name, b, (unsigned long long)x);
        judge(*f, x, b);
        if (memcmp(v, was.data(), bs)) fail("stale-touched", "%s changed a %s", f->name, b);
        probe(3);
        if (strstr(f->name, "Destroy")) probe(4);
      }
      if (freemem() != free0) fail("stale-touched", "calls on a destroyed %s changed the free storage of the region from %llx to %llx", kind_names[k], (unsigned long long)free0, (unsigned long long)freemem());
      frozen = false;
      return;
    }
    case RACE: {
      sim_wait([this] { return !frozen && !allocs; });
      frozen = true;
      u64 free0 = freemem();
      Race q; q.k = (int)(o.b % NKIND); void *v = make(q.k, 16384, o.c & 1); q.v = v; race = q;
      for (int i = 0; i < 40 && race.in < 1 + o.c; i++) sim_yield();
      race.go = true;
      int rc = destroy(race.k, v);
      if (!rc) race.ok++;
      sim_wait([this] { return race.done == race.in; });
      bool tells = race.k != K_COMP && race.k != K_TREE && race.k != K_INDEX;
      logf_("%d destroyed a %s, %d succeeded", race.in + 1, kind_names[race.k], race.ok);
      if (tells && race.ok != 1) fail("destroyed-twice", "%d threads destroyed one %s and %d of them were told they did", race.in + 1, kind_names[race.k], race.ok);
      if (freemem() % 0x10000000 != free0 % 0x10000000) fail("destroyed-twice", "creating a %s and destroying it from %d threads changed the free storage from %llx to %llx", kind_names[race.k], race.in + 1, (unsigned long long)free0, (unsigned long long)freemem());
      if (race.in) probe(6);
      race = Race(); frozen = false;
      return;
    }
    case OWNHEAP: case OWNTREE: case OWNLOG: case OWNBLOCK: own_op(th, o); return;
    case PROBE: {
      // a refused call leaves no lock behind
      const Victim &v = vic[o.b];
      A->SASLock(v.p, o.c & 1 ? SasUserLock__WRITE : SasUserLock__READ);
      sim_point_here();
      A->SASUnlock(v.p);
      same(v, "nothing");
      return;
    }
    }
  }
  u64 freemem() { u64 t = 0; for (auto &x : get_list(L_FREE).v) t += x.second; for (auto &x : get_list(L_UNC).v) t += x.second; return t; }
  void finish(Prog &p) override {
    for (auto &v : vic) same(v, "the end");
    // every object still works and goes away as its own kind
    for (auto &v : vic) if (v.damage >= 0 && v.damage != D_RAW && v.damage != D_ZERO) {
      SASBlockHeader *h = (SASBlockHeader *)v.p;
      h->blockSig1 = v.head[0]; h->blockSig2 = v.head[1]; h->blockType = (sas_type_t)v.head[2];
      if (destroy(v.kind, v.p)) fail("own-refused", "destroying a mended %s was refused at the end", kind_names[v.kind]);
    }
    for (int k = 0; k < NKIND; k++) if (destroy(k, vic[k].p)) fail("own-refused", "destroying the %s was refused at the end", kind_names[k]);
  }
};
static C28 c28;
static Reg reg(&c28);
}
