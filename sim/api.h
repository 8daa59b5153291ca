// Public calls of the library. API_LIST: exported functions, found with dlsym in
// each simulated process's copy.  INLINE_LIST: functions the headers define
// inline; shim.cpp instantiates them inside the library copy, instrumented.
#pragma once
#include <sys/time.h>
#include <time.h>
#include "sastype.h"
#include "sassim.h"
#include "sasalloc.h"
#include "freenode.h"
#include "saslock.h"
#include "sasmsync.h"
#include "sassimpleheap.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sasindex.h"
#include "sasindexkey.h"
#include "sasindexnode.h"
#include "sasstringbtreenode.h"
#include "sasindexenum.h"
#include "sphcontext.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlogportal.h"
#include "sphsinglepcqueue.h"
#include "sphmultipcqueue.h"
extern "C" int SPHMPMCQResetAsync(SPHMPMCQ_t queue);
extern "C" SASIndexNode_t SASIndexGetRootNode(SASIndex_t btree);
extern "C" SASIndexNode_t SASIndexGetRootNode_nolock(SASIndex_t btree);
#include "sphlfentry.h"
#include "sphdirectpcqueue.h"
#include "sphthread.h"
#include "sphtimer.h"
#include "sphgtod.h"
#include "sphgettime.h"
#include "sasatom.h"

#define API_LIST(X) \
 X(SASAnchorFreeSpace) X(SASBlockAlloc) X(SASBlockDealloc) X(SASCleanUp) \
 X(SASCompoundFixedHeapCreate) X(SASCompoundHeapAlloc) X(SASCompoundHeapAllocNoLock) X(SASCompoundHeapAllocSize) \
 X(SASCompoundHeapAllocSpace) X(SASCompoundHeapBringAll) X(SASCompoundHeapCreate) X(SASCompoundHeapCreatePageSize) \
 X(SASCompoundHeapDestroy) X(SASCompoundHeapDestroyNoLock) X(SASCompoundHeapExpandCreate) X(SASCompoundHeapFree) \
 X(SASCompoundHeapFreeNoLock) X(SASCompoundHeapFreeSpace) X(SASCompoundHeapFreeSpaceNoLock) X(SASCompoundHeapGetLoadFactor) \
 X(SASCompoundHeapInit) X(SASCompoundHeapNearAlloc) X(SASCompoundHeapNearAllocNoLock) X(SASCompoundHeapNearDealloc) \
 X(SASCompoundHeapNearDeallocNoLock) X(SASCompoundHeapPurgeAll) X(SASCompoundHeapRandomAccessAll) X(SASCompoundHeapReleaseAll) \
 X(SASCompoundHeapSeqAccessAll) X(SASCompoundHeapSetLoadFactor) X(SASCompoundHeapWriteAll) X(SASFindHeader) \
 X(SASIndexAllocSize) X(SASIndexContainsKey) X(SASIndexContainsKey_nolock) X(SASIndexCreate) X(SASIndexCreatePageSize) \
 X(SASIndexDestroy) X(SASIndexEnumCreate) X(SASIndexEnumDestroy) X(SASIndexEnumHasMore) \
 X(SASIndexEnumNext) X(SASIndexEnumNext_nolock) X(SASIndexExpandCreate) X(SASIndexFixedCreate) \
 X(SASIndexFreeSpace) X(SASIndexGet) X(SASIndexGetMaxKey) X(SASIndexGetMaxKey_nolock) \
 X(SASIndexGetMinKey) X(SASIndexGetMinKey_nolock) X(SASIndexGetModCount) X(SASIndexGetModCount_nolock) X(SASIndexGetRootNode) X(SASIndexGetRootNode_nolock) \
 X(SASIndexGet_nolock) X(SASIndexInit) X(SASIndexIsEmpty) X(SASIndexIsEmpty_nolock) \
 X(SASIndexPut) X(SASIndexPut_nolock) X(SASIndexRemove) X(SASIndexRemove_nolock) \
 X(SASIndexReplace) X(SASIndexReplace_nolock) X(SASJoinRegion) X(SASJoinRegionByName) \
 X(SASListAllocatedRegion) X(SASListFreeMem) X(SASListFreeRegion) X(SASListInUseMem) \
 X(SASListUncommittedMem) X(SASLocalAlloc) X(SASLocalDealloc) X(SASLock) \
 X(SASMaxDepthAllocatedRegion) X(SASMaxDepthUseMem) X(SASMemBring) X(SASMemRemove) \
 X(SASMemSync) X(SASNearAlloc) X(SASNearDealloc) X(SASSOMHeapAlloc) X(SASSOMHeapDealloc) X(SASRelease) \
 X(SASRemove) X(SASReset) X(SASResetSem) X(SASS2Log2) \
 X(SASSOMAlloc) X(SASSOMDealloc) X(SASSOMDestroy) X(SASSeize) \
 X(SASSimpleHeapAlloc) X(SASSimpleHeapAllocNoLock) X(SASSimpleHeapCreate) X(SASSimpleHeapDestroy) \
 X(SASSimpleHeapDestroyNoLock) X(SASSimpleHeapEmpty) X(SASSimpleHeapEmptyNoLock) X(SASSimpleHeapFree) \
 X(SASSimpleHeapFreeNoLock) X(SASSimpleHeapFreeSpace) X(SASSimpleHeapFreeSpaceNoLock) X(SASSimpleHeapInit) \
 X(SASSimpleHeapNearAlloc) X(SASSimpleHeapNearDealloc) X(SASSimpleHeapNearFind) X(SASSimpleHeapNearAllocNoLock) X(SASSimpleHeapNearDeallocNoLock) X(SASSimpleSpaceCreate) \
 X(SASSimpleSpaceDestroy) X(SASSimpleSpaceDestroyNoLock) X(SASSimpleSpaceFreeSpace) X(SASSimpleSpaceFromAddr) \
 X(SASSimpleSpaceInit) X(SASSimpleSpaceToAddr) X(SASSimpleStackAlloc) X(SASSimpleStackAllocNoLock) \
 X(SASSimpleStackCreate) X(SASSimpleStackDealloc) X(SASSimpleStackDeallocNoLock) X(SASSimpleStackDestroy) \
 X(SASSimpleStackDestroyNoLock) X(SASSimpleStackFreeSpace) X(SASSimpleStackFreeSpaceNoLock) X(SASSimpleStackInit) \
 X(SASSimpleStackNearAlloc) X(SASSimpleStackNearAllocNoLock) X(SASStringBTreeAlloc) X(SASStringBTreeAllocNoLock) \
 X(SASStringBTreeAllocSize) X(SASStringBTreeContainsKey) X(SASStringBTreeContainsKey_nolock) X(SASStringBTreeCreate) \
 X(SASStringBTreeCreatePageSize) X(SASStringBTreeDestroy) X(SASStringBTreeDestroyNoLock) X(SASStringBTreeEnumCount) \
 X(SASStringBTreeEnumCreate) X(SASStringBTreeEnumCreateStartAt) X(SASStringBTreeEnumCurrent) X(SASStringBTreeEnumDestroy) \
 X(SASStringBTreeEnumHasMore) X(SASStringBTreeEnumNext) X(SASStringBTreeEnumNext_nolock) X(SASStringBTreeExpandCreate) \
 X(SASStringBTreeFixedCreate) X(SASStringBTreeFree) X(SASStringBTreeFreeNoLock) X(SASStringBTreeFreeSpace) \
 X(SASStringBTreeFreeSpaceNoLock) X(SASStringBTreeGet) X(SASStringBTreeGetCurCount) X(SASStringBTreeGetMaxKey) \
 X(SASStringBTreeGetMaxKey_nolock) X(SASStringBTreeGetMinKey) X(SASStringBTreeGetMinKey_nolock) X(SASStringBTreeGetModCount) \
 X(SASStringBTreeGetModCount_nolock) X(SASStringBTreeGetRootNode) X(SASStringBTreeGetRootNodeNoLock) X(SASStringBTreeGet_nolock) \
 X(SASStringBTreeInit) X(SASStringBTreeIsEmpty) X(SASStringBTreeIsEmpty_nolock) X(SASStringBTreeNearAlloc) \
 X(SASStringBTreeNearAllocNoLock) X(SASStringBTreeNearDealloc) X(SASStringBTreeNearDeallocNoLock) X(SASStringBTreePut) \
 X(SASStringBTreePut_nolock) X(SASStringBTreeRemove) X(SASStringBTreeRemove_nolock) X(SASStringBTreeReplace) \
 X(SASStringBTreeReplace_nolock) X(SASThreadCleanUp) X(SASThreadSetUp) X(SASUnlock) \
 X(SPHCompoundPCQAlloc) X(SPHCompoundPCQAllocNoLock) X(SPHCompoundPCQFree) X(SPHCompoundPCQFreeNoLock) \
 X(SPHCompoundPCQNearAlloc) X(SPHCompoundPCQNearAllocNoLock) X(SPHContextAddName) X(SPHContextCreate) \
 X(SPHContextDestroy) X(SPHContextFindByAddr) X(SPHContextFindByName) X(SPHContextFreeSpace) \
 X(SPHContextGetNameEnum) X(SPHContextInit) X(SPHContextRemoveByAddr) X(SPHContextRemoveByName) \
 X(SPHContextRename) X(SPHDestroyProjectContext) X(SPHLFCircularLoggerCreate) X(SPHLFLoggerAllocRaw) \
 X(SPHLFLoggerAllocStrideTimeStamped) X(SPHLFLoggerAllocStrideTimeStampedNoLock) X(SPHLFLoggerAllocTimeStamped) X(SPHLFLoggerAllocTimeStampedNoLock) \
 X(SPHLFLoggerCreate) X(SPHLFLoggerCreateIterator) X(SPHLFLoggerDestroy) X(SPHLFLoggerEmpty) \
 X(SPHLFLoggerEntryComplete) X(SPHLFLoggerEntryIsComplete) X(SPHLFLoggerEntryIsTimestamped) X(SPHLFLoggerFreeSpace) \
 X(SPHLFLoggerFull) X(SPHLFLoggerInit) X(SPHLFLoggerInitWithStride) X(SPHLFLoggerIteratorNext) \
 X(SPHLFLoggerPrefetch) X(SPHLFLoggerResetAsync) X(SPHLFLoggerResetIfFullSync) X(SPHLFLoggerSetCachePrefetch) \
 X(SPHLFLoggerWrapped) X(SPHLFPortalCreateIterator) X(SPHLFPortalIteratorNext) X(SPHLockFreeHeapAlignAlloc) \
 X(SPHLockFreeHeapAlloc) X(SPHLockFreeHeapCreate) X(SPHLockFreeHeapDestroy) X(SPHLockFreeHeapEmpty) \
 X(SPHLockFreeHeapFree) X(SPHLockFreeHeapFreeChk) X(SPHLockFreeHeapFreeIn) X(SPHLockFreeHeapFreeNear) \
 X(SPHLockFreeHeapFreeNearChk) X(SPHLockFreeHeapFreeSpace) X(SPHLockFreeHeapFull) X(SPHLockFreeHeapInit) \
 X(SPHLockFreeHeapNearAlloc) X(SPHLockFreeHeapNearFind) X(SPHLogPortalAddLogger) X(SPHLogPortalAllocRaw) \
 X(SPHLogPortalAllocStrideTimeStamped) X(SPHLogPortalAllocTimeStamped) X(SPHLogPortalCapacity) X(SPHLogPortalCreate) \
 X(SPHLogPortalDestroy) X(SPHLogPortalEmpty) X(SPHLogPortalEntries) X(SPHLogPortalGetCurrentIndex) \
 X(SPHLogPortalGetCurrentLogger) X(SPHLogPortalGetLoggerByIndex) X(SPHLogPortalInit) X(SPHRemoveProjectContext) \
 X(SPHSetupAltProjectContext) X(SPHSetupProjectContext) X(SPHSinglePCQueueAllocRaw) X(SPHSinglePCQueueAllocStrideDirect) \
 X(SPHSinglePCQueueAllocStrideDirectSpin) X(SPHSinglePCQueueAllocStrideDirectSpinPause) X(SPHSinglePCQueueAllocStrideEntry) X(SPHSinglePCQueueAllocStrideTimeStamped) \
 X(SPHSinglePCQueueCreate) X(SPHSinglePCQueueCreateWithStride) X(SPHSinglePCQueueDestroy) X(SPHSinglePCQueueEmpty) \
 X(SPHSinglePCQueueEntryComplete) X(SPHSinglePCQueueEntryIsComplete) X(SPHSinglePCQueueEntryIsCompleteDirect) X(SPHSinglePCQueueFreeNextEntry) \
 X(SPHSinglePCQueueFreeNextEntryDirect) X(SPHSinglePCQueueFreeSpace) X(SPHSinglePCQueueFull) X(SPHSinglePCQueueGetEntryTemplate) \
 X(SPHSinglePCQueueGetNextComplete) X(SPHSinglePCQueueGetNextCompleteDirect) X(SPHSinglePCQueueGetNextCompleteDirectSpin) X(SPHSinglePCQueueGetNextCompleteDirectSpinPause) \
 X(SPHSinglePCQueueGetNextEntryDirect) X(SPHSinglePCQueueGetStride) X(SPHSinglePCQueueInit) X(SPHSinglePCQueueInitWithStride) \
 X(SPHSinglePCQueuePrefetch) X(SPHSinglePCQueueResetAsync) X(SPHSinglePCQueueSetCachePrefetch) X(freeNode_allocSpace) \
 X(freeNode_deallocSpace) X(freeNode_freeFragmentsTotal) X(freeNode_freeSpaceTotal) X(freeNode_init) \
 X(freeNode_maxFragment) X(getCurrentProjectContext) X(getMemHigh) X(getMemLow) \
 X(getProjectContextByName) X(getSASBlockSpecial) X(getSASFinder) X(getSASUseListFlag) \
 X(initSOMSASBlock) X(sasMsyncBring) X(sasMsyncPurge) X(sasMsyncRandom) \
 X(sasMsyncRelease) X(sasMsyncSequential) X(sasMsyncWrite) X(setSASBlockSpecial) \
 X(setSASCompactUseList) X(setSASFinder) X(setSASLinearUseList) X(sphdeGetCmdLine) \
 X(sphdeGetPID) X(sphdeGetTID) X(sphget_gettime_conv_factor) X(sphget_gtod_conv_factor) \
 X(sphgetcpufreq) X(sphgettime) X(sphgtod) X(sphtb2gettime_withfactor) \
 X(sphtb2gtod_withfactor) \
 X(SPHMPMCQInitWithStride) X(SPHMPMCQCreateWithStride) X(SPHMPMCQGetStride) X(SPHMPMCQGetEntries) \
 X(SPHMPMCQIsEmpty) X(SPHMPMCQIsFull) X(SPHMPMCQFreeSpace) X(SPHMPMCQGetEntryTemplate) \
 X(SPHMPMCQAllocStrideDirectSync) X(SPHSPMCQAllocStrideDirect) X(SPHMPMCQGetNextCompleteDirectSync) \
 X(SPHMPSCQGetNextCompleteDirect) X(SPHMPMCQEntryDirectIsComplete) X(SPHMPMCQFreeEntryDirect) \
 X(SASStringBTreeNodeSearch) X(SASStringBTreeNodeSearchGE) X(SASStringBTreeNodeSearchGT) X(SASStringBTreeNodeSearchLE) X(SASStringBTreeNodeSearchLT) X(SASStringBTreeNodeGetKeyIndexed) X(SASStringBTreeNodeGetValIndexed) X(SASStringBTreeNodeGetBranchIndexed) X(SASStringBTreeNodeGetCount) X(SASIndexNodeSearch) X(SASIndexNodeSearchGE) X(SASIndexNodeSearchGT) X(SASIndexNodeSearchLE) X(SASIndexNodeSearchLT) X(SASIndexNodeGetKeyIndexed) X(SASIndexNodeGetValIndexed) X(SASIndexNodeGetBranchIndexed) X(SASIndexNodeGetCount) X(SPHMPMCQResetAsync) X(SPHMPMCQSetCachePrefetch) X(SPHMPMCQPrefetch) X(SPHMPMCQDestroy) \

#define INLINE_LIST(X) \
 X(SPHLFEntryStrongComplete) X(SPHLFEntryWeakComplete) X(SPHLFEntryComplete) X(SPHLFEntryIsComplete) \
 X(SPHLFEntryIsTimestamped) X(SPHLFEntryTimeStamp) X(SPHLFEntryPID) X(SPHLFEntryTID) \
 X(SPHLFEntryHeader) X(SPHLFEntryCategory) X(SPHLFEntrySubcat) X(SPHLFEntryGetFreePtr) \
 X(SPHLFEntryGetStructPtr) X(SPHLFEntryAllocStruct) X(SPHLFEntryAddString) X(SPHLFEntryAddChar) \
 X(SPHLFEntryAddShort) X(SPHLFEntryAddInt) X(SPHLFEntryAddLong) X(SPHLFEntryAddPtr) \
 X(SPHLFEntryAddLongLong) X(SPHLFEntryAddFloat) X(SPHLFEntryAddDouble) X(SPHLFEntryGetNextChar) \
 X(SPHLFEntryGetNextString) X(SPHLFEntryGetNextShort) X(SPHLFEntryGetNextInt) X(SPHLFEntryGetNextLong) \
 X(SPHLFEntryGetNextPtr) X(SPHLFEntryGetNextLongLong) X(SPHLFEntryGetNextFloat) X(SPHLFEntryGetNextDouble) \
 X(SPHLFLogEntryStrongComplete) X(SPHLFLogEntryWeakComplete) X(SPHLFLogEntryComplete) X(SPHLFLogEntryIsComplete) \
 X(SPHLFLogEntryIsTimestamped) X(SPHLFLogEntryTimeStamp) X(SPHLFLogEntryPID) X(SPHLFLogEntryTID) \
 X(SPHLFLogEntryHeader) X(SPHLFLogEntryCategory) X(SPHLFLogEntrySubcat) X(SPHLFLogEntryGetFreePtr) \
 X(SPHLFlogEntryGetStructPtr) X(SPHLFlogEntryAllocStruct) X(SPHLFlogEntryAddString) X(SPHLFlogEntryAddChar) \
 X(SPHLFlogEntryAddShort) X(SPHLFlogEntryAddInt) X(SPHLFlogEntryAddLong) X(SPHLFlogEntryAddPtr) \
 X(SPHLFlogEntryAddLongLong) X(SPHLFlogEntryAddFloat) X(SPHLFlogEntryAddDouble) X(SPHLFlogEntryGetNextChar) \
 X(SPHLFlogEntryGetNextString) X(SPHLFlogEntryGetNextShort) X(SPHLFlogEntryGetNextInt) X(SPHLFlogEntryGetNextLong) \
 X(SPHLFlogEntryGetNextPtr) X(SPHLFlogEntryGetNextLongLong) X(SPHLFlogEntryGetNextFloat) X(SPHLFlogEntryGetNextDouble) \
 X(SPHLFEntryDirectComplete) X(SPHLFEntryDirectGetFreePtr) X(SPHLFEntryDirectGetPtrAligned) X(SPHLFEntryDirectIncAndAlign) \
 X(SPHLFEntryDirectIsComplete) X(SPHLFEntryDirectIsTimestamped) X(SPHLFEntryDirectCategory) X(SPHLFEntryDirectSubcat) \
 X(SASIndexKeyCompare) X(SASIndexKeyCopy) X(SASIndexKeySize) X(SASIndexKeyInitRef) \
 X(SASIndexKeyInitUInt64) X(SASIndexKeyReturn1stUInt64) X(SASIndexKeyInitInt64) X(SASIndexKeyReturn1stInt64) \
 X(SASIndexKeyInitDouble) X(SASIndexKeyReturn1stDouble) X(sphgettimer) X(sphfastcpufreq) \
 X(sphFastGetPID) X(sphFastGetTID) X(sas_fetch_and_add_ptr) X(sas_fetch_and_add) \
 X(sas_fetch_and_and) X(sas_fetch_and_and_long) X(sas_fetch_and_or) X(sas_fetch_and_or_long) \
 X(sas_compare_and_swap) X(sas_atomic_swap) X(sas_atomic_inc) X(sas_atomic_dec) \
 X(sas_spin_lock_init) X(sas_spin_lock) X(sas_spin_trylock) X(sas_spin_unlock) \
 X(sas_lock_ptr_init) X(sas_lock_ptr) X(sas_set_unlocked_ptr) X(sas_set_locked_ptr) \
 X(sas_trylock_ptr) X(sas_unlock_ptr) X(sas_spin_lock_with_yield) X(sas_lock_ptr_with_yield) \
 X(sas_atomic_inc_long) X(sas_atomic_dec_long) \

#ifndef SIM_NO_API
struct Api {
#define X(n) decltype(&::n) n;
  API_LIST(X)
  INLINE_LIST(X)
#undef X
};
#endif
