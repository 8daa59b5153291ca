#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the source of the statements is this file).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
HOOK="scheduling point inside the inline-assembly atomics (src/sasatom_x86_64.h), off by default"

prop("C01","Live shared blocks never overlap, stay aligned and inside the region",
 "Whatever threads of whatever attached processes allocate and release shared blocks, and however many storage segments the store has grown to, every block handed out lies inside the region, is aligned to its power-of-two size, and is disjoint from every other live block and from the region's own bookkeeping. A block keeps the contents its owner wrote until the owner releases it. A request that cannot be met returns no block rather than a smaller or shared one.",
 ["schedules","histories","configurations"],
 "All interleavings of alloc/free from several threads in several processes, all power-of-two sizes from 4 KB to a whole segment, both in-use-list modes, stores from one to dozens of segments.",
 "The tests allocate from one process at a time, in a fixed order, and stay inside the first segments; overlap shows only for particular free/split/merge histories, interleavings, or stores larger than 4 GB.",
 ["src/sassim.cpp","src/ultree.cpp","src/sasalloc.cpp","src/freenode.c"],
 [("buddy allocation keyed by (size, offset)","src/sassim.cpp p2Alloc/p2Dealloc/p2AddUsed/p2RemUsed"),("region semaphore serialises allocation","src/sassim.cpp SASSeize/SASRelease, SASBlockAlloc, SASBlockDealloc")],
 [("anchor trees","free/uncommitted/used/region/allocated block sets","src/sasanchr.h")],
 ["SASBlockAlloc / SASBlockDealloc return values","contents of live blocks"],HOOK)

prop("C02","Space is conserved: releasing everything makes everything available again",
 "At every quiescent moment the blocks reported in use are exactly the space the callers hold plus the region's own anchor, and in-use, free and never-used space partition the space of the segments the store owns. After all blocks have been released, in any order and by any thread or process, the store can again serve everything it held at any one time without growing. Repeating any workload that returns what it took does not make the store, or its bookkeeping space, grow without bound.",
 ["histories","schedules","configurations"],
 "All histories of allocations and releases (any order, both in-use-list modes, concurrent callers), inspected at quiescent points.",
 "The tests print the lists but do not check that they partition the store, nor that adjacent free space is joined after arbitrary release orders.",
 ["src/sassim.cpp","src/ultree.cpp","src/freenode.c"],
 [("coalescing of buddies on release","src/sassim.cpp p2Dealloc"),("splitting of compacted in-use entries","src/sassim.cpp p2RemUsed/p2FindCont/p2split")],
 None,["SASListInUseMem, SASListFreeMem, SASListUncommittedMem, SASListAllocatedRegion, SASListFreeRegion, SASAnchorFreeSpace"],HOOK)

prop("C03","A failed attempt to grow the store changes nothing and can be retried",
 "If the store cannot be extended because the operating system refuses (no space, no descriptors, no mapping), the request reports failure, every block already handed out stays valid, and the store's accounting is as before the request. No file, descriptor or address range is lost: once the condition clears, the same request succeeds and the store can still reach its full capacity. The same holds for joining a store: a refused join reports an error and a later join succeeds.",
 ["fault_sequences","histories"],
 "Every failing system call (create, size, map, attach) at every point of a store's growth, followed by recovery.",
 "No test makes a system call fail; the failing call, its position in the growth sequence and what is retried afterwards are all free.",
 ["src/sassim.cpp","src/sasstname.c","src/saslock.cpp","src/sasshm.c"],
 [("segment creation","src/sassim.cpp SASBlockAllocNoLock, SASCreateSegByAddr"),("file creation","src/sasstname.c SASSegStoreCreateByName")],
 None,["SASBlockAlloc, SASJoinRegionByName return values","region lists","store directory and descriptor table of the simulated OS"],None)

prop("C04","What was stored is found again after every process has left and rejoined",
 "After all processes detach in an orderly way and any process later joins the same store, every live block is at the same address with the same contents, the root reference last published is returned, the lists of used and free space are unchanged, and allocation continues without handing out live space. This holds for any number of detach and join cycles and any order in which processes leave and arrive.",
 ["histories","schedules","configurations"],
 "All histories of work, orderly leave and rejoin by one or several processes over stores of one or more segments.",
 "The tests remove the store when they end; none rejoins a store it built and compares everything with what was there before.",
 ["src/sassim.cpp","src/sasstname.c","src/saslock.cpp","src/sasalloc.cpp"],
 [("named segment files mapped shared at fixed addresses","src/sassim.cpp SASAttachSegByName, SASAttachAllocatedSegs"),("anchor block","src/sassim.cpp initRegion")],
 None,["SASJoinRegionByName, SASCleanUp, getSASFinder, SASList*"],None)

prop("C05","Every attached process sees the same store, whoever grew it",
 "A block allocated by one process is usable through the same address by every attached process as soon as it learns the address, including when it lies in storage that was added after that process joined, and regardless of which thread touches it first. Data written by one process is what the others read, allocation and release of a block may happen in different processes, and all processes report the same lists. A process that leaves does not disturb the others.",
 ["schedules","histories"],
 "All interleavings of growth, first touches, writes, releases, joins and leaves by several processes with several threads each.",
 "Needs a second process that joined before the growth and touches the block afterwards; tests run a single process (or a fork after growth).",
 ["src/sassim.cpp","src/sasstname.c"],
 [("attach on first touch","src/sassim.cpp SASSigSegvHandler, SASThreadSigSegvHandler, SASAttachAllocatedAddr"),("join attaches existing segments","src/sassim.cpp SASAttachAllocatedSegs")],
 None,["reads and writes through addresses passed between processes"],HOOK)

prop("C06","Address locks exclude: one writer or many readers per address",
 "At any instant, for each address, either at most one thread of one process holds the write lock, or any number of threads hold read locks and none holds the write lock. A thread holding the write lock may lock again and keeps exclusion until its last matching unlock. Locks on different addresses never exclude or corrupt one another, however many addresses are in use.",
 ["schedules","histories"],
 "All interleavings of lock and unlock requests on colliding and distinct addresses by threads of several processes.",
 "A violation needs a precise interleaving of an unlock, a queued waiter and a newcomer; the tests sample a few uncontrolled schedules.",
 ["src/saslock.cpp","src/sasmlock.cpp","src/sasulock.cpp","src/saslockl.cpp"],
 [("hashed lock table in shared memory","src/sasmlock.cpp, src/saslockl.cpp lockNode/unlockNode"),("reader/writer lock objects","src/sasulock.cpp read_lock/write_lock/unlock")],
 None,["SASLock / SASUnlock return while the simulator tracks holders"],HOOK)

prop("C07","Address locks make progress: a free lock is always granted",
 "If every holder eventually releases its locks and threads take them in a consistent order, every lock request is eventually granted: no wake-up is lost, no request waits on a lock nobody holds, and no number of simultaneous readers stops the lock table. This holds under interrupted waits and stalled threads.",
 ["schedules","fault_sequences","histories"],
 "All fair schedules with consistently ordered lock requests, any number of readers and writers, interrupted waits and stalls.",
 "A lost wake-up or leaked lock needs one particular interleaving and shows as a hang; tests only see it by luck and cannot tell slow from stuck.",
 ["src/sasulock.cpp","src/saslockl.cpp","src/saslock.cpp"],
 [("semaphore wake-ups","src/sasulock.cpp thread_sleep/thread_wakeup")],
 None,["every SASLock/SASUnlock call returns within a bounded number of scheduler steps once faults stop"],HOOK)

prop("C08","The region lock excludes and resetting the region restores a working store",
 "At most one thread over all attached processes is between acquiring and releasing the region-wide lock, even when waits are interrupted by signals, and every waiter is served once the lock is released. Resetting a region returns it to the state of a new one: no live blocks, full space, no root reference, region and address locks working and exclusive. Removing a region deletes all its files and shared memory, and a later join creates a fresh one.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of region-lock users with interrupted waits; resets and removals after arbitrary histories.",
 "Tests do not contend on the region lock, interrupt it, or look at what still works after a reset.",
 ["src/sassim.cpp","src/saslock.cpp"],
 [("process-shared semaphore in the anchor","src/sassim.cpp seizeSASSem/releaseSASSem"),("reset","src/sassim.cpp SASReset, SASRemove, initRegion")],
 None,["SASSeize/SASRelease critical sections","state after SASReset and SASRemove"],HOOK)

prop("C09","The string-keyed tree is a linearizable ordered map",
 "Concurrent inserts, replacements, lookups and removals on one string-keyed tree, from any threads of any attached process, behave as if executed one at a time on a sorted map: an insert of a present key is refused, lookups return exactly the value last stored, and smallest key, largest key, emptiness and count match the map at quiescent points. It holds for keys of any length the tree accepts and trees of any depth, across node splits, merges and growth into new blocks, and filling and emptying a tree repeatedly does not use up its storage. Node pages a caller takes from a tree are its own until it gives them back, whatever the others do with the tree, and taking and giving back one changes the tree's free space by exactly a page.",
 ["schedules","histories","inputs"],
 "All histories of map operations over any key set, sequential and interleaved.",
 "Tests insert a fixed word list in one order and look some of it up; deep trees, removal orders that trigger borrow/merge, and concurrent histories are unreached.",
 ["src/sasstringbtree.cpp","src/sasstringbtreenode.cpp"],
 [("read/write address lock around each operation","src/sasstringbtree.cpp SASStringBTreePut/Get/Replace/Remove"),("b-tree balancing","src/sasstringbtreenode.cpp")],
 None,["results of the map calls, min/max/count/empty"],HOOK)

prop("C10","Walking a string-keyed tree yields exactly its keys in order",
 "An enumeration over an unchanging string-keyed tree returns every key once, in ascending order, with its current value, and then reports the end; one started at a given key returns exactly the keys from that key onwards; one over all keys reports how many are left. If keys are inserted or removed by others meanwhile, the walk still terminates, keys come in ascending order without repetition, every key present throughout is returned, and nothing is returned that was never in the tree.",
 ["histories","schedules","inputs"],
 "All trees, start keys, and interleavings of a walk with inserts and removals.",
 "The one enumeration test walks a static tree from its beginning.",
 ["src/sasstringbtreeenum.cpp","src/sasstringbtreenode.cpp"],
 [("cursor with modification stamp","src/sasstringbtreeenum.cpp SASStringBTreeEnumNext")],
 None,["sequence of keys returned"],HOOK)

prop("C11","The binary-keyed index is a linearizable ordered map",
 "Concurrent inserts, replacements, lookups and removals on one index, from any threads of any attached process, behave as if executed one at a time on a map sorted by key: an insert of a present key is refused, lookups return exactly the value last stored, and smallest key, largest key and emptiness match the map at quiescent points. It holds for integer, address, floating-point and multi-word keys, for any insertion and removal order, across node splits, merges and growth into new blocks, and filling and emptying an index repeatedly does not use up its storage.",
 ["schedules","histories","inputs"],
 "All histories of index operations over any key set, sequential and interleaved.",
 "Tests insert a generated sequence, look it up and delete it in one thread; arbitrary removal orders and concurrent histories are unreached.",
 ["src/sasindex.cpp","src/sasindexnode.cpp","src/sasindexkey.h"],
 [("read/write address lock around each operation","src/sasindex.cpp"),("b-tree balancing","src/sasindexnode.cpp")],
 None,["results of the index calls, min/max/count/empty"],HOOK)

prop("C12","Walking an index yields exactly its keys in order",
 "An enumeration over an unchanging index returns every key's value once, in ascending key order, and then reports the end. If keys are inserted or removed by others meanwhile, the walk still terminates, order is kept without repetition, every key present throughout is returned, and nothing is returned that was never in the index.",
 ["histories","schedules","inputs"],
 "All index contents and interleavings of a walk with inserts and removals.",
 "The tests walk a static index in one thread.",
 ["src/sasindexenum.cpp","src/sasindexnode.cpp"],
 [("cursor with modification stamp","src/sasindexenum.cpp SASIndexEnumNext")],
 None,["sequence of values returned"],HOOK)

prop("C13","A naming context is a consistent two-way directory of names and addresses",
 "In a naming context, looking up a name gives the address last registered under it and looking up an address gives its name, for every registered pair and for nothing else; registering a taken name or address is refused, and removing by either side removes both. Renaming moves an address to the new name; a rename to a taken name is refused and changes nothing. Whatever is removed gives back the room it took. This holds under concurrent use by threads of several processes and after all processes leave and rejoin. Finding or creating a project context by name gives every process the same context; when the store has no room for one, the call says so and leaves nothing behind.",
 ["histories","schedules"],
 "All histories of register, look up and remove by name or address, concurrent users, and rejoin.",
 "The test registers a few names in one thread and process.",
 ["src/sphcontext.cpp"],
 [("paired name tree and address index","src/sphcontext.cpp SPHContextAddName, SPHContextFindByName/Addr, SPHContextRemoveByName/Addr"),("root context","src/sphcontext.cpp SPHSetupProjectContext")],
 None,["results of the context calls"],HOOK)

prop("C14","Expandable heaps hand out disjoint storage and never lock up",
 "Storage obtained from an expandable heap by any threads, directly or near an earlier object, is inside the heap, large enough, disjoint from all other live storage, and keeps its contents until released; released storage is reused and a heap from which everything was released can serve again what a new one can. Every allocation and release returns, in any interleaving of threads using any of the heap's blocks. Destroying the heap returns all its blocks.",
 ["schedules","histories"],
 "All interleavings and histories of allocate, allocate-near, release and destroy, including growth into further blocks.",
 "The test allocates and frees in one thread; overlap and lock-up need concurrent use after the heap has grown.",
 ["src/sascompoundheap.cpp","src/sasalloc.cpp","src/freenode.c"],
 [("per-block free lists under address locks","src/sascompoundheap.cpp SASCompoundHeapAlloc/NearAlloc/Free")],
 None,["addresses returned, contents, completion of calls, block lists"],HOOK)

prop("C15","Simple heaps, stacks and spaces hand out disjoint storage with exact accounting",
 "Storage obtained from a simple heap, stack or space by any threads is inside it, suitably sized and disjoint from all other live storage; the reported remaining space shrinks by what was taken and releasing restores it. A request that does not fit is refused without changing anything. A heap from which everything was released serves its largest request again, whatever the order of release.",
 ["schedules","histories","inputs"],
 "All interleavings and histories of allocate, release and reset on one container; all sizes.",
 "The tests only create these containers, or use them as fixtures.",
 ["src/sassimpleheap.cpp","src/sassimplestack.cpp","src/sassimplespace.cpp","src/freenode.c"],
 [("address lock around the free list","src/sassimpleheap.cpp"),("first-fit free list with joining","src/freenode.c")],
 None,["addresses returned, remaining space"],HOOK)

prop("C16","The lock-free logger loses, tears and duplicates no entry",
 "Entries allocated concurrently in a logger never overlap, lie inside the log, carry the category, time and thread of their writer, and a reader that walks the log sees completed entries exactly as written, in allocation order, and never sees an incomplete entry as complete, even if its writer stalls or dies mid-entry. A full log refuses further entries; a circular log wraps by whole entries and never hands out storage outside the log. Log positions and counts agree with what was written.",
 ["schedules","crash_points","configurations"],
 "All interleavings of writers and readers, writers stalled or killed at any point, fixed and variable entries, circular and linear logs, single- and multi-process.",
 "The tests run a few free-running threads and count; torn entries, wrap races and dying writers need specific interleavings.",
 ["src/sphlflogger.cpp","src/sphlflogentry.h"],
 [("atomic fetch-and-add of the next-free pointer","src/sphlflogger.cpp"),("complete/valid flags with barriers","src/sphlflogentry.h")],
 None,["entry allocation results, iterator output"],HOOK)

prop("C17","A log portal always names a usable log and rolls to the next one safely",
 "While threads log through a portal and others add logs to it, every entry goes, complete and exactly once, into one of the portal's logs; when one log fills, writers move to the next, and when all are full the allocation fails without damage. The set of logs reported, and their order, is exactly those added, at every capacity up to the limit, and one beyond the limit is refused.",
 ["schedules","histories","configurations"],
 "All interleavings of writers, readers and adders; every portal capacity from empty to full.",
 "The test adds logs first and then logs from a few free-running threads.",
 ["src/sphlogportal.cpp"],
 [("current-log index advanced atomically","src/sphlogportal.cpp")],
 None,["entry addresses, number and order of logs"],HOOK)

prop("C18","The lock-free heap never gives one unit to two owners and loses none",
 "Storage allocated concurrently from a lock-free heap is inside it, aligned to its unit, disjoint from all other live allocations, and keeps its contents until released; the count of free units always equals the capacity minus what is held, at quiescent points. After everything has been released the full capacity can be allocated again. A request that cannot be met is refused and holds nothing.",
 ["schedules","histories","crash_points"],
 "All interleavings of allocations and releases of one to many units, with stalled threads.",
 "The test is single-threaded.",
 ["src/sphlockfreeheap.cpp"],
 [("compare-and-swap on free bit maps","src/sphlockfreeheap.cpp")],
 None,["addresses returned, free-space report"],HOOK)

prop("C19","A producer/consumer queue delivers every entry once, in order, complete",
 "With one producer and one consumer, in the same or different processes, the consumer receives exactly the entries the producer completed, in order, each once and with the contents the producer wrote, through any number of wrap-arounds. An entry not yet completed is never delivered, an entry not yet released is never overwritten, and a full or empty queue is reported as such without loss. Once the other side runs again, a waiting producer or consumer proceeds.",
 ["schedules","crash_points","configurations"],
 "All interleavings of producer and consumer, stalls and deaths at any point, every entry size and queue size accepted, all option combinations.",
 "The tests run two free-running threads for a while; a lost or torn entry needs a specific interleaving at wrap-around or at full/empty.",
 ["src/sphsinglepcqueue.cpp","src/sphlfentry.h"],
 [("entry status word handed between producer and consumer with barriers","src/sphsinglepcqueue.cpp, src/sphlfentry.h")],
 None,["entries received"],HOOK)

prop("C20","The direct queue interface delivers entries exactly as the queue does",
 "Entries produced and consumed through the direct (inlined) interface are delivered once, in order and complete, through any number of wrap-arounds, and the direct and indirect interfaces can be used on the same queue by either side. Full and empty are reported without loss, and a waiting side proceeds once the other side runs.",
 ["schedules","crash_points","configurations"],
 "All interleavings of producer and consumer through direct and mixed interfaces, stalls, all accepted sizes.",
 "The one test runs two free-running threads with one size.",
 ["src/sphdirectpcqueue.h","src/sphlfentry.h"],
 [("cached queue cursor per side","src/sphdirectpcqueue.h")],
 None,["entries received"],HOOK)

prop("C21","Linked-block queue heaps keep blocks accounted for",
 "Blocks obtained from an expandable queue heap and passed from producer to consumer and back are each owned by exactly one party at a time, arrive in the order they were passed with their contents intact, and are reusable after release. Heap bookkeeping stays consistent for any interleaving.",
 ["schedules","histories"],
 "All interleavings of block allocation, hand-over and release.",
 "No stable test covers concurrent use.",
 ["src/sphcompoundpcqheap.h","src/sascompoundheap.cpp"],
 [("fixed-size page allocation from a compound heap","src/sphcompoundpcqheap.h")],
 None,["addresses and contents"],HOOK)

prop("C22","Atomic helpers act indivisibly and spin locks exclude",
 "Each atomic add, swap, increment, decrement and compare-and-swap takes effect indivisibly and returns the value (or success) belonging to the moment it took effect, so concurrent use behaves like some one-at-a-time order. A spin lock is held by at most one thread, a try-lock succeeds exactly when it takes the lock, and a released lock can be taken again.",
 ["schedules"],
 "All interleavings of the helpers on shared words by threads of several processes.",
 "The test calls each helper in one thread.",
 ["src/sasatom.h","src/sasatom_x86_64.h","src/sasatom.c"],
 [("lock-prefixed instructions and compiler atomics","src/sasatom_x86_64.h")],
 None,["returned values against a sequential model"],HOOK)

prop("C23","Fast clocks agree with the system clocks they emulate",
 "The library's emulated time-of-day and clock readings agree with the system clock they stand for, within the conversion's resolution, for every clock value and any elapsed time after start-up; converted times are normalised and never run backwards while the underlying timer does not. The reported timer frequency is the rate at which the timer actually advances.",
 ["inputs","histories","configurations"],
 "All start-up times, offsets between monotonic and wall clock, and elapsed times, with simulated clocks, including reads delayed between the two clock samples at start-up.",
 "Tests compare with the real clock at one moment; they cannot set the clocks or let years pass.",
 ["src/sphgtod.c","src/sphgettime.c","src/sphtimer.h","src/sphtimer.c"],
 [("offset computed once at start-up and fixed-point conversion","src/sphgtod.c, src/sphgettime.c")],
 None,["sphgtod, sphgettime, sphgettimer results against the simulated clock"],None)

prop("C24","Synchronised data survives losing power",
 "When a synchronous write-back request over an address range has reported success, the contents of the whole range at the time of the call are found in the store after a power failure at any later moment, unless overwritten since. The hints and release requests never lose or change data that other calls stored.",
 ["crash_points","histories","fault_sequences"],
 "All ranges (any alignment and length), all crash points after the call, all subsets of other unsynchronised pages surviving.",
 "No test can crash the machine; durability of partial pages at both ends of a range is untestable without a simulated disk.",
 ["src/sasmsync.c"],
 [("page rounding of the range","src/sasmsync.c pageAlignStart/pageAlignLen")],
 None,["store contents after a simulated power failure"],None)

prop("C25","Running out of store space fails the operation and nothing else",
 "When an operation of a tree, index, heap, context, logger, queue or portal needs more store space and none can be had, the operation reports failure without crashing or hanging, everything stored before is still there and intact, no lock is left held, and other threads continue. When space becomes available again, the same operation succeeds.",
 ["fault_sequences","histories"],
 "Every point at which any operation of any container asks for storage, refused once or for a while.",
 "No test exhausts the store or makes allocation fail.",
 ["src/sasstringbtree.cpp","src/sasindex.cpp","src/sascompoundheap.cpp","src/sphcontext.cpp","src/sasalloc.cpp","src/sphlogportal.cpp","src/sphlflogger.cpp"],
 [("error returns of the allocation calls","src/sasalloc.cpp SASSOMAlloc, src/sassim.cpp SASBlockAlloc")],
 None,["results of the container calls with refused growth"],HOOK)

prop("C26","Multi-producer/multi-consumer queues deliver each entry exactly once",
 "With any number of producers and consumers, each completed entry of a multi-party queue is received by exactly one consumer, complete, and entries of one producer taken by one consumer keep their order. An entry not yet completed is never delivered, an entry still held by a consumer is never overwritten, and full and empty are reported without loss.",
 ["schedules"],
 "All interleavings of producers and consumers.",
 "Tests run free-running threads with one schedule each.",
 ["src/sphmultipcqueue.cpp"],
 [("the address lock of the queue (hardware transactions where there are some)","src/sphmultipcqueue.cpp SPHMPMCQAllocStrideDirectSync, SPHMPMCQGetNextCompleteDirectSync")],
 None,["entries received"],None)

prop("C27","Bit-vector helpers compute the documented bit counts and positions",
 "Population counts, leading and trailing bit positions and bit-string operations give the mathematically defined result for every input word and length.",
 ["inputs"],
 "All input words, lengths and offsets.",
 "The test samples fixed patterns.",
 ["src/bitv.c","src/bitv.h"],
 [("compiler built-ins and table look-ups","src/bitv.c, src/bitv_priv.h")],
 None,["return values"],None)

prop("C28","A call given something that is not an object of its kind refuses it and changes nothing",
 "A call of a heap, compound heap, stack, space, lock-free heap, logger, portal, queue, tree, index or context that is given something else is refused: an object of another kind (kinds that share a type, namely compound heaps, trees and indexes, simple heaps and contexts, and the two sorts of queue, need not be told apart), storage that holds no object, an object whose signature or type word is damaged, an object of a user-defined kind, or an object that was destroyed and not yet reused. It reports its failure value, leaves every byte of what it was given and the store's accounting as they were, and leaves no lock held; the same holds for a wrong logger given to a portal, a wrong page given back to a compound heap, and an address inside an object of another kind given to a call that finds the object near an address. Objects used meanwhile by other threads and processes are unaffected, and each object still works as its own kind. When several threads destroy one object at once, it is destroyed once, and only one of them is told that it did.",
 ["inputs","histories","schedules"],
 "All calls that take an object, against objects of every other kind, damaged and destroyed ones, from any thread or process, alongside work on other objects.",
 "The tests pass each call only the object it expects; the refusing branch of some 180 calls is never taken.",
 ["src/sasalloc.h","src/sassimpleheap.cpp","src/sascompoundheap.cpp","src/sassimplestack.cpp","src/sassimplespace.cpp","src/sphlockfreeheap.cpp","src/sphlflogger.cpp","src/sphlogportal.cpp","src/sphsinglepcqueue.cpp","src/sphmultipcqueue.cpp","src/sasstringbtree.cpp","src/sasindex.cpp","src/sphcontext.cpp"],
 [("signature and type words of the block header","src/sasalloc.h SOMSASCheckBlockSigAndType, SOMSASCheckBlockSigAndTypeAndSubtype"),("search for the header around an address","src/sasalloc.cpp SASFindHeader"),("signatures cleared on destruction","src/sasalloc.cpp SASNearDealloc, src/sassim.cpp SASBlockDealloc")],
 None,["return values of the calls","contents of the objects given","region lists"],HOOK)

prop("C29","The application's own fault handler keeps working while the store is attached",
 "A memory fault outside the region reaches the fault handler the application had installed before joining, once and with the original information, in every thread of the process, whichever threads set themselves up or clean up and in whatever order; without such a handler it ends the thread or process and never loops. Faults on storage other processes added are served all along. Leaving the store, or a join that is refused, puts the application's handler back, and all this holds again after leaving, rejoining, or removing the region and joining a new one.",
 ["schedules","fault_sequences","histories","inputs"],
 "All orders of thread set-up, clean-up, join, refused join, leave and remove, over any number of threads, and all fault addresses.",
 "No test installs a handler or faults outside the region; which handler is reached depends on the order in which threads of a process set up and clean up.",
 ["src/sassim.cpp","src/sassim.h"],
 [("chain from the process handler","src/sassim.cpp SASSigSegvHandler, SASEnableSigSegv, SASDisableSigSegv"),("chain from the thread handler","src/sassim.cpp SASThreadSigSegvHandler, SASThreadSetUp, SASThreadCleanUp")],
 None,["handler calls of the application","the process's SIGSEGV action after each leave"],HOOK)

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
