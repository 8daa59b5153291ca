From 2356530c2cb310479c798952690006dc77705b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/81] sasatom_x86_64.h: scheduling points for deterministic
 simulation, off by default (SPHDE_SIM)

---
 src/sasatom_x86_64.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 9c0d233..24dc58e 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -12,6 +12,22 @@
 #ifndef _SASATOMIC_X86_64_H
 #define _SASATOMIC_X86_64_H
 
+/* Deterministic simulation (off by default): a scheduling point in front of
+ * each inline assembly atomic, which compiler instrumentation can not see.  */
+#ifdef SPHDE_SIM
+# ifdef __cplusplus
+extern "C"
+# endif
+void sphde_sim_point (volatile void *addr, int kind);
+# define SPHDE_SIM_POINT(addr, kind) \
+	sphde_sim_point ((volatile void *) (addr), (kind))
+#else
+# define SPHDE_SIM_POINT(addr, kind) do { } while (0)
+#endif
+#define SPHDE_SIM_RMW   1
+#define SPHDE_SIM_SPIN  2
+#define SPHDE_SIM_PAUSE 3
+
 #define __arch_sas_full_barrier()  __sync_synchronize()
 #define __arch_sas_read_barrier()  __sync_synchronize()
 #define __arch_sas_write_barrier() __sync_synchronize()
@@ -19,6 +35,7 @@
 static inline void
 __arch_pause (void)
 {
+  SPHDE_SIM_POINT (0, SPHDE_SIM_PAUSE);
   __asm__ (
     "  pause;"
    :
@@ -85,6 +102,7 @@ static inline int
 __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 {
   char ret;
+  SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ __volatile__ ("lock; cmpxchg %2, %1; sete %0"
                         : "=a" (ret), "=m" (*p)
                         : "r" (newval), "m" (*p), "0" (oldval)
@@ -97,6 +115,7 @@ __arch_atomic_swap (long int *p, long int replace)
 {
   long int temp;
 
+  SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ (
     " lock;"
     " xchg %0,(%1);"
@@ -111,6 +130,7 @@ __arch_atomic_swap (long int *p, long int replace)
 static inline void
 __arch_atomic_inc (long int *p)
 {
+  SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ __volatile__ (
     "  lock;"
     "  incl (%0);"
@@ -123,6 +143,7 @@ __arch_atomic_inc (long int *p)
 static inline void
 __arch_atomic_dec (long int *p)
 {
+  SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ (
     "  lock;"
     "  decl (%0);"
@@ -138,6 +159,7 @@ __arch_sas_spin_lock (volatile sas_spin_lock_t *lock)
   char rc;
 
   do {
+    SPHDE_SIM_POINT (lock, SPHDE_SIM_SPIN);
     __asm__ __volatile__ ("lock; cmpxchg %2, %1; sete %0"
                           : "=a" (rc), "=m" (*lock)
                           : "r" (1), "m" (*lock), "0" (0)
@@ -151,6 +173,7 @@ __arch_sas_spin_trylock (volatile sas_spin_lock_t *lock)
   int notlocked = 1;
   char rc;
  
+  SPHDE_SIM_POINT (lock, SPHDE_SIM_RMW);
   __asm__ __volatile__ ("lock; cmpxchg %2, %1; sete %0"
                         : "=a" (rc), "=m" (*lock)
                         : "r" (1), "m" (*lock), "0" (0)
-- 
2.43.0


From 2736614e6d5c7bd41fb9336b0d85b90062648d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 02/81] fix: sas_atomic_swap stored an uninitialised value on
 x86

The replacement was never loaded into the register that xchg stores.
---
 src/sasatom_i386.h   | 2 +-
 src/sasatom_x86_64.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_i386.h b/src/sasatom_i386.h
index 85e20f4..89080d6 100644
--- a/src/sasatom_i386.h
+++ b/src/sasatom_i386.h
@@ -71,7 +71,7 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
   __asm__ (
     "  lock;"
diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 24dc58e..25487bb 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -113,7 +113,7 @@ __arch_compare_and_swap (volatile long int *p, long int oldval, long int newval)
 static inline long int
 __arch_atomic_swap (long int *p, long int replace)
 {
-  long int temp;
+  long int temp = replace;
 
   SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ (
-- 
2.43.0


From 0e7dcb120cd5c1f5dcde2ceedeaafe67639459c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 03/81] fix: sas_atomic_inc/dec counted in 32 bits on x86_64

The counter is a long; incl/decl lose the carry into its upper half.
---
 src/sasatom_x86_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sasatom_x86_64.h b/src/sasatom_x86_64.h
index 25487bb..bc745b6 100644
--- a/src/sasatom_x86_64.h
+++ b/src/sasatom_x86_64.h
@@ -133,7 +133,7 @@ __arch_atomic_inc (long int *p)
   SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ __volatile__ (
     "  lock;"
-    "  incl (%0);"
+    "  incq (%0);"
    :
    : "p" (p)
    : "memory"
@@ -146,7 +146,7 @@ __arch_atomic_dec (long int *p)
   SPHDE_SIM_POINT (p, SPHDE_SIM_RMW);
   __asm__ (
     "  lock;"
-    "  decl (%0);"
+    "  decq (%0);"
    :
    : "p" (p)
    : "memory"
-- 
2.43.0


From 4c11442dc67ec67dde4114e017c61673c8c24299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 04/81] fix: region list functions read the tree root before
 taking the region lock

SASList* and SASMaxDepth* could walk a tree whose root another thread or
process had replaced, reporting live blocks as free or missing them.
---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..1cb7995 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1489,10 +1489,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1516,10 +1517,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1541,10 +1543,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1558,10 +1561,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1577,10 +1581,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1603,10 +1608,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1629,10 +1635,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From cac0f3aa184d7d9c3420e869d8594d40b3ea4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 05/81] fix: p2Alloc truncated the region offset to 32 bits
 when splitting a block

Pieces split off a segment beyond the first 4 GB of the region were listed
under the key of another segment, so they were never joined again and
could be merged with space they do not belong to.
---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 1cb7995..93a71d0 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -416,7 +416,8 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long keys;
   unsigned long result = 0;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned long ui;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From a441a45125eec0811f156aa6c8761a37e71dc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 06/81] fix: lock objects of different hash slots were carved
 from the shared heap without a lock

Two threads taking new locks in different slots could be given the same
storage for their lock objects.
---
 src/saslockl.cpp | 7 +++++--
 src/saslockl.h   | 3 ++-
 src/sasmlock.cpp | 3 ++-
 src/sasmlock.h   | 1 +
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/saslockl.cpp b/src/saslockl.cpp
index df217d6..4de7a14 100644
--- a/src/saslockl.cpp
+++ b/src/saslockl.cpp
@@ -89,8 +89,8 @@ SasLockListNode<Item, Key>::operator delete( void *deadObject )
 
 // List constructor
 template<class Item, class Key>
-SasLockList<Item, Key>::SasLockList(void)
-: headPtr(NULL), count(0)
+SasLockList<Item, Key>::SasLockList(spin_lock_t *sharedHeapLock)
+: headPtr(NULL), count(0), heapLock(sharedHeapLock)
 {
    void *byteAddr = SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    lock = new(byteAddr) SasUserLock();
@@ -255,9 +255,12 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
    fprintf (stderr, "%s - new-up a lock\n", __FUNCTION__);
 #endif
 
+   // The heap is shared by all lists, our list lock does not protect it.
+   spin_lock(heapLock);
    char *byteAddr = (char*) SASNearAlloc( (void*) this, sizeof(SasUserLock) );
    SasUserLock * newUserLock = new(byteAddr) SasUserLock();
    add(newUserLock);
+   spin_unlock(heapLock);
    switch (lockT) {
       case SasUserLock__READ:
          newUserLock->read_lock(lock, keyAddr);	 // lock item
diff --git a/src/saslockl.h b/src/saslockl.h
index e585d7f..ef8e446 100644
--- a/src/saslockl.h
+++ b/src/saslockl.h
@@ -95,7 +95,7 @@ template<class Item, class Key>
 class SasLockList
 {
 public:
-  SasLockList(void);
+  SasLockList(spin_lock_t *sharedHeapLock);
   ~SasLockList(void);
   void * operator new(size_t size, SasMasterLock * const masterLock );
   void operator delete( void *deadObject );
@@ -116,6 +116,7 @@ private:
   SasLockListNode<Item, Key>	* headPtr;   // First node in list
   size_t			count;      // Current number of nodes
   SasUserLock			*lock;      // Locking mechanism
+  spin_lock_t			*heapLock;  // Guards the heap all lists allocate from
 };
 
 
diff --git a/src/sasmlock.cpp b/src/sasmlock.cpp
index 43d76e4..2406732 100644
--- a/src/sasmlock.cpp
+++ b/src/sasmlock.cpp
@@ -118,6 +118,7 @@ SasMasterLock::SasMasterLock(unsigned int size)
    tableSize = size;
 
    //eyecatcher2 = 0x6B636C6D;
+   spin_lock_init(&heapLock);
    initHashTable();
 }
 
@@ -297,7 +298,7 @@ SasMasterLock::initHashTable(void)
    unsigned int loop;
    for (loop = 0; loop < tableSize; ++loop)
     {
-      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>();
+      slots[loop] = new( this ) SasLockList<SasUserLock,vm_address_t>(&heapLock);
     }
 
 #ifdef __SOMDebugPrint__
diff --git a/src/sasmlock.h b/src/sasmlock.h
index 3695b90..14e9bf1 100644
--- a/src/sasmlock.h
+++ b/src/sasmlock.h
@@ -80,6 +80,7 @@ private:
   //unsigned int eyecatcher;
   unsigned int tableSize;
   SasLockList<SasUserLock,vm_address_t> ** slots;
+  spin_lock_t heapLock;
   //unsigned int eyecatcher2;
   
   long hash(void * kk);
-- 
2.43.0


From ab747da2d962c238ca3a96391cb454f2d625620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 07/81] fix: a writer waiting for readers to finish could lose
 its wake-up

The last reader posts one token on a semaphore shared with writers that
wait for the exclusive status; one of those could consume it and go back
to sleep, leaving the pending writer and everyone behind it asleep.
---
 src/sasulock.cpp | 23 +++++++++++++++--------
 src/sasulock.h   |  1 +
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..bca9edf 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,7 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  sem_init(&readers_done_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +92,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&readers_done_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -444,15 +446,12 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   // while still being used by the readers
   while (total_readers_count)
   {
-    // look like a writer so that the unlock code wakes us up.
-    writers_waiting++;
-
-    SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+    // The last reader wakes us up.  This needs a semaphore of our own:
+    // writers waiting for the exclusive status could consume the wake-up.
+    SasUserLock::thread_sleep(	(vm_address_t)&total_readers_count,
+				&readers_done_sem, &data_lock);
 
     spin_lock(&data_lock);
-    if (writers_waiting)
-      writers_waiting--;
   }
   // no more readers, so we now have the write lock
 
@@ -496,6 +495,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	wakeup_draining_writer = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -521,7 +521,9 @@ SasUserLock::unlock(void)
         total_readers_count);
     }
 #endif
-    if ((total_readers_count==0) && (writers_waiting))
+    if ((total_readers_count==0) && (status == SasUserLock__exclusive))
+      wakeup_draining_writer = TRUE;
+    else if ((total_readers_count==0) && (writers_waiting))
       wakeup_writers = TRUE;
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
@@ -622,6 +624,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (wakeup_draining_writer)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&total_readers_count,
+				&readers_done_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..98d31b6 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,7 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  sem_t                 readers_done_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0


From 7b93e76d926aecca3627bbcefd25d9103b89be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 08/81] fix: an address lock object was reused while threads
 still waited on it

unlock cleared the object's address with waiters queued, and lockNode set
it only after the list was unlocked, so two objects could serve one address
(no exclusion) or one object two addresses (unlock not finding its lock).
---
 src/saslockl.cpp |  4 +++-
 src/sasulock.cpp | 23 +++++++++++++++--------
 src/sasulock.h   |  2 ++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/saslockl.cpp b/src/saslockl.cpp
index 4de7a14..ef66152 100644
--- a/src/saslockl.cpp
+++ b/src/saslockl.cpp
@@ -239,6 +239,8 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
 #ifdef __SOMDebugPrint__
       fprintf (stderr, "%s - found a free lock to use\n", __FUNCTION__);
 #endif
+      // Claim it before the list is unlocked by read_lock/write_lock.
+      firstFreeLock->setAddrKey(keyAddr);
       switch (lockT)
        {
          case SasUserLock__READ:
@@ -258,7 +260,7 @@ SasLockList<Item, Key>::lockNode(Key keyAddr, sas_userlock_request_t lockT)
    // The heap is shared by all lists, our list lock does not protect it.
    spin_lock(heapLock);
    char *byteAddr = (char*) SASNearAlloc( (void*) this, sizeof(SasUserLock) );
-   SasUserLock * newUserLock = new(byteAddr) SasUserLock();
+   SasUserLock * newUserLock = new(byteAddr) SasUserLock(keyAddr);
    add(newUserLock);
    spin_unlock(heapLock);
    switch (lockT) {
diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index bca9edf..e16de6b 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -482,6 +482,19 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
   spin_unlock(&data_lock);
 }
 
+// Zero-out the address datamember to indicate the lock object is available
+// for use, but only if nobody holds it or is waiting for it: a waiter will
+// own the lock for this address, so the address must still be found then.
+// The caller holds data_lock.
+void
+SasUserLock::release_address(void)
+{
+  if ((total_readers_count == 0) &&
+      (status == SasUserLock__not_exclusive) &&
+      (writers_waiting == 0) && (readers_waiting == 0))
+    address = NullAddress;
+}
+
 void
 SasUserLock::unlock(void)
 {
@@ -507,10 +520,7 @@ SasUserLock::unlock(void)
   if (total_readers_count)
   {
     total_readers_count--;
-// Zero-out the address datamember to indicate the lock object
-// is available for use.
-    if (total_readers_count==0)
-	address = NullAddress;
+    release_address ();
 
 #ifdef coherenceCheck
     if (total_readers_count < 0)
@@ -586,13 +596,10 @@ SasUserLock::unlock(void)
         spin_unlock(&data_lock);
         return;
       }
-      // Zero-out the address datamember to indicate the lock object
-      // is available for use.
-      address = NullAddress;
-
       writer_thread_id = 0;
       writer_task_id = 0;
       status = SasUserLock__not_exclusive;
+      release_address ();
 
       if (writers_waiting)
         wakeup_writers = TRUE;
diff --git a/src/sasulock.h b/src/sasulock.h
index 98d31b6..a3988bf 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -96,6 +96,7 @@ public:
 //  void operator delete(void * object);
   int operator==(vm_address_t addrToLock);
   unsigned long getAddrKey(void) { return (unsigned long) address; }
+  void setAddrKey(vm_address_t addr) { address = addr; }
   unsigned long getWriterPID(void) { return (unsigned long) writer_task_id; }
   unsigned long getWriterTID(void) { return (unsigned long) writer_thread_id; }
   void read_lock(SasUserLock * lockObj = NULL,
@@ -108,6 +109,7 @@ public:
 #endif
   boolean_t	waiters(void);
 private:
+  void release_address(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
-- 
2.43.0


From 18627c4f3c1a396ab5a82c34857e3da9252b1c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 09/81] fix: an eleventh simultaneous reader of an address hung
 the lock forever

With the reader table full read_lock returned without the lock, leaving
the spin lock taken.  Wait for an open slot instead.
---
 src/sasulock.cpp | 35 +++++++++++++++++++++--------------
 src/sasulock.h   |  1 +
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index e16de6b..5217642 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -257,8 +257,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     }  // end scan for has reader lock already
   }    // end if(total_readers_count)
 
-  // wait until all the writers are done.
-  while (status == SasUserLock__exclusive || writers_waiting)
+  // wait until all the writers are done and there is room in the table.
+  while (status == SasUserLock__exclusive || writers_waiting
+	 || !reader_slot_available ())
     {
       readers_waiting++;
 
@@ -336,18 +337,21 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
         }  // end open slot in table
     }   // end for loop looking for a slot
 
-  // if we get here, we still have the spin lock,
-  // and we did not find a slot to use.  I can't
-  // readily hang this thread, but I CAN hang onto
-  // the spin lock so that all other threads will
-  // lock up.  Oughta notice that.  Thus,
-  // I intentionally didn't release the spin lock
-  // here.
-#ifdef mylockdebug
-  fprintf (stderr, "%s\n", __FUNCTION__);
-  fprintf (stderr, " thread[%ld,%ld] - no opne slots in reader table\n",
-    (long int) this_task, (long int) this_thread);
-#endif
+  // not reached: we waited for an open slot above, holding the spin lock
+  // since.
+  spin_unlock(&data_lock);
+}
+
+// TRUE if the table of readers has an open slot.  The caller holds data_lock.
+boolean_t
+SasUserLock::reader_slot_available(void)
+{
+  for (int i = 0; i < MAX_READER_THREADS; i++)
+    {
+      if (readers[i].reader_thread_lock_count <= 0)
+	return TRUE;
+    }
+  return FALSE;
 }
 
 // Get non-shared write lock.  A thread can call this more than once.
@@ -565,6 +569,9 @@ SasUserLock::unlock(void)
           // remove the thread id
           readers[i].reader_thread_id = 0;
           readers[i].reader_task_id = 0;
+          // a reader may be waiting for the slot
+          if (readers_waiting)
+            wakeup_readers = TRUE;
         }
       }
     } // end for loop
diff --git a/src/sasulock.h b/src/sasulock.h
index a3988bf..f184cee 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -110,6 +110,7 @@ public:
   boolean_t	waiters(void);
 private:
   void release_address(void);
+  boolean_t reader_slot_available(void);
   void thread_sleep (	vm_address_t event,
 			sem_t       *sem,
   			spin_lock_t *lock);
-- 
2.43.0


From 2a7125ac13170c62fddeb7715bc637633c5b1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 10/81] fix: an interrupted wait for the region lock entered
 without the lock

---
 src/sassim.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 93a71d0..7c651c1 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -656,7 +656,9 @@ seizeSASSem (SASAnchor_t * anchor)
 {
   int rc;
 #ifdef __GNUC__
-  rc = sem_wait (&anchor->SASSem);
+  do
+    rc = sem_wait (&anchor->SASSem);
+  while (rc != 0 && errno == EINTR);
   if (rc != 0)
     sas_printf ("seizeSASSem: sem_wait failed: %s\n", strerror (errno));
 #else
-- 
2.43.0


From d5c3f5c21c9fab9260c7d504107f43e6432bc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 11/81] fix: SASReset left the region lock open to two threads
 at once

---
 src/sassim.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 7c651c1..282cef7 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1699,9 +1699,10 @@ SASReset ()
 {
   SASSeize ();
   SASRemoveAllocatedSegs ();
-  initRegion ();
   SASLockReset ();
-  SASRelease ();
+  /* This creates the region semaphore anew, and free.  Releasing it on top
+   * would let two threads in at once.  */
+  initRegion ();
 }
 
 void
-- 
2.43.0


From 30dae82cfaeceb4b392960fb70e83bf00a73a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 12/81] fix: SASRemove destroyed the region semaphore after
 unmapping it

---
 src/sassim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 282cef7..e3e4126 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1713,11 +1713,11 @@ SASRemove ()
   sas_printf ("SASRemove()\n");
 #endif
   SASRemoveAllocatedSegs ();
+  destroySASSem (&anchor->anchors);
   if (SASRemoveSegByAddr (anchor, SegmentSize))
     sas_printf ("SASRemove: SASRemoveSegByAddr failed\n");
   SASLockReset ();
   SASLockRemove ();
-  destroySASSem (&anchor->anchors);
   free (mem_IDs);
 }
 
-- 
2.43.0


From 9e78a5fe7843d64f813ab6824a58521f29e4cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 13/81] fix: SASLockReset leaked the lock table until the lock
 heap ran out

---
 src/saslock.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1aa026..d1872bd 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -36,7 +36,11 @@ SASLockReset (void)
     }
     
     void *lock_addr = (void *)__SAS_TEMP_ADDRESS;
-    SASBlockHeader *shm_locks = (SASBlockHeader*)lock_addr;
+    /* Start from an empty heap: the old lock table and lock objects are
+       abandoned.  */
+    SASBlockHeader *shm_locks = (SASBlockHeader*)SASSimpleHeapInit( lock_addr,
+						SAS_RUNTIME_LOCKTABLE,
+						__SAS_SHMAP_MAX );
 
     ml = new (shm_locks) SasMasterLock(kMasterLockSize);
     setSASBlockSpecial (lock_addr, ml);
-- 
2.43.0


From 9fd22af33bf572fd429591121a636f88f029161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 14/81] fix: a queue created in used storage, or reset with
 entries in it, stayed full forever

---
 src/sphsinglepcqueue.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..dc94953 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -79,6 +79,19 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry free.  The storage may have been in use before.  */
+static void
+SPHSinglePCQueueClearEntries (SPHPCQueueHeader * headerBlock)
+{
+  longPtr_t entry;
+
+  if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+    return;
+  for (entry = headerBlock->startq; entry < headerBlock->endq;
+       entry += headerBlock->default_entry_stride)
+    ((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -133,6 +146,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHSinglePCQueueClearEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -231,6 +245,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
+	  SPHSinglePCQueueClearEntries (headerBlock);
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
 	}
-- 
2.43.0


From fb2c944275859294b8a3a137f26c4b826dbdb7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 15/81] fix: strides were rounded with the allocation unit as
 mask instead of the unit less one

---
 src/sphlflogger.cpp      | 2 +-
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..82e6a0a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -91,7 +91,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b486fa2 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -99,7 +99,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index dc94953..2c545e3 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -115,7 +115,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From 110c9a96c9bb4f0c86746b3f4c6aadab030cbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 16/81] fix: SPHSinglePCQueueGetNextComplete gave a wrong size
 for entries of 4 KB and more

---
 src/sphsinglepcqueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 2c545e3..1988835 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1110,7 +1110,8 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
       if (headerBlock->qhead != queue_entry
 	  && entrytemp.detail.valid && entrytemp.detail.allocated)
 	{
-	  alloc_round = entrytemp.detail.len * DEFAULT_ALLOC_UNIT;
+	  /* The length field is too narrow for strides of 4 KB and more.  */
+	  alloc_round = headerBlock->default_entry_stride;
 	  handlespace->entry = entryPtr;
 	  handlespace->total_size = alloc_round;
 	  if (entrytemp.detail.timestamped)
-- 
2.43.0


From 32eb906b22b87268067ea0f86406710ae6e4c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 17/81] fix: the entries of a multi-party queue overlapped its
 header

---
 src/sphmultipcqueue.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b486fa2..f79395e 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,8 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
+/* must hold the whole SPHMPMCQHeader */
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From f46bc0a090f040a33d6f04b578fc11af115b7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 18/81] fix: a multi-party queue created in used storage, or
 reset with entries in it, stayed full

---
 src/sphmultipcqueue.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f79395e..07b8b74 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -68,6 +68,19 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark every entry free.  The storage may have been in use before.  */
+static void
+SPHMPMCQClearEntries (SPHMPMCQHeader *headerBlock)
+{
+	longPtr_t entry;
+
+	if (headerBlock->default_entry_stride == NODEFAULT_ENTRY_STRIDE)
+		return;
+	for (entry = headerBlock->startq; entry < headerBlock->endq;
+	     entry += headerBlock->default_entry_stride)
+		((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -122,6 +135,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQClearEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -215,6 +229,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
+		SPHMPMCQClearEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
 	} else {
-- 
2.43.0


From ee07795563033e1916accf43f888c22da426c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 19/81] fix: SPHMPMCQIsEmpty called a queue non-empty while all
 its entries were held by consumers

---
 src/sphmultipcqueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 07b8b74..2387b3a 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -253,7 +253,7 @@ SPHMPMCQIsEmpty (SPHMPMCQ_t queue)
 		sas_read_barrier ();
 		longPtr_t temp = headerBlock->qtail;
 		SPHLFEntryHeader_t *entryPtr = (SPHLFEntryHeader_t *)temp;
-		if (!entryPtr->entryID.detail.valid)
+		if (!entryPtr->entryID.detail.allocated || !entryPtr->entryID.detail.valid)
 			rc = 1;
 	} else {
 		debug_printf("%s(%p) type check failed\n", __FUNCTION__,queue);
-- 
2.43.0


From 06affcf9753bcc8f18cdc7b685018b118f22b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 20/81] fix: several processes joining a new store at once
 could attach it before it was initialized

---
 src/sassim.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index e3e4126..e5a5d08 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <sys/file.h>
 #include <sys/ipc.h>
 /*
 #ifdef __USE_SHM
@@ -1381,12 +1382,37 @@ SASDisableSigSegv ()
 #endif
 }
 
+/* Only one process at a time may join a store: until the one that finds
+   no anchor segment has created and initialized it, no other may attach
+   it.  The kernel drops the lock if the holder dies.  Returns -1 where
+   the store can not be locked.  */
+static int
+SASStoreLock (void)
+{
+  int fd = open (sasStorePath, O_RDONLY | O_CLOEXEC);
+
+  if (fd >= 0)
+    {
+      while (flock (fd, LOCK_EX) != 0 && errno == EINTR)
+	;
+    }
+  return fd;
+}
+
+static void
+SASStoreUnlock (int fd)
+{
+  if (fd >= 0)
+    close (fd);
+}
+
 int
 SASJoinRegionByName (const char *store_name)
 {
   int segs = (int) (RegionSize / SegmentSize);
   size_t memIDsize = (RegionSize / SegmentSize) * sizeof (*mem_IDs);
   int rc = 1;
+  int lockfd;
   int i;
 
   if (store_name != NULL)
@@ -1416,6 +1442,7 @@ SASJoinRegionByName (const char *store_name)
       for (i = 0; i < segs; i++)
 	mem_IDs[i] = 0;
     }
+  lockfd = SASStoreLock ();
   rc = SASAttachAnchorSeg ((char *) __SAS_BASE_ADDRESS,
 			   RegionSize, SegmentSize);
   if (rc)
@@ -1455,6 +1482,7 @@ SASJoinRegionByName (const char *store_name)
     }
 
   SASLockInit ();
+  SASStoreUnlock (lockfd);
   SASEnableSigSegv ();
 
   return rc;
-- 
2.43.0


From ab452fcdd12780c74bb54fb6f5d75828aa27a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 21/81] fix: a failed attempt to add a segment lost its file,
 descriptor and address range

---
 src/sassim.cpp  | 4 ++++
 src/sasstname.c | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index e5a5d08..6df789a 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -953,6 +953,8 @@ SASCreateSegByAddr (void *segAddr, unsigned long size)
     {
       rc = SASAttachSegByName (segAddr, size,
 			       segIndex, name, createOnlyFlags);
+      if (rc)
+	SASSegStoreRemoveByName (name);
     }
 
   return rc;
@@ -1162,6 +1164,8 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  nn = &(anchor->anchors.region);
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
diff --git a/src/sasstname.c b/src/sasstname.c
index b168b7c..53c1cae 100644
--- a/src/sasstname.c
+++ b/src/sasstname.c
@@ -111,7 +111,12 @@ SASSegStoreCreateByName (char *name)
 	  sas_printf ("SASSegStoreCreateByName truncate failed with %s\n",
 		      strerror (errno));
 	  sas_printf (" Store Name %s\n", name);
+	  close (fd);
 	}
+      /* An unusable file must not stay behind: it would make every later
+	 attempt to create this segment fail.  */
+      if (rc != 0)
+	remove (name);
     }
   else
     {
-- 
2.43.0


From e36baff15ed54b292928cf67e79db52fdf47a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 22/81] fix: a join refused by the system went unnoticed or
 left the store, memory and locks half set up

---
 src/saslock.cpp |  4 +++-
 src/saslock.h   |  3 ++-
 src/sasshm.c    | 10 ++++++++--
 src/sassim.cpp  | 36 ++++++++++++++++++++++++++++++++++--
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/saslock.cpp b/src/saslock.cpp
index d1872bd..063a821 100644
--- a/src/saslock.cpp
+++ b/src/saslock.cpp
@@ -47,7 +47,7 @@ SASLockReset (void)
     SasLockOwner = 1;
 }
 
-void
+int
 SASLockInit (void)
 {
     char *lock_addr = (char *)__SAS_TEMP_ADDRESS;
@@ -67,7 +67,9 @@ SASLockInit (void)
 	} else {
 	    ml = (SasMasterLock*) getSASBlockSpecial (lock_addr); 
 	}
+	return 0;
     }
+    return -1;
 }
 
 void
diff --git a/src/saslock.h b/src/saslock.h
index ca1a890..ed23ce3 100644
--- a/src/saslock.h
+++ b/src/saslock.h
@@ -83,8 +83,9 @@ SASLockReset (void);
 *	This shm segment will hold the shared lock tables that hold active
 *	symbolic locks.
 *
+*	@return 0 on success, nonzero if the shm segment is not available.
 */
-extern __C__ void
+extern __C__ int
 SASLockInit (void);
 
 
diff --git a/src/sasshm.c b/src/sasshm.c
index 4a1e01a..bd6c65d 100644
--- a/src/sasshm.c
+++ b/src/sasshm.c
@@ -95,6 +95,9 @@ SASAllocateShmID (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      /* Nobody initialized it, so nobody may find it.  */
+      if (!exist)
+	SASRemoveShmID (shm_id);
       return (-1);
     }
 
@@ -145,6 +148,9 @@ SASAllocateShmID_clear (key_t key_id, void *addr, long size)
       sas_printf ("SASAllocateShmID(%x, %p, %ld); shmat failed;%s\n",
 		  key_id, addr, size, strerror (errno));
 #endif
+      /* Nobody initialized it, so nobody may find it.  */
+      if (!exist)
+	SASRemoveShmID (shm_id);
       return (-1);
     }
 
@@ -160,7 +166,7 @@ int
 SASAllocateShmName (char *key_name, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
 #ifdef __WORDSIZE_64
@@ -183,7 +189,7 @@ int
 SASAllocateShmNameProj (char *key_name, char proj, void *addr, long size)
 {
   key_t shm_key;
-  int shm_id = 0;
+  int shm_id = -1;
   char lower = ('a' - 'A');
   int proj_id;
   /* force unique keys between 32-/64-bit modes */
diff --git a/src/sassim.cpp b/src/sassim.cpp
index 6df789a..9e1c62d 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1289,6 +1289,8 @@ SASCreateAnchorSeg (void *regionBase, size_t regionSize, size_t segmentSize)
 	  memLow = (unsigned long) regionBase;
 	  memHigh = memLow + regionSize;
 	}
+      else
+	SASSegStoreRemoveByName (storeName);
     }
 
   return rc;
@@ -1416,6 +1418,7 @@ SASJoinRegionByName (const char *store_name)
   int segs = (int) (RegionSize / SegmentSize);
   size_t memIDsize = (RegionSize / SegmentSize) * sizeof (*mem_IDs);
   int rc = 1;
+  int created = 0;
   int lockfd;
   int i;
 
@@ -1425,6 +1428,8 @@ SASJoinRegionByName (const char *store_name)
       pathlen = strlen (store_name);
       malloclen = (pathlen + 2 + 8) & ~(7);
       sasStorePath = (char *) malloc (malloclen);
+      if (sasStorePath == NULL)
+	return (2);
       sasStorePath = strcpy (sasStorePath, store_name);
       if (sasStorePath[pathlen - 1] == '/')
 	sasStorePath[pathlen - 1] = 0;
@@ -1439,6 +1444,8 @@ SASJoinRegionByName (const char *store_name)
   mem_IDs = (int *) malloc (memIDsize);
   if (mem_IDs == NULL)
     {
+      free (sasStorePath);
+      sasStorePath = NULL;
       return (2);
     }
   else
@@ -1447,6 +1454,14 @@ SASJoinRegionByName (const char *store_name)
 	mem_IDs[i] = 0;
     }
   lockfd = SASStoreLock ();
+  if (lockfd < 0 && errno != EACCES)
+    {
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+      return (1);
+    }
   rc = SASAttachAnchorSeg ((char *) __SAS_BASE_ADDRESS,
 			   RegionSize, SegmentSize);
   if (rc)
@@ -1464,6 +1479,7 @@ SASJoinRegionByName (const char *store_name)
 #ifdef __SASDebugPrint__
 	  sas_printf ("SASJoinRegion anchor created\n");
 #endif
+	  created = 1;
 	  initRegion ();
 	  // CompactUseList is now the default for new regions.
 	  setSASCompactUseList ();
@@ -1485,9 +1501,25 @@ SASJoinRegionByName (const char *store_name)
 	    (MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED), -1, 0);
     }
 
-  SASLockInit ();
+  if (!rc && SASLockInit ())
+    {
+      SASDetachAllocatedSegs ();
+      SASDetachSegByAddr ((void *) memLow, SegmentSize);
+      munmap ((char *) getMemHigh (), 4096);
+      if (created)
+	SASSegStoreRemove (0);
+      rc = 1;
+    }
   SASStoreUnlock (lockfd);
-  SASEnableSigSegv ();
+  if (rc)
+    {
+      free (mem_IDs);
+      mem_IDs = NULL;
+      free (sasStorePath);
+      sasStorePath = NULL;
+    }
+  else
+    SASEnableSigSegv ();
 
   return rc;
 }
-- 
2.43.0


From 839a26507c1680c6f6ed14910cd9e2165b4a7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 23/81] fix: running out of list space in the anchor block
 crashed the process with the region locked

---
 src/sassim.cpp | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 9e1c62d..b378320 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -208,6 +208,31 @@ SASS2Log2 (unsigned long size)
   return SizeToLog2 (size);
 }
 
+/* Allocations stop while this many list nodes are still available in the
+   anchor block, so that storage can be returned even then.  */
+#define ANCHOR_RESERVE_NODES 96
+/* The most nodes returning a block takes: it may split a used block of
+   region size down to the smallest size.  */
+#define ANCHOR_SPLIT_NODES 32
+
+// Are there fewer than count list nodes left in the anchor block
+static int
+anchorSpaceLow (unsigned long count)
+{
+  SASBlockHeader *anchorBlock = (SASBlockHeader *) memLow;
+  freeNode *head = anchorBlock->blockFreeSpace;
+
+  while (head)
+    {
+      unsigned long nodes = head->nodeSize / sizeof (uLongTreeNode);
+      if (nodes >= count)
+	return 0;
+      count -= nodes;
+      head = head->nextNode;
+    }
+  return 1;
+}
+
 static void
 p2AddUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
@@ -354,7 +379,7 @@ p2split (uLongTreeNode ** root, unsigned long size, void *loc,
 
 }
 
-static void
+static int
 p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 {
   uLongTreeNode *n, *c;
@@ -380,6 +405,8 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 	      n = n->removeNode (nn);
 	      SASNearDealloc (n, sizeof(uLongTreeNode));
 	    }
+	  else if (anchorSpaceLow (ANCHOR_SPLIT_NODES))
+	    return 1;
 	  else
 	    {
 	      c = p2FindCont (root, size, loc);
@@ -395,6 +422,8 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 	    }
 	}
     }
+  else if (anchorSpaceLow (ANCHOR_SPLIT_NODES))
+    return 1;
   else
     {
       c = p2FindCont (root, size, loc);
@@ -406,6 +435,7 @@ p2RemUsed (uLongTreeNode ** root, unsigned long size, void *loc)
 	  sas_printf ("  returning %p size %p\n", loc, (void *) size);
 	}
     }
+  return 0;
 }
 
 static void *
@@ -1125,6 +1155,12 @@ SASBlockAllocNoLock (unsigned long blockSize)
   sas_printf ("SASBlockAlloc (%lx)\n", blockSize);
 #endif
 
+  if (anchorSpaceLow (ANCHOR_RESERVE_NODES))
+    {
+      sas_printf ("SASBlockAlloc no space for lists\n");
+      return NULL;
+    }
+
   if (anchor->anchors.free)
     {
       temp = p2Alloc (nn, blockSize);
@@ -1213,7 +1249,14 @@ SASBlockDealloc (void *blockAddr, unsigned long blockSize)
 
   SASSeize ();
   uu = &(anchor->anchors.used);
-  p2RemUsed (uu, blockSize, blockAddr);
+  if (p2RemUsed (uu, blockSize, blockAddr))
+    {
+      /* There is no space left to list the parts of the used block this
+	 one belongs to, so it stays in use.  */
+      sas_printf ("SASBlockDealloc no space for lists\n");
+      SASRelease ();
+      return;
+    }
 
 //  initialize block to zeros, needed only in windows/AIX/OS2
   if (blockSize > 4096)
-- 
2.43.0


From 6447b69fce6042f60b433b2b17315a9b06ac461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 24/81] fix: bitv: end the search when no aligned place is left

bitv_aligned_alloc_marked (and the unmarked forms) searched the same word
for ever when the last aligned position of it was not free and the
alignment did not divide the remaining distance to the end of the word.
---
 src/bitv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..8ab58e3 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -282,8 +284,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +385,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From c7b1922bbe6310acf27b81577565c43ae1be045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 25/81] fix: SPHLockFreeHeapNearFind: look for a lock free heap

It looked for the block type of a simple heap and never found any heap.
---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..03bbfe6 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 6de0d512946e30b51e24ab5d2afaed090009548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 26/81] fix: SPHLockFreeHeapAlignAlloc: serve alignments below
 the unit size

They were refused although every unit satisfies them.
---
 src/sphlockfreeheap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 03bbfe6..a536bf4 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -268,6 +268,10 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
 
+	  /* every allocation is aligned to the unit size */
+	  if (alignment < heapHdr->bitv_cb.alloc_unit)
+	    alignment = heapHdr->bitv_cb.alloc_unit;
+
 	  for (long i = 0; i < cnt; i++)
 	    {
 	      if (heapHdr->alloc_vec[i] != 0)
-- 
2.43.0


From 20872de5a58965a0d5c904314ce5bef66a9291ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 27/81] fix: bitv_alloc_marked: do not give up on contention

After two lost compare-and-swaps the allocation was refused although the
word still had room, so a lock free heap with free space returned NULL.
---
 src/bitv.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 8ab58e3..f76f6dc 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -141,7 +141,6 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
   size_t alloc_units = bitv_round_unit (cb, size);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  long retry_cnt = 0;
 #ifdef PRINT_DEBUG
   printf ("alloc_units=%ld, req_msk=%lx, cur_msk=%lx\n",
 	  alloc_units, req_msk0, cur_msk);
@@ -187,14 +186,11 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
 		  cur_msk = *bvec;
 		  if (BITV_SPACE_EST (cur_msk, alloc_units))
 		    {		/* might still have room, retry */
-		      if (retry_cnt > 0)
-			return -1;
 		    }
 		  else
 		    {		/* out of space */
 		      cur_msk = 0UL;
 		    }
-		  retry_cnt++;
 		}
 	      break;
 	    }
-- 
2.43.0


From 48860011b6252a3dfd4aebb478007872616979e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 28/81] fix: refuse a struct whose alignment does not fit in an
 entry

The padding needed to align the struct was subtracted from the space left
in the entry without checking that it fits: with less space left than
padding the unsigned difference wrapped and the struct was placed outside
the entry.
---
 src/sphlfentry.h    | 10 ++++++++--
 src/sphlflogentry.h | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..1157715 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -396,8 +396,11 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		adjust = ((unsigned long)ptr
 			- (unsigned long)handle->next);
+		if (adjust > len)
+			return NULL;
+		len -= adjust;
 	}
 
 	if (len >= __size)
@@ -451,8 +454,11 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		adjust = ((unsigned long)ptr
 			- (unsigned long)handle->next);
+		if (adjust > len)
+			return NULL;
+		len -= adjust;
 	}
 
 	if (len >= __size)
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..762a5ac 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -328,8 +328,11 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		adjust = ((unsigned long)ptr
 			- (unsigned long)handle->next);
+		if (adjust > len)
+			return NULL;
+		len -= adjust;
 	}
 
 	if (len >= __size)
@@ -383,8 +386,11 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 
 	if ((unsigned long)ptr != (unsigned long)handle->next)
 	{
-		len -= ((unsigned long)ptr
+		adjust = ((unsigned long)ptr
 			- (unsigned long)handle->next);
+		if (adjust > len)
+			return NULL;
+		len -= adjust;
 	}
 
 	if (len >= __size)
-- 
2.43.0


From 8fbc451d175894931c1d21bdfc6b7767a40e68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 29/81] fix: keep the other log and queue options when the
 prefetch option is set

SPHLFLoggerSetCachePrefetch and SPHSinglePCQueueSetCachePrefetch masked the
options with the prefetch bits instead of their complement: setting the
prefetch option cleared every other option, so that a circular log refused
entries once it was full.
---
 src/sphlflogger.cpp      | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 82e6a0a..7f29d92 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1014,7 +1014,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 1988835..5d74298 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1214,7 +1214,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 6932aca7bee47385a8ea4b92439db87539e97d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 30/81] fix: a new log on used storage has no entries

Initialising a log left the old contents of its storage in place, so that
readers took old words for complete entries, before the writer of an
allocated entry had filled it in or behind the last entry.
---
 src/sphlflogger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 7f29d92..721fee2 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -93,6 +93,12 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->options = options;
   heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
+  /* Storage that was used before may hold what looks like complete entries.
+     Only write where needed, to leave untouched pages untouched.  */
+  for (char *entry = stackStart; entry < stackEnd; entry += round)
+    if (((SPHLFLogHeader_t *) entry)->entryID.idUnit)
+      ((SPHLFLogHeader_t *) entry)->entryID.idUnit = 0;
+
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
   freeNode_init (heapBlock->headerFreeSpace, remaining);
-- 
2.43.0


From 75b1c9d93fc0fa7353bdbcc8000fb593054c9d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 31/81] fix: reading a circular log starts and ends at its
 oldest entry

When a circular log has wrapped, next_free may stand at the end of the log
or in the piece before it that is too small for an entry; the iterator
started there and returned nothing, or ended there before it reached the
entries at the start.  When next_free stood at the last entry the iterator
went round for ever, because the test for having come back to where it
started was not made at the end of the log.
---
 src/sphlflogger.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 721fee2..a5d7840 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -701,16 +701,17 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	  if ((log_options & SPHLFLOGGER_CIRCULAR)
 	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	    {
-	      if (lPtr >= iterator->end_log)
+	      if ((prev != iterator->free)
+		  || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
+		      != SPHLFLOGGER_CIRCULAR_NOTFIRST))
 		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
-		{
-		  iterator->current = lPtr;
+		  /* The next entry is the first one if there is no room for
+		     another one before the end.  */
+		  if (lPtr + headerBlock->default_entry_stride
+		      > iterator->end_log || lPtr >= iterator->end_log)
+		    iterator->current = iterator->start_log;
+		  else
+		    iterator->current = lPtr;
 		  handle = handleorg;
 		}
 	    }
@@ -760,7 +761,12 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  /* The oldest entry is the first one if there is no room for
+	     another one before the end.  */
+	  if (iter->free + headerBlock->default_entry_stride > iter->end_log
+	      || iter->free >= iter->end_log)
+	    iter->free = iter->start_log;
+	  iter->current = iter->free;
 	}
       else
 	{
-- 
2.43.0


From d2ce1080b6219b047202a3d7203b106c748ec4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 32/81] fix: a circular log that has wrapped is not empty

SPHLFLoggerEmpty looked only at next_free, which is at the start of the log
again right after it wraps.
---
 src/sphlflogger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index a5d7840..25f16ec 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -826,7 +826,8 @@ SPHLFLoggerEmpty (SPHLFLogger_t log)
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
       sas_read_barrier ();
-      if (headerBlock->next_free == headerBlock->start_log_buf)
+      if ((headerBlock->next_free == headerBlock->start_log_buf)
+	  && !(headerBlock->options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
 	  rc = 1;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 2defeeedde2d8c4578007e93c7b83ab52c83230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 33/81] fix: refuse log entries that cannot be described or
 never fit

The length in an entry header has 8 bits of 16 bytes: for larger entries it
was cut off, and readers were sent to the wrong place or, with length zero,
round for ever.  Entries larger than the log made a circular log retry
without end, and sizes near the top of the range wrapped around and were
granted.
---
 src/sphlflogger.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 25f16ec..f4399b5 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -63,6 +63,20 @@ typedef struct SASLFLoggerHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* The largest entry that the length in the entry header can describe.  */
+#define MAX_ENTRY_SIZE		(255 * DEFAULT_ALLOC_UNIT)
+
+/* Whether an entry of this size (in bytes, with its header) can be described,
+   and will fit in a circular log once it wraps.  */
+static inline int
+SPHLFLoggerEntryFits (SASLFLoggerHeader *headerBlock, block_size_t size)
+{
+  return size >= sizeof (SPHLFLogHeader_t) && size <= MAX_ENTRY_SIZE
+    && (!(headerBlock->options & SPHLFLOGGER_CIRCULAR)
+	|| size <= (block_size_t) (headerBlock->end_log_buf
+				   - headerBlock->start_log_buf));
+}
+
 SPHLFLogger_t
 SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
 			 block_size_t buf_size,
@@ -172,6 +186,12 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {
+      /* Avoid overflow.  */
+      if (alloc_size > (block_size_t) (headerBlock->end_log_buf
+				       - headerBlock->start_log_buf))
+	alloc_size = headerBlock->end_log_buf
+	  - headerBlock->start_log_buf + 1;
+
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + round) & ~round;
       log_entry = __sync_fetch_and_add (&headerBlock->next_free, alloc_round);
@@ -214,6 +234,9 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (alloc_size > MAX_ENTRY_SIZE
+	  || !SPHLFLoggerEntryFits (headerBlock, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -340,6 +363,8 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerEntryFits (headerBlock, alloc_round))
+	return NULL;
 #ifdef __powerpc__
       log_entry =
 	(longPtr_t) sas_fetch_and_add_ptr ((void **) &headerBlock->next_free,
@@ -472,6 +497,9 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
+      if (alloc_size > MAX_ENTRY_SIZE
+	  || !SPHLFLoggerEntryFits (headerBlock, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
@@ -547,6 +575,8 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 				  SAS_RUNTIME_LOCKFREELOGGER))
     {				/* for Strided alloc increment is pre rounded */
       alloc_round = headerBlock->default_entry_stride;
+      if (!SPHLFLoggerEntryFits (headerBlock, alloc_round))
+	return NULL;
       //      log_entry = __sync_fetch_and_add(&headerBlock->next_free, alloc_round);
       log_entry = headerBlock->next_free;
       headerBlock->next_free += alloc_round;
-- 
2.43.0


From 61f94ec2647ef3f732ecdba25bb47fcbab606530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 34/81] fix: end a full log where its entries end

When an entry does not fit behind the last one, next_free is left beyond
the end of the log and readers went on into the unused rest.  After a
reset of the log that rest may begin with an old entry, which they took
for a new one.
---
 src/sphlflogger.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index f4399b5..adb44f5 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -77,6 +77,16 @@ SPHLFLoggerEntryFits (SASLFLoggerHeader *headerBlock, block_size_t size)
 				   - headerBlock->start_log_buf));
 }
 
+/* Clear what an earlier use of the log left in the rest of the log, which is
+   too small for the entry that was refused, so that readers end there.  */
+static inline void
+SPHLFLoggerEndLog (SASLFLoggerHeader *headerBlock, longPtr_t log_entry)
+{
+  if (!(headerBlock->options & SPHLFLOGGER_CIRCULAR)
+      && log_entry < headerBlock->end_log_buf)
+    ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+}
+
 SPHLFLogger_t
 SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
 			 block_size_t buf_size,
@@ -198,6 +208,7 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
 	{
+	  SPHLFLoggerEndLog (headerBlock, log_entry);
 	  log_entry = 0;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocRaw(%p, %ld) alloc failed\n",
@@ -274,6 +285,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndLog (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) alloc failed\n",
 		      log, alloc_size);
@@ -406,6 +418,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndLog (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) alloc failed opt=%x\n",
@@ -533,6 +546,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndLog (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) alloc failed\n", log,
@@ -614,6 +628,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerEndLog (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) alloc failed opt=%x\n",
-- 
2.43.0


From 68fb2cd9f84323a584cfb48ab1887ca5664c95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 35/81] fix: reading a log ends at next_free

An old word behind the last entry that looked like a complete entry of
length zero was handed to the reader.
---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index adb44f5..6e11426 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -762,7 +762,7 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	    }
 	  else
 	    {
-	      if (lPtr <= iterator->free)
+	      if ((prev < iterator->free) && (lPtr <= iterator->free))
 		{
 		  iterator->current = lPtr;
 		  handle = handleorg;
-- 
2.43.0


From a0d7a1125b602e852712ea90c270b604d445fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 36/81] fix: no thread waits for another one to wrap a circular
 log

A thread that found a circular log full and was not the first to do so
waited until next_free was well below its own entry. It waited for ever if
the first thread stopped before it wrapped the log, or if the log filled up
again before the waiting thread looked at it.
---
 src/sphlflogger.cpp | 126 +++++++++++---------------------------------
 1 file changed, 31 insertions(+), 95 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 6e11426..1485250 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -293,57 +293,25 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 	  sas_write_barrier ();
 	  if (headerBlock->options & SPHLFLOGGER_CIRCULAR)
 	    {
-	      bool done = 0;
-	      longPtr_t old;
-	      /* verify that this thread is the first or primary
-	         thread to find the wrap condition.  */
-	      if ((log_entry <= headerBlock->end_log_buf)
-		  && (log_entry + alloc_round >= headerBlock->end_log_buf))
+	      longPtr_t old = headerBlock->next_free;
+	      /* The first thread to find next_free beyond the end wraps the
+	         log.  No thread waits for another one, which may have
+	         stopped, or may have left next_free exactly at the end.  */
+	      while (old > headerBlock->end_log_buf)
 		{
-		  do
-		    {
-		      old = headerBlock->next_free;
-		      done =
-			__sync_bool_compare_and_swap (&headerBlock->next_free,
-						      old,
-						      headerBlock->
-						      start_log_buf);
-		    }
-		  while (!done);
 		  sas_fetch_and_or (&headerBlock->options,
-					      SPHLFLOGGER_CIRCULAR_WRAPED);
-#ifdef __SASDebugPrint__
-		  sas_printf
-		    ("SPHLFLoggerAllocTimeStamped(%p, %ld) wrapping\n", log,
-		     alloc_size);
-		  sas_printf
-		    (" lflog@%p, old=%ld, ->next_free=%ld, ->start_log_buf=%ld, \n",
-		     headerBlock, old, headerBlock->next_free,
-		     headerBlock->start_log_buf);
-#endif
-		  handlespace = SPHLFLoggerAllocTimeStamped (log, catcode,
-							     subcode,
-							     alloc_size,
-							     handleorg);
-		}
-	      else
-		{
-		  /* secondary threads should just retry until the
-		     buffer wraps.  */
-		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
-		       old = headerBlock->next_free)
-		    sas_read_barrier ();
-
-		  do
-		    {
-		      handlespace = SPHLFLoggerAllocTimeStamped (log, catcode,
-								 subcode,
-								 alloc_size,
-								 handleorg);
-		    }
-		  while (!handlespace);
+				    SPHLFLOGGER_CIRCULAR_WRAPED);
+		  if (__sync_bool_compare_and_swap (&headerBlock->next_free,
+						    old,
+						    headerBlock->
+						    start_log_buf))
+		    break;
+		  old = headerBlock->next_free;
 		}
+	      handlespace = SPHLFLoggerAllocTimeStamped (log, catcode,
+							 subcode,
+							 alloc_size,
+							 handleorg);
 	    }
 	}
 #ifdef __SASDebugPrint__
@@ -427,56 +395,24 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 	  sas_write_barrier ();
 	  if (headerBlock->options & SPHLFLOGGER_CIRCULAR)
 	    {
-	      bool done = 0;
-	      longPtr_t old;
-	      /* verify that this thread is the first or primary
-	         thread to find the wrap condition.  */
-	      if ((log_entry <= headerBlock->end_log_buf)
-		  && (log_entry + alloc_round >= headerBlock->end_log_buf))
+	      longPtr_t old = headerBlock->next_free;
+	      /* The first thread to find next_free beyond the end wraps the
+	         log.  No thread waits for another one, which may have
+	         stopped, or may have left next_free exactly at the end.  */
+	      while (old > headerBlock->end_log_buf)
 		{
-		  do
-		    {
-		      old = headerBlock->next_free;
-		      done =
-			__sync_bool_compare_and_swap (&headerBlock->next_free,
-						      old,
-						      headerBlock->
-						      start_log_buf);
-		    }
-		  while (!done);
 		  sas_fetch_and_or (&headerBlock->options,
-					      SPHLFLOGGER_CIRCULAR_WRAPED);
-#ifdef __SASDebugPrint__
-		  sas_printf
-		    ("SPHLFLoggerAllocStrideTimeStamped(%p, ...) wrapping\n",
-		     log);
-		  sas_printf
-		    (" lflog@%p, old=%ld, ->next_free=%ld, ->start_log_buf=%ld, \n",
-		     headerBlock, old, headerBlock->next_free,
-		     headerBlock->start_log_buf);
-#endif
-		  handlespace =
-		    SPHLFLoggerAllocStrideTimeStamped (log, catcode, subcode,
-						       handleorg);
-		}
-	      else
-		{
-		  /* secondary threads should just retry until the
-		     buffer wraps.  */
-		  for (old = headerBlock->next_free;
-		       (old + alloc_round) >= log_entry;
-		       old = headerBlock->next_free)
-		    sas_read_barrier ();
-
-		  do
-		    {
-		      handlespace =
-			SPHLFLoggerAllocStrideTimeStamped (log, catcode,
-							   subcode,
-							   handleorg);
-		    }
-		  while (!handlespace);
+				    SPHLFLOGGER_CIRCULAR_WRAPED);
+		  if (__sync_bool_compare_and_swap (&headerBlock->next_free,
+						    old,
+						    headerBlock->
+						    start_log_buf))
+		    break;
+		  old = headerBlock->next_free;
 		}
+	      handlespace =
+		SPHLFLoggerAllocStrideTimeStamped (log, catcode, subcode,
+						   handleorg);
 	    }
 	}
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 1603bef6ff0e7a26d84d22511859158fcf00062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:32 +0000
Subject: [PATCH 37/81] fix: a log written without locks is marked as wrapped
 before it wraps

Between the reset of next_free and the change of the options a reader found
the log empty.
---
 src/sphlflogger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 1485250..1adc14c 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -491,8 +491,9 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 	  //          atomic_write_barrier();
 	  if (headerBlock->options & SPHLFLOGGER_CIRCULAR)
 	    {
-	      headerBlock->next_free = headerBlock->start_log_buf;
 	      headerBlock->options |= SPHLFLOGGER_CIRCULAR_WRAPED;
+	      sas_write_barrier ();
+	      headerBlock->next_free = headerBlock->start_log_buf;
 	      handlespace = SPHLFLoggerAllocTimeStampedNoLock (log, catcode,
 							       subcode,
 							       alloc_size,
@@ -573,8 +574,9 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 //                      atomic_write_barrier();
 	  if (headerBlock->options & SPHLFLOGGER_CIRCULAR)
 	    {
-	      headerBlock->next_free = headerBlock->start_log_buf;
 	      headerBlock->options |= SPHLFLOGGER_CIRCULAR_WRAPED;
+	      sas_write_barrier ();
+	      headerBlock->next_free = headerBlock->start_log_buf;
 	      handlespace = SPHLFLoggerAllocStrideTimeStampedNoLock (log,
 								     catcode,
 								     subcode,
-- 
2.43.0


From d3cb26c90a7db507d03815bfa08cd98f20623a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 38/81] fix: the portal reader goes on behind a log without
 entries

SPHLFPortalIteratorNext looked at one following log only: if that log had no
complete entry, which happens when the entries asked for did not fit in it,
the walk ended before the entries of the logs behind it.
---
 src/sphlogportal.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..ff440f2 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -429,7 +429,7 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
 	SPHLFLoggerHandle_t *handle = NULL;
 	SPHLogPortal_t portal = iterator->portal;
 	SASLogPortalHeader	*headerBlock = (SASLogPortalHeader*)portal;
-    SPHLFLogger_t log, log0;
+    SPHLFLogger_t log;
 
     if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
     		SAS_RUNTIME_LOGPORTAL) )
@@ -442,26 +442,25 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     	if (log)
     	{   /* The iterator should point to a logger.  */
     		handle = SPHLFLoggerIteratorNext(&iterator->logIter, handlespace);
-    		if (!handle)
+    		while (!handle)
     		{   /* implies we at then end of the current logger. */
-    			longPtr_t cur = iterator->current;
-    			longPtr_t nxt = cur + 1;
-    			log0 = headerBlock->log_buff_list[cur];
-    			if (log0 && (nxt <= iterator->next_free)
-    			&& (nxt < iterator->capacity))
-    			{   /* nxt is within the allocated list.  */
-    				log = headerBlock->log_buff_list[nxt];
-    				if (log)
-    				{   /* and the list entry was filled in. */
-    			    	SPHLFLogIterator_t *l_iter;
-    		    		l_iter = SPHLFLoggerCreateIterator(log, &iterator->logIter);
-    		    		if (l_iter)
-    		    		{   /* and that pointer to a valid logger.  */
-    		    			iterator->current = nxt;
-    		        		handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
-    		    		}
-    				}
-    			}
+    			SPHLFLogIterator_t *l_iter;
+    			longPtr_t nxt = iterator->current + 1;
+
+    			if ((nxt >= iterator->next_free)
+    			|| (nxt >= iterator->capacity))
+    				break;
+    			/* nxt is within the allocated list.  */
+    			log = headerBlock->log_buff_list[nxt];
+    			if (!log)
+    				break;
+    			l_iter = SPHLFLoggerCreateIterator(log, &iterator->logIter);
+    			if (!l_iter)
+    				break;
+    			/* and that pointer to a valid logger, which may
+    			 * have no (complete) entry.  */
+    			iterator->current = nxt;
+    			handle = SPHLFLoggerIteratorNext(l_iter, handlespace);
     		}
     	}
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 0d53796dda77250fac4b2a412be8d0fb072da840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 39/81] fix: an empty portal has no iterator

SPHLFPortalCreateIterator took the first word of the list of a portal without
logs for a log: on storage that was used before this was an old value.
---
 src/sphlogportal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index ff440f2..df86819 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -395,7 +395,9 @@ SPHLFPortalCreateIterator(SPHLogPortal_t portal,
     		SAS_RUNTIME_LOGPORTAL) )
     {
     	SPHLFLogIterator_t *l_iter = NULL;
-    	log = headerBlock->log_buff_list[0];
+    	log = NULL;
+    	if (headerBlock->next_free > 0)
+    		log = headerBlock->log_buff_list[0];
 #ifdef __SASDebugPrint__
     	sas_printf("SPHLFPortalCreateIterator(%p, %p) log[0]= %p\n",
     			portal, Iterator_space, log);
-- 
2.43.0


From 81e74b4b5f42cb1fb820f2503af6055aa4d08ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 40/81] fix: count the logs of a full portal

SPHLogPortalEntries returned -1 for a portal that held as many logs as it
can.
---
 src/sphlogportal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index df86819..8b01249 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -342,7 +342,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 99545491e63e85e2ba71fbdd5d7ef8cc777387aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 41/81] fix: a log is in the portal's list before it is counted

SPHLogPortalAddLogger moved next_free before it stored the log: until then,
or for ever if the adder died, other threads took what was in the list for a
log. Attempts to add to a full portal moved next_free beyond the end of the
list, where readers and writers then looked for logs.
---
 src/sphlogportal.cpp | 50 ++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 8b01249..608022d 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -15,6 +15,7 @@
 #include <stdio.h>
 //#include "sasio.h"
 #include <stdlib.h>
+#include <string.h>
 #include "sasalloc.h"
 #include "freenode.h"
 #ifdef __SASDebugPrint__
@@ -92,6 +93,8 @@ SPHLogPortalInitInternal (void* buf_seg,  sas_type_t sasType,
     heapBlock->options = options;
     heapBlock->list_size = entries;
     heapBlock->log_buff_list = (SPHLFLogger_t*)listStart;
+    /* An entry of the list is NULL until a Logger is added there.  */
+    memset (listStart, 0, heapBlock->list_size * sizeof (SPHLFLogger_t));
     heapBlock->current_logger = 0;
     heapBlock->next_free = 0;
 
@@ -185,33 +188,40 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
-			if (index < headerBlock->list_size)
+			/* The list entry is filled in before next_free is moved
+			 * beyond it, so that every entry below next_free holds
+			 * a Logger.  */
+			index = headerBlock->next_free;
+			while (!rc && (index < headerBlock->list_size))
 			{
-				/* Insert the Logger in the Portal list */
-				headerBlock->log_buff_list[index] = log;
-				/* Link this Logger to the Portal as its Base Block
-				 * then link this Logger as the Next Block of the
-				 * previous Logger in the list.
-				 */
-				logBlock->baseBlock = (SASBlockHeader*)headerBlock;
-				if (index > 0)
+				if (__sync_bool_compare_and_swap (&headerBlock->log_buff_list[index],
+						NULL, log))
 				{
-					logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
-					logPrevBlock->nextBlock = logBlock;
+					/* Link this Logger to the Portal as its Base Block
+					 * then link this Logger as the Next Block of the
+					 * previous Logger in the list.
+					 */
+					logBlock->baseBlock = (SASBlockHeader*)headerBlock;
+					if (index > 0)
+					{
+						logPrevBlock = (SASBlockHeader*)headerBlock->log_buff_list[index-1];
+						logPrevBlock->nextBlock = logBlock;
+					}
+					rc = log;
 				}
-
-				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
+				/* Another thread may have filled in this list entry, so
+				 * help it to move next_free. */
+				__sync_bool_compare_and_swap (&headerBlock->next_free,
+						index, index + 1);
+				index = headerBlock->next_free;
 			}
-	#ifdef __SASDebugPrint__
-		} else {
+		}
+#ifdef __SASDebugPrint__
+		else {
 			sas_printf("SPHLogPortalAddLogger(%p, %p) log parm type check failed\n",
 					portal, log);
-	#endif
 		}
+#endif
 #ifdef __SASDebugPrint__
 	} else {
 		sas_printf("SPHLogPortalAddLogger(%p) type check failed\n",
-- 
2.43.0


From 96e5cd0c7ff28d735b37f1ab352361d9e4572833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 42/81] fix: read the portal's current log before the number of
 logs

When the number of logs was read first, logs added and filled in between made
the current log look as if it were beyond the end of the list: the portal
seemed empty and refused an entry although its last log had room.
---
 src/sphlogportal.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 608022d..5c04f67 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -242,9 +242,10 @@ SPHLogPortalGetCurrentLogger (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free >  headerBlock->current_logger )
+		index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > index )
 		{
-			index = headerBlock->current_logger;
 			rc = headerBlock->log_buff_list[index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalCurrentLogger(%p) next=%lx, current=%lx\n",  portal,
@@ -292,15 +293,18 @@ int
 SPHLogPortalGetCurrentIndex (SPHLogPortal_t portal)
 {
 	SASLogPortalHeader	*headerBlock = (SASLogPortalHeader*)portal;
+	longPtr_t index;
 	int rc = -1;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free >  headerBlock->current_logger )
+		index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > index )
 		{
-			rc = headerBlock->current_logger;
+			rc = index;
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalCurrentIndex(%p) next=%ld, current=%ld\n",  portal,
 					headerBlock->next_free, headerBlock->current_logger);
@@ -319,13 +323,16 @@ int
 SPHLogPortalEmpty (SPHLogPortal_t portal)
 {
 	SASLogPortalHeader	*headerBlock = (SASLogPortalHeader*)portal;
+	longPtr_t index;
 	int rc = 0;
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free ==  headerBlock->current_logger )
+		index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free == index )
 		{
 			rc = 1;
 #ifdef __SASDebugPrint__
@@ -498,9 +505,10 @@ SPHLogPortalAllocStrideTimeStamped (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocStrideTimeStamped(%p) next=%ld, current=%ld\n",  portal,
@@ -563,9 +571,10 @@ SPHLogPortalAllocTimeStamped (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocTimeStamped(%p) next=%ld, current=%ld\n",
@@ -627,9 +636,10 @@ SPHLogPortalAllocRaw (SPHLogPortal_t portal,
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock,
 			SAS_RUNTIME_LOGPORTAL) )
 	{
-		if ( headerBlock->next_free > headerBlock->current_logger )
+		log_index = headerBlock->current_logger;
+		sas_read_barrier();
+		if ( headerBlock->next_free > log_index )
 		{
-			log_index = headerBlock->current_logger;
 			log = headerBlock->log_buff_list[log_index];
 #ifdef __SASDebugPrint__
 			sas_printf("SPHLogPortalAllocRaw(%p) next=%ld, current=%ld\n",
-- 
2.43.0


From ded3e208a780ed2d279270282943cd1866078fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 43/81] fix: refuse a heap release before writing into the
 storage, and above the heap's end

---
 src/sassimpleheap.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..b54a425 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,14 +115,15 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( (unsigned long)free_block
+		     <= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size) ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
-- 
2.43.0


From 1577fac7b147bf41e7ebec774d4d81e52229caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 44/81] fix: simple stack refuses requests whose size wraps and
 unaligned resets

---
 src/sassimplestack.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..0ef276d 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if (alloc_size <= headerBlock->end_stack - headerBlock->next_stack
+	  && stacknext <= headerBlock->end_stack)
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
@@ -260,8 +261,20 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
       if ((new_sp >= headerBlock->start_stack)
 	  && (new_sp <= headerBlock->end_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  if (new_sp == (new_sp & headerBlock->align_mask))
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    {
+	      rc = -3;
+#ifdef __SASDebugPrint__
+	      sas_printf
+		("SASSimpleStackDeallocNoLock(%p, %p) alignment check failed\n",
+		 heap, stack_pointer);
+#endif
+	    }
 	}
       else
 	{
-- 
2.43.0


From dbdfbcff57d19331ca9e2724fb08425e77b537e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 45/81] fix: refuse a simple space larger than any block

---
 src/sassimplespace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 0036a6c..aa74d97 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -95,6 +95,9 @@ SASSimpleSpaceCreate (block_size_t space_size)
     block_size_t	min_size = (space_size + DEFAULT_PAGE);
     block_size_t	p2_size = (DEFAULT_PAGE + DEFAULT_PAGE);
 
+    if (space_size > block__max - DEFAULT_PAGE)
+	return NULL;
+
     while (min_size > p2_size)
 	p2_size = p2_size + p2_size;
     
-- 
2.43.0


From 81ce200f649777af2347840c6433cab7e65caf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 46/81] fix: SASSimpleHeapNearAlloc/NearDealloc take the heap's
 lock as documented

---
 src/sassimpleheap.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index b54a425..fedb053 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -194,10 +194,11 @@ SASSimpleHeapNearFind(void *nearObj)
 }
 
 void*
-SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearAllocNoLock(void *nearObj, long allocSize)
 {
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
+    block_size_t	alloc_size = (block_size_t)allocSize;
     freeNode		*mem = NULL;
 
 	
@@ -234,14 +235,25 @@ SASSimpleHeapNearAllocNoLock(void *nearObj, block_size_t alloc_size)
 
 void* SASSimpleHeapNearAlloc(void *nearObj, long allocSize)
 {
-    return SASNearAlloc (nearObj, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (nearObj);
+    void		*mem;
+
+    if (heap == NULL)
+	return SASNearAlloc (nearObj, allocSize);
+
+    SASLock (heap, SasUserLock__WRITE);
+    mem = SASSimpleHeapNearAllocNoLock (nearObj, allocSize);
+    SASUnlock (heap);
+
+    return mem;
 }
 
 void
-SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
+SASSimpleHeapNearDeallocNoLock(void *nearObj, long allocSize)
 {
     SASBlockHeader	*headerBlock;
     block_size_t	heapSize;
+    block_size_t	alloc_size = (block_size_t)allocSize;
     freeNode		*free_node = (freeNode*)nearObj;
 
 	
@@ -250,11 +262,13 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
     {
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
-	    freeNode_init(free_node, alloc_size);
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
-	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
+	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset))
+	    && ((unsigned long)nearObj
+		<= ((unsigned long)headerBlock + headerBlock->blockSize - alloc_size)))
 	    {
+		freeNode_init(free_node, alloc_size);
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 #ifdef __SASDebugPrint__
 	    } else {
@@ -278,7 +292,17 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
 
 void SASSimpleHeapNearDealloc(void *memAddr, long allocSize)
 {							
-    SASNearDealloc (memAddr, allocSize);
+    SASSimpleHeap_t	heap = SASSimpleHeapNearFind (memAddr);
+
+    if (heap == NULL)
+    {
+	SASNearDealloc (memAddr, allocSize);
+	return;
+    }
+
+    SASLock (heap, SasUserLock__WRITE);
+    SASSimpleHeapNearDeallocNoLock (memAddr, allocSize);
+    SASUnlock (heap);
 }
 
 block_size_t
-- 
2.43.0


From a7579d063faf30220378b7bd1f8fe0da85b55041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 47/81] fix: SASFindHeader finds the header of a block of any
 power of two size

---
 src/sasalloc.cpp | 90 ++++--------------------------------------------
 1 file changed, 7 insertions(+), 83 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..1641a92 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,15 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
+	uintptr_t	size;
 
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	// headers sit at the start of blocks, of any power of two size
+	for (size = block__Size512; size <= (uintptr_t)block__max; size += size)
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
-
-	    if ( !SOMSASCheckBlockSig(block) )
-	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
-#endif
-		}
-	   }
+	    block = (SASBlockHeader *)(temp & ~(size - 1));
+	    if ( SOMSASCheckBlockSig(block) )
+		break;
+	    block = NULL;
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From e7d0e29435f55e78f18bac832c46634b90c8a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 48/81] fix: a destroyed compound heap leaves no page headers
 behind in the storage

---
 src/sascompoundheap.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 429aac4..114d528 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1190,6 +1190,27 @@ SASCompoundHeapRandomAccessAll (SASCompoundHeap_t heap)
   return heapAlloc;
 }
 
+/* The pages of a destroyed heap must not look like blocks to whoever
+ * gets the storage next.  */
+static void
+SASCompoundHeapClearPages (SASCompoundHeapHeader * headerBlock)
+{
+  block_size_t heapSize = headerBlock->blockHeader.blockSize;
+  block_size_t pageSize = headerBlock->pageSize;
+  block_size_t offset = default_page;
+
+  if (offset < pageSize)
+    offset = pageSize;
+
+  for (; offset + pageSize <= heapSize; offset += pageSize)
+    {
+      SASBlockHeader *page =
+	(SASBlockHeader *) ((char *) headerBlock + offset);
+      if (SOMSASCheckBlockSig (page))
+	memset (page, 0, sizeof (SASBlockHeader));
+    }
+}
+
 void
 SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 {
@@ -1206,6 +1227,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASCompoundHeapClearPages (list->heap[i]);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
@@ -1215,6 +1237,7 @@ SASCompoundHeapDestroyNoLock (SASCompoundHeap_t heap)
 	      SASSimpleSpaceDestroy (headerBlock->expandSpace);
 	    }
 	}
+      SASCompoundHeapClearPages (headerBlock);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From fb053e8e2eeffd65ae79cec6af6937e0a7fab5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 49/81] fix: a compound heap on used storage starts without an
 expand list

SASCompoundHeapInit left the expand list and its extension as they were
in the storage: a fixed heap took a stale list for its own and destroying
an expanding one followed a stale extension pointer.
---
 src/sascompoundheap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 114d528..72d4fd6 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -151,6 +151,7 @@ SASCompoundHeapExpandInit (void *heap_seg,
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
   freeNode_init (heapBlock->headerFreeSpace, remaining);
 
+  heapBlock->expandSpace = NULL;
   heapBlock->expandList = NULL;
   heapBlock->loadFactor = DEFAULT_LOAD_FACTOR;
 
@@ -186,6 +187,8 @@ SASCompoundHeapInit (void *heap_seg,
   heapBlock->blockHeader.baseBlock = (SASBlockHeader *) heapBlock;
   heapBlock->blockHeader.nextBlock = (SASBlockHeader *) heapBlock;
   heapBlock->loadFactor = 100;
+  heapBlock->expandSpace = NULL;
+  heapBlock->expandList = NULL;
 
   if (expanding)
     {
-- 
2.43.0


From 05c9b1b0e71b9edfbea582ff9109cf43c57ee878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 50/81] fix: releasing a page of an expansion block leaves no
 lock behind

SASCompoundHeapFree and SPHCompoundPCQFree lock each expansion block
while they look for the page's block but released the heap's own lock
instead, leaving the expansion blocks locked and the heap unlocked.
---
 src/sascompoundheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 72d4fd6..e9898ab 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -610,11 +610,11 @@ SASCompoundHeapFree (SASCompoundHeap_t heap, SASSimpleHeap_t free_block)
 		    {
 		      SASCompoundHeapFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
@@ -1531,11 +1531,11 @@ SPHCompoundPCQFree (SASCompoundHeap_t heap, SPHSinglePCQueue_t free_block)
 		    {
 			  SPHCompoundPCQFreeInternal (expandBlock, free_block);
 		      if (i > 0)
-			SASUnlock (heap);
+			SASUnlock (expandBlock);
 		      break;
 		    }
 		  if (i > 0)
-		    SASUnlock (heap);
+		    SASUnlock (expandBlock);
 		}
 	    }
 	  else
-- 
2.43.0


From c86ccb40889a7a17e922eaf8ccfdaeee26be7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 51/81] fix: allocating near a page never waits for the heap
 with a block locked

SASCompoundHeapNearAlloc and SPHCompoundPCQNearAlloc fell back to the
base heap with the full expansion block's lock held; every other
operation locks the base heap first, so the two could wait for each
other forever.
---
 src/sascompoundheap.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index e9898ab..a92fa01 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -713,6 +713,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
   SASCompoundHeapHeader *compoundHeader = NULL;
   SASCompoundHeapHeader *baseHeader = NULL;
   SASSimpleHeap_t newHeap = NULL;
+  bool fallBack = false;
 
   if (nearHeader != NULL)
     {
@@ -754,8 +755,7 @@ SASCompoundHeapNearAlloc (void *nearObj)
 		}
 	      else
 		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  fallBack = true;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -767,6 +767,11 @@ SASCompoundHeapNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+
+	  /* The base heap's lock comes before those of its blocks: do not
+	   * hold this block's while waiting for it.  */
+	  if (fallBack)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
@@ -1634,6 +1639,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
   SASCompoundHeapHeader *compoundHeader = NULL;
   SASCompoundHeapHeader *baseHeader = NULL;
   SPHSinglePCQueue_t newHeap = NULL;
+  bool fallBack = false;
 
   if (nearHeader != NULL)
     {
@@ -1675,8 +1681,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 		}
 	      else
 		{
-		  newHeap =
-		    SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+		  fallBack = true;
 		}
 #ifdef __SASDebugPrint__
 	    }
@@ -1688,6 +1693,11 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 #endif
 	    }
 	  SASUnlock (compoundHeader);
+
+	  /* The base heap's lock comes before those of its blocks: do not
+	   * hold this block's while waiting for it.  */
+	  if (fallBack)
+	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 952addf57da4dba59af30f0d7efea26b724954e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:59 +0000
Subject: [PATCH 52/81] fix: refuse a compound heap without room for a page

The free list of such a heap was written behind the end of its block,
into whatever follows it.
---
 src/sascompoundheap.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index a92fa01..74b000a 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -172,6 +172,10 @@ SASCompoundHeapInit (void *heap_seg,
   if ( alloc_page < page_size)
 	  alloc_page = page_size;
 
+  /* The header takes the first page: there must be another.  */
+  if (heap_size <= alloc_page)
+    return NULL;
+
   if (heapBlock)
     {
       heapStart = (char *) heapBlock + alloc_page;
@@ -318,7 +322,10 @@ SASCompoundFixedHeapCreate (block_size_t heap_size)
 
       newHeap = SASCompoundHeapInit (heapBlock,
 				     heap_size, default_page, false);
-      headerBlock->loadFactor = 100;
+      if (newHeap)
+	headerBlock->loadFactor = 100;
+      else
+	SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
@@ -333,6 +340,8 @@ SASCompoundHeapCreatePageSize (block_size_t heap_size, block_size_t page_size)
   if (heapBlock)
     {
       newHeap = SASCompoundHeapInit (heapBlock, heap_size, page_size, true);
+      if (newHeap == NULL)
+	SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
-- 
2.43.0


From be480aa7853b7bdeab4d7fac2a61dbb443a50972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 53/81] fix: SPHCompoundPCQNearAlloc always returns a queue

When the near block was full it returned a simple heap instead.
---
 src/sascompoundheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 74b000a..4f2fc35 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1626,7 +1626,7 @@ SPHCompoundPCQNearAllocNoLock (void *nearObj)
 		newHeap = SPHCompoundPCQAllocInternal (compoundHeader);
 	      else
 		newHeap =
-		  SASCompoundHeapAllocNoLock ((SASCompoundHeap_t) baseHeader);
+		  SPHCompoundPCQAllocNoLock ((SASCompoundHeap_t) baseHeader);
 #ifdef __SASDebugPrint__
 	    }
 	  else
@@ -1706,7 +1706,7 @@ SPHCompoundPCQNearAlloc (void *nearObj)
 	  /* The base heap's lock comes before those of its blocks: do not
 	   * hold this block's while waiting for it.  */
 	  if (fallBack)
-	    newHeap = SASCompoundHeapAlloc ((SASCompoundHeap_t) baseHeader);
+	    newHeap = SPHCompoundPCQAlloc ((SASCompoundHeap_t) baseHeader);
 	}
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From f66533d9cbd97cb9e8ae2ddbc4a9b680f4d2ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 54/81] fix: a new string tree starts empty whatever its
 storage held, and has room for a page

---
 src/sasstringbtree.cpp     | 23 +++++++++++++++++------
 src/sasstringbtreenode.cpp |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 512837e..5e2ca39 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -164,14 +164,20 @@ SASStringBTreeInit (void *heap_seg,
   char *heapStart = NULL;
   node_size_t remaining;
 
-  if (heapBlock)
-    {
-      heapStart = (char *) heapBlock + default_page;
-      initSOMSASBlock ((SASBlockHeader *) heapBlock,
-		       SAS_RUNTIME_STRINGBTREE, heap_size, heapStart);
-    }
+  /* Without room for the tables of a node, or for a page, there is no
+     tree.  */
+  if ((heapBlock == NULL)
+      || (page_size < heap_offset + 3 * (default_max + 1) * sizeof (void *))
+      || (heap_size < default_page + page_size))
+    return NULL;
+
+  heapStart = (char *) heapBlock + default_page;
+  initSOMSASBlock ((SASBlockHeader *) heapBlock,
+		   SAS_RUNTIME_STRINGBTREE, heap_size, heapStart);
 
   heapBlock->pageSize = page_size;
+  heapBlock->root = NULL;
+  heapBlock->expandList = NULL;
 
   remaining = default_page - sizeof (SASStringBTreeHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -213,6 +219,7 @@ SASStringBTreeInit (void *heap_seg,
       heapBlock->common = commonAlloc;
       commonAlloc->version = 0;
       commonAlloc->modCount = 1;
+      commonAlloc->count = 0;
       commonAlloc->max_key = NULL;
       commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -261,6 +268,8 @@ SASStringBTreeFixedCreate (block_size_t heap_size)
     {
       newHeap = SASStringBTreeInit (heapBlock, heap_size,
 				    default_page, false);
+      if (newHeap == NULL)
+        SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
@@ -313,6 +322,8 @@ SASStringBTreeCreatePageSize (block_size_t heap_size, block_size_t page_size)
   if (heapBlock)
     {
       newHeap = SASStringBTreeInit (heapBlock, heap_size, page_size, true);
+      if (newHeap == NULL)
+        SASBlockDealloc (heapBlock, heap_size);
     }
   return newHeap;
 }
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 87babe4..638e827 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -142,7 +142,7 @@ SASStringBTreeNodeInit (void *heap_seg, sas_type_t sasType,
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
 
-  for (i = 0; i < heapBlock->max_count; i++)
+  for (i = 0; i <= heapBlock->max_count; i++)
     {
       heapBlock->keys[i] = NULL;
       heapBlock->branch[i] = NULL;
-- 
2.43.0


From 35bab9df4ee441b38daec4657930b3dc3154b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 55/81] fix: string tree pages come from any block with room,
 and waiting for them cannot deadlock

---
 src/sasstringbtree.cpp | 601 +++++++++++------------------------------
 1 file changed, 151 insertions(+), 450 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 5e2ca39..911c06d 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -285,10 +285,10 @@ SASStringBTreeExpandCreate (SASStringBTree_t heap)
   SASBlockHeader *heapBlock = NULL;
   SASStringBTree_t newHeap = NULL;
 
-  heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
-  if (heapBlock)
+  if (list->count < list->max_count)
     {
-      if (list->count < list->max_count)
+      heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
+      if (heapBlock)
 	{
 	  SASStringBTreeHeader *newHeader, *prevHeader;
 	  newHeap = SASStringBTreeExpandInit (heapBlock,
@@ -301,13 +301,13 @@ SASStringBTreeExpandCreate (SASStringBTree_t heap)
 	  list->heap[list->count] = newHeader;
 	  list->count++;
 	  prevHeader->blockHeader.nextBlock = &newHeader->blockHeader;
-#ifdef __SASDebugPrint__
 	}
-      else
-	{
-	  sas_printf ("SASStringBTreeExpandCreate(%p) failed\n", headerBlock);
+#ifdef __SASDebugPrint__
+    }
+  else
+    {
+      sas_printf ("SASStringBTreeExpandCreate(%p) failed\n", headerBlock);
 #endif
-	}
     }
   return newHeap;
 }
@@ -361,6 +361,78 @@ SASStringBTreeAllocInternal (SASStringBTreeHeader * headerBlock)
   return newHeap;
 }
 
+static inline int
+SASStringBTreeHasPage (SASStringBTreeHeader * headerBlock)
+{
+  return SASStringBTreeAvail (headerBlock)
+    && (freeNode_maxFragment (headerBlock->blockHeader.blockFreeSpace)
+	>= headerBlock->pageSize);
+}
+
+/* Select the block to take the next page from, the tree's lock is held. The
+ * blocks are filled up to the load factor before a block is added, and
+ * beyond it when no block can be added.  */
+static SASStringBTreeHeader *
+SASStringBTreeSelectBlock (SASStringBTreeHeader * headerBlock)
+{
+  SASCompoundExpandList *list = headerBlock->expandList;
+  SASStringBTreeHeader *expandBlock;
+  block_size_t i;
+
+  if (!SASStringBTreeIsExpanding (headerBlock))
+    return headerBlock;
+
+  for (i = 0; i < list->count; i++)
+    {
+      /* the last block first */
+      expandBlock = list->heap[(i == 0) ? list->count - 1 : i - 1];
+      if ((SASStringBTreePercentUsed (expandBlock) < DEFAULT_LOAD_FACTOR)
+	  && SASStringBTreeHasPage (expandBlock))
+	return expandBlock;
+    }
+
+  expandBlock = (SASStringBTreeHeader *) SASStringBTreeExpandCreate (headerBlock);
+  if (expandBlock != NULL)
+    return expandBlock;
+
+  for (i = 0; i < list->count; i++)
+    {
+      if (SASStringBTreeHasPage (list->heap[i]))
+	return list->heap[i];
+    }
+  return NULL;
+}
+
+/* The tree block nearObj is in, and the base block of its tree.  */
+static SASStringBTreeHeader *
+SASStringBTreeFindBlock (void *nearObj, SASStringBTreeHeader ** base)
+{
+  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
+  SASBlockHeader *block;
+
+  if ((nearHeader == NULL) || !SOMSASCheckBlockSig (nearHeader))
+    return NULL;
+
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (nearHeader, SAS_RUNTIME_STRINGBTREE))
+    block = nearHeader;
+  else
+    block = nearHeader->baseBlock;
+  if ((block == NULL)
+      || !SOMSASCheckBlockSigAndType (block, SAS_RUNTIME_STRINGBTREE))
+    {
+#ifdef __SASDebugPrint__
+      sas_printf ("SASStringBTreeFindBlock(%p)->%p type check failed\n",
+		  nearObj, block);
+#endif
+      return NULL;
+    }
+
+  *base = (SASStringBTreeHeader *) block;
+  if (block->baseBlock != NULL)
+    *base = (SASStringBTreeHeader *) block->baseBlock;
+  return (SASStringBTreeHeader *) block;
+}
+
 SASStringBTreeNode_t
 SASStringBTreeAllocNoLock (SASStringBTree_t heap)
 {
@@ -370,39 +442,9 @@ SASStringBTreeAllocNoLock (SASStringBTree_t heap)
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
 				  SAS_RUNTIME_STRINGBTREE))
     {
-      if (SASStringBTreeIsExpanding (headerBlock))
-	{
-	  SASCompoundExpandList *list = headerBlock->expandList;
-	  SASStringBTreeHeader *expandHeader;
-	  block_size_t i;
-	  expandHeader = list->heap[list->count - 1];
-
-	  if (SASStringBTreePercentUsed (expandHeader) >= DEFAULT_LOAD_FACTOR)
-	    {
-	      expandHeader = NULL;
-	      for (i = 0; i < list->count - 1; i++)
-		{
-		  SASStringBTreeHeader *expandBlock = list->heap[i];
-		  if (SASStringBTreePercentUsed (expandBlock)
-		      < DEFAULT_LOAD_FACTOR)
-		    {
-		      expandHeader = expandBlock;
-		      break;
-		    }
-		}
-	      if (expandHeader == NULL)
-		{
-		  expandHeader = (SASStringBTreeHeader *)
-		    SASStringBTreeExpandCreate (heap);
-		}
-	    }
-	  if (expandHeader != NULL)
-	    newHeap = SASStringBTreeAllocInternal (expandHeader);
-	}
-      else
-	{
-	  newHeap = SASStringBTreeAllocInternal (headerBlock);
-	}
+      SASStringBTreeHeader *expandHeader = SASStringBTreeSelectBlock (headerBlock);
+      if (expandHeader != NULL)
+	newHeap = SASStringBTreeAllocInternal (expandHeader);
 #ifdef __SASDebugPrint__
     }
   else
@@ -421,62 +463,8 @@ SASStringBTreeAlloc (SASStringBTree_t heap)
 
   if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
-      SASStringBTreeHeader *heapHeader = (SASStringBTreeHeader *) heap;
       SASLock (heap, SasUserLock__WRITE);
-      if (SASStringBTreeIsExpanding (heapHeader))
-	{
-	  SASCompoundExpandList *list = heapHeader->expandList;
-	  SASStringBTreeHeader *lastHeader;
-	  SASStringBTreeHeader *expandHeader = NULL;
-	  block_size_t i;
-	  block_size_t last_lock = 0;
-	  lastHeader = list->heap[list->count - 1];
-	  if (lastHeader != heapHeader)
-	    SASLock (lastHeader, SasUserLock__WRITE);
-
-	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
-	    {
-	      for (i = 0; i < list->count - 1; i++)
-		{
-		  SASStringBTreeHeader *expandBlock = list->heap[i];
-		  if (i > 0)
-		    SASLock (expandBlock, SasUserLock__WRITE);
-		  if (SASStringBTreePercentUsed (expandBlock)
-		      < DEFAULT_LOAD_FACTOR)
-		    {
-		      expandHeader = expandBlock;
-		      last_lock = i;
-		      break;
-		    }
-		}
-	      if (expandHeader == NULL)
-		{
-		  expandHeader = (SASStringBTreeHeader *)
-		    SASStringBTreeExpandCreate (heap);
-	          last_lock = list->count - 2;
-		}
-	    }
-	  else
-	    {
-	      expandHeader = lastHeader;
-	    }
-	  if (expandHeader != NULL)
-	    newHeap = SASStringBTreeAllocInternal (expandHeader);
-
-	  if (lastHeader != expandHeader)
-	    {
-	      for (i = 1; i <= last_lock; i++)
-		{
-		  SASUnlock (list->heap[i]);
-		}
-	    }
-	  if (lastHeader != heapHeader)
-	    SASUnlock (lastHeader);
-	}
-      else
-	{
-	  newHeap = SASStringBTreeAllocInternal (heapHeader);
-	}
+      newHeap = SASStringBTreeAllocNoLock (heap);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
     }
@@ -550,65 +538,18 @@ SASStringBTreeFreeNoLock (SASStringBTree_t heap,
 void
 SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 {
-  SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
+  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) free_block,
-				  SAS_RUNTIME_STRINGBTREENODE))
+  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				      SAS_RUNTIME_STRINGBTREE))
-	{
-	  if (SASStringBTreeIsExpanding (headerBlock))
-	    {
-	      SASCompoundExpandList *list = headerBlock->expandList;
-	      block_size_t i;
-	      for (i = 0; i < list->count; i++)
-		{
-		  SASStringBTreeHeader *expandBlock = list->heap[i];
-		  if (i > 0)
-		    SASLock (expandBlock, SasUserLock__WRITE);
-		  if (SASStringBTreeContains (expandBlock, free_block))
-		    {
-		      SASStringBTreeFreeInternal (expandBlock, free_block);
-		      if (i > 0)
-			SASUnlock (heap);
-		      break;
-		    }
-		  if (i > 0)
-		    SASUnlock (heap);
-		}
-	    }
-	  else
-	    {
-	      if (SASStringBTreeContains (headerBlock, free_block))
-		{
-		  SASStringBTreeFreeInternal (headerBlock, free_block);
-#ifdef __SASDebugPrint__
-		}
-	      else
-		{
-		  sas_printf
-		    ("SASStringBTreeFree(%p, %p) free block not contained\n",
-		     heap, free_block);
-#endif
-		}
-	    }
-#ifdef __SASDebugPrint__
-	}
-      else
-	{
-	  sas_printf ("SASStringBTreeFree(%p, %p) type check failed\n",
-		      heap, free_block);
-#endif
-	}
+      SASStringBTreeFreeNoLock (heap, free_block);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
     }
   else
     {
-      sas_printf ("SASStringBTreeFree(%p, %p) type check failed\n",
-		  heap, free_block);
+      sas_printf ("SASStringBTreeFree(%p) type check failed\n", heap);
 #endif
     }
 }
@@ -616,54 +557,16 @@ SASStringBTreeFree (SASStringBTree_t heap, SASStringBTreeNode_t free_block)
 SASStringBTreeNode_t
 SASStringBTreeNearAllocNoLock (void *nearObj)
 {
-  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-  SASStringBTreeHeader *compoundHeader = NULL;
   SASStringBTreeHeader *baseHeader = NULL;
+  SASStringBTreeHeader *compoundHeader =
+    SASStringBTreeFindBlock (nearObj, &baseHeader);
   SASStringBTreeNode_t newHeap = NULL;
-  if (nearHeader != NULL)
-    {
-      if (SOMSASCheckBlockSig (nearHeader))
-	{
-	  if ((nearHeader->baseBlock != nearHeader)
-	      && (nearHeader->baseBlock != NULL))
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader->baseBlock;
-	  else
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader;
 
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-					  SAS_RUNTIME_STRINGBTREE))
-	    {
-	      if (SASStringBTreeIsExpanding (compoundHeader))
-		{
-		  baseHeader = compoundHeader;
-		}
-	      else
-		{
-		  if ((compoundHeader->blockHeader.baseBlock
-		       != (SASBlockHeader *) compoundHeader)
-		      && (compoundHeader->blockHeader.baseBlock != NULL))
-		    baseHeader =
-		      (SASStringBTreeHeader *) compoundHeader->blockHeader.
-		      baseBlock;
-		  else
-		    baseHeader = compoundHeader;
-		}
-
-	      if (SASStringBTreeAvail (compoundHeader))
-		newHeap = SASStringBTreeAllocInternal (compoundHeader);
-	      else
-		newHeap =
-		  SASStringBTreeAllocNoLock ((SASStringBTree_t) baseHeader);
-#ifdef __SASDebugPrint__
-	    }
-	  else
-	    {
-	      sas_printf
-		("SASStringBTreeNearAllocNoLock(%p)->%p type check failed\n",
-		 nearObj, compoundHeader);
-#endif
-	    }
-	}
+  if (compoundHeader != NULL)
+    {
+      newHeap = SASStringBTreeAllocInternal (compoundHeader);
+      if (newHeap == NULL)
+	newHeap = SASStringBTreeAllocNoLock ((SASStringBTree_t) baseHeader);
     }
   return newHeap;
 }
@@ -671,72 +574,14 @@ SASStringBTreeNearAllocNoLock (void *nearObj)
 SASStringBTreeNode_t
 SASStringBTreeNearAlloc (void *nearObj)
 {
-  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-  SASStringBTreeHeader *compoundHeader = NULL;
   SASStringBTreeHeader *baseHeader = NULL;
   SASStringBTreeNode_t newHeap = NULL;
 
-  if (nearHeader != NULL)
-    {
-      if (SOMSASCheckBlockSig (nearHeader))
-	{
-	  if ((nearHeader->baseBlock != nearHeader)
-	      && (nearHeader->baseBlock != NULL))
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader->baseBlock;
-	  else
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader;
-
-	  SASLock (compoundHeader, SasUserLock__WRITE);
-
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-					  SAS_RUNTIME_STRINGBTREE))
-	    {
-	      if (SASStringBTreeIsExpanding (compoundHeader))
-		{
-		  baseHeader = compoundHeader;
-		}
-	      else
-		{
-		  if ((compoundHeader->blockHeader.baseBlock
-		       != (SASBlockHeader *) compoundHeader)
-		      && (compoundHeader->blockHeader.baseBlock != NULL))
-		    baseHeader =
-		      (SASStringBTreeHeader *) compoundHeader->blockHeader.
-		      baseBlock;
-		  else
-		    baseHeader = compoundHeader;
-		}
-#if 0
-	      sas_printf ("SASStringBTreeNearAlloc(%p) %p %p\n",
-			  nearObj, compoundHeader, baseHeader);
-#endif
-	      if (SASStringBTreeAvail (compoundHeader))
-		{
-		  newHeap = SASStringBTreeAllocInternal (compoundHeader);
-		}
-	      else
-		{
-		  newHeap =
-		    SASStringBTreeAlloc ((SASStringBTree_t) baseHeader);
-		}
-#ifdef __SASDebugPrint__
-	    }
-	  else
-	    {
-	      sas_printf
-		("SASStringBTreeNearAlloc(%p)->%p type check failed\n",
-		 nearObj, compoundHeader);
-#endif
-	    }
-	  SASUnlock (compoundHeader);
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
+  if (SASStringBTreeFindBlock (nearObj, &baseHeader) != NULL)
     {
-      sas_printf ("SASStringBTreeNearAlloc(%p) block check failed\n",
-		  nearObj);
-#endif
+      SASLock (baseHeader, SasUserLock__WRITE);
+      newHeap = SASStringBTreeNearAllocNoLock (nearObj);
+      SASUnlock (baseHeader);
     }
   return newHeap;
 }
@@ -775,165 +620,65 @@ SASStringBTreeSpillInternal (SASStringBTreeHeader * headerBlock)
   return newHeap;
 }
 
-SASStringBTreeNode_t
-SASStringBTreeSpillAllocExtended (SASStringBTree_t heap, lock_on_t lock_on)
+/* Add a page to the spill pages of a block. With the list full it goes in
+ * front of the first page.  */
+static void
+SASStringBTreeSpillLink (SASStringBTreeHeader * headerBlock, SASStringBTreeNodeHeader * page)
 {
-  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
-  SASStringBTreeNode_t newHeap = NULL;
+  SASStringBTreeSpillList *spill_lst = headerBlock->spillList;
 
-  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
+  page->spill = NULL;
+  if (spill_lst->count < spill_lst->max_count)
     {
-      SASStringBTreeHeader *heapHeader = (SASStringBTreeHeader *) heap;
-      if (lock_on) SASLock (heap, SasUserLock__WRITE);
-      if (SASStringBTreeIsExpanding (heapHeader))
-	{
-	  SASCompoundExpandList *list = heapHeader->expandList;
-	  SASStringBTreeHeader *lastHeader;
-	  SASStringBTreeHeader *expandHeader = NULL;
-	  block_size_t i;
-	  block_size_t last_lock = 0;
-	  lastHeader = list->heap[list->count - 1];
-	  if (lastHeader != heapHeader)
-	    if (lock_on) SASLock (lastHeader, SasUserLock__WRITE);
-
-	  if (SASStringBTreePercentUsed (lastHeader) >= DEFAULT_LOAD_FACTOR)
-	    {
-	      last_lock = list->count - 2;
-	      for (i = 0; i < list->count - 1; i++)
-		{
-		  SASStringBTreeHeader *expandBlock = list->heap[i];
-		  if (i > 0)
-		    if (lock_on) SASLock (expandBlock, SasUserLock__WRITE);
-		  if (SASStringBTreePercentUsed (expandBlock)
-		      < DEFAULT_LOAD_FACTOR)
-		    {
-		      expandHeader = expandBlock;
-		      last_lock = i;
-		      break;
-		    }
-		}
-	      if (expandHeader == NULL)
-		{
-		  expandHeader = (SASStringBTreeHeader *)
-		    SASStringBTreeExpandCreate (heap);
-		}
-	    }
-	  else
-	    {
-	      expandHeader = lastHeader;
-	    }
-	  if (expandHeader != NULL)
-	    newHeap = SASStringBTreeSpillInternal (expandHeader);
-
-	  if (lastHeader != expandHeader)
-	    {
-	      for (i = 1; i <= last_lock; i++)
-		{
-		  if (lock_on) SASUnlock (list->heap[i]);
-		}
-	    }
-	  if (lastHeader != heapHeader)
-	    if (lock_on) SASUnlock (lastHeader);
-	}
-      else
-	{
-	  newHeap = SASStringBTreeSpillInternal (heapHeader);
-	}
-      if (lock_on) SASUnlock (heap);
-#ifdef __SASDebugPrint__
+      spill_lst->spillHeap[spill_lst->count] = page;
+      spill_lst->count++;
     }
   else
     {
-      sas_printf ("SASStringBTreeSpillAllocExtended(%p) type check failed\n",
-		  heap);
-#endif
+      page->spill = spill_lst->spillHeap[0];
+      spill_lst->spillHeap[0] = page;
+    }
+}
+
+/* Keep a page that is no longer a node, but still holds keys, as one of the
+ * spill pages of its block.  */
+void
+SASStringBTreeSpillAdd (SASStringBTreeNode_t heap, lock_on_t lock_on)
+{
+  SASStringBTreeHeader *baseHeader = NULL;
+  SASStringBTreeHeader *compoundHeader =
+    SASStringBTreeFindBlock (heap, &baseHeader);
+
+  if (compoundHeader != NULL)
+    {
+      if (lock_on) SASLock (baseHeader, SasUserLock__WRITE);
+      SASStringBTreeSpillLink (compoundHeader, (SASStringBTreeNodeHeader *) heap);
+      if (lock_on) SASUnlock (baseHeader);
     }
-  return newHeap;
 }
 
 SASStringBTreeNode_t
 SASStringBTreeSpillAlloc (void *nearObj, lock_on_t lock_on)
 {
-  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-  SASStringBTreeHeader *compoundHeader = NULL;
   SASStringBTreeHeader *baseHeader = NULL;
+  SASStringBTreeHeader *compoundHeader =
+    SASStringBTreeFindBlock (nearObj, &baseHeader);
   SASStringBTreeNode_t newHeap = NULL;
-  SASStringBTreeSpillList *spill_lst;
 
-  if (nearHeader != NULL)
+  if (compoundHeader != NULL)
     {
-      if (SOMSASCheckBlockSig (nearHeader))
+      if (lock_on) SASLock (baseHeader, SasUserLock__WRITE);
+      newHeap = SASStringBTreeSpillInternal (compoundHeader);
+      if (newHeap == NULL)
 	{
-	  if ((nearHeader->baseBlock != nearHeader)
-	      && (nearHeader->baseBlock != NULL))
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader->baseBlock;
-	  else
-	    compoundHeader = (SASStringBTreeHeader *) nearHeader;
-
-	  if (lock_on) SASLock (compoundHeader, SasUserLock__WRITE);
-
-	  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) compoundHeader,
-					  SAS_RUNTIME_STRINGBTREE))
-	    {
-	      if (SASStringBTreeIsExpanding (compoundHeader))
-		{
-		  baseHeader = compoundHeader;
-		}
-	      else
-		{
-		  if ((compoundHeader->blockHeader.baseBlock
-		       != (SASBlockHeader *) compoundHeader)
-		      && (compoundHeader->blockHeader.baseBlock != NULL))
-		    baseHeader =
-		      (SASStringBTreeHeader *) compoundHeader->blockHeader.
-		      baseBlock;
-		  else
-		    baseHeader = compoundHeader;
-		}
-#if 0
-	      sas_printf ("SASStringBTreeSpillAlloc(%p) %p %p\n",
-			  nearObj, compoundHeader, baseHeader);
-#endif
-	      spill_lst = compoundHeader->spillList;
-	      if (lock_on) SASLock (spill_lst, SasUserLock__WRITE);
-	      if (spill_lst->count < spill_lst->max_count)
-		{
-		  if (SASStringBTreeAvail (compoundHeader))
-		    {
-		      newHeap = SASStringBTreeSpillInternal (compoundHeader);
-		    }
-		  else
-		    {
-		      newHeap =
-			SASStringBTreeSpillAllocExtended ((SASStringBTree_t)
-							  baseHeader, lock_on);
-		    }
-		  if (newHeap != NULL)
-		    {
-		      spill_lst->spillHeap[spill_lst->count] =
-			(SASStringBTreeNodeHeader *) newHeap;
-		      spill_lst->count++;
-		    }
-		}
-	      if (lock_on) SASUnlock (spill_lst);
-#ifdef __SASDebugPrint__
-	    }
-	  else
-	    {
-	      sas_printf
-		("SASStringBTreeSpillAlloc(%p)->%p type check failed\n",
-		 nearObj, compoundHeader);
-#endif
-	    }
-	  if (lock_on) SASUnlock (compoundHeader);
+	  SASStringBTreeHeader *expandHeader =
+	    SASStringBTreeSelectBlock (baseHeader);
+	  if (expandHeader != NULL)
+	    newHeap = SASStringBTreeSpillInternal (expandHeader);
 	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASStringBTreeSpillAlloc(%p) block check failed\n",
-		  nearObj);
-#endif
+      if (newHeap != NULL)
+	SASStringBTreeSpillLink (compoundHeader, (SASStringBTreeNodeHeader *) newHeap);
+      if (lock_on) SASUnlock (baseHeader);
     }
   return newHeap;
 }
@@ -942,69 +687,25 @@ void
 SASStringBTreeNearDeallocNoLock (void *nearObj)
 {
   SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-  SASStringBTree_t btreeHeader = NULL;
-  if (nearHeader != NULL)
-    {
-      if ((nearHeader->baseBlock != nearHeader)
-	  && (nearHeader->baseBlock != NULL))
-	btreeHeader = (SASStringBTree_t) nearHeader->baseBlock;
-      else
-	btreeHeader = (SASStringBTree_t) nearHeader;
+  SASStringBTreeHeader *baseHeader = NULL;
+  SASStringBTreeHeader *btreeHeader =
+    SASStringBTreeFindBlock (nearObj, &baseHeader);
 
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
-				      SAS_RUNTIME_STRINGBTREE))
-	{
-	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
-				      nearHeader);
-#ifdef __SASDebugPrint__
-	}
-      else
-	{
-	  sas_printf
-	    ("SASStringBTreeNearDeallocNoLock(%p) type check failed near=%p compound=%p\n",
-	     nearObj, nearHeader, btreeHeader);
-#endif
-	}
-    }
+  if ((btreeHeader != NULL)
+      && ((SASBlockHeader *) btreeHeader != nearHeader))
+    SASStringBTreeFreeInternal (btreeHeader, nearHeader);
 }
 
 void
 SASStringBTreeNearDealloc (void *nearObj)
 {
-  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-  SASStringBTree_t btreeHeader = NULL;
+  SASStringBTreeHeader *baseHeader = NULL;
 
-  if (nearHeader != NULL && SOMSASCheckBlockSig (nearHeader))
+  if (SASStringBTreeFindBlock (nearObj, &baseHeader) != NULL)
     {
-      if ((nearHeader->baseBlock != nearHeader)
-	  && (nearHeader->baseBlock != NULL))
-	btreeHeader = (SASStringBTree_t) nearHeader->baseBlock;
-      else
-	btreeHeader = (SASStringBTree_t) nearHeader;
-
-      if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) btreeHeader,
-				      SAS_RUNTIME_STRINGBTREE))
-	{
-	  SASLock (btreeHeader, SasUserLock__WRITE);
-	  SASStringBTreeFreeInternal ((SASStringBTreeHeader *) btreeHeader,
-				      nearHeader);
-	  SASUnlock (btreeHeader);
-#ifdef __SASDebugPrint__
-	}
-      else
-	{
-	  sas_printf
-	    ("SASStringBTreeNearDealloc(%p) type check failed near=%p compound=%p\n",
-	     nearObj, nearHeader, btreeHeader);
-#endif
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASStringBTreeNearDealloc(%p) block check failed\n",
-		  nearObj);
-#endif
+      SASLock (baseHeader, SasUserLock__WRITE);
+      SASStringBTreeNearDeallocNoLock (nearObj);
+      SASUnlock (baseHeader);
     }
 }
 
-- 
2.43.0


From 007712625b27ba104fd4e866a175817ff2e66134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 56/81] fix: a destroyed string tree leaves no page headers
 behind in the storage

---
 src/sasstringbtree.cpp | 49 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 911c06d..7a85f19 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -794,6 +794,25 @@ SASStringBTreeFreeSpace (SASStringBTree_t heap)
   return heapFree;
 }
 
+/* Clear the headers of the pages of a block that is going to be released:
+ * SASFindHeader must not find them in what gets the storage next.  */
+static void
+SASStringBTreeClearPages (SASStringBTreeHeader * headerBlock)
+{
+  block_size_t heapSize = headerBlock->blockHeader.blockSize;
+  block_size_t pageSize = headerBlock->pageSize;
+  block_size_t offset;
+
+  for (offset = default_page; offset + pageSize <= heapSize;
+       offset += pageSize)
+    {
+      SASBlockHeader *page =
+	(SASBlockHeader *) ((char *) headerBlock + offset);
+      if (SOMSASCheckBlockSig (page))
+	memset (page, 0, sizeof (SASBlockHeader));
+    }
+}
+
 void
 SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
 {
@@ -810,11 +829,13 @@ SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
 	{
 	  for (i = 1; i < list->count; i++)
 	    {
+	      SASStringBTreeClearPages (list->heap[i]);
 	      SASBlockDealloc (list->heap[i], heapSize);
 	      list->heap[i] = NULL;
 	    }
 	  list->max_count = 1;
 	}
+      SASStringBTreeClearPages (headerBlock);
       SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
     }
@@ -829,34 +850,12 @@ SASStringBTreeDestroyNoLock (SASStringBTree_t heap)
 void
 SASStringBTreeDestroy (SASStringBTree_t heap)
 {
-  SASStringBTreeHeader *headerBlock = (SASStringBTreeHeader *) heap;
-  block_size_t heapSize;
+  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
 
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_STRINGBTREE))
+  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      SASCompoundExpandList *list = headerBlock->expandList;
-      block_size_t i;
-      heapSize = headerBlock->blockHeader.blockSize;
-      if (list != NULL)
-	{
-	  for (i = 1; i < list->count; i++)
-	    {
-	      SASLock (list->heap[i], SasUserLock__WRITE);
-	    }
-	  for (i = 1; i < list->count; i++)
-	    {
-	      SASBlockDealloc (list->heap[i], heapSize);
-	    }
-	  for (i = 1; i < list->count; i++)
-	    {
-	      SASUnlock (list->heap[i]);
-	      list->heap[i] = NULL;
-	    }
-	  list->max_count = 1;
-	}
-      SASBlockDealloc (headerBlock, heapSize);
+      SASStringBTreeDestroyNoLock (heap);
       SASUnlock (heap);
 #ifdef __SASDebugPrint__
     }
-- 
2.43.0


From 015bdcbfe99cb25abf096ef11eb8897ef9b81adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 57/81] fix: string tree keys stay reachable when nodes split,
 combine, run out of room or are released

---
 src/sasstringbtree.cpp       | 320 +++++------------------
 src/sasstringbtreenode.cpp   | 491 ++++++++++++++---------------------
 src/sasstringbtreenodepriv.h |   3 +
 src/sasstringbtreepriv.h     |   5 +-
 4 files changed, 264 insertions(+), 555 deletions(-)

diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 7a85f19..015ab89 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -1120,187 +1120,93 @@ SASStringBTreeGetCurCount (SASStringBTree_t heap)
   return result;
 }
 
+/* The smallest and the largest key are those of the leftmost and the
+ * rightmost leaf.  */
 static inline void
-SASStringBTreeHeaderDealloc (SASStringBTree_t heap,
-			     void *memAddr, block_size_t size)
+SASStringBTreeUpdateMinMax (SASStringBTreeHeader * btree)
 {
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-
-  freeNode_deallocSpace (((freeNode *) memAddr), &btree->headerFreeSpace,
-			 size);
-}
-
-static inline void *
-SASStringBTreeHeaderAlloc (SASStringBTree_t heap, block_size_t size)
-{
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  void *result = NULL;
-
-  if (btree->headerFreeSpace)
-    {
-      result =
-	freeNode_allocSpace (btree->headerFreeSpace, &btree->headerFreeSpace,
-			     size);
-    }
-  return result;
-}
+  SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) btree->root;
 
-static inline void
-SASStringBTreeUpdateMax (SASStringBTree_t heap, const char *key)
-{
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  char *oldkey = btree->common->max_key;
-  char *tempkey;
-  int key_len;
-
-  if (key != NULL)
-    {
-      key_len = strlen (key) + 1;
-      tempkey = (char *) SASStringBTreeHeaderAlloc (heap, key_len);
-      btree->common->max_key = strcpy (tempkey, key);
-    }
-  else
+  btree->common->min_key = NULL;
+  btree->common->max_key = NULL;
+  if (node != NULL)
     {
-      btree->common->max_key = NULL;
-    }
+      while (node->branch[0] != NULL)
+	node = node->branch[0];
+      btree->common->min_key = node->keys[1];
 
-  if (oldkey != NULL)
-    {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+      node = (SASStringBTreeNodeHeader *) btree->root;
+      while (node->branch[node->count] != NULL)
+	node = node->branch[node->count];
+      btree->common->max_key = node->keys[node->count];
     }
 }
 
-static inline void
-SASStringBTreeUpdateMin (SASStringBTree_t heap, const char *key)
-{
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  char *oldkey = btree->common->min_key;
-  char *tempkey;
-  int key_len;
 
-  if (key != NULL)
-    {
-      key_len = strlen (key) + 1;
-      tempkey = (char *) SASStringBTreeHeaderAlloc (heap, key_len);
-      btree->common->min_key = strcpy (tempkey, key);
-    }
-  else
-    {
-      btree->common->min_key = NULL;
-    }
+int
+SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
+{
+  int result = false;
 
-  if (oldkey != NULL)
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_STRINGBTREE))
     {
-      key_len = strlen (oldkey) + 1;
-      SASStringBTreeHeaderDealloc (heap, oldkey, key_len);
+      SASLock (heap, SasUserLock__WRITE);
+      result = SASStringBTreePut_nolock (heap, key, value);
+      SASUnlock (heap);
     }
+  return result;		/* False indicates duplicate key or no space */
 }
 
 int
-SASStringBTreePut (SASStringBTree_t heap, const char *key, void *value)
+SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
 {
   SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
+  SASStringBTreeNode_t node;
   int result = false;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
-      SASLock (heap, SasUserLock__WRITE);
-
       if (btree->root != NULL)
 	{
-	  SASStringBTreeNode_t node;
 	  node = SASStringBTreeNodeInsert (btree->root, key, value, LOCK_OFF);
+	}
+      else
+	{
+	  node = SASStringBTreeAllocNoLock (heap);
 	  if (node != NULL)
 	    {
-	      btree->root = node;
-	      btree->common->modCount++;
-	      if (strcmp (key, btree->common->min_key) < 0)
-		SASStringBTreeUpdateMin (heap, key);
-	      if (strcmp (key, btree->common->max_key) > 0)
-		SASStringBTreeUpdateMax (heap, key);
-	      result = true;
+	      SASStringBTreeNodeInitialize (node, key, value, LOCK_OFF);
+	      if (SASStringBTreeNodeGetCount (node) == 0)
+		{
+		  SASStringBTreeNodeRelease (node, LOCK_OFF);
+		  node = NULL;
+		}
 	    }
 	}
-      else
+      if (node != NULL)
 	{
-	  btree->root = SASStringBTreeAlloc (heap);
-	  SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-	  SASStringBTreeUpdateMin (heap, key);
-	  SASStringBTreeUpdateMax (heap, key);
+	  btree->root = node;
 	  btree->common->modCount++;
+	  btree->common->count++;
+	  SASStringBTreeUpdateMinMax (btree);
 	  result = true;
-	};
-      btree->common->count++;
-      SASUnlock (heap);
+	}
     }
-  return result;		/* False indicates duplicate key */
-}
-
-int
-SASStringBTreePut_nolock (SASStringBTree_t heap, const char *key, void *value)
-{
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  int result = false;
-
-  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
-                                  SAS_RUNTIME_STRINGBTREE))
-    {
-      if (btree->root != NULL)
-        {
-          SASStringBTreeNode_t node;
-          node = SASStringBTreeNodeInsert (btree->root, key, value, LOCK_OFF);
-          if (node != NULL)
-            {
-              btree->root = node;
-              btree->common->modCount++;
-              if (strcmp (key, btree->common->min_key) < 0)
-                SASStringBTreeUpdateMin (heap, key);
-              if (strcmp (key, btree->common->max_key) > 0)
-                SASStringBTreeUpdateMax (heap, key);
-              result = true;
-            }
-        }
-      else
-        {
-          btree->root = SASStringBTreeAllocNoLock (heap);
-          SASStringBTreeNodeInitialize (btree->root, key, value, LOCK_OFF);
-          SASStringBTreeUpdateMin (heap, key);
-          SASStringBTreeUpdateMax (heap, key);
-          btree->common->modCount++;
-          result = true;
-        };
-      btree->common->count++;
-    }
-  return result;                /* False indicates duplicate key */
+  return result;		/* False indicates duplicate key or no space */
 }
 
 void *
 SASStringBTreeReplace (SASStringBTree_t heap, const char *key, void *value)
 {
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  SBTnodePosRef ref = { NULL, 0 };
   void *result = NULL;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      btree->common->modCount++;
-
-      if (btree->root != NULL)
-	{
-	  int found;
-	  found = SASStringBTreeNodeSearch (btree->root, key, &ref);
-	  //found = getNode(key, &ref);
-	  if (found)
-	    {
-	      result =
-		SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
-	    }
-	}
-      btree->common->count++;
+      result = SASStringBTreeReplace_nolock (heap, key, value);
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1314,89 +1220,30 @@ SASStringBTreeReplace_nolock (SASStringBTree_t heap, const char *key, void *valu
   void *result = NULL;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
-                                  SAS_RUNTIME_STRINGBTREE))
+				  SAS_RUNTIME_STRINGBTREE))
     {
       btree->common->modCount++;
 
-      if (btree->root != NULL)
-        {
-          int found;
-          found = SASStringBTreeNodeSearch (btree->root, key, &ref);
-	  //found = getNode(key, &ref);
-          if (found)
-            {
-              result =
-                SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
-            }
-        }
-      btree->common->count++;
+      if ((btree->root != NULL)
+	  && SASStringBTreeNodeSearch (btree->root, key, &ref))
+	{
+	  result =
+	    SASStringBTreeNodePutValIndexed (ref.node, ref.pos, value);
+	}
     }
-  return result;                // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 void *
 SASStringBTreeRemove (SASStringBTree_t heap, const char *key)
 {
-  SASStringBTreeHeader *btree = (SASStringBTreeHeader *) heap;
-  SASStringBTreeNode_t newRoot;
-  SBTnodePosRef ref = { NULL, 0 };
   void *result = NULL;
-  SASStringBTreeNodeHeader *node;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
 				  SAS_RUNTIME_STRINGBTREE))
     {
       SASLock (heap, SasUserLock__WRITE);
-      btree->common->modCount++;
-
-      if (btree->root != NULL)
-	{
-	  int found;
-	  found = SASStringBTreeNodeSearch (btree->root, key, &ref);
-	  //found = getNode(key, &ref);
-	  if (found)
-	    {
-	      result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-	    }
-
-	  newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-	  if (newRoot != btree->root)
-	    {			//Delete the old root which is empty
-	      SASStringBTreeNearDealloc (btree->root);
-	      btree->root = newRoot;
-	    }
-	  if (btree->root != NULL)
-	    {
-	      btree->common->count--;
-              if (btree->common->count > 0)
-                {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
-                    }
-                }
-	    }
-	  else
-	    {
-	      btree->common->count = 0;
-	      SASStringBTreeUpdateMax (heap, NULL);
-	      SASStringBTreeUpdateMin (heap, NULL);
-	    }
-	}
-      else
-	{
-	  btree->common->count = 0;
-	}
+      result = SASStringBTreeRemove_nolock (heap, key);
       SASUnlock (heap);
     }
   return result;		// return prev value if already exist
@@ -1409,63 +1256,28 @@ SASStringBTreeRemove_nolock (SASStringBTree_t heap, const char *key)
   SASStringBTreeNode_t newRoot;
   SBTnodePosRef ref = { NULL, 0 };
   void *result = NULL;
-  SASStringBTreeNodeHeader *node;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
-                                  SAS_RUNTIME_STRINGBTREE))
+				  SAS_RUNTIME_STRINGBTREE))
     {
       btree->common->modCount++;
 
-      if (btree->root != NULL)
-        {
-          int found;
-          found = SASStringBTreeNodeSearch (btree->root, key, &ref);
-	  //found = getNode(key, &ref);
-          if (found)
-            {
-              result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
-            }
+      if ((btree->root != NULL)
+	  && SASStringBTreeNodeSearch (btree->root, key, &ref))
+	{
+	  result = SASStringBTreeNodeGetValIndexed (ref.node, ref.pos);
 
-          newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
-          if (newRoot != btree->root)
+	  newRoot = SASStringBTreeNodeDelete (btree->root, key, LOCK_OFF);
+	  if (newRoot != btree->root)
 	    {			//Delete the old root which is empty
-              SASStringBTreeNearDeallocNoLock (btree->root);
-              btree->root = newRoot;
-            }
-          if (btree->root != NULL)
-            {
-              btree->common->count--;
-              if (btree->common->count > 0)
-                {
-                  if(strcmp(key, btree->common->min_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[0] != NULL)
-                          node = node->branch[0];
-                       SASStringBTreeUpdateMin(heap, node->keys[1]);
-                    }
-                  if(strcmp(key, btree->common->max_key) == 0)
-                    {
-                       node = (SASStringBTreeNodeHeader *) btree->root;
-                       if (node->branch[node->count] != NULL)
-                          node = node->branch[node->count];
-                       SASStringBTreeUpdateMax(heap, node->keys[(node->count)]);
-                    }
-                }
-            }
-          else
-            {
-              btree->common->count = 0;
-              SASStringBTreeUpdateMax (heap, NULL);
-              SASStringBTreeUpdateMin (heap, NULL);
-            }
-        }
-      else
-        {
-          btree->common->count = 0;
-        }
+	      SASStringBTreeNodeRelease (btree->root, LOCK_OFF);
+	      btree->root = newRoot;
+	    }
+	  btree->common->count--;
+	  SASStringBTreeUpdateMinMax (btree);
+	}
     }
-  return result;                // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 
diff --git a/src/sasstringbtreenode.cpp b/src/sasstringbtreenode.cpp
index 638e827..0e2c2b5 100644
--- a/src/sasstringbtreenode.cpp
+++ b/src/sasstringbtreenode.cpp
@@ -77,6 +77,7 @@ struct __SBTnodeKeyRef
   char *key;
   void *val;
   int dupKey;
+  SASStringBTreeNode_t pages;
 };
 
 SASStringBTreeNode_t
@@ -357,87 +358,73 @@ SASStringBTreeNodeNearDealloc (SASStringBTreeNode_t heap, const void *free_block
 void *
 SASStringBTreeNodeNearAlloc (void *nearObj, long allocSize, lock_on_t lock_on)
 {
+  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
   void *result;
+
   result = SASNearAlloc (nearObj, allocSize);
-  if (result == NULL)
-    {
-      SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-      SASStringBTreeHeader *compoundHeader = NULL;
-      SASStringBTreeSpillList *spill_lst = NULL;
-      SASStringBTreeNode_t newHeap;
+  if ((result == NULL) && (nearHeader != NULL)
+      && SOMSASCheckBlockSig (nearHeader)
+      && (nearHeader->baseBlock != nearHeader)
+      && (nearHeader->baseBlock != NULL)
+      && (allocSize < (long) (nearHeader->blockSize - heap_offset)))
+    {
+      SASStringBTreeHeader *compoundHeader =
+	(SASStringBTreeHeader *) nearHeader->baseBlock;
+      SASStringBTreeSpillList *spill_lst = SASStringBTreeGetSpill (compoundHeader);
+      SASStringBTreeNodeHeader *spill;
+
+      if (lock_on) SASLock (compoundHeader, SasUserLock__WRITE);
+      for (int i = 0; (i < spill_lst->count) && (result == NULL); i++)
+	{
+	  for (spill = spill_lst->spillHeap[i];
+	       (spill != NULL) && (result == NULL); spill = spill->spill)
+	    result = SASStringBTreeNodeAllocNoLock (spill, allocSize);
+	}
 
-#if __SASDebugPrint__ > 1
-      sas_printf ("NearAlloc@%p, size=%d far lock_on=%d\n", newHeap, allocSize, lock_on);
-#endif
-      newHeap = SASStringBTreeNodeVerify ((SASStringBTreeNode_t) nearHeader);
-#ifdef __SASDebugPrint__
-      sas_printf ("SASStringBTreeNodeNearAlloc(%p, %zu, %d) failed\n",
-		  newHeap, allocSize, lock_on);
-      sas_printf (" freespace=%zu,  fragments=%zu,  max_free_block=%zu\n",
-		  SASStringBTreeNodeFreeSpaceNoLock (newHeap),
-		  SASStringBTreeNodeFreeFragmentsNoLock (newHeap),
-		  SASStringBTreeNodeMaxFragmentNoLock (newHeap));
-#endif
-      if (nearHeader != NULL)
+      if (result == NULL)
 	{
-	  if (SOMSASCheckBlockSig (nearHeader))
+	  SASStringBTreeNode_t newHeap = SASStringBTreeSpillAlloc (nearObj, lock_on);
+	  if (newHeap != NULL)
 	    {
-	      if ((nearHeader->baseBlock != nearHeader)
-		  && (nearHeader->baseBlock != NULL))
-		{
-		  compoundHeader =
-		    (SASStringBTreeHeader *) nearHeader->baseBlock;
-		}
-	      spill_lst = SASStringBTreeGetSpill (compoundHeader);
-	      if (lock_on) SASLock (spill_lst, SasUserLock__WRITE);
-	      if (spill_lst->count == 0)
-		{
-		  newHeap = SASStringBTreeSpillAlloc (nearObj, lock_on);
-		  if (newHeap != NULL)
-		    {
-		      result =
-			SASStringBTreeNodeAllocNoLock (newHeap, allocSize);
+	      result = SASStringBTreeNodeAllocNoLock (newHeap, allocSize);
 #ifdef __SASDebugPrint__
-		      sas_printf
-			("SASStringBTreeNodeNearAlloc(%p, %ld, %d) added spill area@%p\n",
-			 nearObj, allocSize, lock_on, newHeap);
-#endif
-		    }
-		}
-
-	      if (result == NULL)
-		{
-		  for (int i = 0; i < spill_lst->count; i++)
-		    {
-		      newHeap =
-			(SASStringBTreeNode_t) spill_lst->spillHeap[i];
-		      result = SASStringBTreeNodeAlloc (newHeap, allocSize, lock_on);
-		      if (result != NULL)
-			break;
-		    }
-		}
-
-	      if (result == NULL)
-		{
-		  newHeap = SASStringBTreeSpillAlloc (nearObj, lock_on);
-		  if (newHeap != NULL)
-		    {
-		      result =
-			SASStringBTreeNodeAllocNoLock (newHeap, allocSize);
-#ifdef __SASDebugPrint__
-		      sas_printf
-			("SASStringBTreeNodeNearAlloc(%p, %ld, %d) added spill area@%p\n",
-			 nearObj, allocSize, lock_on, newHeap);
+	      sas_printf
+		("SASStringBTreeNodeNearAlloc(%p, %ld, %d) added spill area@%p\n",
+		 nearObj, allocSize, lock_on, newHeap);
 #endif
-		    }
-		}
-	      if (lock_on) SASUnlock (spill_lst);
 	    }
 	}
+      if (lock_on) SASUnlock (compoundHeader);
     }
   return result;
 }
 
+/* Give back the page of a node that is no longer used. Keys of other nodes
+ * may have been left in it, then it remains as a spill page.  */
+void
+SASStringBTreeNodeRelease (SASStringBTreeNode_t heap, lock_on_t lock_on)
+{
+  SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) heap;
+  block_size_t tableSize = sizeof (void *) * (node->max_count + 1);
+
+  SASStringBTreeNodeFreeNoLock (heap, node->keys, tableSize);
+  SASStringBTreeNodeFreeNoLock (heap, node->branch, tableSize);
+  SASStringBTreeNodeFreeNoLock (heap, node->vals, tableSize);
+  node->keys = NULL;
+  node->branch = NULL;
+  node->vals = NULL;
+  node->count = 0;
+  node->max_count = 0;
+
+  if (SASStringBTreeNodeFreeSpaceNoLock (heap)
+      < node->blockHeader.blockSize - heap_offset)
+    SASStringBTreeSpillAdd (heap, lock_on);
+  else if (lock_on == LOCK_ON)
+    SASStringBTreeNearDealloc (heap);
+  else
+    SASStringBTreeNearDeallocNoLock (heap);
+}
+
 /*
 void SASStringBTreeNodeNearDealloc(void *memAddr, long allocSize)
 {							
@@ -1215,53 +1202,36 @@ SASStringBTreeNodeSearchLE (SASStringBTreeNode_t header,
   return result;
 }
 
-static inline void
-SASStringBTreeNodeKeyMove (SASStringBTreeNode_t heap, short pos, const char *key,
-				lock_on_t lock_on)
+/* Make key the key at pos. The key is kept in the node's own page if there
+ * is room. Otherwise it goes to a spill page, or stays where it is.  */
+static void
+SASStringBTreeNodeKeyPlace (SASStringBTreeNode_t heap, short pos, char *key,
+			     lock_on_t lock_on)
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) heap;
-  const char *oldkey = node->keys[pos];
-  char *tempkey;
-  int key_len = strlen (key) + 1;
-
-  tempkey = (char *) SASStringBTreeNodeNearAlloc (heap, key_len, lock_on);
-  node->keys[pos] = strcpy (tempkey, key);
+  unsigned long low = (unsigned long) node;
+  unsigned long high = low + node->blockHeader.blockSize;
 
-  if (oldkey != NULL)
+  node->keys[pos] = key;
+  if (((unsigned long) key < low) || ((unsigned long) key >= high))
     {
-      int keylen = strlen (oldkey) + 1;
-      SASStringBTreeNodeNearDealloc (heap, oldkey, keylen, lock_on);
-      node->keys[pos] = NULL;
-    }
+      block_size_t key_len = strlen (key) + 1;
+      char *nearkey =
+	(char *) SASStringBTreeNodeAllocNoLock (heap, key_len);
 
-  if (key != NULL)
-    {
-      if ((unsigned long) key >= getfastMemLow ())
+      if ((nearkey == NULL)
+	  && !SASStringBTreeNodeIsSpill (SASFindHeader (key)))
+	nearkey =
+	  (char *) SASStringBTreeNodeNearAlloc (heap, key_len, lock_on);
+      if (nearkey != NULL)
 	{
-	  if ((unsigned long) key <= getfastMemHigh ())
-	    SASStringBTreeNodeNearDealloc (heap, key, key_len, lock_on);
+	  strcpy (nearkey, key);
+	  node->keys[pos] = nearkey;
+	  SASStringBTreeNodeNearDealloc (heap, key, key_len, lock_on);
 	}
     }
 }
 
-static inline void
-SASStringBTreeNodeKeyCopy (SASStringBTreeNode_t heap, short pos, const char *key,
-				lock_on_t lock_on)
-{
-  SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) heap;
-  const char *oldkey = node->keys[pos];
-  char *tempkey;
-  int key_len = strlen (key) + 1;
-
-  tempkey = (char *) SASStringBTreeNodeNearAlloc (heap, key_len, lock_on);
-  node->keys[pos] = strcpy (tempkey, key);
-
-  if (oldkey != NULL)
-    {
-      int keylen = strlen (oldkey) + 1;
-      SASStringBTreeNodeNearDealloc (heap, oldkey, keylen, lock_on);
-    }
-}
 
 static inline void
 SASStringBTreeNodeKeyDelete (SASStringBTreeNode_t heap, short pos,
@@ -1277,64 +1247,94 @@ SASStringBTreeNodeKeyDelete (SASStringBTreeNode_t heap, short pos,
     }
 }
 
-static inline void
-SASStringBTreeNodeKeyReplace (SASStringBTreeNode_t heap, short pos, const char *key,
-				lock_on_t lock_on)
-{
-  SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) heap;
-  char *tempkey;
-  int key_len = strlen (key) + 1;
-
-  tempkey = (char *) SASStringBTreeNodeNearAlloc (heap, key_len, lock_on);
-  node->keys[pos] = strcpy (tempkey, key);
-}
-
 static void
 SASStringBTreeNodePushIn (SASStringBTreeNode_t node_t,
 			  __SBTnodeKeyRef * ref, short k, lock_on_t lock_on)
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
-  char *str_ptr;
-  char *end_ptr;
-  char *temp_key;
-  size_t key_len, max_frag;
   short i;
 #ifdef __SASDebugPrint__
   sas_printf ("PushIn@%p ref->key=%p k=%hd lock_on=%d\n", node, ref->key, k, lock_on);
 #endif
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
   for (i = node->count; i >= (k + 1); i--)
     {
-      node->keys[i + 1] = node->keys[i];
+      SASStringBTreeNodeKeyPlace (node_t, (i + 1), node->keys[i], lock_on);
       node->vals[i + 1] = node->vals[i];
       node->branch[i + 1] = node->branch[i];
-      temp_key = node->keys[i + 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = strlen (temp_key) + 1;
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("PushIn@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i + 1), temp_key, key_len);
-#endif
-	      SASStringBTreeNodeKeyCopy ((SASStringBTreeNode_t) node,
-					 (i + 1), temp_key, lock_on);
-	      max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
 
-  SASStringBTreeNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  SASStringBTreeNodeKeyPlace (node_t, (k + 1), ref->key, lock_on);
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASStringBTreeNodeHeader *) ref->node;
   node->count++;
 }
 
+/* Take one of the pages set aside for this insert.  */
+static SASStringBTreeNodeHeader *
+SASStringBTreeNodeTakePage (__SBTnodeKeyRef * ref)
+{
+  SASStringBTreeNodeHeader *page = (SASStringBTreeNodeHeader *) ref->pages;
+
+  ref->pages = page->spill;
+  page->spill = NULL;
+  return page;
+}
+
+/* Get all that the insert of newkey needs before anything is changed: a copy
+ * of the key near the leaf it goes to, and a page for every full node that
+ * will be split and for a new root.  */
+static int
+SASStringBTreeNodeReserve (SASStringBTreeNode_t node_t,
+			    const char *newkey, void *newval,
+			    __SBTnodeKeyRef * ref, lock_on_t lock_on)
+{
+  SASStringBTreeNodeHeader *node;
+  SASStringBTreeNodeHeader *next = (SASStringBTreeNodeHeader *) node_t;
+  block_size_t key_len = strlen (newkey) + 1;
+  short count = 1;
+  short pos;
+
+  do
+    {
+      node = next;
+      pos = SASStringBTreeNodeSearchNode (node, newkey);
+      if (pos >= 0)
+	{
+	  ref->dupKey = true;
+	  return false;
+	}
+      count = (node->count < node->max_count) ? 0 : (short) (count + 1);
+      next = node->branch[pos + 256];
+    }
+  while (next != NULL);
+
+  ref->key = (char *) SASStringBTreeNodeNearAlloc (node, key_len, lock_on);
+  if (ref->key == NULL)
+    return false;
+  strcpy (ref->key, newkey);
+  ref->val = newval;
+  ref->node = NULL;
+
+  for (; count > 0; count--)
+    {
+      SASStringBTreeNodeHeader *page;
+      if (lock_on == LOCK_ON)
+	page = (SASStringBTreeNodeHeader *) SASStringBTreeNearAlloc (node);
+      else
+	page = (SASStringBTreeNodeHeader *) SASStringBTreeNearAllocNoLock (node);
+      if (page == NULL)
+	{
+	  while (ref->pages != NULL)
+	    SASStringBTreeNodeRelease (SASStringBTreeNodeTakePage (ref), lock_on);
+	  SASStringBTreeNodeNearDealloc (node, ref->key, key_len, lock_on);
+	  return false;
+	}
+      page->spill = (SASStringBTreeNodeHeader *) ref->pages;
+      ref->pages = page;
+    }
+  return true;
+}
+
 static void
 SASStringBTreeNodeSplit (SASStringBTreeNode_t node_t,
 			 __SBTnodeKeyRef * xref,
@@ -1348,10 +1348,6 @@ SASStringBTreeNodeSplit (SASStringBTreeNode_t node_t,
   SASStringBTreeNodeHeader **thisBranch = node->branch;
   void **thisVals = node->vals;
   SASStringBTreeNodeHeader *yr;	// temp in case xref & yref are same
-  char *str_ptr;
-  char *end_ptr;
-  char *temp_key;
-  size_t key_len, max_frag;
 
   if (k <= min)
     {
@@ -1365,10 +1361,7 @@ SASStringBTreeNodeSplit (SASStringBTreeNode_t node_t,
   sas_printf ("Split@%p x=%s k=%hd median=%hd lock_on=%d\n", node, xref->key, k, median, lock_on);
 #endif
 
-  if (lock_on == LOCK_ON)
-    yr = (SASStringBTreeNodeHeader *) SASStringBTreeNearAlloc (node_t);
-  else
-    yr = (SASStringBTreeNodeHeader *) SASStringBTreeNearAllocNoLock (node_t);
+  yr = SASStringBTreeNodeTakePage (xref);
 
   SASStringBTreeNodeHeader **yrBranch = yr->branch;
   void **yrVals = yr->vals;
@@ -1376,7 +1369,7 @@ SASStringBTreeNodeSplit (SASStringBTreeNode_t node_t,
   for (i = (short) (median + 1); i <= node->max_count; i++)
     {
 
-      SASStringBTreeNodeKeyMove (yr, (i - median), thisKeys[i], lock_on);
+      SASStringBTreeNodeKeyPlace (yr, (i - median), thisKeys[i], lock_on);
       yrVals[i - median] = thisVals[i];
       yrBranch[i - median] = thisBranch[i];
     }
@@ -1406,28 +1399,10 @@ SASStringBTreeNodeSplit (SASStringBTreeNode_t node_t,
       thisBranch[i] = NULL;
     }
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-  for (i = 1; i <= (node->count); i++)
+  // keys may fit into the page now
+  for (i = 1; i <= node->count; i++)
     {
-      temp_key = node->keys[i];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = strlen (temp_key) + 1;
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("Split@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i + 1), temp_key, key_len);
-#endif
-	      SASStringBTreeNodeKeyCopy ((SASStringBTreeNode_t) node,
-					 i, temp_key, lock_on);
-	      max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-	    }
-	}
+      SASStringBTreeNodeKeyPlace (node_t, i, thisKeys[i], lock_on);
     }
 }
 
@@ -1477,9 +1452,6 @@ SASStringBTreeNodePushDown (SASStringBTreeNode_t node_t,
   else
     {
       pushup = true;
-      ref->key = (char *)newkey;
-      ref->val = newval;
-      ref->node = NULL;
     }
 
 #ifdef __SASDebugPrint__
@@ -1510,16 +1482,23 @@ SASStringBTreeNodeInitialize (SASStringBTreeNode_t node_t,
 				lock_on_t lock_on)
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
+  block_size_t key_len = strlen (newkey) + 1;
+  char *key;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Initialize@%p newkey=%s, newval=%p lock_on=%d\n",
 		node, newkey, newval, lock_on);
 #endif
-  node->count = 1;
-  SASStringBTreeNodeKeyCopy (node, 1, newkey, lock_on);
-  node->vals[1] = newval;
-  node->branch[1] = NULL;
-  node->branch[0] = NULL;
+  key = (char *) SASStringBTreeNodeNearAlloc (node_t, key_len, lock_on);
+  if (key != NULL)
+    {
+      strcpy (key, newkey);
+      node->count = 1;
+      node->keys[1] = key;
+      node->vals[1] = newval;
+      node->branch[1] = NULL;
+      node->branch[0] = NULL;
+    }
 }
 
 SASStringBTreeNode_t
@@ -1528,32 +1507,26 @@ SASStringBTreeNodeInsert (SASStringBTreeNode_t node_t,
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
   int pushup;
-  __SBTnodeKeyRef xref = { NULL, NULL, NULL, false };
+  __SBTnodeKeyRef xref = { NULL, NULL, NULL, false, NULL };
   SASStringBTreeNode_t result = node_t;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Insert@%p newkey=%s lock_on=%d\n", node, newkey, lock_on);
 #endif
+  if (!SASStringBTreeNodeReserve (node_t, newkey, newval, &xref, lock_on))
+    return NULL;		/* we have a dup key error, or no space */
+
   pushup = SASStringBTreeNodePushDown (node_t, newkey, newval, &xref, lock_on);
   if (pushup)
     {
-      SASStringBTreeNodeHeader *new_node;
-      if (lock_on == LOCK_ON)
-        result = SASStringBTreeNearAlloc (node_t);
-      else
-        result = SASStringBTreeNearAllocNoLock (node_t);
-      new_node = (SASStringBTreeNodeHeader *) result;
+      SASStringBTreeNodeHeader *new_node = SASStringBTreeNodeTakePage (&xref);
+      result = new_node;
       new_node->count = 1;
-      SASStringBTreeNodeKeyMove (new_node, 1, xref.key, lock_on);
+      SASStringBTreeNodeKeyPlace (new_node, 1, xref.key, lock_on);
       new_node->vals[1] = xref.val;
       new_node->branch[1] = (SASStringBTreeNodeHeader *) xref.node;
       new_node->branch[0] = node;
     }
-  else
-    {
-      if (xref.dupKey)
-	result = NULL;		/* we have a dup key error */
-    }
 
   return result;
 }
@@ -1565,48 +1538,20 @@ SASStringBTreeNodeRemove (SASStringBTreeNode_t node_t, short pos,
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
   SASStringBTreeNodeHeader *q;
-  char *str_ptr;
-  char *end_ptr;
-  char *temp_key;
-  size_t key_len, max_frag;
   short i;
 
   q = ((SASStringBTreeNodeHeader *) node->branch[pos]);
 #ifdef __SASDebugPrint__
-  sas_printf ("Remove@%p key[%hd]=%s branch=%p lock_on=%d\n",
-	      node_t, pos, node->keys[pos], q, lock_on);
+  sas_printf ("Remove@%p key[%hd] branch=%p lock_on=%d\n",
+	      node_t, pos, q, lock_on);
 #endif
   SASStringBTreeNodeKeyDelete (node_t, pos, lock_on);
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
   for (i = (short) (pos + 1); i <= node->count; i++)
     {
-      node->keys[i - 1] = node->keys[i];
+      SASStringBTreeNodeKeyPlace (node_t, (i - 1), node->keys[i], lock_on);
       node->vals[i - 1] = node->vals[i];
       node->branch[i - 1] = node->branch[i];
-#if  __SASDebugPrint__ > 1
-      sas_printf ("Remove copy key[%hd]=%s to %d\n", i, node->keys[i],
-		  (i - 1));
-#endif
-      temp_key = node->keys[i - 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = strlen (temp_key) + 1;
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("Remove@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i - 1), temp_key, key_len);
-#endif
-	      SASStringBTreeNodeKeyCopy ((SASStringBTreeNode_t) node,
-					 (i - 1), temp_key, lock_on);
-	      max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
   node->keys[node->count] = NULL;
   node->vals[node->count] = NULL;
@@ -1621,7 +1566,7 @@ SASStringBTreeNodeRemove (SASStringBTreeNode_t node_t, short pos,
 #ifdef __SASDebugPrint__
       sas_printf ("Remove: delete branch for pos=%hd @%p\n", pos, q);
 #endif
-      SASStringBTreeNearDealloc (q);
+      SASStringBTreeNodeRelease (q, lock_on);
     }
 #if __SASDebugPrint__ > 1
   sas_printf ("Remove: subtree=");
@@ -1645,36 +1590,28 @@ SASStringBTreeNodeCombine (SASStringBTreeNode_t node_t, short pos,
   q = ((SASStringBTreeNodeHeader *) node->branch[pos]);
   r = ((SASStringBTreeNodeHeader *) node->branch[pos - 1]);
   r->count++;
-  //r->keys[r->count] = node->keys[pos];
-  SASStringBTreeNodeKeyMove (r, r->count, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;	// Move frees the key string in node
+  SASStringBTreeNodeKeyPlace (r, r->count, node->keys[pos], lock_on);
+  node->keys[pos] = NULL;	// the key now belongs to r
   r->vals[r->count] = node->vals[pos];
   r->branch[r->count] = q->branch[0];
   q->branch[0] = NULL;
 
-#ifdef __SASDebugPrint__
-  sas_printf ("Combine move=%s\n", node->keys[pos]);
-#endif
   for (c = 1; c <= q->count; c++)
     {
       r->count++;
-      // r->keys[r->count] = q->keys[c];
-      SASStringBTreeNodeKeyMove (r, r->count, q->keys[c], lock_on);
+      SASStringBTreeNodeKeyPlace (r, r->count, q->keys[c], lock_on);
       q->keys[c] = NULL;
       r->vals[r->count] = q->vals[c];
       q->vals[c] = NULL;
       r->branch[r->count] = q->branch[c];
       q->branch[c] = NULL;
-#if __SASDebugPrint__ > 1
-      sas_printf ("Combine copy=%s\n", r->keys[r->count]);
-#endif
     }
 // remove pivot, since it hase been combined
   node->branch[pos] = NULL;
   node->vals[pos] = NULL;
   SASStringBTreeNodeRemove (node_t, pos, lock_on);
 // dispose of q, since it is empty
-  SASStringBTreeNearDealloc (q);
+  SASStringBTreeNodeRelease (q, lock_on);
 }
 
 void
@@ -1683,10 +1620,6 @@ SASStringBTreeNodeMoveLeft (SASStringBTreeNode_t node_t, short pos,
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
   SASStringBTreeNodeHeader *l, *r;
-  char *str_ptr;
-  char *end_ptr;
-  char *temp_key;
-  size_t key_len, max_frag;
   short c;
 
   l = ((SASStringBTreeNodeHeader *) node->branch[pos - 1]);
@@ -1696,42 +1629,21 @@ SASStringBTreeNodeMoveLeft (SASStringBTreeNode_t node_t, short pos,
 #endif
   l->count++;
   // l->keys[l->count] = node->keys[pos];
-  SASStringBTreeNodeKeyMove (l, l->count, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;
+  SASStringBTreeNodeKeyPlace (l, l->count, node->keys[pos], lock_on);
   l->vals[l->count] = node->vals[pos];
   l->branch[l->count] = r->branch[0];
 
   //node->keys[pos] = r->keys[1];
-  SASStringBTreeNodeKeyMove (node, pos, r->keys[1], lock_on);
+  SASStringBTreeNodeKeyPlace (node, pos, r->keys[1], lock_on);
   node->vals[pos] = r->vals[1];
   r->branch[0] = r->branch[1];
   r->count--;
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
   for (c = 1; c <= r->count; c++)
     {
-      r->keys[c] = r->keys[c + 1];
+      SASStringBTreeNodeKeyPlace (r, c, r->keys[c + 1], lock_on);
       r->vals[c] = r->vals[c + 1];
       r->branch[c] = r->branch[c + 1];
-      temp_key = r->keys[c];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = strlen (temp_key) + 1;
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("MoveLeft@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (c), temp_key, key_len);
-#endif
-	      SASStringBTreeNodeKeyCopy ((SASStringBTreeNode_t) r,
-					 (c), temp_key, lock_on);
-	      max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
   r->keys[r->count + 1] = NULL;
   r->vals[r->count + 1] = NULL;
@@ -1749,10 +1661,6 @@ SASStringBTreeNodeMoveRight (SASStringBTreeNode_t node_t, short pos,
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) node_t;
   SASStringBTreeNodeHeader *l, *r;
-  char *str_ptr;
-  char *end_ptr;
-  char *temp_key;
-  size_t key_len, max_frag;
   short c;
 
   l = ((SASStringBTreeNodeHeader *) node->branch[pos - 1]);
@@ -1761,36 +1669,14 @@ SASStringBTreeNodeMoveRight (SASStringBTreeNode_t node_t, short pos,
   sas_printf ("MoveRight@%p pos=%hd left@%p right@%p lock_on=%d\n", node_t, pos, l, r, lock_on);
 #endif
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
   for (c = r->count; c >= 1; c--)
     {
-      r->keys[c + 1] = r->keys[c];
+      SASStringBTreeNodeKeyPlace (r, (c + 1), r->keys[c], lock_on);
       r->vals[c + 1] = r->vals[c];
       r->branch[c + 1] = r->branch[c];
-      temp_key = r->keys[c + 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = strlen (temp_key) + 1;
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("MoveRight@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (c + 1), temp_key, key_len);
-#endif
-	      SASStringBTreeNodeKeyCopy ((SASStringBTreeNode_t) r,
-					 (c + 1), temp_key, lock_on);
-	      max_frag = SASStringBTreeNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     };
   // r->keys[1] = node->keys[pos];
-  r->keys[1] = NULL;
-  SASStringBTreeNodeKeyMove (r, 1, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;
+  SASStringBTreeNodeKeyPlace (r, 1, node->keys[pos], lock_on);
   r->vals[1] = node->vals[pos];
   r->branch[1] = r->branch[0];
   r->count++;
@@ -1801,7 +1687,7 @@ SASStringBTreeNodeMoveRight (SASStringBTreeNode_t node_t, short pos,
 #endif
 
   // node->keys[pos] = l->keys[l->count];
-  SASStringBTreeNodeKeyMove (node, pos, l->keys[l->count], lock_on);
+  SASStringBTreeNodeKeyPlace (node, pos, l->keys[l->count], lock_on);
   node->vals[pos] = l->vals[l->count];
   r->branch[0] = l->branch[l->count];
 
@@ -1894,6 +1780,8 @@ SASStringBTreeNodeSuccessor (SASStringBTreeNode_t header, short pos,
 {
   SASStringBTreeNodeHeader *node = (SASStringBTreeNodeHeader *) header;
   SASStringBTreeNodeHeader *q;
+  char *key;
+  void *val;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Successor@%p pos=%hd lock_on=%d\n", header, pos, lock_on);
@@ -1910,11 +1798,14 @@ SASStringBTreeNodeSuccessor (SASStringBTreeNode_t header, short pos,
   sas_printf ("Successor@%p replace key=%s with key=%s\n ",
 	      header, node->keys[pos], q->keys[1]);
 #endif
-  // node->keys[k] = q->keys[1];
-  SASStringBTreeNodeKeyCopy (node, pos, q->keys[1], lock_on);
-//      q->keys[1] = NULL;
+  // the successor takes the place of the key and the key that of the
+  // successor, from where it is deleted
+  key = node->keys[pos];
+  val = node->vals[pos];
+  SASStringBTreeNodeKeyPlace (node, pos, q->keys[1], lock_on);
   node->vals[pos] = q->vals[1];
-//      q->vals[1] = NULL;
+  q->keys[1] = key;
+  q->vals[1] = val;
 #ifdef __SASDebugPrint__
   sas_printf ("Successor@%p key[%hd]=%s @%p\n",
 	      header, pos, node->keys[pos], node->keys[pos]);
@@ -1964,7 +1855,7 @@ SASStringBTreeNodeRecDelete (SASStringBTreeNode_t header, const char *target,
 	  q = ((SASStringBTreeNodeHeader *) node->branch[k]);
 	  if (q != NULL)
 	    {
-	      found = SASStringBTreeNodeRecDelete (q, node->keys[k], lock_on);
+	      found = SASStringBTreeNodeRecDelete (q, target, lock_on);
 #if __SASDebugPrint__ > 1
 	      sas_printf ("RecDelete after Successor found=%d\n", found);
 	      sas_printf ("RecDelete: subtree=");
diff --git a/src/sasstringbtreenodepriv.h b/src/sasstringbtreenodepriv.h
index 82014aa..3c9b24d 100644
--- a/src/sasstringbtreenodepriv.h
+++ b/src/sasstringbtreenodepriv.h
@@ -44,6 +44,9 @@ SASStringBTreeNodeFreeFragmentsNoLock (SASStringBTreeNode_t heap);
 extern block_size_t
 SASStringBTreeNodeMaxFragmentNoLock (SASStringBTreeNode_t heap);
 
+extern void
+SASStringBTreeNodeRelease (SASStringBTreeNode_t heap, lock_on_t lock_on);
+
 extern int
 SASStringBTreeNodeIsSpill (SASStringBTreeNode_t heap);
 
diff --git a/src/sasstringbtreepriv.h b/src/sasstringbtreepriv.h
index f1ef42d..4eea07f 100644
--- a/src/sasstringbtreepriv.h
+++ b/src/sasstringbtreepriv.h
@@ -105,7 +105,10 @@ SASStringBTreeGetSpillNear(void *nearObj)
 extern void
 SASStringBTreePrintStatsPriv (SASStringBTreeHeader *heap);
 
-extern SASStringBTreeNode_t 
+extern void
+SASStringBTreeSpillAdd (SASStringBTreeNode_t heap, lock_on_t lock_on);
+
+extern SASStringBTreeNode_t
 SASStringBTreeSpillAlloc(void *nearObj, lock_on_t lock_on);
 
 #endif /* __SAS_STRINGBTREE_PRIVH */
-- 
2.43.0


From fe1f0241372cc9a64a06842da0c6efaf153394c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 58/81] fix: a string tree enumeration visits each key once,
 from its start key on

---
 src/sasstringbtreeenum.cpp | 357 ++++++++++---------------------------
 1 file changed, 99 insertions(+), 258 deletions(-)

diff --git a/src/sasstringbtreeenum.cpp b/src/sasstringbtreeenum.cpp
index 74c0568..20f5bdd 100644
--- a/src/sasstringbtreeenum.cpp
+++ b/src/sasstringbtreeenum.cpp
@@ -27,45 +27,65 @@
 typedef struct __SBEnumeration
 {
   SASStringBTree_t tree;
-  char *curkey;
+  char *curkey;			/* the enumeration's own copy */
+  size_t cursize;
   SBTnodePosRef ref;
   long curmod;
   long curcount;
   bool hasmore;
-  char entryString[sizeof (void *)];
 } __SBEnumeration;
 
 typedef void *SASStringBTreeEnum_t;
 
-SASStringBTreeEnum_t
-SASStringBTreeEnumCreate (SASStringBTree_t tree)
+static bool
+SASStringBTreeEnumSetKey (__SBEnumeration * stringenum, const char *key)
 {
-  __SBEnumeration *stringenum = NULL;
-  stringenum = (__SBEnumeration *) malloc (sizeof (__SBEnumeration));
+  size_t size = strlen (key) + 1;
+
+  if (size > stringenum->cursize)
+    {
+      char *copy = (char *) realloc (stringenum->curkey, size);
+      if (copy == NULL)
+	return false;
+      stringenum->curkey = copy;
+      stringenum->cursize = size;
+    }
+  memcpy (stringenum->curkey, key, size);
+  return true;
+}
+
+/* A new enumeration that starts at a key.  */
+static __SBEnumeration *
+SASStringBTreeEnumNew (SASStringBTree_t tree, const char *start_key)
+{
+  __SBEnumeration *stringenum =
+    (__SBEnumeration *) malloc (sizeof (__SBEnumeration));
+
   if (stringenum != NULL)
     {
+      stringenum->curkey = NULL;
+      stringenum->cursize = 0;
       stringenum->curmod = SASStringBTreeGetModCount (tree);
       stringenum->curcount = SASStringBTreeGetCurCount (tree);
-      if (stringenum->curmod != 0L)
-	{
-	  stringenum->hasmore = !SASStringBTreeIsEmpty (tree);
-	  stringenum->tree = tree;
-	  stringenum->ref.node = NULL;
-	  stringenum->ref.pos = 0;
-	  stringenum->entryString[0] = '\0';
-	  stringenum->curkey = &stringenum->entryString[0];
-	}
-      else
+      stringenum->hasmore = !SASStringBTreeIsEmpty (tree);
+      stringenum->tree = tree;
+      stringenum->ref.node = NULL;
+      stringenum->ref.pos = 0;
+      if ((stringenum->curmod == 0L)
+	  || !SASStringBTreeEnumSetKey (stringenum, start_key))
 	{
 	  free (stringenum);
 	  stringenum = NULL;
 	}
     }
-  else
-    {
-    }
+  return stringenum;
+}
 
-  return (SASStringBTreeEnum_t) stringenum;
+SASStringBTreeEnum_t
+SASStringBTreeEnumCreate (SASStringBTree_t tree)
+{
+  /* no key is smaller than the empty one */
+  return (SASStringBTreeEnum_t) SASStringBTreeEnumNew (tree, "");
 }
 
 SASStringBTreeEnum_t
@@ -73,51 +93,26 @@ SASStringBTreeEnumCreateStartAt (SASStringBTree_t tree, char *start_key)
 {
   __SBEnumeration *stringenum = NULL;
   char *maxkey;
-  size_t startkey_len = strlen (start_key) + 1;
 
-  stringenum =
-    (__SBEnumeration *) malloc (sizeof (__SBEnumeration) + startkey_len);
-  if (stringenum != NULL)
-    {
-      SASLock (tree, SasUserLock__WRITE);
-      maxkey = SASStringBTreeGetMaxKey (tree);
-      if ((maxkey != NULL) && (strcmp (start_key, maxkey) < 0))
-	{
-	  stringenum->curmod = SASStringBTreeGetModCount (tree);
-	  stringenum->curcount = SASStringBTreeGetCurCount (tree);
-	  if (stringenum->curmod != 0L)
-	    {
-	      stringenum->hasmore = (strcmp (start_key, maxkey) < 0);
-	      stringenum->tree = tree;
-	      stringenum->ref.node = NULL;
-	      stringenum->ref.pos = 0;
-	      memcpy ((char *) &stringenum->entryString[0],
-		      start_key, startkey_len);
-	      if (stringenum->entryString[0] != '\0')
-		stringenum->entryString[startkey_len - 2] -= 1;
-	      stringenum->curkey = &stringenum->entryString[0];
-	    }
-	  else
-	    {
-	      free (stringenum);
-	      stringenum = NULL;
-	    }
-	}
-      else
-	{
-	  free (stringenum);
-	  stringenum = NULL;
-	}
-      SASUnlock (tree);
-    }
+  SASLock (tree, SasUserLock__WRITE);
+  maxkey = SASStringBTreeGetMaxKey (tree);
+  if ((maxkey != NULL) && (strcmp (start_key, maxkey) <= 0))
+    stringenum = SASStringBTreeEnumNew (tree, start_key);
+  SASUnlock (tree);
 
   return (SASStringBTreeEnum_t) stringenum;
 }
 
 void
-SASStringBTreeEnumDestroy (SASStringBTreeEnum_t stringenum)
+SASStringBTreeEnumDestroy (SASStringBTreeEnum_t sbtenum)
 {
-  free (stringenum);
+  __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
+
+  if (stringenum != NULL)
+    {
+      free (stringenum->curkey);
+      free (stringenum);
+    }
 }
 
 int
@@ -145,127 +140,11 @@ void *
 SASStringBTreeEnumNext (SASStringBTreeEnum_t sbtenum)
 {
   __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
-  void *result = NULL;
-  bool found = false;
-  char *maxkey;
-
+  void *result;
 
   SASLock (stringenum->tree, SasUserLock__WRITE);
-  maxkey = SASStringBTreeGetMaxKey (stringenum->tree);
-#if __SASDebugPrint__ > 1
-  sas_printf ("SASStringBTreeEnumNext; enum->tree=%p maxkey=%s\n",
-                  stringenum->tree, maxkey);
-#endif
-  if (maxkey != NULL)
-    {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
-      if (stringenum->hasmore)
-	{
-	  SASStringBTreeNode_t curnode = stringenum->ref.node;
-	  long treemod = SASStringBTreeGetModCount (stringenum->tree);
-
-	  if ((curnode != NULL) && (treemod == stringenum->curmod))
-	    {
-	      short curpos = stringenum->ref.pos;
-	      SASStringBTreeNodeHeader *curSBnode =
-		(SASStringBTreeNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
-		{
-		  if (curSBnode->branch[curpos] == NULL)
-		    {
-		      curpos++;
-		      stringenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
-		      stringenum->hasmore =
-			(strcmp (stringenum->curkey, maxkey) < 0);
-		      found = true;
-		    }
-		  else
-		    {
-		      found =
-			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
-						    &stringenum->ref);
-		      if (found)
-			{
-			  curnode = stringenum->ref.node;
-			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
-			  curpos = stringenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
-			  stringenum->hasmore =
-			    (strcmp (stringenum->curkey, maxkey) < 0);
-			}
-		    }
-		  if (stringenum->hasmore)
-		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
-		}
-	    }
-	  if (!found)
-	    {
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found enum->tree=%s\n",
-            stringenum->tree, stringenum->curkey);
-#endif
-	      SASStringBTreeNode_t curnode =
-		SASStringBTreeGetRootNode (stringenum->tree);
-              if (stringenum->ref.node == NULL)
-              {
-	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGE=%d\n",
-                                  curnode, found);
-#endif
-              } else {
-	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext; !found curnode=%p SearchGT=%d\n",
-                                  curnode, found);
-#endif
-              }
-	      if (found)
-		{
-		  short curpos = stringenum->ref.pos;
-		  SASStringBTreeNodeHeader *curSBnode =
-		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
-		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
-		  stringenum->hasmore =
-		    (strcmp (stringenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-     sas_printf ("SASStringBTreeEnumNext; curpos=%hd node=%p result=%p\n",
-                                  curpos, curSBnode, result);
-#endif
-		}
-	      else
-		{
-		  stringenum->hasmore = false;
-		}
-	    }
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASStringBTreeEnumNext; enum->tree=%p invalid\n",
-		  stringenum->tree);
-#endif
-    }
+  result = SASStringBTreeEnumNext_nolock (sbtenum);
   SASUnlock (stringenum->tree);
-//      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
 
   return result;
 }
@@ -274,114 +153,77 @@ void *
 SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 {
   __SBEnumeration *stringenum = (__SBEnumeration *) sbtenum;
+  SBTnodePosRef ref = stringenum->ref;
+  bool started = (ref.node != NULL);
   void *result = NULL;
   bool found = false;
   char *maxkey;
 
-
   maxkey = SASStringBTreeGetMaxKey_nolock (stringenum->tree);
 #if __SASDebugPrint__ > 1
-  sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p maxkey=%s\n",
-                  stringenum->tree, maxkey);
+  sas_printf ("SASStringBTreeEnumNext_nolock; enum->tree=%p maxkey=%p\n",
+		  stringenum->tree, maxkey);
 #endif
+  stringenum->hasmore = false;
   if (maxkey != NULL)
     {
-      stringenum->hasmore = (strcmp (stringenum->curkey, maxkey) < 0);
+      int order = strcmp (stringenum->curkey, maxkey);
+
+      /* the start key itself is not yet returned */
+      stringenum->hasmore = started ? (order < 0) : (order <= 0);
       if (stringenum->hasmore)
 	{
-	  SASStringBTreeNode_t curnode = stringenum->ref.node;
 	  long treemod = SASStringBTreeGetModCount_nolock (stringenum->tree);
+	  SASStringBTreeNodeHeader *curSBnode;
 
-	  if ((curnode != NULL) && (treemod == stringenum->curmod))
+	  if (started && (treemod == stringenum->curmod))
 	    {
-	      short curpos = stringenum->ref.pos;
-	      SASStringBTreeNodeHeader *curSBnode =
-		(SASStringBTreeNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
+	      curSBnode = (SASStringBTreeNodeHeader *) ref.node;
+	      if (ref.pos < curSBnode->count)
 		{
-		  if (curSBnode->branch[curpos] == NULL)
+		  if (curSBnode->branch[ref.pos] == NULL)
 		    {
-		      curpos++;
-		      stringenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      stringenum->curkey = curSBnode->keys[curpos];
-		      stringenum->hasmore =
-			(strcmp (stringenum->curkey, maxkey) < 0);
+		      ref.pos++;
 		      found = true;
 		    }
 		  else
 		    {
 		      found =
-			SASStringBTreeNodeSearchGT (curnode,
-						    stringenum->curkey,
-						    &stringenum->ref);
-		      if (found)
-			{
-			  curnode = stringenum->ref.node;
-			  curSBnode = (SASStringBTreeNodeHeader *) curnode;
-			  curpos = stringenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  stringenum->curkey = curSBnode->keys[curpos];
-			  stringenum->curcount -= 1;
-			  stringenum->hasmore =
-			    (strcmp (stringenum->curkey, maxkey) < 0);
-			}
+			SASStringBTreeNodeSearchGT (ref.node, stringenum->curkey, &ref);
 		    }
-		  if (stringenum->hasmore)
-		    stringenum->curcount -= 1;
-		  else if (found)
-		    stringenum->curcount = 1;
-		  else
-		    stringenum->curcount = 0;
 		}
 	    }
 	  if (!found)
 	    {
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext_nolock; !found enum->tree=%s\n",
-            stringenum->tree, stringenum->curkey);
-#endif
-	      SASStringBTreeNode_t curnode =
-		SASStringBTreeGetRootNodeNoLock (stringenum->tree);
-              if (stringenum->ref.node == NULL)
-              {
-	          found =
-		  SASStringBTreeNodeSearchGE (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
-                                  curnode, found);
-#endif
-              } else {
-	          found =
-		  SASStringBTreeNodeSearchGT (curnode, stringenum->curkey,
-					    &stringenum->ref);
-#if __SASDebugPrint__ > 1
-    sas_printf ("SASStringBTreeEnumNext_nolock; !found curnode=%p SearchGT=%d\n",
-                                  curnode, found);
-#endif
-              }
-	      if (found)
-		{
-		  short curpos = stringenum->ref.pos;
-		  SASStringBTreeNodeHeader *curSBnode =
-		    (SASStringBTreeNodeHeader *) stringenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  stringenum->curkey = curSBnode->keys[curpos];
-		  stringenum->curmod = treemod;
-		  stringenum->curcount =
-		    SASStringBTreeGetCurCount (stringenum->tree);
-		  stringenum->hasmore =
-		    (strcmp (stringenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-     sas_printf ("SASStringBTreeEnumNext_nolock; curpos=%hd node=%p result=%p\n",
-                                  curpos, curSBnode, result);
-#endif
-		}
+	      SASStringBTreeNode_t root = SASStringBTreeGetRootNodeNoLock (stringenum->tree);
+
+	      if (started)
+		found =
+		  SASStringBTreeNodeSearchGT (root, stringenum->curkey, &ref);
 	      else
-		{
-		  stringenum->hasmore = false;
-		}
+		found =
+		  SASStringBTreeNodeSearchGE (root, stringenum->curkey, &ref);
+	    }
+	  if (found)
+	    {
+	      curSBnode = (SASStringBTreeNodeHeader *) ref.node;
+	      if (!SASStringBTreeEnumSetKey (stringenum,
+					     curSBnode->keys[ref.pos]))
+		return NULL;
+	      if (treemod == stringenum->curmod)
+		stringenum->curcount -= 1;
+	      else
+		stringenum->curcount =
+		  ((SASStringBTreeHeader *) stringenum->tree)->common->count;
+	      result = curSBnode->vals[ref.pos];
+	      stringenum->ref = ref;
+	      stringenum->curmod = treemod;
+	      stringenum->hasmore =
+		(strcmp (stringenum->curkey, maxkey) < 0);
+	    }
+	  else
+	    {
+	      stringenum->hasmore = false;
 	    }
 	}
 #ifdef __SASDebugPrint__
@@ -392,7 +234,6 @@ SASStringBTreeEnumNext_nolock (SASStringBTreeEnum_t sbtenum)
 		  stringenum->tree);
 #endif
     }
-//      sas_printf("{%s,%s,%d}",stringenum->curkey, maxkey, stringenum->hasmore);
 
   return result;
 }
-- 
2.43.0


From 119c3b47fe3d78be2dd65974251b5f835cfda763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 59/81] fix: the string tree node functions are declared as
 they are defined

---
 src/sasstringbtreenode.h     | 4 ++--
 src/sasstringbtreenodepriv.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sasstringbtreenode.h b/src/sasstringbtreenode.h
index 1106809..3b41d90 100644
--- a/src/sasstringbtreenode.h
+++ b/src/sasstringbtreenode.h
@@ -235,7 +235,7 @@ SASStringBTreeNodeAlloc (SASStringBTreeNode_t heap, block_size_t alloc_size,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFree (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFree (SASStringBTreeNode_t heap, const void *free_block,
 			block_size_t alloc_size, lock_on_t lock_on);
 
 /*!
@@ -298,7 +298,7 @@ SASStringBTreeNodeAllocNoLock (SASStringBTreeNode_t heap,
  * if \a alloc_size does not hold the correct size of \a heap.
  */
 extern __C__ int
-SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, void *free_block,
+SASStringBTreeNodeFreeNoLock (SASStringBTreeNode_t heap, const void *free_block,
 			      block_size_t alloc_size);
 
 /*!
diff --git a/src/sasstringbtreenodepriv.h b/src/sasstringbtreenodepriv.h
index 3c9b24d..df3b83c 100644
--- a/src/sasstringbtreenodepriv.h
+++ b/src/sasstringbtreenodepriv.h
@@ -55,7 +55,7 @@ SASStringBTreeSpillInit (void* heap_seg,  sas_type_t sasType,
                          block_size_t heap_size);
 
 extern __C__ int
-SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, void* free_block, 
+SASStringBTreeNodeNearDealloc(SASStringBTreeNode_t heap, const void* free_block, 
                                block_size_t alloc_size, lock_on_t lock_on);
 
 #endif /* __SAS_STRINGBTREENODE_PRIVH */
-- 
2.43.0


From 7d3ba40177a8ebe73721dc68e137727545edfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:55 +0000
Subject: [PATCH 60/81] fix: document how long the minimum and maximum keys of
 a string tree are valid

---
 src/sasstringbtree.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sasstringbtree.h b/src/sasstringbtree.h
index 733e68e..3c25c2e 100644
--- a/src/sasstringbtree.h
+++ b/src/sasstringbtree.h
@@ -326,8 +326,8 @@ SASStringBTreeGetModCount_nolock (SASStringBTree_t btree);
  * lock over B-Tree \a btree.
  * The maximum key is the right most entry of the right most node.
  *
- * \note this value it stored in the header of the SASStringBTree_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASStringBTree_t. It should never be
+ * modified by the application and is valid until the B-Tree changes.
  *
  * @param btree Handle to the SASStringBTree_t.
  * @return Null terminated maximum key string from B-Tree \a btree or 0 if
@@ -342,8 +342,8 @@ SASStringBTreeGetMaxKey (SASStringBTree_t btree);
  * The sas_type_t must be SAS_RUNTIME_STRINGTREE.
  * The maximum key is the right most entry of the right most node.
  *
- * \note this value it stored in the header of the SASStringBTree_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASStringBTree_t. It should never be
+ * modified by the application and is valid until the B-Tree changes.
  *
  * This nolock form should only be used when the referenced SASStringBTree_t
  * is known to be locked by the application or contained within a
@@ -363,8 +363,8 @@ SASStringBTreeGetMaxKey_nolock (SASStringBTree_t btree);
  * lock over B-Tree \a btree.
  * The minimum key is the left most entry of the left most node.
  *
- * \note this value it stored in the header of the SASStringBTree_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASStringBTree_t. It should never be
+ * modified by the application and is valid until the B-Tree changes.
  *
  * @param btree Handle to the SASStringBTree_t.
  * @return Null terminated minimum key string from B-Tree \a btree or 0 if
@@ -379,8 +379,8 @@ SASStringBTreeGetMinKey (SASStringBTree_t btree);
  * The sas_type_t must be SAS_RUNTIME_STRINGTREE.
  * The minimum key is the left most entry of the left most node.
  *
- * \note this value it stored in the header of the SASStringBTree_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASStringBTree_t. It should never be
+ * modified by the application and is valid until the B-Tree changes.
  *
  * This nolock form should only be used when the referenced SASStringBTree_t
  * is known to be locked by the application or contained within a
-- 
2.43.0


From 2d54bdf0630f6047e84d300726fe59dc26919d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 61/81] fix: SASIndexContainsKey_nolock could not be linked

---
 src/sasindex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 860fcb9..da32d84 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1199,7 +1199,7 @@ SASIndexContainsKey (SASIndex_t  heap, SASIndexKey_t *key)
 }
 
 int
-SASIndexContainsKey_nolock (SASIndex_t  heap, SASIndexKey_t *key)
+SASIndexContainsKey_nolock (SASIndex_t  heap, const SASIndexKey_t *key)
 {
     SASIndexHeader	*btree = (SASIndexHeader*)heap;
 	__IDXnodePosRef ref = {NULL, 0};
-- 
2.43.0


From c57bc1ed817d45c09f269f60a68448099846daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 62/81] fix: a new index starts empty whatever its storage
 held, and has room for a page

---
 src/sasindex.cpp     | 55 ++++++++++++++++++++++++++------------------
 src/sasindexnode.cpp |  2 +-
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index da32d84..2776ab2 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -149,30 +149,34 @@ SASIndexExpandInit (void* heap_seg,
     return (SASIndex_t)heapBlock;
 }
 
-SASIndex_t 
-SASIndexInit (void* heap_seg, 
-                     block_size_t heap_size,
-                     block_size_t page_size,
-                     int	expanding)
+SASIndex_t
+SASIndexInit (void *heap_seg,
+		    block_size_t heap_size,
+		    block_size_t page_size, int expanding)
 {
-    SASIndexHeader	*heapBlock = (SASIndexHeader*)heap_seg;
-    SASIndexCommon	*commonAlloc;
-    SASCompoundExpandList	*list;
-    SASIndexSpillList	*spill_lst;
-    char		*heapStart = NULL; 
-    node_size_t		remaining;
-    
-    if ( heapBlock )
-    {
-		heapStart = (char*) heapBlock + default_page;
-		initSOMSASBlock((SASBlockHeader*)heapBlock, 
-		                               SAS_RUNTIME_INDEX,
-		                               heap_size, heapStart);
-    }
-    
-    heapBlock->pageSize = page_size;
-   
-    remaining= default_page - sizeof(SASIndexHeader);
+  SASIndexHeader *heapBlock = (SASIndexHeader *) heap_seg;
+  SASIndexCommon *commonAlloc;
+  SASCompoundExpandList *list;
+  SASIndexSpillList *spill_lst;
+  char *heapStart = NULL;
+  node_size_t remaining;
+
+  /* Without room for the tables of a node, or for a page, there is no
+     tree.  */
+  if ((heapBlock == NULL)
+      || (page_size < heap_offset + 3 * (default_max + 1) * sizeof (void *))
+      || (heap_size < default_page + page_size))
+    return NULL;
+
+  heapStart = (char *) heapBlock + default_page;
+  initSOMSASBlock ((SASBlockHeader *) heapBlock,
+		   SAS_RUNTIME_INDEX, heap_size, heapStart);
+
+  heapBlock->pageSize = page_size;
+  heapBlock->root = NULL;
+  heapBlock->expandList = NULL;
+
+  remaining = default_page - sizeof (SASIndexHeader);
     heapBlock->headerFreeSpace = (freeNode *)&heapBlock[1];
     freeNode_init(heapBlock->headerFreeSpace, remaining);
     heapBlock->blockHeader.baseBlock = (SASBlockHeader*)heapBlock;
@@ -205,6 +209,7 @@ SASIndexInit (void* heap_seg,
 		heapBlock->common = commonAlloc;
 		commonAlloc->version = 0;
 		commonAlloc->modCount = 1;
+		commonAlloc->count = 0;
 		commonAlloc->max_key = NULL;
 		commonAlloc->min_key = NULL;
 #ifdef __SASDebugPrint__
@@ -247,6 +252,8 @@ SASIndexFixedCreate (block_size_t heap_size)
     {
 		newHeap = SASIndexInit (heapBlock,  heap_size, 
 		                              default_page, false);
+		if (newHeap == NULL)
+		  SASBlockDealloc (heapBlock, heap_size);
     }
     return newHeap;
 }
@@ -299,6 +306,8 @@ SASIndexCreatePageSize (block_size_t heap_size,
     if ( heapBlock )
     {
 		newHeap = SASIndexInit (heapBlock, heap_size, page_size, true);
+		if (newHeap == NULL)
+		  SASBlockDealloc (heapBlock, heap_size);
     }
     return newHeap;
 }
diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 7cd8b95..1a3bd74 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -130,7 +130,7 @@ SASIndexNodeInit (void *heap_seg, sas_type_t sasType, block_size_t heap_size)
   heapBlock->spill2 = NULL;
   heapBlock->spill3 = NULL;
 
-  for (i = 0; i < heapBlock->max_count; i++)
+  for (i = 0; i <= heapBlock->max_count; i++)
     {
       heapBlock->keys[i] = NULL;
       heapBlock->branch[i] = NULL;
-- 
2.43.0


From 57ac70d9438cae9175a1e53e9daca44c26c0d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 63/81] fix: index pages come from any block with room, and
 waiting for them cannot deadlock

---
 src/sasindex.cpp | 710 ++++++++++++++++-------------------------------
 1 file changed, 238 insertions(+), 472 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 2776ab2..5cf0d4a 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -258,41 +258,42 @@ SASIndexFixedCreate (block_size_t heap_size)
     return newHeap;
 }
 
-SASIndex_t 
+SASIndex_t
 SASIndexExpandCreate (SASIndex_t heap)
 {
-    SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    block_size_t heap_size	= headerBlock->blockHeader.blockSize;
-    block_size_t page_size	= headerBlock->pageSize;
-    SASCompoundExpandList	*list = headerBlock->expandList;
-    SASIndexCommon	*commonPtr = headerBlock->common;
-    SASBlockHeader	*heapBlock = NULL;
-    SASIndex_t newHeap = NULL;
-    
-    heapBlock = (SASBlockHeader*)SASBlockAlloc ((long)heap_size);
-    if ( heapBlock )
+  SASIndexHeader *headerBlock = (SASIndexHeader *) heap;
+  block_size_t heap_size = headerBlock->blockHeader.blockSize;
+  block_size_t page_size = headerBlock->pageSize;
+  SASCompoundExpandList *list = headerBlock->expandList;
+  SASIndexCommon *commonPtr = headerBlock->common;
+  SASBlockHeader *heapBlock = NULL;
+  SASIndex_t newHeap = NULL;
+
+  if (list->count < list->max_count)
     {
-    	if ( list->count < list->max_count )
-    	{
-	    	SASIndexHeader *newHeader, *prevHeader;
-			newHeap = SASIndexExpandInit (heapBlock,  
-			                                    heap_size, page_size);
-			newHeader = (SASIndexHeader*)newHeap;
-			newHeader->blockHeader.baseBlock = &headerBlock->blockHeader;
-			newHeader->blockHeader.nextBlock = &headerBlock->blockHeader;
-			newHeader->common = commonPtr;
-			prevHeader = list->heap[list->count - 1];
-			list->heap[list->count] = newHeader;
-			list->count++;
-			prevHeader->blockHeader.nextBlock = &newHeader->blockHeader;
+      heapBlock = (SASBlockHeader *) SASBlockAlloc ((long) heap_size);
+      if (heapBlock)
+	{
+	  SASIndexHeader *newHeader, *prevHeader;
+	  newHeap = SASIndexExpandInit (heapBlock,
+					      heap_size, page_size);
+	  newHeader = (SASIndexHeader *) newHeap;
+	  newHeader->blockHeader.baseBlock = &headerBlock->blockHeader;
+	  newHeader->blockHeader.nextBlock = &headerBlock->blockHeader;
+	  newHeader->common = commonPtr;
+	  prevHeader = list->heap[list->count - 1];
+	  list->heap[list->count] = newHeader;
+	  list->count++;
+	  prevHeader->blockHeader.nextBlock = &newHeader->blockHeader;
+	}
 #ifdef __SASDebugPrint__
-	    } else {
-	    	sas_printf("SASIndexExpandCreate(%p) failed\n", 
-	    	           headerBlock);
+    }
+  else
+    {
+      sas_printf ("SASIndexExpandCreate(%p) failed\n", headerBlock);
 #endif
-    	}
     }
-    return newHeap;
+  return newHeap;
 }
 
 SASIndex_t 
@@ -344,122 +345,119 @@ SASIndexAllocInternal (SASIndexHeader *headerBlock)
 	return newHeap;
 }
 
-SASIndexNode_t 
+static inline int
+SASIndexHasPage (SASIndexHeader * headerBlock)
+{
+  return SASIndexAvail (headerBlock)
+    && (freeNode_maxFragment (headerBlock->blockHeader.blockFreeSpace)
+	>= headerBlock->pageSize);
+}
+
+/* Select the block to take the next page from, the tree's lock is held. The
+ * blocks are filled up to the load factor before a block is added, and
+ * beyond it when no block can be added.  */
+static SASIndexHeader *
+SASIndexSelectBlock (SASIndexHeader * headerBlock)
+{
+  SASCompoundExpandList *list = headerBlock->expandList;
+  SASIndexHeader *expandBlock;
+  block_size_t i;
+
+  if (!SASIndexIsExpanding (headerBlock))
+    return headerBlock;
+
+  for (i = 0; i < list->count; i++)
+    {
+      /* the last block first */
+      expandBlock = list->heap[(i == 0) ? list->count - 1 : i - 1];
+      if ((SASIndexPercentUsed (expandBlock) < DEFAULT_LOAD_FACTOR)
+	  && SASIndexHasPage (expandBlock))
+	return expandBlock;
+    }
+
+  expandBlock = (SASIndexHeader *) SASIndexExpandCreate (headerBlock);
+  if (expandBlock != NULL)
+    return expandBlock;
+
+  for (i = 0; i < list->count; i++)
+    {
+      if (SASIndexHasPage (list->heap[i]))
+	return list->heap[i];
+    }
+  return NULL;
+}
+
+/* The tree block nearObj is in, and the base block of its tree.  */
+static SASIndexHeader *
+SASIndexFindBlock (void *nearObj, SASIndexHeader ** base)
+{
+  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
+  SASBlockHeader *block;
+
+  if ((nearHeader == NULL) || !SOMSASCheckBlockSig (nearHeader))
+    return NULL;
+
+  if (SOMSASCheckBlockSigAndTypeAndSubtype (nearHeader, SAS_RUNTIME_INDEX))
+    block = nearHeader;
+  else
+    block = nearHeader->baseBlock;
+  if ((block == NULL)
+      || !SOMSASCheckBlockSigAndType (block, SAS_RUNTIME_INDEX))
+    {
+#ifdef __SASDebugPrint__
+      sas_printf ("SASIndexFindBlock(%p)->%p type check failed\n",
+		  nearObj, block);
+#endif
+      return NULL;
+    }
+
+  *base = (SASIndexHeader *) block;
+  if (block->baseBlock != NULL)
+    *base = (SASIndexHeader *) block->baseBlock;
+  return (SASIndexHeader *) block;
+}
+
+SASIndexNode_t
 SASIndexAllocNoLock (SASIndex_t heap)
 {
-    SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    SASIndexNode_t newHeap = NULL;
-   
-	if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
-	                                SAS_RUNTIME_INDEX))
+  SASIndexHeader *headerBlock = (SASIndexHeader *) heap;
+  SASIndexNode_t newHeap = NULL;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+				  SAS_RUNTIME_INDEX))
     {
-		if (SASIndexIsExpanding(headerBlock))
-		{
-	    	SASCompoundExpandList	*list = headerBlock->expandList;
-	    	SASIndexHeader	*expandHeader;
-	    	block_size_t	i;
-	    	expandHeader = list->heap[list->count-1];
-	    	
-	    	if (SASIndexPercentUsed(expandHeader) >= DEFAULT_LOAD_FACTOR)
-	    	{   
-				expandHeader = NULL;
-				for ( i = 0; i < list->count-1; i++ )
-				{
-					SASIndexHeader	*expandBlock = list->heap[i];
-			    	if ( SASIndexPercentUsed (expandBlock) 
-			    	       < DEFAULT_LOAD_FACTOR )
-			    	{
-			    		expandHeader = expandBlock;
-			    		break;
-			    	}
-				}
-				if ( expandHeader == NULL )
-				{
-					expandHeader = (SASIndexHeader*)
-					                 SASIndexExpandCreate (heap);
-				}
-	    	}
-	    	if (  expandHeader != NULL )
-				newHeap = SASIndexAllocInternal (expandHeader);
-		} else {
-			newHeap = SASIndexAllocInternal (headerBlock);
-		}
+      SASIndexHeader *expandHeader = SASIndexSelectBlock (headerBlock);
+      if (expandHeader != NULL)
+	newHeap = SASIndexAllocInternal (expandHeader);
 #ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexAllocNoLock(%p) type check failed\n", heap);
+    }
+  else
+    {
+      sas_printf ("SASIndexAllocNoLock(%p) type check failed\n", heap);
 #endif
     }
-    return newHeap;
+  return newHeap;
 }
 
-SASIndexNode_t 
+SASIndexNode_t
 SASIndexAlloc (SASIndex_t heap)
 {
-    SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
-    SASIndexNode_t newHeap = NULL;
-    
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
-              SAS_RUNTIME_INDEX) )
+  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
+  SASIndexNode_t newHeap = NULL;
+
+  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_INDEX))
     {
-    	SASIndexHeader	*heapHeader = (SASIndexHeader*)heap;
-    	SASLock(heap, SasUserLock__WRITE);
-		if (SASIndexIsExpanding(heapHeader))
-		{
-	    	SASCompoundExpandList	*list = heapHeader->expandList;
-	    	SASIndexHeader	*lastHeader;
-	    	SASIndexHeader	*expandHeader = NULL;
-	    	block_size_t	i;
-	    	block_size_t	last_lock = 0;
-	    	lastHeader = list->heap[list->count-1];
-	    	if (lastHeader != heapHeader)
-	    		SASLock(lastHeader, SasUserLock__WRITE);
-	    	
-	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
-	    	{
-				for ( i = 0; i < list->count-1; i++ )
-				{
-					SASIndexHeader	*expandBlock = list->heap[i];
-					if ( i > 0 )
-	    				SASLock(expandBlock, SasUserLock__WRITE);
-			    	if ( SASIndexPercentUsed (expandBlock) 
-			    	       < DEFAULT_LOAD_FACTOR )
-			    	{
-			    		expandHeader = expandBlock;
-			    		last_lock = i;
-			    		break;
-			    	}
-				}
-				if ( expandHeader == NULL )
-				{
-					expandHeader = (SASIndexHeader*)
-					                 SASIndexExpandCreate (heap);
-		    		last_lock = list->count-2;
-				}
-	    	} else {
-	    		expandHeader = lastHeader;
-	    	}
-	    	if (  expandHeader != NULL )
-				newHeap = SASIndexAllocInternal (expandHeader);
-				
-	    	if (lastHeader != expandHeader)
-	    	{
-				for ( i = 1; i <= last_lock; i++ )
-				{
-	    			SASUnlock(list->heap[i]);
-				}
-	    	} 
-	    	if (lastHeader != heapHeader)
-				SASUnlock(lastHeader);
-		} else {
-			newHeap = SASIndexAllocInternal (heapHeader);
-		} 
-		SASUnlock(heap);
+      SASLock (heap, SasUserLock__WRITE);
+      newHeap = SASIndexAllocNoLock (heap);
+      SASUnlock (heap);
 #ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexAlloc(%p) type check failed\n", heap);
+    }
+  else
+    {
+      sas_printf ("SASIndexAlloc(%p) type check failed\n", heap);
 #endif
     }
-    return newHeap;
+  return newHeap;
 }
 
 void 
@@ -512,171 +510,55 @@ SASIndexFreeNoLock (SASIndex_t heap,
     }
 }
 
-void 
-SASIndexFree (SASIndex_t heap, 
-                    SASIndexNode_t free_block)
+void
+SASIndexFree (SASIndex_t heap, SASIndexNode_t free_block)
 {
-    SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)free_block, 
-	                                SAS_RUNTIME_INDEXNODE) )
+  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
+
+  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_INDEX))
     {
-    	SASLock(heap, SasUserLock__WRITE);
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
-	                                     SAS_RUNTIME_INDEX))
-	    {
-			if (SASIndexIsExpanding(headerBlock))
-			{
-		    	SASCompoundExpandList	*list = headerBlock->expandList;
-		    	block_size_t	i;
-				for ( i = 0; i < list->count; i++ )
-				{
-					SASIndexHeader	*expandBlock = list->heap[i];
-					if ( i > 0 )
-						SASLock(expandBlock, SasUserLock__WRITE);
-					if (SASIndexContains(expandBlock, free_block))
-					{
-						SASIndexFreeInternal (expandBlock, free_block);					
-						if ( i > 0 )
-							SASUnlock(heap);
-			    		break;
-			    	}
-					if ( i > 0 )
-			    		SASUnlock(heap);
-				}
-			} else {
-				if (SASIndexContains(headerBlock, free_block))
-				{
-					SASIndexFreeInternal (headerBlock, free_block);
-#ifdef __SASDebugPrint__
-			    } else {
-			    	sas_printf("SASIndexFree(%p, %p) free block not contained\n", 
-					                 heap, free_block);
-#endif
-				}
-			}
+      SASLock (heap, SasUserLock__WRITE);
+      SASIndexFreeNoLock (heap, free_block);
+      SASUnlock (heap);
 #ifdef __SASDebugPrint__
-	    } else {
-	    	sas_printf("SASIndexFree(%p, %p) type check failed\n", 
-			                 heap, free_block);
-#endif
-	    } 
-		SASUnlock(heap);
-#ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexFree(%p, %p) type check failed\n", 
-		                 heap, free_block);
+    }
+  else
+    {
+      sas_printf ("SASIndexFree(%p) type check failed\n", heap);
 #endif
     }
 }
 		
-SASIndexNode_t 
-SASIndexNearAllocNoLock(void *nearObj)
+SASIndexNode_t
+SASIndexNearAllocNoLock (void *nearObj)
 {
-	SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-    SASIndexHeader	*compoundHeader = NULL;
-    SASIndexHeader	*baseHeader = NULL;
-    SASIndexNode_t newHeap = NULL;
-	if (nearHeader != NULL)
-	{
-		if ( SOMSASCheckBlockSig (nearHeader) )
-		{
-			if ((nearHeader->baseBlock != nearHeader)
-			&& (nearHeader->baseBlock != NULL))
-				compoundHeader = (SASIndexHeader*) nearHeader->baseBlock;
-			else
-				compoundHeader = (SASIndexHeader*)nearHeader;
-				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
-			                                SAS_RUNTIME_INDEX) )
-		    {
-				if (SASIndexIsExpanding(compoundHeader))
-				{
-					baseHeader = compoundHeader;
-				} else {
-					if ((compoundHeader->blockHeader.baseBlock 
-					 != (SASBlockHeader *)compoundHeader)
-			        && (compoundHeader->blockHeader.baseBlock != NULL))
-			        	baseHeader = (SASIndexHeader*)compoundHeader
-			        	              ->blockHeader.baseBlock;
-			        else
-			        	baseHeader = compoundHeader;
-				}
-				
-				if (SASIndexAvail(compoundHeader))
-					newHeap = SASIndexAllocInternal (compoundHeader);
-				else 
-					newHeap = SASIndexAllocNoLock ((SASIndex_t)baseHeader);
-#ifdef __SASDebugPrint__
-		    } else {
-		    	sas_printf("SASIndexNearAllocNoLock(%p)->%p type check failed\n", 
-				                 nearObj, compoundHeader);
-#endif
-		    }
-		}
-	}
-    return newHeap;
+  SASIndexHeader *baseHeader = NULL;
+  SASIndexHeader *compoundHeader =
+    SASIndexFindBlock (nearObj, &baseHeader);
+  SASIndexNode_t newHeap = NULL;
+
+  if (compoundHeader != NULL)
+    {
+      newHeap = SASIndexAllocInternal (compoundHeader);
+      if (newHeap == NULL)
+	newHeap = SASIndexAllocNoLock ((SASIndex_t) baseHeader);
+    }
+  return newHeap;
 }
 		
-SASIndexNode_t 
-SASIndexNearAlloc(void *nearObj)
+SASIndexNode_t
+SASIndexNearAlloc (void *nearObj)
 {
-	SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-    SASIndexHeader	*compoundHeader = NULL;
-    SASIndexHeader	*baseHeader = NULL;
-    SASIndexNode_t newHeap = NULL;
-    
-    if (nearHeader != NULL)
+  SASIndexHeader *baseHeader = NULL;
+  SASIndexNode_t newHeap = NULL;
+
+  if (SASIndexFindBlock (nearObj, &baseHeader) != NULL)
     {
-		if ( SOMSASCheckBlockSig (nearHeader) )
-		{
-			if ((nearHeader->baseBlock != nearHeader)
-			&& (nearHeader->baseBlock != NULL))
-				compoundHeader = (SASIndexHeader*) nearHeader->baseBlock;
-			else
-				compoundHeader = (SASIndexHeader*)nearHeader;
-				
-    		SASLock(compoundHeader, SasUserLock__WRITE);
-				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
-			                                SAS_RUNTIME_INDEX) )
-		    {
-				if (SASIndexIsExpanding(compoundHeader))
-				{
-					baseHeader = compoundHeader;
-				} else {
-					if ((compoundHeader->blockHeader.baseBlock 
-					 != (SASBlockHeader *)compoundHeader)
-			        && (compoundHeader->blockHeader.baseBlock != NULL))
-			        	baseHeader = (SASIndexHeader*)compoundHeader
-			        	              ->blockHeader.baseBlock;
-			        else
-			        	baseHeader = compoundHeader;
-				}
-#if 0
-				sas_printf("SASIndexNearAlloc(%p) %p %p\n", 
-				                 nearObj, compoundHeader, baseHeader);
-#endif
-				if (SASIndexAvail(compoundHeader))
-				{
-					newHeap = SASIndexAllocInternal (compoundHeader);
-				} else {
-					newHeap = SASIndexAlloc ((SASIndex_t)baseHeader);
-				}
-#ifdef __SASDebugPrint__
-		    } else {
-		    	sas_printf("SASIndexNearAlloc(%p)->%p type check failed\n", 
-				                 nearObj, compoundHeader);
-#endif
-		    }
-		    SASUnlock(compoundHeader);
-		}
-#ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexNearAlloc(%p) block check failed\n", nearObj);
-#endif
+      SASLock (baseHeader, SasUserLock__WRITE);
+      newHeap = SASIndexNearAllocNoLock (nearObj);
+      SASUnlock (baseHeader);
     }
-    return newHeap;
+  return newHeap;
 }
 
 /* This section handles allocation of spill heaps and adds them to the 
@@ -712,209 +594,93 @@ SASIndexSpillInternal (SASIndexHeader *headerBlock)
 	return newHeap;
 }
 
-SASIndexNode_t 
-SASIndexSpillAllocExtended (SASIndex_t heap, lock_on_t lock_on)
+		
+/* Add a page to the spill pages of a block. With the list full it goes in
+ * front of the first page.  */
+static void
+SASIndexSpillLink (SASIndexHeader * headerBlock, SASIndexNodeHeader * page)
 {
-    SASBlockHeader	*headerBlock = (SASBlockHeader*)heap;
-    SASIndexNode_t newHeap = NULL;
-    
-    if (SOMSASCheckBlockSigAndType (headerBlock, 
-              SAS_RUNTIME_INDEX) )
+  SASIndexSpillList *spill_lst = headerBlock->spillList;
+
+  page->spill = NULL;
+  if (spill_lst->count < spill_lst->max_count)
     {
-    	SASIndexHeader	*heapHeader = (SASIndexHeader*)heap;
-        if (lock_on) SASLock(heap, SasUserLock__WRITE);
-		if (SASIndexIsExpanding(heapHeader))
-		{
-	    	SASCompoundExpandList	*list = heapHeader->expandList;
-	    	SASIndexHeader	*lastHeader;
-	    	SASIndexHeader	*expandHeader = NULL;
-	    	block_size_t	i;
-	    	block_size_t	last_lock = 0;
-	    	lastHeader = list->heap[list->count-1];
-	    	if (lastHeader != heapHeader)
-                    if (lock_on) SASLock(lastHeader, SasUserLock__WRITE);
-	    	
-	    	if (SASIndexPercentUsed(lastHeader) >= DEFAULT_LOAD_FACTOR)
-	    	{
-	    		last_lock = list->count-2;
-				for ( i = 0; i < list->count-1; i++ )
-				{
-					SASIndexHeader	*expandBlock = list->heap[i];
-					if ( i > 0 )
-                                        if (lock_on) SASLock(expandBlock, SasUserLock__WRITE);
-			    	if ( SASIndexPercentUsed (expandBlock) 
-			    	       < DEFAULT_LOAD_FACTOR )
-			    	{
-			    		expandHeader = expandBlock;
-			    		last_lock = i;
-			    		break;
-			    	}
-				}
-				if ( expandHeader == NULL )
-				{
-					expandHeader = (SASIndexHeader*)
-					                 SASIndexExpandCreate (heap);
-				}
-	    	} else {
-	    		expandHeader = lastHeader;
-	    	}
-	    	if (  expandHeader != NULL )
-				newHeap = SASIndexSpillInternal (expandHeader);
-				
-	    	if (lastHeader != expandHeader)
-	    	{
-				for ( i = 1; i <= last_lock; i++ )
-				{
-                                if (lock_on) SASUnlock(list->heap[i]);
-				}
-	    	} 
-	    	if (lastHeader != heapHeader)
-				if (lock_on) SASUnlock(lastHeader);
-		} else {
-			newHeap = SASIndexSpillInternal (heapHeader);
-		} 
-		if (lock_on) SASUnlock(heap);
-#ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexSpillAllocExtended(%p) type check failed\n", heap);
-#endif
+      spill_lst->spillHeap[spill_lst->count] = page;
+      spill_lst->count++;
+    }
+  else
+    {
+      page->spill = spill_lst->spillHeap[0];
+      spill_lst->spillHeap[0] = page;
     }
-    return newHeap;
 }
-		
-SASIndexNode_t 
-SASIndexSpillAlloc(void *nearObj, lock_on_t lock_on)
+
+/* Keep a page that is no longer a node, but still holds keys, as one of the
+ * spill pages of its block.  */
+void
+SASIndexSpillAdd (SASIndexNode_t heap, lock_on_t lock_on)
 {
-	SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-    SASIndexHeader	*compoundHeader = NULL;
-    SASIndexHeader	*baseHeader = NULL;
-    SASIndexNode_t newHeap = NULL;
-    SASIndexSpillList	*spill_lst;
-    
-    if (nearHeader != NULL)
+  SASIndexHeader *baseHeader = NULL;
+  SASIndexHeader *compoundHeader =
+    SASIndexFindBlock (heap, &baseHeader);
+
+  if (compoundHeader != NULL)
     {
-		if ( SOMSASCheckBlockSig (nearHeader) )
-		{
-			if ((nearHeader->baseBlock != nearHeader)
-			&& (nearHeader->baseBlock != NULL))
-				compoundHeader = (SASIndexHeader*) nearHeader->baseBlock;
-			else
-				compoundHeader = (SASIndexHeader*)nearHeader;
-				
-                    if (lock_on) SASLock(compoundHeader, SasUserLock__WRITE);
-				   
-		    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)compoundHeader, 
-			                                SAS_RUNTIME_INDEX) )
-		    {
-				if (SASIndexIsExpanding(compoundHeader))
-				{
-					baseHeader = compoundHeader;
-				} else {
-					if ((compoundHeader->blockHeader.baseBlock 
-					 != (SASBlockHeader *)compoundHeader)
-			        && (compoundHeader->blockHeader.baseBlock != NULL))
-			        	baseHeader = (SASIndexHeader*)compoundHeader
-			        	              ->blockHeader.baseBlock;
-			        else
-			        	baseHeader = compoundHeader;
-				}
-#if 0
-				sas_printf("SASIndexSpillAlloc(%p) %p %p\n", 
-				                 nearObj, compoundHeader, baseHeader);
-#endif
-				spill_lst = compoundHeader->spillList;
-				if (lock_on) SASLock(spill_lst, SasUserLock__WRITE);
-				if (spill_lst->count < spill_lst->max_count)
-				{
-					if (SASIndexAvail(compoundHeader))
-					{
-						newHeap = SASIndexSpillInternal (compoundHeader);
-					} else {
-						newHeap = SASIndexSpillAllocExtended ((SASIndex_t)baseHeader, lock_on);
-					}
-					if (newHeap != NULL)
-					{
-						spill_lst->spillHeap[spill_lst->count] = 
-							(SASIndexNodeHeader*)newHeap;
-						spill_lst->count++;
-					}
-				}
-				if (lock_on) SASUnlock(spill_lst);
-#ifdef __SASDebugPrint__
-		    } else {
-		    	sas_printf("SASIndexSpillAlloc(%p)->%p type check failed\n", 
-				                 nearObj, compoundHeader);
-#endif
-		    }
-		    if (lock_on) SASUnlock(compoundHeader);
-		}
-#ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexSpillAlloc(%p) block check failed\n", nearObj);
-#endif
+      if (lock_on) SASLock (baseHeader, SasUserLock__WRITE);
+      SASIndexSpillLink (compoundHeader, (SASIndexNodeHeader *) heap);
+      if (lock_on) SASUnlock (baseHeader);
     }
-    return newHeap;
 }
 
-void 
-SASIndexNearDeallocNoLock(void *nearObj)
-{							
-	SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-    SASIndex_t	btreeHeader = NULL;
-	if (nearHeader != NULL)
+SASIndexNode_t
+SASIndexSpillAlloc (void *nearObj, lock_on_t lock_on)
+{
+  SASIndexHeader *baseHeader = NULL;
+  SASIndexHeader *compoundHeader =
+    SASIndexFindBlock (nearObj, &baseHeader);
+  SASIndexNode_t newHeap = NULL;
+
+  if (compoundHeader != NULL)
+    {
+      if (lock_on) SASLock (baseHeader, SasUserLock__WRITE);
+      newHeap = SASIndexSpillInternal (compoundHeader);
+      if (newHeap == NULL)
 	{
-		if ((nearHeader->baseBlock != nearHeader)
-		&& (nearHeader->baseBlock != NULL))
-			btreeHeader = (SASIndex_t) nearHeader->baseBlock;
-		else
-			btreeHeader = (SASIndex_t)nearHeader;
-				   
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
-		                                SAS_RUNTIME_INDEX) )
-	    {
-			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader, 
-			                            nearHeader);
-#ifdef __SASDebugPrint__
-	    } else {
-	    	sas_printf("SASIndexNearDeallocNoLock(%p) type check failed near=%p compound=%p\n", 
-	    	           nearObj, nearHeader, btreeHeader);
-#endif
-	    }
+	  SASIndexHeader *expandHeader =
+	    SASIndexSelectBlock (baseHeader);
+	  if (expandHeader != NULL)
+	    newHeap = SASIndexSpillInternal (expandHeader);
 	}
+      if (newHeap != NULL)
+	SASIndexSpillLink (compoundHeader, (SASIndexNodeHeader *) newHeap);
+      if (lock_on) SASUnlock (baseHeader);
+    }
+  return newHeap;
 }
 
-void 
-SASIndexNearDealloc(void *nearObj)
-{							
-	SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-    SASIndex_t	btreeHeader = NULL;
-    
-    if (nearHeader != NULL
-    && SOMSASCheckBlockSig (nearHeader) )
+void
+SASIndexNearDeallocNoLock (void *nearObj)
+{
+  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
+  SASIndexHeader *baseHeader = NULL;
+  SASIndexHeader *btreeHeader =
+    SASIndexFindBlock (nearObj, &baseHeader);
+
+  if ((btreeHeader != NULL)
+      && ((SASBlockHeader *) btreeHeader != nearHeader))
+    SASIndexFreeInternal (btreeHeader, nearHeader);
+}
+
+void
+SASIndexNearDealloc (void *nearObj)
+{
+  SASIndexHeader *baseHeader = NULL;
+
+  if (SASIndexFindBlock (nearObj, &baseHeader) != NULL)
     {
-		if ((nearHeader->baseBlock != nearHeader)
-		&& (nearHeader->baseBlock != NULL))
-			btreeHeader = (SASIndex_t) nearHeader->baseBlock;
-		else
-			btreeHeader = (SASIndex_t)nearHeader;
-			
-	    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)btreeHeader, 
-		                                SAS_RUNTIME_INDEX))
-	    {
-    		SASLock(btreeHeader, SasUserLock__WRITE);
-			SASIndexFreeInternal ((SASIndexHeader*)btreeHeader,
-			                            nearHeader);
-			SASUnlock(btreeHeader);
-#ifdef __SASDebugPrint__
-	    } else {
-	    	sas_printf("SASIndexNearDealloc(%p) type check failed near=%p compound=%p\n", 
-	    	           nearObj, nearHeader, btreeHeader);
-#endif
-	    } 
-#ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexNearDealloc(%p) block check failed\n", nearObj);
-#endif
+      SASLock (baseHeader, SasUserLock__WRITE);
+      SASIndexNearDeallocNoLock (nearObj);
+      SASUnlock (baseHeader);
     }
 }
 
-- 
2.43.0


From cee5d692dd1747c2f964fe17ae4a1139a955823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 64/81] fix: a destroyed index leaves no page headers behind in
 the storage

---
 src/sasindex.cpp | 108 ++++++++++++++++++++++++-----------------------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index 5cf0d4a..e4e1c8e 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -764,70 +764,74 @@ SASIndexFreeSpace (SASIndex_t heap)
     return heapFree;
 }
 
-void 
+/* Clear the headers of the pages of a block that is going to be released:
+ * SASFindHeader must not find them in what gets the storage next.  */
+static void
+SASIndexClearPages (SASIndexHeader * headerBlock)
+{
+  block_size_t heapSize = headerBlock->blockHeader.blockSize;
+  block_size_t pageSize = headerBlock->pageSize;
+  block_size_t offset;
+
+  for (offset = default_page; offset + pageSize <= heapSize;
+       offset += pageSize)
+    {
+      SASBlockHeader *page =
+	(SASBlockHeader *) ((char *) headerBlock + offset);
+      if (SOMSASCheckBlockSig (page))
+	memset (page, 0, sizeof (SASBlockHeader));
+    }
+}
+
+void
 SASIndexDestroyNoLock (SASIndex_t heap)
 {
-    SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    block_size_t	heapSize;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
-                                    SAS_RUNTIME_INDEX))
+  SASIndexHeader *headerBlock = (SASIndexHeader *) heap;
+  block_size_t heapSize;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+				  SAS_RUNTIME_INDEX))
     {
-    	SASCompoundExpandList	*list = headerBlock->expandList;
-    	block_size_t	i;
-		heapSize = headerBlock->blockHeader.blockSize;
-		if ( list != NULL )
-		{
-			for ( i = 1; i < list->count; i++ )
-			{
-				SASBlockDealloc (list->heap[i], heapSize);
-				list->heap[i] = NULL;
-			}
-			list->max_count = 1;
-		}
-		SASBlockDealloc (heap, heapSize);
+      SASCompoundExpandList *list = headerBlock->expandList;
+      block_size_t i;
+      heapSize = headerBlock->blockHeader.blockSize;
+      if (list != NULL)
+	{
+	  for (i = 1; i < list->count; i++)
+	    {
+	      SASIndexClearPages (list->heap[i]);
+	      SASBlockDealloc (list->heap[i], heapSize);
+	      list->heap[i] = NULL;
+	    }
+	  list->max_count = 1;
+	}
+      SASIndexClearPages (headerBlock);
+      SASBlockDealloc (heap, heapSize);
 #ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexDestroyNoLock(%p) type check failed\n", heap);
+    }
+  else
+    {
+      sas_printf ("SASIndexDestroyNoLock(%p) type check failed\n",
+		  heap);
 #endif
     }
 }
 
-void 
+void
 SASIndexDestroy (SASIndex_t heap)
 {
-    SASIndexHeader	*headerBlock = (SASIndexHeader*)heap;
-    block_size_t	heapSize;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)headerBlock, 
-                                    SAS_RUNTIME_INDEX))
+  SASBlockHeader *headerBlock = (SASBlockHeader *) heap;
+
+  if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_INDEX))
     {
-    	SASLock(heap, SasUserLock__WRITE);
-    	SASCompoundExpandList	*list = headerBlock->expandList;
-    	block_size_t	i;
-		heapSize = headerBlock->blockHeader.blockSize;
-		if ( list != NULL )
-		{
-			for ( i = 1; i < list->count; i++ )
-			{
-				SASLock (list->heap[i], SasUserLock__WRITE);
-			}
-			for ( i = 1; i < list->count; i++ )
-			{
-				SASBlockDealloc (list->heap[i], heapSize);
-			}
-			for ( i = 1; i < list->count; i++ )
-			{
-				SASUnlock (list->heap[i]);
-				list->heap[i] = NULL;
-			}
-			list->max_count = 1;
-		}
-		SASBlockDealloc (headerBlock, heapSize);
-		SASUnlock(heap);
+      SASLock (heap, SasUserLock__WRITE);
+      SASIndexDestroyNoLock (heap);
+      SASUnlock (heap);
 #ifdef __SASDebugPrint__
-    } else {
-    	sas_printf("SASIndexDestroy(%p) block check failed\n", heap);
+    }
+  else
+    {
+      sas_printf ("SASIndexDestroy(%p) block check failed\n", heap);
 #endif
     }
 }
-- 
2.43.0


From 796de2dcf487e6d504dbbcbbf283637ce67e6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 65/81] fix: index keys stay reachable when nodes split,
 combine, run out of room or are released

---
 src/sasindex.cpp       | 396 +++++++++----------------------
 src/sasindexnode.cpp   | 527 ++++++++++++++++-------------------------
 src/sasindexnode.h     |   1 +
 src/sasindexnodepriv.h |   3 +
 src/sasindexpriv.h     |   3 +
 5 files changed, 320 insertions(+), 610 deletions(-)

diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index e4e1c8e..dec796b 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -1073,342 +1073,164 @@ SASIndexIsEmpty_nolock(SASIndex_t  heap)
 	return result;
 }
 
+/* The smallest and the largest key are those of the leftmost and the
+ * rightmost leaf.  */
 static inline void
-SASIndexHeaderDealloc (SASIndex_t  heap, 
-                             void *memAddr, block_size_t size)
+SASIndexUpdateMinMax (SASIndexHeader * btree)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-  	
-    freeNode_deallocSpace(((freeNode *)memAddr), &btree->headerFreeSpace, size);
-}
-
-static inline void *
-SASIndexHeaderAlloc (SASIndex_t  heap, block_size_t size)
-{
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-    void	*result = NULL;
-    
-    if (btree->headerFreeSpace)
-    {
-		result = freeNode_allocSpace(btree->headerFreeSpace, &btree->headerFreeSpace, size);
-    }
-    return result;
-}
+  SASIndexNodeHeader *node = (SASIndexNodeHeader *) btree->root;
 
-static inline void
-SASIndexUpdateMax (SASIndex_t  heap, SASIndexKey_t* key)
-{
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-    SASIndexKey_t 	*oldkey	= btree->common->max_key;
-    SASIndexKey_t	*tempkey;
-	size_t		key_len;
-	
-	if (key != NULL)
-	{
-		key_len = SASIndexKeySize(key);
-	    tempkey	= (SASIndexKey_t*)SASIndexHeaderAlloc(heap, key_len);
-	    SASIndexKeyCopy(tempkey, key);
-	    btree->common->max_key = tempkey;
-    } else {
-    	btree->common->max_key = NULL;
-    }
-    
-    if (oldkey != NULL)
+  btree->common->min_key = NULL;
+  btree->common->max_key = NULL;
+  if (node != NULL)
     {
-		key_len = SASIndexKeySize(oldkey);
-    	SASIndexHeaderDealloc(heap, oldkey,  key_len);
+      while (node->branch[0] != NULL)
+	node = node->branch[0];
+      btree->common->min_key = node->keys[1];
+
+      node = (SASIndexNodeHeader *) btree->root;
+      while (node->branch[node->count] != NULL)
+	node = node->branch[node->count];
+      btree->common->max_key = node->keys[node->count];
     }
 }
 
-static inline void
-SASIndexUpdateMin (SASIndex_t  heap, SASIndexKey_t* key)
-{
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-    SASIndexKey_t 	*oldkey	= btree->common->min_key;
-    SASIndexKey_t	*tempkey;
-	size_t		key_len;
-
-	if (key != NULL)
-	{
-		key_len = SASIndexKeySize(key);
-	    tempkey	= (SASIndexKey_t*)SASIndexHeaderAlloc(heap, key_len);
-	    SASIndexKeyCopy(tempkey, key);
-	    btree->common->min_key = tempkey;
-    } else {
-    	btree->common->min_key = NULL;
-    }
-    
-    if (oldkey != NULL)
-    {
-		key_len = SASIndexKeySize(oldkey);
-    	SASIndexHeaderDealloc(heap, oldkey,  key_len);
-    }
-}
 
 int
-SASIndexPut (SASIndex_t  heap, SASIndexKey_t *key, void *value)
+SASIndexPut (SASIndex_t heap, SASIndexKey_t *key, void *value)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-    int result = false;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
-                                    SAS_RUNTIME_INDEX))
+  int result = false;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-    	SASLock(heap, SasUserLock__WRITE);
-		
-		if (btree->root != NULL)
-		{
-			SASIndexNode_t node;
-		    node = SASIndexNodeInsert(btree->root, key, value, LOCK_OFF);
-		    if (node != NULL)
-			{
-			    btree->root = node;
-				btree->common->modCount++;
-			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 ) 
-			    	SASIndexUpdateMin(heap, key);
-			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 ) 
-			    	SASIndexUpdateMax(heap, key);
-			    result = true;
-		    } 
-		} else {
-		    btree->root = SASIndexAlloc(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
-			btree->common->modCount++;
-			result = true;
-		};
-		btree->common->count++;
-		SASUnlock(heap);
+      SASLock (heap, SasUserLock__WRITE);
+      result = SASIndexPut_nolock (heap, key, value);
+      SASUnlock (heap);
     }
-	return result; /* False indicates duplicate key */
+  return result;		/* False indicates duplicate key or no space */
 }
 
 int
-SASIndexPut_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
+SASIndexPut_nolock (SASIndex_t heap, SASIndexKey_t *key, void *value)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-    int result = false;
+  SASIndexHeader *btree = (SASIndexHeader *) heap;
+  SASIndexNode_t node;
+  int result = false;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
-                                    SAS_RUNTIME_INDEX))
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-
-		if (btree->root != NULL)
+      if (btree->root != NULL)
+	{
+	  node = SASIndexNodeInsert (btree->root, key, value, LOCK_OFF);
+	}
+      else
+	{
+	  node = SASIndexAllocNoLock (heap);
+	  if (node != NULL)
+	    {
+	      SASIndexNodeInitialize (node, key, value, LOCK_OFF);
+	      if (SASIndexNodeGetCount (node) == 0)
 		{
-			SASIndexNode_t node;
-		    node = SASIndexNodeInsert(btree->root, key, value, LOCK_OFF);
-		    if (node != NULL)
-			{
-			    btree->root = node;
-				btree->common->modCount++;
-			    if ( SASIndexKeyCompare(key, btree->common->min_key) < 0 )
-			    	SASIndexUpdateMin(heap, key);
-			    if ( SASIndexKeyCompare(key, btree->common->max_key) > 0 )
-			    	SASIndexUpdateMax(heap, key);
-			    result = true;
-		    }
-		} else {
-		    btree->root = SASIndexAllocNoLock(heap);
-		    SASIndexNodeInitialize(btree->root, key, value, LOCK_OFF);
-		    SASIndexUpdateMin(heap, key);
-		    SASIndexUpdateMax(heap, key);
-			btree->common->modCount++;
-			result = true;
-		};
-		btree->common->count++;
+		  SASIndexNodeRelease (node, LOCK_OFF);
+		  node = NULL;
+		}
+	    }
+	}
+      if (node != NULL)
+	{
+	  btree->root = node;
+	  btree->common->modCount++;
+	  btree->common->count++;
+	  SASIndexUpdateMinMax (btree);
+	  result = true;
+	}
     }
-	return result; /* False indicates duplicate key */
+  return result;		/* False indicates duplicate key or no space */
 }
 
 void *
-SASIndexReplace (SASIndex_t  heap, SASIndexKey_t *key, void *value)
+SASIndexReplace (SASIndex_t heap, SASIndexKey_t *key, void *value)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-	__IDXnodePosRef ref = {NULL, 0};
-    void	*result = NULL;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
-                                    SAS_RUNTIME_INDEX))
+  void *result = NULL;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-    	SASLock(heap, SasUserLock__WRITE);
-		btree->common->modCount++;
-		
-		if (btree->root != NULL)
-		{
-			int found;
-		    found = SASIndexNodeSearch(btree->root, key, &ref);
-		    //found = getNode(key, &ref);
-		    if (found)
-		    {
-				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
-		    }
-		}
-		btree->common->count++;
-		SASUnlock(heap);
+      SASLock (heap, SasUserLock__WRITE);
+      result = SASIndexReplace_nolock (heap, key, value);
+      SASUnlock (heap);
     }
-	return result; // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 void *
-SASIndexReplace_nolock (SASIndex_t  heap, SASIndexKey_t *key, void *value)
+SASIndexReplace_nolock (SASIndex_t heap, SASIndexKey_t *key, void *value)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-	__IDXnodePosRef ref = {NULL, 0};
-    void	*result = NULL;
+  SASIndexHeader *btree = (SASIndexHeader *) heap;
+  __IDXnodePosRef ref = { NULL, 0 };
+  void *result = NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
-                                    SAS_RUNTIME_INDEX))
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-		btree->common->modCount++;
+      btree->common->modCount++;
 
-		if (btree->root != NULL)
-		{
-			int found;
-		    found = SASIndexNodeSearch(btree->root, key, &ref);
-		    //found = getNode(key, &ref);
-		    if (found)
-		    {
-				result = SASIndexNodePutValIndexed(ref.node, ref.pos, value);
-		    }
-		}
-		btree->common->count++;
+      if ((btree->root != NULL)
+	  && SASIndexNodeSearch (btree->root, key, &ref))
+	{
+	  result =
+	    SASIndexNodePutValIndexed (ref.node, ref.pos, value);
+	}
     }
-	return result; // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 void *
-SASIndexRemove (SASIndex_t  heap, SASIndexKey_t *key)
+SASIndexRemove (SASIndex_t heap, SASIndexKey_t *key)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-	SASIndexNode_t newRoot;
-	__IDXnodePosRef ref = {NULL, 0};
-    void	*result = NULL;
-    SASIndexNodeHeader *node;
-    
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap, 
-                                    SAS_RUNTIME_INDEX))
+  void *result = NULL;
+
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-    	SASLock(heap, SasUserLock__WRITE);
-		btree->common->modCount++;
-		
-		if (btree->root != NULL)
-		{
-			int found;
-		    found = SASIndexNodeSearch(btree->root, key, &ref);
-		    //found = getNode(key, &ref);
-		    if (found)
-		    {
-				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
-			  
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDealloc(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
-				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
-				        {
-				            node = node->branch[0];
-				        }
-				        SASIndexUpdateMin(heap, node->keys[1]);
-				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
-				        {
-				            node = node->branch[node->count];
-				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
-				    }
-				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
-		    }
-		} else {
-		    btree->common->count = 0;
-		}
-		SASUnlock(heap);
+      SASLock (heap, SasUserLock__WRITE);
+      result = SASIndexRemove_nolock (heap, key);
+      SASUnlock (heap);
     }
-	return result; // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 void *
-SASIndexRemove_nolock (SASIndex_t  heap, SASIndexKey_t *key)
+SASIndexRemove_nolock (SASIndex_t heap, SASIndexKey_t *key)
 {
-    SASIndexHeader	*btree = (SASIndexHeader*)heap;
-	SASIndexNode_t newRoot;
-	__IDXnodePosRef ref = {NULL, 0};
-    void	*result = NULL;
-    SASIndexNodeHeader *node;
+  SASIndexHeader *btree = (SASIndexHeader *) heap;
+  SASIndexNode_t newRoot;
+  __IDXnodePosRef ref = { NULL, 0 };
+  void *result = NULL;
 
-    if (SOMSASCheckBlockSigAndType ((SASBlockHeader*)heap,
-                                    SAS_RUNTIME_INDEX))
+  if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) heap,
+				  SAS_RUNTIME_INDEX))
     {
-		btree->common->modCount++;
+      btree->common->modCount++;
 
-		if (btree->root != NULL)
-		{
-			int found;
-		    found = SASIndexNodeSearch(btree->root, key, &ref);
-		    //found = getNode(key, &ref);
-		    if (found)
-		    {
-				result = SASIndexNodeGetValIndexed(ref.node, ref.pos);
-		    }
+      if ((btree->root != NULL)
+	  && SASIndexNodeSearch (btree->root, key, &ref))
+	{
+	  result = SASIndexNodeGetValIndexed (ref.node, ref.pos);
 
-		    newRoot = SASIndexNodeDelete(btree->root, key, LOCK_OFF);
-		    if ( newRoot != btree->root )
-		    {   //Delete the old root which is empty
-				SASIndexNearDeallocNoLock(btree->root);
-				btree->root = newRoot;
-		    }
-		    if ( btree->root != NULL )
-		    {
-				btree->common->count--;
-				if (btree->common->count > 0)
-				{
-				    if(SASIndexKeyCompare(key, btree->common->min_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if (node->branch[0] != NULL)
-				        {
-				            node = node->branch[0];
-				        }
-				        SASIndexUpdateMin(heap, node->keys[1]);
-				    }
-				    if(SASIndexKeyCompare(key, btree->common->max_key) == 0)
-				    {
-				        node = (SASIndexNodeHeader *) btree->root;
-				        if(node->branch[node->count] != NULL)
-				        {
-				            node = node->branch[node->count];
-				        }
-				        SASIndexUpdateMax(heap ,node->keys[(node->count)]);
-				    }
-				}
-		    } else {
-				btree->common->count = 0;
-				SASIndexUpdateMax(heap, NULL);
-				SASIndexUpdateMin(heap, NULL);
-		    }
-		} else {
-		    btree->common->count = 0;
-		}
+	  newRoot = SASIndexNodeDelete (btree->root, key, LOCK_OFF);
+	  if (newRoot != btree->root)
+	    {			//Delete the old root which is empty
+	      SASIndexNodeRelease (btree->root, LOCK_OFF);
+	      btree->root = newRoot;
+	    }
+	  btree->common->count--;
+	  SASIndexUpdateMinMax (btree);
+	}
     }
-	return result; // return prev value if already exist
+  return result;		// return prev value if already exist
 }
 
 #if 0
diff --git a/src/sasindexnode.cpp b/src/sasindexnode.cpp
index 1a3bd74..f97e3c3 100644
--- a/src/sasindexnode.cpp
+++ b/src/sasindexnode.cpp
@@ -343,83 +343,73 @@ SASIndexNodeNearDealloc (SASIndexNode_t heap, void *free_block,
 void *
 SASIndexNodeNearAlloc (void *nearObj, long allocSize, lock_on_t lock_on)
 {
+  SASBlockHeader *nearHeader = SASFindHeader (nearObj);
   void *result;
+
   result = SASNearAlloc (nearObj, allocSize);
-  if (result == NULL)
-    {
-      SASBlockHeader *nearHeader = SASFindHeader (nearObj);
-      SASIndexHeader *compoundHeader = NULL;
-      SASIndexSpillList *spill_lst = NULL;
-      SASIndexNode_t newHeap;
+  if ((result == NULL) && (nearHeader != NULL)
+      && SOMSASCheckBlockSig (nearHeader)
+      && (nearHeader->baseBlock != nearHeader)
+      && (nearHeader->baseBlock != NULL)
+      && (allocSize < (long) (nearHeader->blockSize - heap_offset)))
+    {
+      SASIndexHeader *compoundHeader =
+	(SASIndexHeader *) nearHeader->baseBlock;
+      SASIndexSpillList *spill_lst = SASIndexGetSpill (compoundHeader);
+      SASIndexNodeHeader *spill;
+
+      if (lock_on) SASLock (compoundHeader, SasUserLock__WRITE);
+      for (int i = 0; (i < spill_lst->count) && (result == NULL); i++)
+	{
+	  for (spill = spill_lst->spillHeap[i];
+	       (spill != NULL) && (result == NULL); spill = spill->spill)
+	    result = SASIndexNodeAllocNoLock (spill, allocSize);
+	}
 
-#if __SASDebugPrint__ > 1
-      sas_printf ("NearAlloc@%p, size=%d far lock_on=%d\n", newHeap, allocSize, lock_on);
-#endif
-      newHeap = SASIndexNodeVerify ((SASIndexNode_t) nearHeader);
-#ifdef __SASDebugPrint__
-      sas_printf ("SASIndexNodeNearAlloc(%p, %zu, %d) failed\n",
-		  newHeap, allocSize, lock_on);
-      sas_printf (" freespace=%zu,  fragments=%zu,  max_free_block=%zu\n",
-		  SASIndexNodeFreeSpaceNoLock (newHeap),
-		  SASIndexNodeFreeFragmentsNoLock (newHeap),
-		  SASIndexNodeMaxFragmentNoLock (newHeap));
-#endif
-      if (nearHeader != NULL)
+      if (result == NULL)
 	{
-	  if (SOMSASCheckBlockSig (nearHeader))
+	  SASIndexNode_t newHeap = SASIndexSpillAlloc (nearObj, lock_on);
+	  if (newHeap != NULL)
 	    {
-	      if ((nearHeader->baseBlock != nearHeader)
-		  && (nearHeader->baseBlock != NULL))
-		{
-		  compoundHeader = (SASIndexHeader *) nearHeader->baseBlock;
-		}
-	      spill_lst = SASIndexGetSpill (compoundHeader);
-	      if (lock_on) SASLock (spill_lst, SasUserLock__WRITE);
-	      if (spill_lst->count == 0)
-		{
-		  newHeap = SASIndexSpillAlloc (nearObj, lock_on);
-		  if (newHeap != NULL)
-		    {
-		      result = SASIndexNodeAllocNoLock (newHeap, allocSize);
+	      result = SASIndexNodeAllocNoLock (newHeap, allocSize);
 #ifdef __SASDebugPrint__
-		      sas_printf
-			("SASIndexNodeNearAlloc(%p, %zu, %d) added spill area@%p\n",
-			 nearObj, allocSize, lock_on, newHeap);
-#endif
-		    }
-		}
-
-	      if (result == NULL)
-		{
-		  for (int i = 0; i < spill_lst->count; i++)
-		    {
-		      newHeap = (SASIndexNode_t) spill_lst->spillHeap[i];
-		      result = SASIndexNodeAlloc (newHeap, allocSize, lock_on);
-		      if (result != NULL)
-			break;
-		    }
-		}
-
-	      if (result == NULL)
-		{
-		  newHeap = SASIndexSpillAlloc (nearObj, lock_on);
-		  if (newHeap != NULL)
-		    {
-		      result = SASIndexNodeAllocNoLock (newHeap, allocSize);
-#ifdef __SASDebugPrint__
-		      sas_printf
-			("SASIndexNodeNearAlloc(%p, %zu, %d) added spill area@%p\n",
-			 nearObj, allocSize, lock_on, newHeap);
+	      sas_printf
+		("SASIndexNodeNearAlloc(%p, %ld, %d) added spill area@%p\n",
+		 nearObj, allocSize, lock_on, newHeap);
 #endif
-		    }
-		}
-	      if (lock_on) SASUnlock (spill_lst);
 	    }
 	}
+      if (lock_on) SASUnlock (compoundHeader);
     }
   return result;
 }
 
+/* Give back the page of a node that is no longer used. Keys of other nodes
+ * may have been left in it, then it remains as a spill page.  */
+void
+SASIndexNodeRelease (SASIndexNode_t heap, lock_on_t lock_on)
+{
+  SASIndexNodeHeader *node = (SASIndexNodeHeader *) heap;
+  block_size_t tableSize = sizeof (void *) * (node->max_count + 1);
+
+  SASIndexNodeFreeNoLock (heap, node->keys, tableSize);
+  SASIndexNodeFreeNoLock (heap, node->branch, tableSize);
+  SASIndexNodeFreeNoLock (heap, node->vals, tableSize);
+  node->keys = NULL;
+  node->branch = NULL;
+  node->vals = NULL;
+  node->count = 0;
+  node->max_count = 0;
+
+  if (SASIndexNodeFreeSpaceNoLock (heap)
+      < node->blockHeader.blockSize - heap_offset)
+    SASIndexSpillAdd (heap, lock_on);
+  else if (lock_on == LOCK_ON)
+    SASIndexNearDealloc (heap);
+  else
+    SASIndexNearDeallocNoLock (heap);
+}
+
 /*
 void SASIndexNodeNearDealloc(void *memAddr, long allocSize)
 {							
@@ -1202,55 +1192,36 @@ SASIndexNodeSearchLE (SASIndexNode_t header,
   return result;
 }
 
-static inline void
-SASIndexNodeKeyMove (SASIndexNode_t heap, short pos,
-		SASIndexKey_t * key, lock_on_t lock_on)
+/* Make key the key at pos. The key is kept in the node's own page if there
+ * is room. Otherwise it goes to a spill page, or stays where it is.  */
+static void
+SASIndexNodeKeyPlace (SASIndexNode_t heap, short pos, SASIndexKey_t *key,
+			     lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) heap;
-  SASIndexKey_t *oldkey = node->keys[pos];
-  SASIndexKey_t *tempkey;
-  size_t key_len = SASIndexKeySize (key);
-
-  tempkey = (SASIndexKey_t *) SASIndexNodeNearAlloc (heap, key_len, lock_on);
-  SASIndexKeyCopy (tempkey, key);
-  node->keys[pos] = tempkey;
+  unsigned long low = (unsigned long) node;
+  unsigned long high = low + node->blockHeader.blockSize;
 
-  if (oldkey != NULL)
+  node->keys[pos] = key;
+  if (((unsigned long) key < low) || ((unsigned long) key >= high))
     {
-      int keylen = SASIndexKeySize (oldkey);
-      SASIndexNodeNearDealloc (heap, oldkey, keylen, lock_on);
-      node->keys[pos] = NULL;
-    }
+      block_size_t key_len = SASIndexKeySize (key);
+      SASIndexKey_t *nearkey =
+	(SASIndexKey_t *) SASIndexNodeAllocNoLock (heap, key_len);
 
-  if (key != NULL)
-    {
-      if ((unsigned long) key >= getfastMemLow ())
+      if ((nearkey == NULL)
+	  && !SASIndexNodeIsSpill (SASFindHeader (key)))
+	nearkey =
+	  (SASIndexKey_t *) SASIndexNodeNearAlloc (heap, key_len, lock_on);
+      if (nearkey != NULL)
 	{
-	  if ((unsigned long) key <= getfastMemHigh ())
-	    SASIndexNodeNearDealloc (heap, key, key_len, lock_on);
+	  SASIndexKeyCopy (nearkey, key);
+	  node->keys[pos] = nearkey;
+	  SASIndexNodeNearDealloc (heap, key, key_len, lock_on);
 	}
     }
 }
 
-static inline void
-SASIndexNodeKeyCopy (SASIndexNode_t heap, short pos,
-		const SASIndexKey_t * key, lock_on_t lock_on)
-{
-  SASIndexNodeHeader *node = (SASIndexNodeHeader *) heap;
-  SASIndexKey_t *oldkey = node->keys[pos];
-  SASIndexKey_t *tempkey;
-  size_t key_len = SASIndexKeySize (key);
-
-  tempkey = (SASIndexKey_t *) SASIndexNodeNearAlloc (heap, key_len, lock_on);
-  SASIndexKeyCopy (tempkey, key);
-  node->keys[pos] = tempkey;
-
-  if (oldkey != NULL)
-    {
-      int keylen = SASIndexKeySize (oldkey);
-      SASIndexNodeNearDealloc (heap, oldkey, keylen, lock_on);
-    }
-}
 
 static inline void
 SASIndexNodeKeyDelete (SASIndexNode_t heap, short pos,
@@ -1267,65 +1238,94 @@ SASIndexNodeKeyDelete (SASIndexNode_t heap, short pos,
     }
 }
 
-static inline void
-SASIndexNodeKeyReplace (SASIndexNode_t heap, short pos,
-		const SASIndexKey_t * key, lock_on_t lock_on)
-{
-  SASIndexNodeHeader *node = (SASIndexNodeHeader *) heap;
-  SASIndexKey_t *tempkey;
-  size_t key_len = SASIndexKeySize (key);
-
-  tempkey = (SASIndexKey_t *) SASIndexNodeNearAlloc (heap, key_len, lock_on);
-  SASIndexKeyCopy (tempkey, key);
-  node->keys[pos] = tempkey;
-}
-
-void
-SASIndexNodePushIn (SASIndexNode_t node_t, __IDXnodeKeyRef * ref,
-		short k, lock_on_t lock_on)
+static void
+SASIndexNodePushIn (SASIndexNode_t node_t,
+			  __IDXnodeKeyRef * ref, short k, lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
-  char *str_ptr;
-  char *end_ptr;
-  SASIndexKey_t *temp_key;
-  size_t key_len, max_frag;
   short i;
 #ifdef __SASDebugPrint__
-  sas_printf ("PushIn@%p ref->key@%p=%lx k=%hd lock_on=%d\n",
-		  node, ref->key, ref->key->data[0], k, lock_on);
+  sas_printf ("PushIn@%p ref->key=%p k=%hd lock_on=%d\n", node, ref->key, k, lock_on);
 #endif
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
   for (i = node->count; i >= (k + 1); i--)
     {
-      node->keys[i + 1] = node->keys[i];
+      SASIndexNodeKeyPlace (node_t, (i + 1), node->keys[i], lock_on);
       node->vals[i + 1] = node->vals[i];
       node->branch[i + 1] = node->branch[i];
-      temp_key = node->keys[i + 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = SASIndexKeySize (temp_key);
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("PushIn@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i + 1), temp_key, key_len);
-#endif
-	      SASIndexNodeKeyCopy ((SASIndexNode_t) node, (i + 1), temp_key, lock_on);
-	      max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
 
-  SASIndexNodeKeyReplace (node, (k + 1), ref->key, lock_on);
+  SASIndexNodeKeyPlace (node_t, (k + 1), ref->key, lock_on);
   node->vals[k + 1] = ref->val;
   node->branch[k + 1] = (SASIndexNodeHeader *) ref->node;
   node->count++;
 }
 
+/* Take one of the pages set aside for this insert.  */
+static SASIndexNodeHeader *
+SASIndexNodeTakePage (__IDXnodeKeyRef * ref)
+{
+  SASIndexNodeHeader *page = (SASIndexNodeHeader *) ref->pages;
+
+  ref->pages = page->spill;
+  page->spill = NULL;
+  return page;
+}
+
+/* Get all that the insert of newkey needs before anything is changed: a copy
+ * of the key near the leaf it goes to, and a page for every full node that
+ * will be split and for a new root.  */
+static int
+SASIndexNodeReserve (SASIndexNode_t node_t,
+			    const SASIndexKey_t *newkey, void *newval,
+			    __IDXnodeKeyRef * ref, lock_on_t lock_on)
+{
+  SASIndexNodeHeader *node;
+  SASIndexNodeHeader *next = (SASIndexNodeHeader *) node_t;
+  block_size_t key_len = SASIndexKeySize (newkey);
+  short count = 1;
+  short pos;
+
+  do
+    {
+      node = next;
+      pos = SASIndexNodeSearchNode (node, newkey);
+      if (pos >= 0)
+	{
+	  ref->dupKey = true;
+	  return false;
+	}
+      count = (node->count < node->max_count) ? 0 : (short) (count + 1);
+      next = node->branch[pos + 256];
+    }
+  while (next != NULL);
+
+  ref->key = (SASIndexKey_t *) SASIndexNodeNearAlloc (node, key_len, lock_on);
+  if (ref->key == NULL)
+    return false;
+  SASIndexKeyCopy (ref->key, newkey);
+  ref->val = newval;
+  ref->node = NULL;
+
+  for (; count > 0; count--)
+    {
+      SASIndexNodeHeader *page;
+      if (lock_on == LOCK_ON)
+	page = (SASIndexNodeHeader *) SASIndexNearAlloc (node);
+      else
+	page = (SASIndexNodeHeader *) SASIndexNearAllocNoLock (node);
+      if (page == NULL)
+	{
+	  while (ref->pages != NULL)
+	    SASIndexNodeRelease (SASIndexNodeTakePage (ref), lock_on);
+	  SASIndexNodeNearDealloc (node, ref->key, key_len, lock_on);
+	  return false;
+	}
+      page->spill = (SASIndexNodeHeader *) ref->pages;
+      ref->pages = page;
+    }
+  return true;
+}
+
 void
 SASIndexNodeSplit (SASIndexNode_t node_t,
 		   __IDXnodeKeyRef * xref, short k, __IDXnodeKeyRef * yref,
@@ -1338,10 +1338,6 @@ SASIndexNodeSplit (SASIndexNode_t node_t,
   SASIndexNodeHeader **thisBranch = node->branch;
   void **thisVals = node->vals;
   SASIndexNodeHeader *yr;	// temp in case xref & yref are same
-  char *str_ptr;
-  char *end_ptr;
-  SASIndexKey_t *temp_key;
-  size_t key_len, max_frag;
 
   if (k <= min)
     {
@@ -1355,10 +1351,7 @@ SASIndexNodeSplit (SASIndexNode_t node_t,
   sas_printf ("Split@%p x=%p k=%hd median=%ld lock_on=%d\n", node, xref->key, k, median, lock_on);
 #endif
 
-  if (lock_on == LOCK_ON)
-    yr = (SASIndexNodeHeader *) SASIndexNearAlloc (node_t);
-  else
-    yr = (SASIndexNodeHeader *) SASIndexNearAllocNoLock (node_t);
+  yr = SASIndexNodeTakePage (xref);
 
   SASIndexNodeHeader **yrBranch = yr->branch;
   void **yrVals = yr->vals;
@@ -1370,7 +1363,7 @@ SASIndexNodeSplit (SASIndexNode_t node_t,
 	    		  yr, i, thisKeys[i]->data[0], (i - median));
 #endif
 
-      SASIndexNodeKeyMove (yr, (i - median), thisKeys[i], lock_on);
+      SASIndexNodeKeyPlace (yr, (i - median), thisKeys[i], lock_on);
       yrVals[i - median] = thisVals[i];
       yrBranch[i - median] = thisBranch[i];
     }
@@ -1400,27 +1393,10 @@ SASIndexNodeSplit (SASIndexNode_t node_t,
       thisBranch[i] = NULL;
     }
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-  for (i = 1; i <= (node->count); i++)
+  // keys may fit into the page now
+  for (i = 1; i <= node->count; i++)
     {
-      temp_key = node->keys[i];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = SASIndexKeySize (temp_key);
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("Split@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i + 1), temp_key, key_len);
-#endif
-	      SASIndexNodeKeyCopy ((SASIndexNode_t) node, i, temp_key, lock_on);
-	      max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-	    }
-	}
+      SASIndexNodeKeyPlace (node_t, i, thisKeys[i], lock_on);
     }
 }
 
@@ -1470,9 +1446,6 @@ SASIndexNodePushDown (SASIndexNode_t node_t,
   else
     {
       pushup = true;
-      ref->key = newkey;
-      ref->val = newval;
-      ref->node = NULL;
     }
 
 #ifdef __SASDebugPrint__
@@ -1499,66 +1472,55 @@ SASIndexNodePushDown (SASIndexNode_t node_t,
 
 SASIndexNode_t
 SASIndexNodeInitialize (SASIndexNode_t node_t,
-			const SASIndexKey_t * newkey, void *newval, lock_on_t lock_on)
+			      const SASIndexKey_t *newkey, void *newval,
+				lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
-  SASIndexNode_t result = node_t;
+  block_size_t key_len = SASIndexKeySize (newkey);
+  SASIndexKey_t *key;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Initialize@%p newkey=%lx, newval=%p lock_on=%d\n",
-	      node, newkey->data[0], newval, lock_on);
+		node, newkey->data[0], newval, lock_on);
 #endif
-  node->count = 1;
-  SASIndexNodeKeyCopy (node, 1, newkey, lock_on);
-  node->vals[1] = newval;
-  node->branch[1] = NULL;
-  node->branch[0] = NULL;
-
-  return result;
+  key = (SASIndexKey_t *) SASIndexNodeNearAlloc (node_t, key_len, lock_on);
+  if (key != NULL)
+    {
+      SASIndexKeyCopy (key, newkey);
+      node->count = 1;
+      node->keys[1] = key;
+      node->vals[1] = newval;
+      node->branch[1] = NULL;
+      node->branch[0] = NULL;
+    }
+  return node_t;
 }
 
 SASIndexNode_t
 SASIndexNodeInsert (SASIndexNode_t node_t,
-		    SASIndexKey_t * newkey, void *newval, lock_on_t lock_on)
+			  SASIndexKey_t *newkey, void *newval, lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
   int pushup;
-  __IDXnodeKeyRef xref = { NULL, NULL, NULL, false };
+  __IDXnodeKeyRef xref = { NULL, NULL, NULL, false, NULL };
   SASIndexNode_t result = node_t;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Insert@%p newkey=%lx lock_on=%d\n", node, newkey->data[0], lock_on);
 #endif
+  if (!SASIndexNodeReserve (node_t, newkey, newval, &xref, lock_on))
+    return NULL;		/* we have a dup key error, or no space */
+
   pushup = SASIndexNodePushDown (node_t, newkey, newval, &xref, lock_on);
   if (pushup)
     {
-      SASIndexNodeHeader *new_node;
-
-
-      if (lock_on == LOCK_ON)
-        result = SASIndexNearAlloc (node_t);
-      else
-        result = SASIndexNearAllocNoLock (node_t);
-
-      new_node = (SASIndexNodeHeader *) result;
+      SASIndexNodeHeader *new_node = SASIndexNodeTakePage (&xref);
+      result = new_node;
       new_node->count = 1;
-#if __SASDebugPrint__ > 1
-	  sas_printf ("Insert:pushup@%p key@%p key=%lx val=%p to=1\n",
-			  new_node, xref.key, xref.val, xref.key->data[0]);
-#endif
-      SASIndexNodeKeyMove (new_node, 1, xref.key, lock_on);
+      SASIndexNodeKeyPlace (new_node, 1, xref.key, lock_on);
       new_node->vals[1] = xref.val;
       new_node->branch[1] = (SASIndexNodeHeader *) xref.node;
       new_node->branch[0] = node;
-#if __SASDebugPrint__ > 1
-	  sas_printf ("Insert:top@%p left@%p right=%p val=%p\n",
-			  result, new_node->branch[0], new_node->branch[1], new_node->vals[1]);
-#endif
-    }
-  else
-    {
-      if (xref.dupKey)
-	  result = NULL;		/* we have a dup key error */
     }
 
   return result;
@@ -1567,53 +1529,24 @@ SASIndexNodeInsert (SASIndexNode_t node_t,
 /* removes key[k] & branch[k] from this node */
 void
 SASIndexNodeRemove (SASIndexNode_t node_t, short pos,
-		lock_on_t lock_on)
+			lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
   SASIndexNodeHeader *q;
-  char *str_ptr;
-  char *end_ptr;
-  SASIndexKey_t *temp_key;
-  size_t key_len, max_frag;
   short i;
 
   q = ((SASIndexNodeHeader *) node->branch[pos]);
 #ifdef __SASDebugPrint__
-  sas_printf ("Remove@%p pos=%hd branch=%p lock_on=%d\n", node_t, pos, q, lock_on);
-  if (node->keys[pos])
-    sas_printf ("key[%hd]=%lx\n", pos, node->keys[pos]->data[0]);
+  sas_printf ("Remove@%p key[%hd] branch=%p lock_on=%d\n",
+	      node_t, pos, q, lock_on);
 #endif
   SASIndexNodeKeyDelete (node_t, pos, lock_on);
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
   for (i = (short) (pos + 1); i <= node->count; i++)
     {
-      node->keys[i - 1] = node->keys[i];
+      SASIndexNodeKeyPlace (node_t, (i - 1), node->keys[i], lock_on);
       node->vals[i - 1] = node->vals[i];
       node->branch[i - 1] = node->branch[i];
-#if  __SASDebugPrint__ > 1
-      sas_printf ("Remove copy key[%hd]=%lx to %d\n",
-		  i, node->keys[i]->data[0], (i - 1));
-#endif
-      temp_key = node->keys[i - 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = SASIndexKeySize (temp_key);
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("Remove@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (i - 1), temp_key, key_len);
-#endif
-	      SASIndexNodeKeyCopy ((SASIndexNode_t) node, (i - 1),
-	    		  temp_key, lock_on);
-	      max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
   node->keys[node->count] = NULL;
   node->vals[node->count] = NULL;
@@ -1628,7 +1561,7 @@ SASIndexNodeRemove (SASIndexNode_t node_t, short pos,
 #ifdef __SASDebugPrint__
       sas_printf ("Remove: delete branch for pos=%hd @%p\n", pos, q);
 #endif
-      SASIndexNearDealloc (q);
+      SASIndexNodeRelease (q, lock_on);
     }
 #if __SASDebugPrint__ > 1
   sas_printf ("Remove: subtree=");
@@ -1639,7 +1572,7 @@ SASIndexNodeRemove (SASIndexNode_t node_t, short pos,
 
 void
 SASIndexNodeCombine (SASIndexNode_t node_t, short pos,
-		lock_on_t lock_on)
+				lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
   SASIndexNodeHeader *q, *r;
@@ -1652,47 +1585,36 @@ SASIndexNodeCombine (SASIndexNode_t node_t, short pos,
   q = ((SASIndexNodeHeader *) node->branch[pos]);
   r = ((SASIndexNodeHeader *) node->branch[pos - 1]);
   r->count++;
-  //r->keys[r->count] = node->keys[pos];
-  SASIndexNodeKeyMove (r, r->count, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;	// Move frees the key string in node
+  SASIndexNodeKeyPlace (r, r->count, node->keys[pos], lock_on);
+  node->keys[pos] = NULL;	// the key now belongs to r
   r->vals[r->count] = node->vals[pos];
   r->branch[r->count] = q->branch[0];
   q->branch[0] = NULL;
 
-#ifdef __SASDebugPrint__
-  sas_printf ("Combine move=%p\n", node->keys[pos]);
-#endif
   for (c = 1; c <= q->count; c++)
     {
       r->count++;
-      // r->keys[r->count] = q->keys[c];
-      SASIndexNodeKeyMove (r, r->count, q->keys[c], lock_on);
+      SASIndexNodeKeyPlace (r, r->count, q->keys[c], lock_on);
       q->keys[c] = NULL;
       r->vals[r->count] = q->vals[c];
       q->vals[c] = NULL;
       r->branch[r->count] = q->branch[c];
       q->branch[c] = NULL;
-#if __SASDebugPrint__ > 1
-      sas_printf ("Combine copy=%s\n", r->keys[r->count]);
-#endif
     }
 // remove pivot, since it hase been combined
   node->branch[pos] = NULL;
   node->vals[pos] = NULL;
   SASIndexNodeRemove (node_t, pos, lock_on);
 // dispose of q, since it is empty
-  SASIndexNearDealloc (q);
+  SASIndexNodeRelease (q, lock_on);
 }
 
 void
-SASIndexNodeMoveLeft (SASIndexNode_t node_t, short pos, lock_on_t lock_on)
+SASIndexNodeMoveLeft (SASIndexNode_t node_t, short pos,
+				lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
   SASIndexNodeHeader *l, *r;
-  char *str_ptr;
-  char *end_ptr;
-  SASIndexKey_t *temp_key;
-  size_t key_len, max_frag;
   short c;
 
   l = ((SASIndexNodeHeader *) node->branch[pos - 1]);
@@ -1702,41 +1624,21 @@ SASIndexNodeMoveLeft (SASIndexNode_t node_t, short pos, lock_on_t lock_on)
 #endif
   l->count++;
   // l->keys[l->count] = node->keys[pos];
-  SASIndexNodeKeyMove (l, l->count, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;
+  SASIndexNodeKeyPlace (l, l->count, node->keys[pos], lock_on);
   l->vals[l->count] = node->vals[pos];
   l->branch[l->count] = r->branch[0];
 
   //node->keys[pos] = r->keys[1];
-  SASIndexNodeKeyMove (node, pos, r->keys[1], lock_on);
+  SASIndexNodeKeyPlace (node, pos, r->keys[1], lock_on);
   node->vals[pos] = r->vals[1];
   r->branch[0] = r->branch[1];
   r->count--;
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
   for (c = 1; c <= r->count; c++)
     {
-      r->keys[c] = r->keys[c + 1];
+      SASIndexNodeKeyPlace (r, c, r->keys[c + 1], lock_on);
       r->vals[c] = r->vals[c + 1];
       r->branch[c] = r->branch[c + 1];
-      temp_key = r->keys[c];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = SASIndexKeySize (temp_key);
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("MoveLeft@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (c), temp_key, key_len);
-#endif
-	      SASIndexNodeKeyCopy ((SASIndexNode_t) r, (c), temp_key, lock_on);
-	      max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     }
   r->keys[r->count + 1] = NULL;
   r->vals[r->count + 1] = NULL;
@@ -1750,14 +1652,10 @@ SASIndexNodeMoveLeft (SASIndexNode_t node_t, short pos, lock_on_t lock_on)
 
 void
 SASIndexNodeMoveRight (SASIndexNode_t node_t, short pos,
-		lock_on_t lock_on)
+				lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) node_t;
   SASIndexNodeHeader *l, *r;
-  char *str_ptr;
-  char *end_ptr;
-  SASIndexKey_t *temp_key;
-  size_t key_len, max_frag;
   short c;
 
   l = ((SASIndexNodeHeader *) node->branch[pos - 1]);
@@ -1766,36 +1664,14 @@ SASIndexNodeMoveRight (SASIndexNode_t node_t, short pos,
   sas_printf ("MoveRight@%p pos=%hd left@%p right@%p lock_on=%d\n", node_t, pos, l, r, lock_on);
 #endif
 
-  str_ptr = (char *) node;
-  end_ptr = str_ptr + node->blockHeader.blockSize;
-  max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
   for (c = r->count; c >= 1; c--)
     {
-      r->keys[c + 1] = r->keys[c];
+      SASIndexNodeKeyPlace (r, (c + 1), r->keys[c], lock_on);
       r->vals[c + 1] = r->vals[c];
       r->branch[c + 1] = r->branch[c];
-      temp_key = r->keys[c + 1];
-      if (((unsigned long) temp_key < (unsigned long) str_ptr)
-	  || ((unsigned long) temp_key > (unsigned long) end_ptr))
-	{
-	  /* far key */
-	  key_len = SASIndexKeySize (temp_key);
-	  if (key_len <= max_frag)
-	    {
-#if __SASDebugPrint__ > 1
-	      sas_printf ("MoveRight@%p copy far pos=%hd key@%p len=%d\n",
-			  node_t, (c + 1), temp_key, key_len);
-#endif
-	      SASIndexNodeKeyCopy ((SASIndexNode_t) r, (c + 1),
-	    		  temp_key, lock_on);
-	      max_frag = SASIndexNodeMaxFragmentNoLock (node_t);
-	    }
-	}
     };
   // r->keys[1] = node->keys[pos];
-  r->keys[1] = NULL;
-  SASIndexNodeKeyMove (r, 1, node->keys[pos], lock_on);
-  node->keys[pos] = NULL;
+  SASIndexNodeKeyPlace (r, 1, node->keys[pos], lock_on);
   r->vals[1] = node->vals[pos];
   r->branch[1] = r->branch[0];
   r->count++;
@@ -1806,7 +1682,7 @@ SASIndexNodeMoveRight (SASIndexNode_t node_t, short pos,
 #endif
 
   // node->keys[pos] = l->keys[l->count];
-  SASIndexNodeKeyMove (node, pos, l->keys[l->count], lock_on);
+  SASIndexNodeKeyPlace (node, pos, l->keys[l->count], lock_on);
   node->vals[pos] = l->vals[l->count];
   r->branch[0] = l->branch[l->count];
 
@@ -1896,6 +1772,8 @@ SASIndexNodeSuccessor (SASIndexNode_t header, short pos, lock_on_t lock_on)
 {
   SASIndexNodeHeader *node = (SASIndexNodeHeader *) header;
   SASIndexNodeHeader *q;
+  SASIndexKey_t *key;
+  void *val;
 
 #ifdef __SASDebugPrint__
   sas_printf ("Successor@%p pos=%hd lock_on=%d\n", header, pos, lock_on);
@@ -1912,11 +1790,14 @@ SASIndexNodeSuccessor (SASIndexNode_t header, short pos, lock_on_t lock_on)
   sas_printf ("Successor@%p replace key=%p with key=%p\n ",
 	      header, node->keys[pos], q->keys[1]);
 #endif
-  // node->keys[k] = q->keys[1];
-  SASIndexNodeKeyCopy (node, pos, q->keys[1], lock_on);
-//      q->keys[1] = NULL;
+  // the successor takes the place of the key and the key that of the
+  // successor, from where it is deleted
+  key = node->keys[pos];
+  val = node->vals[pos];
+  SASIndexNodeKeyPlace (node, pos, q->keys[1], lock_on);
   node->vals[pos] = q->vals[1];
-//      q->vals[1] = NULL;
+  q->keys[1] = key;
+  q->vals[1] = val;
 #ifdef __SASDebugPrint__
   sas_printf ("Successor@%p key[%hd]=%lx @%p\n",
 	      header, pos, node->keys[pos]->data[0], node->keys[pos]);
@@ -1966,7 +1847,7 @@ SASIndexNodeRecDelete (SASIndexNode_t header, const SASIndexKey_t * target,
 	  q = ((SASIndexNodeHeader *) node->branch[k]);
 	  if (q != NULL)
 	    {
-	      found = SASIndexNodeRecDelete (q, node->keys[k], lock_on);
+	      found = SASIndexNodeRecDelete (q, target, lock_on);
 #if __SASDebugPrint__ > 1
 	      sas_printf ("RecDelete after Successor found=%d\n", found);
 	      sas_printf ("RecDelete: subtree=");
diff --git a/src/sasindexnode.h b/src/sasindexnode.h
index 1d58332..7ff369b 100644
--- a/src/sasindexnode.h
+++ b/src/sasindexnode.h
@@ -36,6 +36,7 @@ typedef struct __IDXnodeKeyRef
   SASIndexKey_t *key;
   void *val;
   int dupKey;
+  SASIndexNode_t pages;
 } __IDXnodeKeyRef;
 
 #ifdef __cplusplus
diff --git a/src/sasindexnodepriv.h b/src/sasindexnodepriv.h
index bd98cda..1de6ff5 100644
--- a/src/sasindexnodepriv.h
+++ b/src/sasindexnodepriv.h
@@ -46,6 +46,9 @@ SASIndexNodeFreeFragmentsNoLock (SASIndexNode_t heap);
 extern block_size_t
 SASIndexNodeMaxFragmentNoLock (SASIndexNode_t heap);
 
+extern void
+SASIndexNodeRelease (SASIndexNode_t heap, lock_on_t lock_on);
+
 extern int
 SASIndexNodeIsSpill (SASIndexNode_t heap);
 
diff --git a/src/sasindexpriv.h b/src/sasindexpriv.h
index 6fbc759..28ef26d 100644
--- a/src/sasindexpriv.h
+++ b/src/sasindexpriv.h
@@ -197,6 +197,9 @@ SASIndexGetRootNode (SASIndex_t btree);
 extern __C__ SASIndexNode_t
 SASIndexGetRootNode_nolock (SASIndex_t btree);
 
+extern void
+SASIndexSpillAdd (SASIndexNode_t heap, lock_on_t lock_on);
+
 extern SASIndexNode_t
 SASIndexSpillAlloc (void *nearObj, lock_on_t lock_on);
 
-- 
2.43.0


From a18aa5ba78af9b5895c75ba27e9604f45051b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 66/81] fix: an index enumeration visits each key once

---
 src/sasindexenum.cpp | 212 ++++++++-----------------------------------
 1 file changed, 38 insertions(+), 174 deletions(-)

diff --git a/src/sasindexenum.cpp b/src/sasindexenum.cpp
index d86b9b1..e499dfb 100644
--- a/src/sasindexenum.cpp
+++ b/src/sasindexenum.cpp
@@ -28,7 +28,7 @@
 typedef struct __IDXEnumeration
 {
   SASIndex_t tree;
-  SASIndexKey_t *curkey;
+  SASIndexKey_t *curkey;	/* the enumeration's own copy */
   __IDXnodePosRef ref;
   long curmod;
   bool hasmore;
@@ -81,115 +81,11 @@ void *
 SASIndexEnumNext (SASIndexEnum_t idxenum)
 {
   __IDXEnumeration *indexenum = (__IDXEnumeration *) idxenum;
-  void *result = NULL;
-  bool found = false;
-  SASIndexKey_t *maxkey;
-
+  void *result;
 
   SASLock (indexenum->tree, SasUserLock__WRITE);
-  maxkey = SASIndexGetMaxKey (indexenum->tree);
-#if __SASDebugPrint__ > 1
-  sas_printf ("SASIndexEnumNext; enum->tree=%p maxkey=%p\n",
-		  indexenum->tree, maxkey);
-#endif
-  if (maxkey != NULL)
-    {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-      if (indexenum->hasmore)
-	{
-	  SASIndexNode_t curnode = indexenum->ref.node;
-	  long treemod = SASIndexGetModCount (indexenum->tree);
-
-	  if ((curnode != NULL) && (treemod == indexenum->curmod))
-	    {
-	      short curpos = indexenum->ref.pos;
-	      SASIndexNodeHeader *curSBnode = (SASIndexNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
-		{
-		  if (curSBnode->branch[curpos] == NULL)
-		    {
-		      curpos++;
-		      indexenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
-		      indexenum->hasmore =
-			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-		      found = true;
-		    }
-		  else
-		    {
-		      found =
-			SASIndexNodeSearchGT (curnode, indexenum->curkey,
-					      &indexenum->ref);
-		      if (found)
-			{
-			  curnode = indexenum->ref.node;
-			  curSBnode = (SASIndexNodeHeader *) curnode;
-			  curpos = indexenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
-			  indexenum->hasmore =
-			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
-			     0);
-			}
-		    }
-		}
-	    }
-	  if (!found)
-	    {
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext; !found enum->tree=%p curkey=%p=%ix\n",
-				  indexenum->tree, indexenum->curkey, indexenum->curkey->data[0]);
-#endif
-	      SASIndexNode_t curnode = SASIndexGetRootNode (indexenum->tree);
-	      if (indexenum->ref.node == NULL)
-	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
-					      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-		      sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGE=%d\n",
-				  curnode, found);
-#endif
-	      } else {
-	          found = SASIndexNodeSearchGT (curnode, indexenum->curkey,
-				      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-	          sas_printf ("SASIndexEnumNext; !found curnode=%p SearchGT=%d\n",
-				  curnode, found);
-#endif
-	      }
-	      if (found)
-		{
-		  short curpos = indexenum->ref.pos;
-		  SASIndexNodeHeader *curSBnode =
-		    (SASIndexNodeHeader *) indexenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
-		  indexenum->curmod = treemod;
-		  indexenum->hasmore =
-		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext; curpos=%hd node=%p result=%p\n",
-				  curpos, curSBnode, result);
-#endif
-		}
-	      else
-		{
-		  indexenum->hasmore = false;
-		}
-	    }
-	}
-#ifdef __SASDebugPrint__
-    }
-  else
-    {
-      sas_printf ("SASIndexEnumNext; enum->tree=%p invalid\n",
-		  indexenum->tree);
-#endif
-    }
+  result = SASIndexEnumNext_nolock (idxenum);
   SASUnlock (indexenum->tree);
-//      sas_printf("{%s,%s,%d}",indexenum->curkey, maxkey, indexenum->hasmore);
 
   return result;
 }
@@ -198,6 +94,8 @@ void *
 SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 {
   __IDXEnumeration *indexenum = (__IDXEnumeration *) idxenum;
+  __IDXnodePosRef ref = indexenum->ref;
+  bool started = (ref.node != NULL);
   void *result = NULL;
   bool found = false;
   SASIndexKey_t *maxkey;
@@ -207,92 +105,59 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
   sas_printf ("SASIndexEnumNext_nolock; enum->tree=%p maxkey=%p\n",
 		  indexenum->tree, maxkey);
 #endif
+  indexenum->hasmore = false;
   if (maxkey != NULL)
     {
-      indexenum->hasmore =
-	(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+      int order = SASIndexKeyCompare (indexenum->curkey, maxkey);
+
+      /* the start key itself is not yet returned */
+      indexenum->hasmore = started ? (order < 0) : (order <= 0);
       if (indexenum->hasmore)
 	{
-	  SASIndexNode_t curnode = indexenum->ref.node;
 	  long treemod = SASIndexGetModCount_nolock (indexenum->tree);
+	  SASIndexNodeHeader *curSBnode;
 
-	  if ((curnode != NULL) && (treemod == indexenum->curmod))
+	  if (started && (treemod == indexenum->curmod))
 	    {
-	      short curpos = indexenum->ref.pos;
-	      SASIndexNodeHeader *curSBnode = (SASIndexNodeHeader *) curnode;
-	      if (curpos < curSBnode->count)
+	      curSBnode = (SASIndexNodeHeader *) ref.node;
+	      if (ref.pos < curSBnode->count)
 		{
-		  if (curSBnode->branch[curpos] == NULL)
+		  if (curSBnode->branch[ref.pos] == NULL)
 		    {
-		      curpos++;
-		      indexenum->ref.pos = curpos;
-		      result = curSBnode->vals[curpos];
-		      indexenum->curkey = curSBnode->keys[curpos];
-		      indexenum->hasmore =
-			(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+		      ref.pos++;
 		      found = true;
 		    }
 		  else
 		    {
 		      found =
-			SASIndexNodeSearchGT (curnode, indexenum->curkey,
-					      &indexenum->ref);
-		      if (found)
-			{
-			  curnode = indexenum->ref.node;
-			  curSBnode = (SASIndexNodeHeader *) curnode;
-			  curpos = indexenum->ref.pos;
-			  result = curSBnode->vals[curpos];
-			  indexenum->curkey = curSBnode->keys[curpos];
-			  indexenum->hasmore =
-			    (SASIndexKeyCompare (indexenum->curkey, maxkey) <
-			     0);
-			}
+			SASIndexNodeSearchGT (ref.node, indexenum->curkey, &ref);
 		    }
 		}
 	    }
 	  if (!found)
 	    {
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext_nolock; !found enum->tree=%p curkey=%p=%ix\n",
-				  indexenum->tree, indexenum->curkey, indexenum->curkey->data[0]);
-#endif
-	      SASIndexNode_t curnode = SASIndexGetRootNode_nolock (indexenum->tree);
-	      if (indexenum->ref.node == NULL)
-	      {
-		      found = SASIndexNodeSearchGE (curnode, indexenum->curkey,
-					      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-		      sas_printf ("SASIndexEnumNext_nolock; !found curnode=%p SearchGE=%d\n",
-				  curnode, found);
-#endif
-	      } else {
-	          found = SASIndexNodeSearchGT (curnode, indexenum->curkey,
-				      &indexenum->ref);
-#if __SASDebugPrint__ > 1
-	          sas_printf ("SASIndexEnumNext_nolock; !found curnode=%p SearchGT=%d\n",
-				  curnode, found);
-#endif
-	      }
-	      if (found)
-		{
-		  short curpos = indexenum->ref.pos;
-		  SASIndexNodeHeader *curSBnode =
-		    (SASIndexNodeHeader *) indexenum->ref.node;
-		  result = curSBnode->vals[curpos];
-		  indexenum->curkey = curSBnode->keys[curpos];
-		  indexenum->curmod = treemod;
-		  indexenum->hasmore =
-		    (SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
-#if __SASDebugPrint__ > 1
-		  sas_printf ("SASIndexEnumNext_nolock; curpos=%hd node=%p result=%p\n",
-				  curpos, curSBnode, result);
-#endif
-		}
+	      SASIndexNode_t root = SASIndexGetRootNode_nolock (indexenum->tree);
+
+	      if (started)
+		found =
+		  SASIndexNodeSearchGT (root, indexenum->curkey, &ref);
 	      else
-		{
-		  indexenum->hasmore = false;
-		}
+		found =
+		  SASIndexNodeSearchGE (root, indexenum->curkey, &ref);
+	    }
+	  if (found)
+	    {
+	      curSBnode = (SASIndexNodeHeader *) ref.node;
+	      SASIndexKeyCopy (indexenum->curkey, curSBnode->keys[ref.pos]);
+	      result = curSBnode->vals[ref.pos];
+	      indexenum->ref = ref;
+	      indexenum->curmod = treemod;
+	      indexenum->hasmore =
+		(SASIndexKeyCompare (indexenum->curkey, maxkey) < 0);
+	    }
+	  else
+	    {
+	      indexenum->hasmore = false;
 	    }
 	}
 #ifdef __SASDebugPrint__
@@ -303,7 +168,6 @@ SASIndexEnumNext_nolock (SASIndexEnum_t idxenum)
 		  indexenum->tree);
 #endif
     }
-//      sas_printf("{%s,%s,%d}",indexenum->curkey, maxkey, indexenum->hasmore);
 
   return result;
 }
-- 
2.43.0


From 09642858be42de2dd833163bdf1232563efcf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 67/81] fix: index keys of different lengths and the two zeros
 are ordered consistently

---
 src/sasindexkey.h | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..1910e02 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -93,37 +93,29 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
     }
   else
     {
+      /* word by word, the key with less words is the smaller one */
       size_t len = op_a->compare_size;
+      size_t i;
 
-      if (op_a->compare_size != op_b->compare_size)
+      if (len > op_b->compare_size)
+	len = op_b->compare_size;
+      for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
 	{
-	  if (op_a->compare_size > op_b->compare_size)
-	    len = op_b->compare_size;
-
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
-
-	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
+	  if (op_a->data[i] != op_b->data[i])
 	    {
-	      if (op_a->compare_size < op_b->compare_size)
-		rc = -1;
-	      else
+	      if (op_a->data[i] > op_b->data[i])
 		rc = 1;
+	      else
+		rc = -1;
+	      break;
 	    }
 	}
-      else if (len > sizeof (machine_uint_t))
+      if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
 	{
-	  unsigned int i = 1;
-	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
-	    {
-	      if (op_a->data[i] != op_b->data[i])
-		{
-		  if (op_a->data[i] > op_b->data[i])
-		    rc = 1;
-		  else
-		    rc = -1;
-		  break;
-		}
-	    }
+	  if (op_a->compare_size < op_b->compare_size)
+	    rc = -1;
+	  else
+	    rc = 1;
 	}
     }
   return rc;
@@ -309,7 +301,8 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
 {
   sasindexkeymap_t	key_val;
 
-  key_val.double_key = value;
+  /* the two zeros are equal, but differ in the sign bit */
+  key_val.double_key = (value == 0.0) ? 0.0 : value;
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-- 
2.43.0


From bb5198fc9104e3c5e34c815339e6159116cf3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 68/81] fix: document how long the minimum and maximum keys of
 an index are valid

---
 src/sasindex.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sasindex.h b/src/sasindex.h
index fdba69d..6f2af5e 100644
--- a/src/sasindex.h
+++ b/src/sasindex.h
@@ -224,8 +224,8 @@ SASIndexGetModCount_nolock (SASIndex_t btree);
  * lock over B-Tree \a btree.
  * The maximum key is the right most entry of the right most node.
  *
- * \note this value it stored in the header of the SASIndex_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASIndex_t. It should never be
+ * modified by the application and is valid until the index changes.
  *
  * @param btree Handle to the SASIndex_t.
  * @return handle to maximum SASIndexKey_t from B-Tree \a btree or 0 if
@@ -240,8 +240,8 @@ SASIndexGetMaxKey (SASIndex_t btree);
  * The sas_type_t must be SAS_RUNTIME_INDEX.
  * The maximum key is the right most entry of the right most node.
  *
- * \note this value it stored in the header of the SASIndex_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASIndex_t. It should never be
+ * modified by the application and is valid until the index changes.
  *
  * This nolock form should only be used when the referenced SASIndex_t
  * is known to be locked by the application or contained within a
@@ -261,8 +261,8 @@ SASIndexGetMaxKey_nolock (SASIndex_t btree);
  * lock over B-Tree \a btree.
  * The minimum key is the left most entry of the left most node.
  *
- * \note this value it stored in the header of the SASIndex_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASIndex_t. It should never be
+ * modified by the application and is valid until the index changes.
  *
  * @param btree Handle to the SASIndex_t.
  * @return handle to maximum SASIndexKey_t from B-Tree \a btree or 0 if
@@ -281,8 +281,8 @@ SASIndexGetMinKey (SASIndex_t btree);
  * is known to be locked by the application or contained within a
  * larger structure with a controlling lock.
  *
- * \note this value it stored in the header of the SASIndex_t
- * initial block and should never be modified by the application.
+ * \note this is the key stored in the SASIndex_t. It should never be
+ * modified by the application and is valid until the index changes.
  *
  * @param btree Handle to the SASIndex_t.
  * @return handle to maximum SASIndexKey_t from B-Tree \a btree or 0 if
-- 
2.43.0


From 02b6a81926d820a9c052060b31839d18ca765f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 69/81] fix: destroying a heap or tree does not touch pages
 that are not in use

---
 src/sascompoundheap.cpp | 20 ++++++++++++++++----
 src/sasindex.cpp        | 23 +++++++++++++++++------
 src/sasstringbtree.cpp  | 23 +++++++++++++++++------
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/sascompoundheap.cpp b/src/sascompoundheap.cpp
index 4f2fc35..4edfec0 100644
--- a/src/sascompoundheap.cpp
+++ b/src/sascompoundheap.cpp
@@ -1215,16 +1215,28 @@ SASCompoundHeapClearPages (SASCompoundHeapHeader * headerBlock)
   block_size_t heapSize = headerBlock->blockHeader.blockSize;
   block_size_t pageSize = headerBlock->pageSize;
   block_size_t offset = default_page;
+  freeNode *space = headerBlock->blockHeader.blockFreeSpace;
 
   if (offset < pageSize)
     offset = pageSize;
 
-  for (; offset + pageSize <= heapSize; offset += pageSize)
+  while (offset + pageSize <= heapSize)
     {
-      SASBlockHeader *page =
-	(SASBlockHeader *) ((char *) headerBlock + offset);
-      if (SOMSASCheckBlockSig (page))
+      char *page = (char *) headerBlock + offset;
+      block_size_t pages = 1;
+
+      /* do not touch what is not in use */
+      while ((space != NULL) && ((char *) space + space->nodeSize <= page))
+	space = space->nextNode;
+      if ((space != NULL) && ((char *) space <= page))
+	{
+	  pages = ((char *) space + space->nodeSize - page) / pageSize;
+	  if (pages == 0)
+	    pages = 1;
+	}
+      else if (SOMSASCheckBlockSig ((SASBlockHeader *) page))
 	memset (page, 0, sizeof (SASBlockHeader));
+      offset += pages * pageSize;
     }
 }
 
diff --git a/src/sasindex.cpp b/src/sasindex.cpp
index dec796b..0d12935 100644
--- a/src/sasindex.cpp
+++ b/src/sasindex.cpp
@@ -771,15 +771,26 @@ SASIndexClearPages (SASIndexHeader * headerBlock)
 {
   block_size_t heapSize = headerBlock->blockHeader.blockSize;
   block_size_t pageSize = headerBlock->pageSize;
-  block_size_t offset;
+  block_size_t offset = default_page;
+  freeNode *space = headerBlock->blockHeader.blockFreeSpace;
 
-  for (offset = default_page; offset + pageSize <= heapSize;
-       offset += pageSize)
+  while (offset + pageSize <= heapSize)
     {
-      SASBlockHeader *page =
-	(SASBlockHeader *) ((char *) headerBlock + offset);
-      if (SOMSASCheckBlockSig (page))
+      char *page = (char *) headerBlock + offset;
+      block_size_t pages = 1;
+
+      /* do not touch what is not in use */
+      while ((space != NULL) && ((char *) space + space->nodeSize <= page))
+	space = space->nextNode;
+      if ((space != NULL) && ((char *) space <= page))
+	{
+	  pages = ((char *) space + space->nodeSize - page) / pageSize;
+	  if (pages == 0)
+	    pages = 1;
+	}
+      else if (SOMSASCheckBlockSig ((SASBlockHeader *) page))
 	memset (page, 0, sizeof (SASBlockHeader));
+      offset += pages * pageSize;
     }
 }
 
diff --git a/src/sasstringbtree.cpp b/src/sasstringbtree.cpp
index 015ab89..6eeffbd 100644
--- a/src/sasstringbtree.cpp
+++ b/src/sasstringbtree.cpp
@@ -801,15 +801,26 @@ SASStringBTreeClearPages (SASStringBTreeHeader * headerBlock)
 {
   block_size_t heapSize = headerBlock->blockHeader.blockSize;
   block_size_t pageSize = headerBlock->pageSize;
-  block_size_t offset;
+  block_size_t offset = default_page;
+  freeNode *space = headerBlock->blockHeader.blockFreeSpace;
 
-  for (offset = default_page; offset + pageSize <= heapSize;
-       offset += pageSize)
+  while (offset + pageSize <= heapSize)
     {
-      SASBlockHeader *page =
-	(SASBlockHeader *) ((char *) headerBlock + offset);
-      if (SOMSASCheckBlockSig (page))
+      char *page = (char *) headerBlock + offset;
+      block_size_t pages = 1;
+
+      /* do not touch what is not in use */
+      while ((space != NULL) && ((char *) space + space->nodeSize <= page))
+	space = space->nextNode;
+      if ((space != NULL) && ((char *) space <= page))
+	{
+	  pages = ((char *) space + space->nodeSize - page) / pageSize;
+	  if (pages == 0)
+	    pages = 1;
+	}
+      else if (SOMSASCheckBlockSig ((SASBlockHeader *) page))
 	memset (page, 0, sizeof (SASBlockHeader));
+      offset += pages * pageSize;
     }
 }
 
-- 
2.43.0


From acb6810f9ea18971f50f1e52b8096a582cf7fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 70/81] fix: removing a name from a context by address frees
 all of its storage

---
 src/sphcontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 2441dd5..ad9360a 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -481,7 +481,7 @@ SPHContextRemoveByAddrNoLock (SPHContext_t contxt, const void *value)
 		if (strbuff)
 		{
 			void	*val2;			
-			int		strsize = strlen(strbuff);
+			int		strsize = strlen(strbuff) + 1;
 	
 			val2 = (char*)SASStringBTreeGet(header->name, strbuff);
 			if (value == val2)
-- 
2.43.0


From 01f489a9df2949dd4a0608589bcedf70602abd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 71/81] fix: a context can remove a name given as the string it
 returned for the address

---
 src/sphcontext.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index ad9360a..085fb79 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -393,16 +393,19 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 		SASIndexKey_t		keyID;
 		char				*strbuff = NULL;
 		
-		value = SASStringBTreeGet(header->name, key);
-		if (value)
+		if (SASStringBTreeContainsKey(header->name, key))
 		{		
+			value = SASStringBTreeGet(header->name, key);
 			SASIndexKeyInitRef (&keyID, value);
-			rc++;
 			strbuff = (char*)SASIndexGet (header->objID, &keyID);
 			if (strbuff)
 			{
 				int		strsize = strlen(strbuff) + 1;
 				
+				/* The key may be the string kept here, as returned by
+				 * SPHContextFindByAddr, so free that last.  */
+				SASIndexRemove (header->objID, &keyID);
+				SASStringBTreeRemove (header->name, key);
 				rc = SPHContextFreeNoLock (contxt, strbuff, strsize);
 				if (rc)
 				{
@@ -413,8 +416,6 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
 #endif
 				} else {
 					result = 0;
-					SASIndexRemove (header->objID, &keyID);
-					SASStringBTreeRemove (header->name, key);
 				}
 			}
 		} else {
-- 
2.43.0


From 449879fb4db1f2d39c51c133ab15a32c8b8dc03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 72/81] fix: a refused rename keeps the existing association of
 a context

---
 src/sphcontext.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 085fb79..ce4861e 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -435,6 +435,37 @@ SPHContextRemoveByNameNoLock (SPHContext_t contxt, const char *key)
     return result;
 }
 
+/* Associate the value with newkey instead of oldkey. If that is not
+ * possible the existing association is not changed.  */
+static int
+SPHContextReplaceNameNoLock (SPHContext_t contxt, const char *oldkey,
+				const char *newkey, void *value)
+{
+    SPHContextHeader	*header = (SPHContextHeader*)contxt;
+    SASIndexKey_t	keyID;
+    char		*newbuff, *oldbuff;
+    block_size_t	alloc_size = strlen(newkey) + 1;
+
+    newbuff = (char*) SPHContextAllocNoLock(contxt, alloc_size);
+    if (!newbuff)
+    	return 0;
+
+    strcpy(newbuff, newkey);
+    if (!SASStringBTreePut(header->name, newkey, value))
+    {
+    	SPHContextFreeNoLock(contxt, newbuff, alloc_size);
+    	return 0;
+    }
+
+    SASIndexKeyInitRef (&keyID, value);
+    oldbuff = (char*)SASIndexReplace (header->objID, &keyID, newbuff);
+    SASStringBTreeRemove (header->name, oldkey);
+    /* oldkey may be the string kept here, so free that last.  */
+    if (oldbuff)
+    	SPHContextFreeNoLock(contxt, oldbuff, strlen(oldbuff) + 1);
+    return 1;
+}
+
 int
 SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, void *value)
 {
@@ -449,8 +480,10 @@ SPHContextRename (SPHContext_t contxt, const char *oldkey, const char *newkey, v
     	oldval = SPHContextFindByNameNoLock(contxt, oldkey);
     	if (oldval && (oldval == value))
     	{
-		    SPHContextRemoveByNameNoLock(contxt,oldkey);
-    	    result = SPHContextAddNameNoLock(contxt, newkey, value);
+    	    if (strcmp(oldkey, newkey) == 0)
+    	    	result = 1;
+    	    else
+    	    	result = SPHContextReplaceNameNoLock(contxt, oldkey, newkey, value);
     	}
 		SASUnlock(contxt);
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 14cb1a526f5e14b9a419388eccef304648192554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 73/81] fix: a context initialised on a block has its
 directories, or is refused

---
 src/sphcontext.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index ce4861e..0debff4 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -72,9 +72,28 @@ SPHContextInit (void* heap_seg,  sas_type_t sasType,
     
     if ( heapBlock )
     {
+		SPHContextHeader	*header = (SPHContextHeader*) heapBlock;
+
 		heapStart = (char*) heapBlock + heap_offset;
 		initSOMSASBlock(heapBlock, sasType, 
 		                           heap_size, heapStart);
+		header->expandList = NULL;
+		header->headerFreeSpace = NULL;
+		header->objID = NULL;
+		header->name = SASStringBTreeCreate (DEFAULT_BLOCK);
+		if (header->name)
+			header->objID = SASIndexCreate (DEFAULT_BLOCK);
+		if (!header->objID)
+		{
+#ifdef __SASDebugPrint__
+	    	sas_printf("SPHContextInit() BTree or Index create failed\n");
+#endif
+			if (header->name)
+				SASStringBTreeDestroy (header->name);
+			heapBlock->blockSig1 = 0;
+			heapBlock->blockSig2 = 0;
+			heapBlock = NULL;
+		}
     }
 
     return (SPHContext_t)heapBlock;
@@ -92,24 +111,8 @@ SPHContextCreate (block_size_t heap_size)
 	    result = SPHContextInit(heapBlock, 
 	                            SAS_RUNTIME_CONTEXT, 
 		                        heap_size);
-		if (result != NULL)
-		{
-			SPHContextHeader	*header = (SPHContextHeader*) result;
-			header->name  = SASStringBTreeCreate (DEFAULT_BLOCK);
-#ifdef __SASDebugPrint__
-			if (header->name)
-	    			sas_printf("SPHContextAlloc BTree=%p\n", header->name);
-			else
-	    			sas_printf("SPHContextAlloc() BTree create failed\n");
-#endif
-			header->objID = SASIndexCreate (DEFAULT_BLOCK);
-#ifdef __SASDebugPrint__
-			if (header->objID)
-	    			sas_printf("SPHContextAlloc Index=%p\n", header->objID);
-			else
-	    			sas_printf("SPHContextAlloc() Index create failed\n");
-#endif
-		}
+		if (result == NULL)
+			SASBlockDealloc (heapBlock, heap_size);
 		return result;
     } else 
 	    return NULL;
-- 
2.43.0


From 2c8b571ef44fd870b81ec85f0133a66ed43ee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 74/81] fix: setting up a project context is refused when the
 root context cannot be created

---
 src/sphcontext.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sphcontext.cpp b/src/sphcontext.cpp
index 0debff4..30d614d 100644
--- a/src/sphcontext.cpp
+++ b/src/sphcontext.cpp
@@ -763,6 +763,13 @@ SPHSetupProjectContext(const char *project_name)
 	if (!rootcntx)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
+		if (!rootcntx)
+		{
+			/* Context Create may be out of file or region space.  */
+			currentContext = NULL;
+			SASUnlock(rootlock);
+			return NULL;
+		}
 		setSASFinder(rootcntx);
 	}
 
@@ -810,6 +817,12 @@ SPHSetupAltProjectContext(const char *project_name)
 	if (!rootcntx)
 	{
 		rootcntx = SPHContextCreate(64 * 1024);
+		if (!rootcntx)
+		{
+			/* Context Create may be out of file or region space.  */
+			SASUnlock(rootlock);
+			return NULL;
+		}
 		setSASFinder(rootcntx);
 	}
 
-- 
2.43.0


From 41d9c0149863221932ded4ca39f1bfc34744580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:59 +0000
Subject: [PATCH 75/81] fix: SASSOMAlloc without storage returns NULL, and
 zeroes the whole block otherwise

---
 src/sasalloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index 1641a92..d526a4c 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -318,7 +318,7 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
 #ifndef __SAS__
 //#ifndef __SASSIM__
     long	*first	= (long *)temp;
-    long	*last	= &first[(blockSize / sizeof(long)) - 1];
+    long	*last	= temp ? &first[blockSize / sizeof(long)] : first;
     // initialize block to zeros
     for ( ; first != last; )
     {
-- 
2.43.0


From 658eec33bf29b167c8a463e79e860e68019a4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 76/81] fix: sphFastGetTID returned 0 in threads without
 SASThreadSetUp, such as the joining one

---
 src/sphthread.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphthread.h b/src/sphthread.h
index 1e55745..305eb92 100644
--- a/src/sphthread.h
+++ b/src/sphthread.h
@@ -134,16 +134,13 @@ extern __thread pid_t threadID __attribute__ ((tls_model ("initial-exec")));
 static inline int
 sphFastGetTID (void)
 {
-#ifdef SPH_THREADINIT_CTOR
-	return (threadID);
-#else
+  /* Only threads that called SASThreadSetUp have it set already.  */
   int tid = threadID;
   if (__builtin_expect ((!tid), 0))
     {
       tid = sphdeGetTID ();
     }
   return (tid);
-#endif
 }
 
 #endif
-- 
2.43.0


From 7aacd09b76b8587ede561d0110c88ea459c36d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 77/81] fix: SPHSinglePCQueueFreeSpace looked at the moving
 tail several times and could report nonsense

The comparison and the subtraction each read qtail: compiled so that they
do (for example without optimisation), a consumer moving the tail in
between made the free space negative, a huge number.
---
 src/sphsinglepcqueue.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 5d74298..cb479b2 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -334,7 +334,7 @@ block_size_t
 SPHSinglePCQueueFreeSpace (SPHSinglePCQueue_t queue)
 {
   SPHPCQueueHeader *headerBlock = (SPHPCQueueHeader *) queue;
-  longPtr_t head, temp;
+  longPtr_t head, tail, temp;
   block_size_t rc = 0;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
@@ -350,11 +350,13 @@ SPHSinglePCQueueFreeSpace (SPHSinglePCQueue_t queue)
       head = headerBlock->qhead + headerBlock->default_entry_stride;
       if (head >= headerBlock->endq)
 	head = headerBlock->startq;
+      /* the consumer may move qtail meanwhile: look at it only once  */
+      tail = headerBlock->qtail;
 
-      if (head > headerBlock->qtail)
+      if (head > tail)
 	{
 	  temp = (headerBlock->endq - head)
-	    + (headerBlock->qtail - headerBlock->startq);
+	    + (tail - headerBlock->startq);
 	  rc = (block_size_t) temp;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHSinglePCQueueFreeSpace(%p) head=%lx, temp=%lx\n",
@@ -363,9 +365,9 @@ SPHSinglePCQueueFreeSpace (SPHSinglePCQueue_t queue)
 	}
       else
 	{
-	  if (head < headerBlock->qtail)
+	  if (head < tail)
 	    {
-	      temp = (headerBlock->qtail - head);
+	      temp = (tail - head);
 	      rc = (block_size_t) temp;
 #ifdef __SASDebugPrint__
 	      sas_printf
-- 
2.43.0


From b6a9c4b3fcb0a6fd57940139fc2a7bf809118371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:58 +0000
Subject: [PATCH 78/81] fix: an entry allocation from something that is no
 logger returned a handle nobody had filled in

---
 src/sphlflogger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 1adc14c..e636253 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -314,10 +314,11 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 							 handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) type check failed\n",
 		  log, alloc_size);
 #endif
@@ -415,10 +416,11 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 						   handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 log, alloc_round);
@@ -500,10 +502,11 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 							       handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_size);
@@ -583,10 +586,11 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 								     handleorg);
 	    }
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) type check failed\n",
 	 log, alloc_round);
-- 
2.43.0


From 3a413be50230fb860b8e68ddc7cfba56e43b4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:58 +0000
Subject: [PATCH 79/81] fix: entry calls on something that is no single queue
 returned a handle nobody had filled in

---
 src/sphsinglepcqueue.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index cb479b2..7fcfc30 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -971,10 +971,11 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1048,10 +1049,11 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1134,10 +1136,11 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
-- 
2.43.0


From ed5bb00c5168764021995139b3271f564d5d8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:32 +0000
Subject: [PATCH 80/81] fix: a fault outside the region did not reach the
 application's handler

Joining saved whatever action was installed, also one of the library's own
(after a refused leave or by a second thread's set-up), and a thread that
had saved the default action or the library's own ended the process or
called itself although the application had installed a handler.
---
 src/sassim.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index b378320..738e427 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1361,9 +1361,21 @@ print_trace (void)
 }
 
 void SASDisableSigSegv ();
+void SASSigSegvHandler (int signal, siginfo_t * info, void *context);
+void SASThreadSigSegvHandler (int signal, siginfo_t * info, void *context);
 
 static struct sigaction oldSigSegV;
 
+/* The action for a signal is the same for all threads of a process, so the
+ * one found when setting ours may be ours already.  */
+static int
+SASIsOwnAction (const struct sigaction *action)
+{
+  return (action->sa_flags & SA_SIGINFO)
+    && ((action->sa_sigaction == &SASSigSegvHandler)
+	|| (action->sa_sigaction == &SASThreadSigSegvHandler));
+}
+
 void
 SASSigSegvHandler(int signal, siginfo_t * info, void *context)
 {
@@ -1409,12 +1421,17 @@ SASEnableSigSegv ()
 {
 #if 1
   struct sigaction sa;
+  struct sigaction old;
+  /* Keep the action of the application, not one of ours that is still set,
+     say after the region was removed.  */
+  if ((sigaction (SIGSEGV, NULL, &old) == 0) && !SASIsOwnAction (&old))
+    oldSigSegV = old;
   /* register signal handler via sigaction.  
      Remove SA_ONESHOT for the real thing.  */
   sa.sa_flags = SA_SIGINFO | SA_RESTART /* | SA_ONESHOT */ ;
   sa.sa_sigaction = &SASSigSegvHandler;
   sigemptyset (&sa.sa_mask);
-  sigaction (SIGSEGV, &sa, &oldSigSegV);
+  sigaction (SIGSEGV, &sa, NULL);
 #endif
 }
 
@@ -1858,15 +1875,21 @@ SASThreadSigSegvHandler(int signal, siginfo_t * info, void *context)
 		if ((segv_addr >= reg_low) && (segv_addr < reg_high)) {
 			SASAttachAllocatedAddr(info->si_addr);
 		} else {
-			if (oldThreadSigSegV.sa_handler != SIG_DFL)
+			/* This thread may not have set itself up, or not as
+			 * the first one. The action to go on with is then the
+			 * one from before the region was joined.  */
+			struct sigaction *old = &oldThreadSigSegV;
+			if ((old->sa_handler == SIG_DFL) || SASIsOwnAction (old))
+				old = &oldSigSegV;
+			if (old->sa_handler != SIG_DFL)
 			{
 				/* assume the app has its own signal handler.
 				 * If so call it and hope it handles the situation */
-				if (oldThreadSigSegV.sa_flags & SA_SIGINFO)
+				if (old->sa_flags & SA_SIGINFO)
 				{
-					(*oldThreadSigSegV.sa_sigaction)(signal, info, context);
+					(*old->sa_sigaction)(signal, info, context);
 				} else {
-					(*oldThreadSigSegV.sa_handler)(signal);
+					(*old->sa_handler)(signal);
 				}
 			} else {
 				/* Else print an helpful message include back trace
-- 
2.43.0


From 880d7dabac6cd8d270c86ccabda9b9a3b12217a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:32 +0000
Subject: [PATCH 81/81] fix: joining a store by a name of nearly PATH_MAX
 characters wrote past the file name buffers

---
 src/sassim.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 738e427..fa04a64 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1484,8 +1484,11 @@ SASJoinRegionByName (const char *store_name)
 
   if (store_name != NULL)
     {
-      int pathlen, malloclen;
+      size_t pathlen, malloclen;
       pathlen = strlen (store_name);
+      /* The names of the store's files must fit STORE_NAME_SIZE.  */
+      if (pathlen == 0 || pathlen + sizeof ("/SAS00000.DAT") > STORE_NAME_SIZE)
+	return (1);
       malloclen = (pathlen + 2 + 8) & ~(7);
       sasStorePath = (char *) malloc (malloclen);
       if (sasStorePath == NULL)
-- 
2.43.0

