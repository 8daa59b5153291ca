// C19/C20: the single producer, single consumer queue.
#include "payload.h"
#include <deque>

struct QueueCheck : Check {
  enum { PUT, GET, COMPLETE, ASK, PAUSE, EARLY };
  enum { M_ENTRY, M_STAMP, M_DIRECT, M_SPIN, M_PAUSE };
  bool direct;
  void *q = nullptr;
  int stride = 0; long cap = 0;
  sphLFEntryID_t templ = 0;
  // one record per allocated entry, in allocation order
  struct Ent { u64 addr; bool stamped, isdirect; int cat, sub; long nbytes; u64 data; int items = -1; bool all = true; bool completing = false, completed = false, freed = false, freeing = false; u64 t0 = 0, t1 = 0; int pid = 0, tid = 0; };
  std::deque<Ent> ents;
  size_t consumed = 0;
  size_t planned = 0;
  std::deque<size_t> held;       // allocated and not completed
  std::deque<SPHLFEntryHandle_t> hh;
  bool prod_dead = false;
  long produced_ops = 0;
  std::set<int> pdead;
  QueueCheck(const char *id, bool d) : Check(id), direct(d) {
    what = d ? "one producer and one consumer, in one or two processes, exchange entries through the direct interface, mixed with the indirect one, over many wrap-arounds of small queues on clean and on reused storage; entries are allocated ahead and completed late; both sides poll or spin; either side is stalled or dies; contents, order, completeness, full and empty answers are compared with a model."
             : "one producer and one consumer, in one or two processes, exchange entries over many wrap-arounds of small queues on clean and on reused storage; entries are allocated ahead and completed late; either side is stalled or dies; contents, order, completeness, full, empty and free-space answers are compared with a model.";
    opnames = {"put", "get", "complete", "ask", "pause", "early"};
    probe_names = {"queue_full", "queue_empty", "wrapped", "next_incomplete", "producer_died_mid_entry", "spin_waited", "reset_nonempty", "dirty_storage", "two_held", "early_release", "typed_items"};
    real = {"sphsinglepcqueue.cpp", "sphlfentry.h", "sphdirectpcqueue.h", "sassim.cpp"};
    quick_runs = 30000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 2);
    static const int strides[] = {16, 32, 48, 64, 80, 128, 24, 20, 100, 40, 56, 8, 112, 256, 1000};
    int st = r.chance(1, 30) ? (int)r.range(4000, 9000) : strides[r.below(15)];
    long slots = r.range(2, 9);
    u64 bs = 512; while (bs < 256 + (u64)slots * ((st + 31) & ~31)) bs *= 2;
    // fewer slots than the block could hold: initialise in a smaller part
    p.cfg = {st, (long)bs, (long)r.below(3), (long)r.below(2), slots, (long)(r.next() & 0x7fffffff), (long)r.chance(1, 5)};
    ThreadProg a, b; a.proc = 0; b.proc = p.nprocs - 1;
    if (r.chance(1, 2)) std::swap(a.proc, b.proc);
    int n = (int)r.range(3, 40);
    bool ahead = r.chance(1, 2);
    for (int i = 0; i < n; i++) {
      int m = direct ? (r.chance(1, 6) ? (int)r.below(2) : M_DIRECT + (int)r.below(3)) : (int)r.below(2);
      a.ops.push_back({PUT, m, (long)r.below(4096), (long)r.below(256), ahead ? (long)r.below(3) : 0});
      if (r.chance(1, 4)) a.ops.push_back({ASK, (long)r.below(3), 0, 0, 0});
      if (ahead && r.chance(1, 3)) a.ops.push_back({COMPLETE, (long)r.below(4), 0, 0, 0});
      if (r.chance(1, 8)) a.ops.push_back({PAUSE, r.range(1, 6), 0, 0, 0});
      m = direct ? (r.chance(1, 6) ? M_ENTRY : M_DIRECT + (int)r.below(3)) : M_ENTRY;
      b.ops.push_back({GET, m, (long)r.below(4), (long)r.below(2), 0});
      if (r.chance(1, 4)) b.ops.push_back({ASK, (long)r.below(3), 0, 0, 0});
      if (r.chance(1, 8)) b.ops.push_back({PAUSE, r.range(1, 6), 0, 0, 0});
      if (r.chance(1, 6)) b.ops.push_back({EARLY, (long)r.below(2), 0, 0, 0});
    }
    p.threads = {a, b};
    int f = (int)r.below(8);
    if (f == 0) p.faults.push_back({r.chance(1, 2) ? F_CRASH : F_THREADDEATH, 0, (int)r.below(a.ops.size()), r.range(1, 60), 1, 0});
    else if (f == 1 && p.nprocs == 2) p.faults.push_back({F_CRASH, 1, (int)r.below(b.ops.size()), r.range(1, 60), 1, 0});
    else if (f < 5) p.faults.push_back({F_STALL, (int)r.below(2), (int)r.below(a.ops.size()), r.range(1, 40), r.logrange(50, 5000), 0});
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    for (auto &f : p.faults) if (f.kind == F_CRASH || f.kind == F_THREADDEATH) deaths = true;
    proc_switch(0);
    long st = p.cfg[0]; u64 bs = (u64)p.cfg[1]; int how = (int)p.cfg[2];
    if (p.cfg[3]) {   // storage used before
      void *b = A->SASBlockAlloc(bs);
      memset(b, 0xff, bs);
      probe(7);
      if (how == 0) A->SASBlockDealloc(b, bs);
      else q = b;
    }
    if (how == 0) q = A->SPHSinglePCQueueCreateWithStride(bs, (unsigned short)st);
    else {
      if (!q) q = A->SASBlockAlloc(bs);
      q = A->SPHSinglePCQueueInitWithStride(q, bs, (unsigned short)st, SPHSPCQUEUE_CIRCULAR);
    }
    if (!q) fail("create", "creating a queue of %llu bytes with stride %ld failed", (unsigned long long)bs, st);
    stride = A->SPHSinglePCQueueGetStride(q);
    if (stride < st) fail("stride", "asked for stride %ld, the queue reports %d", st, stride);
    templ = A->SPHSinglePCQueueGetEntryTemplate(q);
    blocklo = (u64)q; blockhi = blocklo + bs;
    if (!A->SPHSinglePCQueueEmpty(q)) fail("empty", "a new queue is not empty");
    cap = capacity();
    if (cap < (long)((bs - 256) / stride) - 1 || cap < 1) fail("capacity", "a new queue of %llu bytes with stride %d holds %ld entries", (unsigned long long)bs, stride, cap);
    if (p.cfg[6] && p.cfg[5] % 3) { A->SPHSinglePCQueueSetCachePrefetch(q, (int)(p.cfg[5] % 4)); A->SPHSinglePCQueuePrefetch(q); }
    // leave only a few free slots behind a random position
    planned = 0; for (auto &o : p.threads[0].ops) if (o.k == PUT) planned++;
    long adv = p.cfg[5] % (cap + 1);
    for (long i = 0; i < adv; i++) { quiet_put(); quiet_get(); }
  }
  u64 blocklo, blockhi;
  void quiet_put() {
    SPHLFEntryHandle_t h, *r = A->SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &h);
    if (!r) fail("false-full", "allocation refused on a queue that is not full");
    if (!A->SPHSinglePCQueueEntryComplete(&h)) fail("complete", "completing an entry failed");
  }
  void quiet_get() {
    SPHLFEntryHandle_t h;
    if (!A->SPHSinglePCQueueGetNextComplete(q, &h)) fail("false-empty", "a completed entry is not delivered");
    if (!A->SPHSinglePCQueueFreeNextEntry(q)) fail("free", "freeing the delivered entry failed");
  }
  // at a quiescent moment on an empty queue: fill it, drain it
  long capacity() {
    long n = 0;
    block_size_t fs0 = A->SPHSinglePCQueueFreeSpace(q);
    for (;;) {
      bool full = A->SPHSinglePCQueueFull(q);
      block_size_t fs = A->SPHSinglePCQueueFreeSpace(q);
      if (fs != fs0 - (u64)n * stride) fail("free-space", "with %ld entries in the queue %llu bytes are free; %llu when empty, stride %d", n, (unsigned long long)fs, (unsigned long long)fs0, stride);
      SPHLFEntryHandle_t h, *r = A->SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &h);
      if (!r) { if (!full) fail("full", "allocation refused, but the queue says it is not full"); if (fs) fail("free-space", "full queue with %llu bytes free", (unsigned long long)fs); break; }
      if (full) fail("full", "the queue says it is full but hands out an entry");
      check_place((u64)h.entry);
      A->SPHSinglePCQueueEntryComplete(&h);
      if (++n > 5000) fail("capacity", "the queue never fills");
    }
    for (long i = 0; i < n; i++) quiet_get();
    if (!A->SPHSinglePCQueueEmpty(q)) fail("empty", "a drained queue is not empty");
    SPHLFEntryHandle_t h;
    if (A->SPHSinglePCQueueGetNextComplete(q, &h)) fail("phantom", "an empty queue delivers an entry");
    return n;
  }
  void check_place(u64 e) {
    if (e < blocklo + 64 || e + stride > blockhi) fail("place", "entry %llx of stride %d outside the queue block %llx-%llx", (unsigned long long)e, stride, (unsigned long long)blocklo, (unsigned long long)blockhi);
  }
  static unsigned char byte_at(u64 data, long i) { return (unsigned char)((data * 0x9e3779b97f4a7c15ULL >> 20) + i * 37 + (i >> 3)); }
  size_t inflight_at_most() {  // allocated and surely not yet released
    size_t n = 0; for (size_t i = consumed; i < ents.size(); i++) if (!ents[i].freeing) n++; return n; }
  size_t inflight_at_least() { size_t n = 0; for (size_t i = consumed; i < ents.size(); i++) n++; return n; }
  void do_complete(size_t i, SPHLFEntryHandle_t &h) {
    Ent &e = ents[i];
    e.completing = true;
    if (e.isdirect) {
      if (!A->SPHLFEntryDirectComplete((void *)e.addr, templ, e.cat, e.sub)) fail("complete", "completing an entry failed");
    } else {
      if (A->SPHLFEntryIsComplete(&h) || A->SPHSinglePCQueueEntryIsComplete(&h)) fail("status", "entry number %zu says it is complete before its producer completed it", i);
      int v = (int)((i + e.data) % 6);
      if (v < 3 ? !A->SPHSinglePCQueueEntryComplete(&h) : (v == 3 ? A->SPHLFEntryComplete(&h) : v == 4 ? A->SPHLFEntryStrongComplete(&h) : A->SPHLFEntryWeakComplete(&h)) != 0) fail("complete", "completing an entry failed");
    }
    ents[i].completed = true;
  }
  void op(int th, int, const Op &o) override {
    switch (o.k) {
    case PUT: put(th, o); return;
    case COMPLETE:
      if (held.empty()) return;
      { size_t k = (size_t)o.a % held.size(); if (held.size() > 1) probe(8);
        size_t i = held[k]; SPHLFEntryHandle_t h = hh[k];
        held.erase(held.begin() + k); hh.erase(hh.begin() + k);
        do_complete(i, h); }
      return;
    case GET: get(th, o, false); return;
    case PAUSE: for (long i = 0; i < o.a; i++) sim_yield(); return;
    case ASK: ask(th, o); return;
    case EARLY: early(o); return;
    }
  }
  void put(int th, const Op &o) {
    int m = (int)o.a;
    if (m == M_STAMP && stride < 17) m = M_ENTRY;
    if (m >= M_SPIN && (deaths || !held.empty() || fiber_killed(1) || fiber_done(1))) m = M_DIRECT;
    for (;;) {
      size_t before = inflight_at_least();   // entries not released before the call
      u64 t0 = os_mono();
      SPHLFEntryHandle_t h; memset(&h, 0, sizeof h);
      u64 e = 0; long nb = 0; char *dst = nullptr;
      if (m == M_ENTRY || m == M_STAMP) {
        SPHLFEntryHandle_t *r = m == M_ENTRY ? A->SPHSinglePCQueueAllocStrideEntry(q, (int)o.b, (int)o.c, &h) : A->SPHSinglePCQueueAllocStrideTimeStamped(q, (int)o.b, (int)o.c, &h);
        if (r) { e = (u64)h.entry; nb = h.remaining; dst = h.next; if (A->SPHLFEntryGetFreePtr(&h) != (void *)dst) fail("room", "the free space of a new entry is not where its handle points"); }
      } else {
        if (m >= M_SPIN && before >= (size_t)cap) probe(5);
        e = (u64)(m == M_DIRECT ? A->SPHSinglePCQueueAllocStrideDirect(q) : m == M_SPIN ? A->SPHSinglePCQueueAllocStrideDirectSpin(q) : A->SPHSinglePCQueueAllocStrideDirectSpinPause(q));
        if (e) {
          dst = (char *)A->SPHLFEntryDirectGetFreePtr((void *)e); nb = (long)(e + stride - (u64)dst);
          if ((u64)dst != e + 4) fail("room", "the free space of a direct entry is at offset %ld", (long)((u64)dst - e));
          u64 al = 1ull << (o.b % 7), want = (e + 4 + al - 1) & ~(al - 1);
          if ((u64)A->SPHLFEntryDirectGetPtrAligned((void *)e, al) != want) fail("room", "the first place aligned to %llu in a direct entry is given wrong", (unsigned long long)al);
          u64 inc = (u64)o.c, al2 = 1ull << (o.c % 5), next = (want + inc + al2 - 1) & ~(al2 - 1);
          if ((u64)A->SPHLFEntryDirectIncAndAlign((void *)want, inc, al2) != next) fail("room", "the place behind %llu bytes aligned to %llu in a direct entry is given wrong", (unsigned long long)inc, (unsigned long long)al2);
        }
      }
      note(e != 0);
      if (!e) {
        if (m >= M_SPIN) fail("spin-returned-nothing", "a waiting allocation returned no entry");
        if (before < (size_t)cap) fail("false-full", "allocation refused with %zu of %ld entries in use", before, cap);
        probe(0);
        // make room: complete what is held, then wait for the consumer
        if (!held.empty()) { size_t i = held[0]; SPHLFEntryHandle_t hx = hh[0]; held.pop_front(); hh.pop_front(); do_complete(i, hx); }
        else if (fiber_killed(1) || fiber_done(1)) return;
        else sim_yield();
        continue;
      }
      check_place(e);
      for (size_t i = consumed; i < ents.size(); i++)
        if (!ents[i].freeing && e < ents[i].addr + stride && ents[i].addr < e + stride)
          fail("overwrite", "entry %llx handed out while entry number %zu at %llx is not released", (unsigned long long)e, i, (unsigned long long)ents[i].addr);
      Ent x; x.addr = e; x.stamped = m == M_STAMP; x.isdirect = m >= M_DIRECT; x.cat = (int)o.b; x.sub = (int)o.c; x.nbytes = nb; x.data = ents.size() * 7919 + 13; x.t0 = t0; x.t1 = os_mono();
      x.pid = proc_pid(fiber_proc(th)) & 0xffff; x.tid = os_tid() & 0xffff;
      if (!x.isdirect && (nb < stride - 16 || (u64)dst + nb > e + stride)) fail("room", "the new entry of stride %d offers %ld bytes at offset %ld", stride, nb, (long)((u64)dst - e));
      size_t i = ents.size();
      ents.push_back(x);
      if (i == (size_t)cap + 1) probe(2);
      if (!ents[i].isdirect && o.b & 1) {      // typed items instead of bytes
        SPHLFEntryHandle_t h2 = h; int max = (int)(o.c % 16), k = queue_payload::write(&h2, x.data, max, true);
        ents[i].items = k; ents[i].all = k >= max; probe(10);
      } else
      for (long k = 0; k < nb; k++) { ((volatile unsigned char *)dst)[k] = byte_at(x.data, k); if ((k & 15) == 15) sim_point_here(); }
      sim_point_here();
      produced_ops++;
      if (o.d > 0 && (long)held.size() < o.d && (long)held.size() < cap - 1) { held.push_back(i); hh.push_back(h); return; }
      do_complete(i, h);
      return;
    }
  }
  bool get(int th, const Op &o, bool drain) {
    int m = (int)o.a;
    if (m >= M_SPIN && (deaths || drain || !will_come())) m = M_DIRECT;
    bool avail = consumed < ents.size() && ents[consumed].completed;
    SPHLFEntryHandle_t h; memset(&h, 0, sizeof h);
    u64 e = 0; const char *src = nullptr; long nb = 0;
    if (m <= M_STAMP) {
      SPHLFEntryHandle_t *r = A->SPHSinglePCQueueGetNextComplete(q, &h);
      if (r) e = (u64)h.entry;
    } else {
      if (m >= M_SPIN && !avail) probe(5);
      e = (u64)(m == M_DIRECT ? A->SPHSinglePCQueueGetNextCompleteDirect(q) : m == M_SPIN ? A->SPHSinglePCQueueGetNextCompleteDirectSpin(q) : A->SPHSinglePCQueueGetNextCompleteDirectSpinPause(q));
    }
    note(e != 0);
    if (!e) {
      if (m >= M_SPIN) fail("spin-returned-nothing", "a waiting consumer returned without an entry");
      if (avail) fail("false-empty", "entry number %zu is complete but not delivered", consumed);
      probe(1);
      if (consumed < ents.size()) probe(3);
      return false;
    }
    if (consumed >= ents.size()) fail("phantom", "an entry was delivered that was never produced");
    if (!ents[consumed].completing) fail("incomplete", "entry number %zu was delivered before its producer completed it", consumed);
    if (e != ents[consumed].addr) fail("order", "delivered the entry at %llx instead of number %zu at %llx", (unsigned long long)e, consumed, (unsigned long long)ents[consumed].addr);
    for (int round = 0; round < 2; round++) {
      Ent &x = ents[consumed];
      int cat, sub;
      if (m <= M_STAMP) {
        if (!A->SPHSinglePCQueueEntryIsComplete(&h) || !A->SPHLFEntryIsComplete(&h)) fail("status", "a delivered entry says it is not complete");
        cat = A->SPHLFEntryCategory(&h); sub = A->SPHLFEntrySubcat(&h);
        if (x.stamped != !!A->SPHLFEntryIsTimestamped(&h)) fail("status", "entry number %zu: time stamped is %d", consumed, !x.stamped);
        if (!x.isdirect) {
          src = h.next; nb = h.remaining;
          if (nb < x.nbytes) fail("room", "entry number %zu: the producer wrote %ld bytes, the consumer is offered %ld", consumed, x.nbytes, nb);
          if (x.stamped) {
            u64 ts = A->SPHLFEntryTimeStamp(&h);
            if (ts < x.t0 || ts > x.t1) fail("stamp", "entry number %zu has time %llu, written between %llu and %llu", consumed, (unsigned long long)ts, (unsigned long long)x.t0, (unsigned long long)x.t1);
            if (A->SPHLFEntryPID(&h) != x.pid || A->SPHLFEntryTID(&h) != x.tid) fail("stamp", "entry number %zu: pid/tid %d/%d instead of %d/%d", consumed, A->SPHLFEntryPID(&h), A->SPHLFEntryTID(&h), x.pid, x.tid);
          }
        } else src = (char *)A->SPHLFEntryDirectGetFreePtr((void *)e);
      } else {
        if (!A->SPHSinglePCQueueEntryIsCompleteDirect((void *)e) || !A->SPHLFEntryDirectIsComplete((void *)e)) fail("status", "a delivered entry says it is not complete");
        if (x.stamped != !!A->SPHLFEntryDirectIsTimestamped((void *)e)) fail("status", "direct entry number %zu: time stamped is %d", consumed, !x.stamped);
        cat = A->SPHLFEntryDirectCategory((void *)e); sub = A->SPHLFEntryDirectSubcat((void *)e);
        src = (char *)e + (x.stamped ? 16 : 4);
      }
      if (cat != x.cat || sub != x.sub) fail("category", "entry number %zu has category %d/%d instead of %d/%d", consumed, cat, sub, x.cat, x.sub);
      if (x.items >= 0) {
        SPHLFEntryHandle_t h2 = h; h2.entry = (SPHLFEntryHeader_t *)e; h2.next = (char *)src; h2.remaining = (unsigned short)x.nbytes;
        queue_payload::check(&h2, x.data, x.items, x.all, "entry number", (long)consumed);
      } else
      for (long k = 0; k < x.nbytes; k++)
        if (((const volatile unsigned char *)src)[k] != byte_at(x.data, k)) fail(round ? "overwritten" : "contents", "entry number %zu: byte %ld of %ld is not what the producer wrote%s", consumed, k, x.nbytes, round ? " (changed before its release)" : "");
      if (!round) for (long k = 0; k < o.b; k++) sim_yield();
    }
    ents[consumed].freeing = true;
    int rc = m >= M_DIRECT && o.c ? A->SPHSinglePCQueueFreeNextEntryDirect(q, (void *)e) : A->SPHSinglePCQueueFreeNextEntry(q);
    if (!rc) fail("free", "releasing the delivered entry failed");
    ents[consumed].freed = true;
    consumed++;
    return true;
  }
  // the consumer looks at, and tries to release, an entry that may be incomplete
  void early(const Op &o) {
    bool exists = consumed < ents.size(), avail = exists && ents[consumed].completed;
    void *e = nullptr;
    if (direct && o.a) {
      e = A->SPHSinglePCQueueGetNextEntryDirect(q);
      if (!e) { if (exists) fail("false-empty", "entry number %zu is allocated but not shown to the consumer", consumed); return; }
      if (consumed < ents.size() && (u64)e != ents[consumed].addr) fail("order", "shown the entry at %p instead of number %zu at %llx", e, consumed, (unsigned long long)ents[consumed].addr);
      bool c = A->SPHSinglePCQueueEntryIsCompleteDirect(e);
      bool now = consumed < ents.size() && ents[consumed].completing;
      if (c && !now) fail("incomplete", "entry number %zu says it is complete before its producer completed it", consumed);
      if (!c && avail) fail("status", "entry number %zu is complete and says it is not", consumed);
    }
    if (avail) return;
    if (exists && !ents[consumed].completing) probe(9);
    // completing at the same time may let the release succeed
    int rc = e ? A->SPHSinglePCQueueFreeNextEntryDirect(q, e) : A->SPHSinglePCQueueFreeNextEntry(q);
    bool now = consumed < ents.size() && ents[consumed].completing;
    if (rc && !now) fail("early-release", "entry number %zu was released before its producer completed it", consumed);
    if (rc) { ents[consumed].freeing = ents[consumed].freed = true; consumed++; }
  }
  bool will_come() { return consumed < ents.size() ? (ents[consumed].completed || alive0()) : (alive0() && puts_left()); }
  bool alive0() { return !fiber_killed(0); }
  bool deaths = false;
  bool puts_left() {
    for (size_t i = fiber_op(0) < 0 ? 0 : (size_t)fiber_op(0) + 1; i < prog->threads[0].ops.size(); i++) if (prog->threads[0].ops[i].k == PUT) return true;
    return false;
  }
  Prog *prog = nullptr;
  void ask(int th, const Op &o) {
    size_t lo_c = consumed, hi = ents.size();
    bool avail = lo_c < hi && ents[lo_c].completed;
    if (o.a == 0) {
      int e = A->SPHSinglePCQueueEmpty(q);
      if (th == 1) {
        if (e && avail) fail("empty", "the queue reports empty to the consumer although entry number %zu is complete", lo_c);
        if (!e && !(consumed < ents.size() && ents[consumed].completing)) fail("empty", "the queue reports an entry to the consumer although none is complete");
      }
    } else if (o.a == 1) {
      size_t nmax = inflight_at_least();     // not released before the call
      int f = A->SPHSinglePCQueueFull(q);
      if (th == 0) {
        if (f && nmax < (size_t)cap) fail("full", "the queue reports full to the producer with at most %zu of %ld entries in use", nmax, cap);
        size_t nmin = inflight_at_most();
        if (!f && nmin >= (size_t)cap) fail("full", "the queue reports room to the producer with %zu of %ld entries in use", nmin, cap);
      }
    } else {
      block_size_t s = A->SPHSinglePCQueueFreeSpace(q);
      if (s > (u64)cap * stride) fail("free-space", "%llu bytes free in a queue of %ld entries of %d bytes", (unsigned long long)s, cap, stride);
    }
  }
  void thread_end(int th) override {
    if (th == 0) {
      while (!held.empty()) { size_t i = held[0]; SPHLFEntryHandle_t h = hh[0]; held.pop_front(); hh.pop_front(); do_complete(i, h); }
      return;
    }
    // the consumer takes all that will come
    Op o{GET, direct ? (long)M_DIRECT : (long)M_ENTRY, 0, 0, 0};
    for (;;) {
      bool over = fiber_done(0) || fiber_killed(0);
      if (!get(th, o, true)) { if (over) return; sim_yield(); }
      else progress();
    }
  }
  void on_kill(int th) override { if (th == 0) prod_dead = true; pdead.insert(fiber_proc(th)); }
  void finish(Prog &p) override {
    int pr = pdead.count(0) ? 1 : 0;
    if (pr && p.nprocs < 2) { if (proc_alive(0)) pr = 0; else return; }
    if (!proc_alive(pr)) return;
    proc_switch(pr);
    bool clean = pdead.empty();
    if (clean) {
      if (consumed != ents.size()) fail("lost", "%zu of %zu completed entries were delivered", consumed, ents.size());
      if (!A->SPHSinglePCQueueEmpty(q)) fail("empty", "all entries were released and the queue is not empty");
      if (capacity() != cap) fail("capacity", "the drained queue holds fewer entries than before");
      if (p.cfg[6]) {
        long k = p.cfg[5] % (cap + 1);
        for (long i = 0; i < k; i++) quiet_put();
        if (k) probe(6);
      }
    } else if (prod_dead && consumed < ents.size()) probe(4);
    // what is left incomplete or undelivered is abandoned by a reset
    if (!clean || p.cfg[6]) {
      A->SPHSinglePCQueueResetAsync(q);
      SPHLFEntryHandle_t h;
      if (!A->SPHSinglePCQueueEmpty(q) || A->SPHSinglePCQueueGetNextComplete(q, &h)) fail("reset", "after a reset the queue is not empty");
      if (capacity() != cap) fail("reset", "after a reset the queue holds fewer entries than before");
    }
    if (p.cfg[2] == 0 && A->SPHSinglePCQueueDestroy(q)) fail("destroy", "destroying the queue failed");
  }
};
