// C15: simple heaps, stacks and spaces.
#include "blocks.h"
#include <deque>

namespace {
struct C15 : Check {
  enum { ALLOC, FREE, VERIFY, SALLOC, SDEALLOC, SVERIFY, SPACE, SPACEFREE, QUERY, BAD, REST };
  struct Obj { u64 a, n, id; bool busy, live; };
  struct Heap {
    u64 base = 0, size = 0; std::deque<Obj> objs; Intervals iv;   // iv: reserved from the start of a release until its end stays reusable
    u64 used = 0;          // rounded bytes handed out
    long inflight = 0, ver = 0;
    bool stack = false; u64 top = 0;
    bool excl = false;
    long pa = 0, pf = 0;   // bytes that calls under way may have taken or given back already
    struct Watch { long lo, hi; };
    std::vector<Watch *> watch;
    void upd() { for (auto *w : watch) { w->lo = std::min(w->lo, (long)used - pf); w->hi = std::max(w->hi, (long)used + pa); } }
  };
  // the free space reported while others work: what was free at some moment of the call
  void during(Heap &h) {
    Heap::Watch w{(long)h.used - h.pf, (long)h.used + h.pa};
    h.watch.push_back(&w);
    u64 got = free_space(h);
    h.watch.erase(std::find(h.watch.begin(), h.watch.end(), &w));
    if ((long)got < (long)cap(h) - w.hi || (long)got > (long)cap(h) - w.lo)
      fail("free-space", "%s of %llu bytes reports %llu bytes free, between %ld and %ld were during the call", h.stack ? "stack" : "heap", (unsigned long long)h.size, (unsigned long long)got, (long)cap(h) - w.hi, (long)cap(h) - w.lo);
    probe(13);
  }
  Heap H[4]; int nheaps = 0, nstacks = 0;
  struct Sp { u64 h, a, n, id; bool busy; };
  std::deque<Sp> spaces; Intervals all; u64 next_id = 1;
  std::vector<std::pair<u64, u64>> base_lists;
  C15() : Check("C15") {
    what = "1-2 simple heaps and 0-1 stacks of 4 KB to 256 KB on clean or previously used storage; 2-4 threads of 1-3 processes allocate and release in random order and sizes, directly, near an earlier object and with the caller holding the lock, push and reset the stack, create and destroy spaces, make requests that cannot fit and releases that must be refused, and query; at the end everything is released in random order and the largest request repeated, then destroyed.";
    opnames = {"alloc", "free", "verify", "push", "reset-stack", "stack-verify", "space", "space-destroy", "query", "bad", "rest"};
    probe_names = {"refused_full", "near_alloc", "nolock", "exact_free_space", "largest_after_all_released", "reused", "coalesced_gap_served", "refused_release", "huge_request", "header_search_upper_half", "dirty_storage", "stack_full", "space_too_big", "free_space_while_others_work"};
    real = {"sassimpleheap.cpp", "sassimplestack.cpp", "sassimplespace.cpp", "freenode.c", "sasalloc.cpp", "saslock.cpp"};
    quick_runs = 60000;
    max_steps = 20000000; idle_budget = 3000000;
  }
  static u64 rnd16(u64 n) { return (n + 15) & ~15ULL; }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(std::max(2, p.nprocs), 4);
    p.cfg = {r.range(1, 2), r.range(0, 1), r.range(12, 18), r.range(12, 16), r.range(13, 16), (long)r.below(4), (long)(r.next() & 0x7fffffff), (long)r.below(3)};
    int sz = (int)r.below(4);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int n = (int)r.range(4, 24), fw = (int)r.range(2, 6);
      for (int i = 0; i < n; i++) {
        Op o{0, (long)r.below(1000), 0, (long)r.below(6), (long)r.below(1000)};
        int q = (int)r.below(20);
        auto size = [&]() -> long {
          switch (sz) {
            case 0: return r.range(1, 64);
            case 1: return r.logrange(1, 4000);
            case 2: return r.logrange(16, 60000);
            default: return r.chance(1, 3) ? r.logrange(1, 200000) : r.range(1, 600);
          }
        };
        if (q < 7) { o.k = ALLOC; o.b = size(); if (r.chance(1, 12)) o.b = -(long)r.below(4) - 1; }
        else if (q < 7 + fw) o.k = FREE;
        else if (q < 14) { o.k = VERIFY; }
        else if (q < 16) { o.k = r.chance(1, 4) ? SDEALLOC : r.chance(1, 6) ? SVERIFY : SALLOC; o.b = size(); if (r.chance(1, 12)) o.b = -(long)r.below(6) - 1; }
        else if (q < 17) { o.k = r.chance(1, 2) ? SPACE : SPACEFREE; o.b = r.logrange(1, 300000); if (r.chance(1, 12)) o.b = -(long)r.below(4) - 1; }
        else if (q < 18) o.k = QUERY;
        else if (q < 19) { o.k = BAD; o.b = (long)r.below(9); }
        else { o.k = REST; o.a = r.range(1, 10); }
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 4)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 40), r.range(5, 200), 0});
  }
  std::vector<std::pair<u64, u64>> lists() {
    // everything not in use, as address ranges
    std::vector<std::pair<u64, u64>> v;
    for (int k = 1; k <= 2; k++) { auto n = get_list(k); v.insert(v.end(), n.v.begin(), n.v.end()); }
    return merge(v, "free and uncommitted");
  }
  u64 total(const std::vector<std::pair<u64, u64>> &v) { u64 s = 0; for (auto &x : v) s += x.second - x.first; return s; }
  void setup(Prog &p) override {
    Rng r((u64)p.cfg[6]);
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    if (p.cfg[5]) {   // storage that has been something else before
      probe(10);
      u64 sz = 0x10000ULL << r.below(4);
      u64 c = p.cfg[5] == 1 ? (u64)A->SASBlockAlloc(sz) : (u64)A->SASCompoundHeapCreatePageSize(sz, 512ULL << (2 * r.below(3)));
      if (!c) sim_error("setup");
      if (p.cfg[5] == 1) { stamp_write((void *)c, sz, 77); A->SASBlockDealloc((void *)c, sz); }
      else {
        for (int i = 0; i < 20; i++) A->SASCompoundHeapAlloc((SASCompoundHeap_t)c);
        A->SASCompoundHeapDestroy((SASCompoundHeap_t)c);
      }
    }
    nheaps = (int)p.cfg[0]; nstacks = (int)p.cfg[1];
    for (int i = 0; i < nheaps + nstacks; i++) {
      Heap &h = H[i];
      h.stack = i >= nheaps;
      h.size = 1ULL << p.cfg[2 + (i < 2 ? i : 2)];
      if (h.stack) h.size = 1ULL << p.cfg[4];
      if (p.cfg[7] == 2) {
        h.base = (u64)A->SASBlockAlloc(h.size);
        if (!h.base) sim_error("setup: block");
        if (h.stack) A->SASSimpleStackInit((void *)h.base, h.size); else A->SASSimpleHeapInit((void *)h.base, SAS_RUNTIME_SIMPLEHEAP, h.size);
      } else h.base = h.stack ? (u64)A->SASSimpleStackCreate(h.size) : (u64)A->SASSimpleHeapCreate(h.size);
      if (!h.base) fail("create", "a %s of %llu bytes was refused", h.stack ? "stack" : "heap", (unsigned long long)h.size);
      if (all.overlap(h.base, h.base + h.size) != -1) fail("overlap", "a new %s overlaps another", h.stack ? "stack" : "heap");
      all.add(h.base, h.base + h.size, i);
      h.top = h.base + 4096;
      exact(h, "when new");
    }
  }
  u64 cap(Heap &h) { return h.size - (h.stack ? 4096 : 128); }
  u64 free_space(Heap &h) { return h.stack ? A->SASSimpleStackFreeSpace((SASSimpleStack_t)h.base) : A->SASSimpleHeapFreeSpace((SASSimpleHeap_t)h.base); }
  void exact(Heap &h, const char *when) {
    long v0 = h.ver;
    if (h.inflight) return;
    u64 want = cap(h) - h.used;
    u64 got = free_space(h);
    if (h.ver != v0 || h.inflight) return;
    if (got != want) fail("free-space", "%s of %llu bytes reports %llu bytes free, %llu are (%s)", h.stack ? "stack" : "heap", (unsigned long long)h.size, (unsigned long long)got, (unsigned long long)want, when);
    probe(3);
    if (!h.stack) {
      int e = A->SASSimpleHeapEmpty((SASSimpleHeap_t)h.base);
      if (h.ver == v0 && !h.inflight && !!e != (h.used == 0)) fail("empty", "heap with %llu bytes handed out reports empty=%d (%s)", (unsigned long long)h.used, e, when);
    }
  }
  // the caller holds the heap's lock and is the only one with a call under way
  void held(Heap &h, SASSimpleHeap_t hp) {
    long v0 = h.ver;
    if (h.inflight != 1) return;
    u64 want = cap(h) - h.used, got = A->SASSimpleHeapFreeSpaceNoLock(hp);
    bool e = A->SASSimpleHeapEmptyNoLock(hp) != 0;
    if (h.ver != v0 || h.inflight != 1) return;
    if (got != want || e != (h.used == 0)) fail("free-space", "heap of %llu bytes reports %llu bytes free and empty=%d to the holder of its lock, %llu are free", (unsigned long long)h.size, (unsigned long long)got, e, (unsigned long long)want);
  }
  // largest unused gap of a heap according to the model
  u64 gap(Heap &h) {
    u64 g = 0, at = h.base + 128;
    for (auto &x : h.iv.m) { if (x.first > at) g = std::max(g, x.first - at); at = std::max(at, x.second.first); }
    if (h.base + h.size > at) g = std::max(g, h.base + h.size - at);
    return g;
  }
  int pick(Heap &h, long k) {
    int n = (int)h.objs.size();
    for (int i = 0; i < n; i++) { int j = (int)((k + i) % n); if (h.objs[j].live && !h.objs[j].busy) return j; }
    return -1;
  }
  void intact(const Obj &b, const char *when) {
    long bad = stamp_check((void *)b.a, b.n & ~7ULL, b.id);
    if (bad >= 0) fail("contents-lost", "storage %llx+%llx changed at offset %lx (%s)", (unsigned long long)b.a, (unsigned long long)b.n, bad, when);
  }
  void handed(Heap &h, u64 a, u64 n) {
    u64 sz = rnd16(n);
    u64 lo = h.base + (h.stack ? 4096 : 128);
    if (a < lo || a + sz > h.base + h.size) fail("outside", "storage %llx+%llx is outside its %s %llx+%llx", (unsigned long long)a, (unsigned long long)n, h.stack ? "stack" : "heap", (unsigned long long)h.base, (unsigned long long)h.size);
    if (a % 8) fail("misaligned", "storage %llx is misaligned", (unsigned long long)a);
    int o = h.iv.overlap(a, a + sz);
    if (o != -1) fail("overlap", "storage %llx+%llx overlaps live storage %d", (unsigned long long)a, (unsigned long long)n, o);
    Obj b{a, n, next_id++, true, true};
    h.iv.add(a, a + sz, (int)b.id);
    stamp_write((void *)a, n & ~7ULL, b.id);
    b.busy = false;
    h.objs.push_back(b);
    h.used += sz; h.upd();
    note(a);
  }
  void op(int th, int idx, const Op &o) override {
    if (idx == 0) A->SASThreadSetUp();
    Heap &h = H[o.a % nheaps];
    SASSimpleHeap_t hp = (SASSimpleHeap_t)h.base;
    switch (o.k) {
      case ALLOC: {
        u64 n = (u64)o.b;
        if (o.b < 0) n = o.b == -1 ? h.size - 128 : o.b == -2 ? h.size : o.b == -3 ? ~0ULL - 20 : h.size * 16 + 5;
        if (o.b < -2) probe(8);
        int near = o.c == 1 || o.c == 2 || o.c == 4 || (o.c == 5 && n < cap(h)) ? pick(h, o.d) : -1;
        if (n > 0x7fffffffffffffffULL) near = -1;
        bool alone = h.inflight == 0; long v0 = h.ver;
        u64 g = gap(h), a;
        h.inflight++; h.ver++; v0 = h.ver;
        long pend = n < cap(h) ? (long)rnd16(n) : 0;
        h.pa += pend; h.upd();
        if (near >= 0) {
          Obj nb = h.objs[near];
          h.objs[near].busy = true;
          u64 at = nb.a + (u64)o.d % nb.n;
          probe(1);
          if ((at - h.base) >= h.size / 2) probe(9);
          if (o.c == 4) {
            probe(2);
            A->SASLock(hp, SasUserLock__WRITE);
            held(h, hp);
            a = (u64)A->SASSimpleHeapNearAllocNoLock((void *)at, (long)n);
            A->SASUnlock(hp);
          } else if (o.c == 5) {   // the calls for any kind of block, which never lock
            probe(2);
            A->SASLock(hp, SasUserLock__WRITE);
            a = (u64)(o.d & 1 ? A->SASNearAlloc((void *)at, (long)n) : A->SASSOMHeapAlloc((SASBlockHeader *)hp, (long)n));
            A->SASUnlock(hp);
          } else a = (u64)A->SASSimpleHeapNearAlloc((void *)at, (long)n);
          h.objs[near].busy = false;
        } else if (o.c == 3) {
          probe(2);
          A->SASLock(hp, SasUserLock__WRITE);
          a = (u64)A->SASSimpleHeapAllocNoLock(hp, n);
          A->SASUnlock(hp);
        } else a = (u64)A->SASSimpleHeapAlloc(hp, n);
        if (a) {
          if (n >= cap(h)) fail("outside", "a request for %llu bytes was served by a heap of %llu", (unsigned long long)n, (unsigned long long)h.size);
          handed(h, a, n);
        } else {
          probe(0);
          if (n < cap(h) && rnd16(n) <= g && alone && h.ver == v0) fail("refused", "a request for %llu bytes was refused, %llu are free in one piece", (unsigned long long)n, (unsigned long long)g);
        }
        h.inflight--; h.ver++; h.pa -= pend;
        if (!a) exact(h, "after a refused request");
        break;
      }
      case FREE: {
        int j = pick(h, o.d);
        if (j < 0) break;
        Obj b = h.objs[j];
        h.objs[j].busy = true;
        intact(b, "at release");
        h.objs[j].live = false;
        h.inflight++; h.ver++; h.pf += rnd16(b.n); h.upd();
        // from here the library may hand it out again
        h.iv.del(b.a);
        int rc = 0;
        if (o.c == 1) A->SASSimpleHeapNearDealloc((void *)b.a, (long)b.n);
        else if (o.c == 4) {
          A->SASLock(hp, SasUserLock__WRITE);
          A->SASSimpleHeapNearDeallocNoLock((void *)b.a, (long)b.n);
          A->SASUnlock(hp);
        }
        else if (o.c == 5) {
          A->SASLock(hp, SasUserLock__WRITE);
          if (o.d & 1) A->SASNearDealloc((void *)b.a, (long)b.n);
          else A->SASSOMHeapDealloc((SASBlockHeader *)hp, (void *)b.a, (long)b.n);
          A->SASUnlock(hp);
        }
        else if (o.c == 3) {
          A->SASLock(hp, SasUserLock__WRITE);
          rc = A->SASSimpleHeapFreeNoLock(hp, (void *)b.a, b.n);
          A->SASUnlock(hp);
        } else rc = A->SASSimpleHeapFree(hp, (void *)b.a, b.n);
        if (rc != 0) fail("release", "releasing %llx+%llx returned %d", (unsigned long long)b.a, (unsigned long long)b.n, rc);
        h.used -= rnd16(b.n); h.pf -= rnd16(b.n); h.upd();
        h.inflight--; h.ver++;
        exact(h, "after a release");
        break;
      }
      case VERIFY: { int j = pick(h, o.d); if (j >= 0) intact(h.objs[j], "later"); break; }
      case SALLOC: {
        if (!nstacks) break;
        Heap &s = H[nheaps];
        sim_wait([&] { return !s.excl; });
        u64 n = (u64)o.b;
        if (o.b < 0) { n = o.b == -1 ? s.size - 4096 : o.b == -2 ? s.size : o.b == -3 ? ~0ULL - 20 : o.b == -4 ? ~0ULL - s.size : o.b == -5 ? 0 - (s.base & 0xffffffffffffULL) : s.size - 4097; probe(8); }
        bool alone = s.inflight == 0;
        u64 room = s.base + s.size - s.top;
        s.inflight++; long v0 = ++s.ver;
        long pend = n <= cap(s) ? (long)rnd16(n) : 0;
        s.pa += pend; s.upd();
        int near = o.c == 1 || o.c == 4 ? pick(s, o.d) : -1;
        u64 a;
        if (near >= 0) {
          u64 at = s.objs[near].a + (u64)o.d % s.objs[near].n;
          if (at - s.base >= s.size / 2) probe(9);
          if (o.c == 4) {
            A->SASLock((void *)s.base, SasUserLock__WRITE);
            if (s.inflight == 1) {
              u64 got = A->SASSimpleStackFreeSpaceNoLock((SASSimpleStack_t)s.base), want = cap(s) - s.used;
              if (s.inflight == 1 && s.ver == v0 && got != want) fail("free-space", "a stack of %llu bytes reports %llu bytes free to the holder of its lock, %llu are", (unsigned long long)s.size, (unsigned long long)got, (unsigned long long)want);
            }
            a = (u64)A->SASSimpleStackNearAllocNoLock((void *)at, n);
            A->SASUnlock((void *)s.base);
          } else a = (u64)A->SASSimpleStackNearAlloc((void *)at, n);
        } else if (o.c == 3) {
          A->SASLock((void *)s.base, SasUserLock__WRITE);
          a = (u64)A->SASSimpleStackAllocNoLock((SASSimpleStack_t)s.base, n);
          A->SASUnlock((void *)s.base);
        } else a = (u64)A->SASSimpleStackAlloc((SASSimpleStack_t)s.base, n);
        if (a) {
          if (n > cap(s)) fail("outside", "a push of %llu bytes was served by a stack of %llu", (unsigned long long)n, (unsigned long long)s.size);
          handed(s, a, n); s.top = std::max(s.top, a + rnd16(n));
        } else {
          probe(11);
          if (rnd16(n) <= room && n <= room && alone && s.ver == v0) fail("refused", "a push of %llu bytes was refused, %llu are free", (unsigned long long)n, (unsigned long long)room);
        }
        s.inflight--; s.ver++; s.pa -= pend;
        if (!a) exact(s, "after a refused push");
        break;
      }
      case SDEALLOC: {
        if (!nstacks) break;
        Heap &s = H[nheaps];
        sim_wait([&] { return !s.excl; });
        s.excl = true;
        sim_wait([&] { return s.inflight == 0; });
        int j = pick(s, o.d);
        u64 to = j >= 0 && o.c != 5 ? s.objs[j].a : s.base + 4096;
        for (auto &b : s.objs) if (b.live) intact(b, "at stack reset");
        int rc;
        for (auto &b : s.objs) if (b.live && b.a >= to) s.pf += rnd16(b.n);
        s.upd();
        if (o.c == 3) {
          A->SASLock((void *)s.base, SasUserLock__WRITE);
          rc = A->SASSimpleStackDeallocNoLock((SASSimpleStack_t)s.base, (void *)to);
          A->SASUnlock((void *)s.base);
        } else rc = A->SASSimpleStackDealloc((SASSimpleStack_t)s.base, (void *)to);
        if (rc != 0) fail("release", "resetting the stack to %llx returned %d", (unsigned long long)to, rc);
        for (auto &b : s.objs) if (b.live && b.a >= to) { b.live = false; s.iv.del(b.a); s.used -= rnd16(b.n); }
        s.top = to; s.ver++; s.pf = 0; s.upd();
        exact(s, "after a reset");
        s.excl = false;
        break;
      }
      case SVERIFY: {
        if (!nstacks) break;
        int j = pick(H[nheaps], o.d);
        if (j >= 0) intact(H[nheaps].objs[j], "later");
        break;
      }
      case SPACE: {
        u64 n = (u64)o.b;
        if (o.b < 0) { n = o.b == -1 ? R_SEG : o.b == -2 ? R_SEG * 4 + 1 : o.b == -3 ? 0x8000000000000001ULL : ~0ULL - 100; probe(12); }
        SASSimpleSpace_t s;
        if (o.b > 0 && o.c == 2) {   // on a block of the caller's
          u64 p2 = 8192; while (p2 < n + 4096) p2 *= 2;
          void *blk = A->SASBlockAlloc(p2);
          s = blk ? A->SASSimpleSpaceInit(blk, p2, n) : nullptr;
        } else s = A->SASSimpleSpaceCreate(n);
        if (!s) { if (o.b > 0) fail("refused", "a space of %llu bytes was refused", (unsigned long long)n); break; }
        if (o.b < 0) fail("outside", "a space of %llu bytes was granted, larger than any block", (unsigned long long)n);
        u64 a = (u64)A->SASSimpleSpaceToAddr(s);
        if (!a || A->SASSimpleSpaceFromAddr((void *)a) != s) fail("space", "address %llx of a space does not lead back to it", (unsigned long long)a);
        if (all.overlap(a - 4096, a + n) != -1) fail("overlap", "a space at %llx+%llx overlaps other storage", (unsigned long long)a, (unsigned long long)n);
        Sp sp{(u64)s, a, n, next_id++, true};
        all.add(a - 4096, a + n, 100 + (int)sp.id);
        stamp_write((void *)a, n & ~7ULL, sp.id);
        u64 fs = A->SASSimpleSpaceFreeSpace(s);
        u64 p2 = 8192; while (p2 < n + 4096) p2 *= 2;
        if (fs != p2 - 4096 - n) fail("free-space", "a space of %llu bytes reports %llu bytes beyond it, there are %llu", (unsigned long long)n, (unsigned long long)fs, (unsigned long long)(p2 - 4096 - n));
        sp.busy = false; spaces.push_back(sp);
        break;
      }
      case SPACEFREE: {
        int n = (int)spaces.size();
        for (int i = 0; i < n; i++) {
          Sp &s = spaces[(o.d + i) % n];
          if (s.busy) continue;
          s.busy = true;
          Sp c = s;
          long bad = stamp_check((void *)c.a, c.n & ~7ULL, c.id);
          if (bad >= 0) fail("contents-lost", "space %llx+%llx changed at offset %lx", (unsigned long long)c.a, (unsigned long long)c.n, bad);
          all.del(c.a - 4096);
          if (A->SASSimpleSpaceDestroy((SASSimpleSpace_t)c.h) != 0) fail("release", "destroying a space failed");
          break;
        }
        break;
      }
      case QUERY:
        if (o.c & 1) { during(h); if (nstacks) during(H[nheaps]); break; }
        exact(h, "query"); if (nstacks && !H[nheaps].excl) exact(H[nheaps], "query");
        break;
      case BAD: {
        int j = pick(h, o.d);
        if (j < 0) break;
        Obj b = h.objs[j];
        h.objs[j].busy = true;
        int rc = -1;
        Heap &other = H[nheaps > 1 ? (o.a + 1) % nheaps : 0];
        switch (o.b) {
          case 0: rc = A->SASSimpleHeapFree(hp, (void *)b.a, h.size); break;                     // more than the heap holds
          case 1: rc = A->SASSimpleHeapFree(hp, (void *)b.a, ~0ULL - 3); break;
          case 2: rc = nheaps > 1 ? A->SASSimpleHeapFree((SASSimpleHeap_t)other.base, (void *)b.a, b.n) : -1; break;   // another heap's storage
          case 3: rc = nstacks ? A->SASSimpleHeapFree((SASSimpleHeap_t)H[nheaps].base, (void *)b.a, b.n) : -1; break;  // not a heap
          case 4: { u64 v = nstacks ? (u64)A->SASSimpleHeapAlloc((SASSimpleHeap_t)H[nheaps].base, 16) : 0; rc = v ? 0 : -1; break; }
          case 5: if (nstacks) rc = A->SASSimpleStackDealloc((SASSimpleStack_t)H[nheaps].base, (void *)(H[nheaps].base + H[nheaps].size + 4096)); break;
          case 6: if (nstacks) rc = A->SASSimpleStackDealloc((SASSimpleStack_t)H[nheaps].base, (void *)(H[nheaps].base + 64)); break;
          case 8: if (nstacks) {   // not on a unit boundary: refused whoever holds the lock
            SASSimpleStack_t st = (SASSimpleStack_t)H[nheaps].base;
            rc = A->SASSimpleStackDealloc(st, (void *)(H[nheaps].base + 4096 + 8));
            if (rc != 0) { A->SASLock(st, SasUserLock__WRITE); rc = A->SASSimpleStackDeallocNoLock(st, (void *)(H[nheaps].base + 4096 + 8)); A->SASUnlock(st); }
          } break;
          case 7: { u64 v = (u64)A->SASSimpleHeapNearFind((void *)(b.a + (u64)o.d % b.n)); if (v != h.base) fail("find", "the heap of %llx was found at %llx", (unsigned long long)b.a, (unsigned long long)v); break; }
        }
        if (rc == 0) fail("bad-release", "a release that must be refused (kind %ld) was accepted", o.b);
        probe(7);
        intact(b, "after a refused release");
        h.objs[j].busy = false;
        exact(h, "after a refused release");
        break;
      }
      case REST: for (long i = 0; i < o.a; i++) sim_yield(); break;
    }
    (void)th;
  }
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[6] + 9);
    for (int i = 0; i < nheaps + nstacks; i++) {
      Heap &h = H[i];
      exact(h, "at the end");
      std::vector<Obj> v;
      for (auto &b : h.objs) if (b.live) { intact(b, "at the end"); v.push_back(b); }
      if (h.stack) { if (A->SASSimpleStackDealloc((SASSimpleStack_t)h.base, (void *)(h.base + 4096)) != 0) fail("release", "resetting the stack failed"); }
      else {
        for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
        for (auto &b : v) if (A->SASSimpleHeapFree((SASSimpleHeap_t)h.base, (void *)b.a, b.n) != 0) fail("release", "releasing %llx+%llx failed", (unsigned long long)b.a, (unsigned long long)b.n);
      }
      h.used = 0; h.inflight = 0; h.pa = h.pf = 0; h.iv.m.clear(); h.objs.clear(); h.top = h.base + 4096;
      exact(h, "after everything was released");
      u64 n = h.stack ? cap(h) : cap(h) - 1;
      u64 a = h.stack ? (u64)A->SASSimpleStackAlloc((SASSimpleStack_t)h.base, n) : (u64)A->SASSimpleHeapAlloc((SASSimpleHeap_t)h.base, n);
      if (!a) fail("largest", "after everything was released the largest request (%llu bytes) is refused", (unsigned long long)n);
      handed(h, a, n);
      probe(4);
    }
    for (auto &s : spaces) if (!s.busy) { if (s.a & 0x2000) A->SASSimpleSpaceDestroyNoLock((SASSimpleSpace_t)s.h); else A->SASSimpleSpaceDestroy((SASSimpleSpace_t)s.h); }
    u64 before = total(lists()), bytes = 0;
    for (int i = 0; i < nheaps + nstacks; i++) {
      Heap &h = H[i];
      bytes += h.size;
      int rc;
      if (p.cfg[6] & 1) rc = h.stack ? A->SASSimpleStackDestroy((SASSimpleStack_t)h.base) : A->SASSimpleHeapDestroy((SASSimpleHeap_t)h.base);
      else rc = h.stack ? A->SASSimpleStackDestroyNoLock((SASSimpleStack_t)h.base) : A->SASSimpleHeapDestroyNoLock((SASSimpleHeap_t)h.base);
      if (rc != 0) fail("destroy", "destroying a %s returned %d", h.stack ? "stack" : "heap", rc);
    }
    if (total(lists()) != before + bytes) fail("destroy", "destroying %d heaps and stacks of %llu bytes gave back %llu", nheaps + nstacks, (unsigned long long)bytes, (unsigned long long)(total(lists()) - before));
  }
};
Reg reg(new C15);
}
