// Expandable heaps of pages: simple heaps (C14) and queues (C21).
#pragma once
#include "blocks.h"
#include <deque>

struct CHeapCheck : Check {
  enum { ALLOC, NEAR, FREE, FREENEAR, USE, TAKE, QUERY, DESTROY, REST };
  enum { SIMPLE, QUEUE };
  struct Obj { u64 a, n, id; };
  struct Page {
    u64 a; int kind; u64 blk; bool live = true, busy = false; int users = 0;
    std::vector<Obj> objs;                                   // simple heap
    bool prod = false, cons = false; long puts = 0, gets = 0, started = 0; std::deque<std::pair<u64, u64>> q;   // queue: address, id of entries not yet released
  };
  struct Heap {
    u64 base = 0, size = 0, page = 0, hdr = 0; bool expanding = true; int load = 75; bool big = false;
    std::map<u64, long> blocks;                              // block -> live pages
    std::deque<Page> pages; Intervals iv;
    long inflight = 0, ver = 0; bool excl = false; u64 space = 0; bool at_limit = false; long forced = 0;
  };
  Heap H[2]; int nheaps = 0; bool nolock = false, pcq, mixed = false;
  u64 next_id = 1; u64 used0 = 0; long thr_proc_dummy = 0;
  CHeapCheck(const char *id, bool pcq_) : Check(id), pcq(pcq_) {
    opnames = {"alloc", "alloc-near", "free", "free-near", "use", "take", "query", "destroy", "rest"};
    probe_names = {"grew", "near_same_block", "near_fell_back", "nolock", "exact_free_space", "freed_in_expansion", "fixed_full", "list_extended", "list_full", "dirty_storage", "served_from_old_block", "queue_full", "near_the_heap_itself", "serves_again_after_release", "too_small_refused", "destroyed_and_recreated", "freed_by_other_process"};
    real = {"sascompoundheap.cpp", "sassimpleheap.cpp", "sassimplespace.cpp", "sphsinglepcqueue.c", "freenode.c", "saslock.cpp", "sasalloc.cpp", "sassim.cpp", "ultree.cpp"};
    quick_runs = 40000;
    max_steps = 20000000; idle_budget = 3000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(std::max(2, p.nprocs), 4);
    int big = r.chance(1, 40) ? 1 : 0;
    auto heapcfg = [&]() {
      int lh = (int)r.range(13, 18), lp = (int)r.range(9, std::min(15, lh - 1));
      if (r.chance(1, 12)) { lh = (int)r.range(12, 15); lp = lh - (int)r.below(2); if (lh == 12) lp = (int)r.range(9, 12); }
      if (r.chance(1, 3)) { lh = (int)r.range(13, 14); lp = (int)r.range(11, 12); }
      long load = r.chance(1, 2) ? -1 : r.chance(1, 6) ? 0 : r.chance(1, 4) ? 100 : r.range(1, 100);
      long how = (long)r.below(5);   // 0 create 1 page size 2 fixed 3 init expanding 4 init fixed
      p.cfg.push_back(lh); p.cfg.push_back(lp); p.cfg.push_back(load); p.cfg.push_back(how);
    };
    p.cfg = {r.range(1, 2), r.chance(1, 8) ? 1L : 0L, (long)(r.next() & 0x7fffffff), (long)r.below(4), big ? (r.chance(1, 2) ? r.range(248, 256) : r.range(500, 512)) : 0L, r.chance(1, 6) ? 1L : 0L};
    heapcfg(); heapcfg();
    if (big) { p.cfg[6] = 13; p.cfg[7] = r.range(9, 12); p.cfg[8] = r.chance(1, 2) ? 100 : -1; p.cfg[9] = 1; p.cfg[0] = 1; }
    int fw = (int)r.range(2, 6);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int n = (int)r.range(3, big ? 10 : 22);
      for (int i = 0; i < n; i++) {
        Op o{0, (long)r.below(1000), (long)r.below(1000), (long)r.below(100000), (long)r.below(8)};
        int q = (int)r.below(24);
        if (q < 5) o.k = ALLOC;
        else if (q < 9) o.k = NEAR;
        else if (q < 9 + fw) o.k = r.chance(1, 3) ? FREENEAR : FREE;
        else if (q < 19) o.k = USE;
        else if (q < 21) o.k = TAKE;
        else if (q < 22) o.k = QUERY;
        else if (q < 23) { o.k = r.chance(1, 5) ? DESTROY : QUERY; }
        else { o.k = REST; o.b = r.range(1, 10); }
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 60), r.range(5, 300), 0});
  }
  u64 used_total() { u64 s = 0; for (auto &x : get_list(L_USED).v) s += x.second; return s; }
  void create(Heap &h, const Prog *p, int i) {
    static long cf[8]; if (p) for (int k = 0; k < 8; k++) cf[k] = p->cfg[6 + k];
    h.size = 1ULL << cf[4 * i]; h.page = 1ULL << cf[4 * i + 1];
    int how = (int)cf[4 * i + 3];
    h.expanding = how != 2 && how != 4;
    if (how == 0 || how == 2) h.page = 4096;
    h.hdr = std::max((u64)4096, h.page);
    u64 b = 0;
    if (how >= 3) { b = (u64)A->SASBlockAlloc(h.size); if (!b) sim_error("setup: block"); }
    u64 c;
    switch (how) {
      case 0: c = (u64)A->SASCompoundHeapCreate(h.size); break;
      case 1: c = (u64)A->SASCompoundHeapCreatePageSize(h.size, h.page); break;
      case 2: c = (u64)A->SASCompoundFixedHeapCreate(h.size); break;
      default: c = (u64)A->SASCompoundHeapInit((void *)b, h.size, h.page, how == 3); break;
    }
    if (h.hdr + h.page > h.size) {   // no room for a single page: must be refused, nothing written, nothing kept
      if (c) fail("too-small", "a heap of %llu bytes with pages of %llu was granted", (unsigned long long)h.size, (unsigned long long)h.page);
      probe(14);
      if (b) A->SASBlockDealloc((void *)b, h.size);
      h.page = 4096; h.size = 16384; h.hdr = 4096;
      c = h.expanding ? (u64)A->SASCompoundHeapCreate(h.size) : (u64)A->SASCompoundFixedHeapCreate(h.size);
    }
    if (!c) fail("create", "a heap of %llu bytes with pages of %llu was refused", (unsigned long long)h.size, (unsigned long long)h.page);
    h.base = c;
    if (c % h.size) fail("misaligned", "a heap of %llu bytes is at %llx", (unsigned long long)h.size, (unsigned long long)c);
    for (int k = 0; k < nheaps; k++) if (&H[k] != &h) for (auto &x : H[k].blocks) if (x.first < c + h.size && c < x.first + H[k].size) fail("overlap", "a new heap at %llx overlaps another at %llx", (unsigned long long)c, (unsigned long long)x.first);
    h.blocks.clear(); h.blocks[c] = 0;
    h.space = h.size; h.at_limit = false; h.forced = 0;
    int lf = A->SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)c), want = h.expanding ? 75 : 100;
    if (lf != want) fail("load-factor", "a new heap has load factor %d instead of %d", lf, want);
    h.load = lf;
    if (cf[4 * i + 2] >= 0) {
      h.load = (int)cf[4 * i + 2];
      A->SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)c, h.load);
      if (A->SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)c) != h.load) fail("load-factor", "the load factor set is not the one returned");
    }
    if (A->SASCompoundHeapAllocSize((SASCompoundHeap_t)c) != h.page) fail("page-size", "a heap with pages of %llu reports %llu", (unsigned long long)h.page, (unsigned long long)A->SASCompoundHeapAllocSize((SASCompoundHeap_t)c));
  }
  void setup(Prog &p) override {
    Rng r((u64)p.cfg[2]);
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    nolock = p.cfg[1]; mixed = p.cfg[5];
    nheaps = (int)p.cfg[0];
    if (p.cfg[3]) {   // storage that has been something else before
      probe(9);
      for (int k = 0; k < 2; k++) {
        u64 sz = 0x4000ULL << r.below(6);
        u64 c = p.cfg[3] < 3 ? (u64)A->SASBlockAlloc(sz) : (u64)A->SASCompoundHeapCreatePageSize(sz, 512ULL << (2 * r.below(2)));
        if (!c) sim_error("setup");
        if (p.cfg[3] < 3) { stamp_all(c, sz); A->SASBlockDealloc((void *)c, sz); }
        else {
          for (int i = 0; i < 20; i++) A->SASCompoundHeapAlloc((SASCompoundHeap_t)c);
          A->SASCompoundHeapDestroy((SASCompoundHeap_t)c);
        }
      }
    }
    used0 = used_total();
    for (int i = 0; i < nheaps; i++) {
      create(H[i], &p, i);
      exact(H[i], "when new");
      if (p.cfg[4] && H[i].expanding) force(H[i], p.cfg[4]);
    }
  }
  // expand on request, beyond what the first list of blocks holds
  void force(Heap &h, long n) {
    u64 lim = 254, ext = (h.size - 4096) / 8 - 2;
    for (long k = 0; k < n; k++) {
      u64 have = h.blocks.size();
      u64 u = used_total_cheap(h, k, n);
      u64 e = (u64)A->SASCompoundHeapExpandCreate((SASCompoundHeap_t)h.base);
      if (!e) {
        if (have < std::max(lim, ext)) fail("expand", "expanding a heap of %llu blocks was refused", (unsigned long long)have);
        probe(8);
        if (u && used_total() != u) fail("leak", "a refused expansion keeps storage");
        h.at_limit = true;
        break;
      }
      if (have >= lim) probe(7);
      if (e % h.size) fail("misaligned", "a block of a heap of %llu bytes is at %llx", (unsigned long long)h.size, (unsigned long long)e);
      if (h.blocks.count(e)) fail("overlap", "a new block of a heap is the same as an old one");
      h.blocks[e] = 0; h.forced++;
    }
    exact(h, "after forced expansion");
  }
  u64 used_total_cheap(Heap &h, long k, long n) { (void)k; (void)n; return h.blocks.size() >= std::max<u64>(254, (h.size - 4096) / 8 - 2) ? used_total() : 0; }
  static void stamp_all(u64 a, u64 n) { for (u64 i = 0; i < n / 8; i++) ((volatile u64 *)a)[i] = 0x4000000000000000ULL + stamp_word(77, i) % 0x0000fffffffff000ULL; }
  u64 live_pages(Heap &h) { u64 n = 0; for (auto &x : h.blocks) n += (u64)x.second; return n; }
  void exact(Heap &h, const char *when) {
    if (h.inflight) return;
    long v0 = h.ver;
    SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
    u64 sp = A->SASCompoundHeapAllocSpace(c);
    if (h.ver != v0 || h.inflight) return;
    if (sp % h.size || sp / h.size < h.blocks.size()) fail("alloc-space", "a heap with at least %zu blocks of %llu bytes reports %llu bytes (%s)", h.blocks.size(), (unsigned long long)h.size, (unsigned long long)sp, when);
    if (sp < h.space) fail("alloc-space", "the heap's space went from %llu to %llu (%s)", (unsigned long long)h.space, (unsigned long long)sp, when);
    if (!h.expanding && sp != h.size) fail("alloc-space", "a fixed heap of %llu bytes reports %llu (%s)", (unsigned long long)h.size, (unsigned long long)sp, when);
    if (sp / h.size != h.blocks.size()) fail("alloc-space", "a heap of %zu blocks of %llu bytes reports %llu bytes (%s)", h.blocks.size(), (unsigned long long)h.size, (unsigned long long)sp, when);
    h.space = sp;
    u64 fs = nolock && in_fiber() ? locked_free(c) : A->SASCompoundHeapFreeSpace(c);
    if (h.ver != v0 || h.inflight) return;
    u64 want = sp - (sp / h.size) * h.hdr - live_pages(h) * h.page;
    if (fs != want) fail("free-space", "%llu bytes in %zu blocks with %llu pages of %llu live: %llu bytes free reported, %llu are (%s)", (unsigned long long)sp, h.blocks.size(), (unsigned long long)live_pages(h), (unsigned long long)h.page, (unsigned long long)fs, (unsigned long long)want, when);
    probe(4);
  }
  u64 locked_free(SASCompoundHeap_t c) {
    A->SASLock(c, SasUserLock__WRITE);
    u64 v = A->SASCompoundHeapFreeSpaceNoLock(c);
    A->SASUnlock(c);
    return v;
  }
  int pick(Heap &h, long k, bool free_) {
    int n = (int)h.pages.size();
    for (int i = 0; i < n; i++) { int j = (int)((k + i) % n); Page &g = h.pages[j]; if (g.live && !g.busy && (!free_ || g.users == 0)) return j; }
    return -1;
  }
  long pct(Heap &h, u64 live) { return h.hdr + live * h.page == h.size ? 100 : (long)((h.hdr + live * h.page) * 100 / h.size); }
  long per_block(Heap &h) { return (long)((h.size - h.hdr) / h.page); }
  // a page was handed out: register it
  int handed(Heap &h, u64 a, int kind) {
    note(a);
    if (a % h.page) fail("misaligned", "a page of %llu bytes is at %llx", (unsigned long long)h.page, (unsigned long long)a);
    u64 blk = a & ~(h.size - 1);
    if (!h.expanding && blk != h.base) fail("outside", "page %llx is outside its fixed heap %llx", (unsigned long long)a, (unsigned long long)h.base);
    if (a - blk < h.hdr) fail("outside", "page %llx lies in the heap block's own header", (unsigned long long)a);
    for (int k = 0; k < nheaps; k++) if (&H[k] != &h) for (auto &x : H[k].blocks) if (x.first < blk + h.size && blk < x.first + H[k].size) fail("overlap", "a page at %llx lies in another heap's block", (unsigned long long)a);
    int o = h.iv.overlap(a, a + h.page);
    if (o != -1) fail("overlap", "page %llx overlaps live page %d", (unsigned long long)a, o);
    if (!h.blocks.count(blk)) { h.blocks[blk] = 0; probe(0); }
    h.blocks[blk]++;
    h.iv.add(a, a + h.page, (int)h.pages.size());
    h.pages.emplace_back();
    Page &g = h.pages.back();
    g.a = a; g.kind = kind; g.blk = blk; g.busy = true;
    int j = (int)h.pages.size() - 1;
    u64 f = (u64)A->SASFindHeader((void *)(a + h.page / 2 + 24));
    if (f != a) fail("find", "the header of an address in page %llx was found at %llx", (unsigned long long)a, (unsigned long long)f);
    if (kind == SIMPLE) {
      if (!A->SASSimpleHeapEmpty((SASSimpleHeap_t)a)) fail("page-state", "a new page of %llu bytes at %llx is not empty", (unsigned long long)h.page, (unsigned long long)a);
      u64 fs = A->SASSimpleHeapFreeSpace((SASSimpleHeap_t)a);
      if (fs != h.page - 128) fail("page-state", "a new page of %llu bytes has %llu bytes free", (unsigned long long)h.page, (unsigned long long)fs);
    } else {
      if (!A->SPHSinglePCQueueEmpty((SPHSinglePCQueue_t)a)) fail("page-state", "a new queue at %llx is not empty", (unsigned long long)a);
      if (A->SPHSinglePCQueueGetStride((SPHSinglePCQueue_t)a) != 128) fail("page-state", "a new queue at %llx has stride %d", (unsigned long long)a, A->SPHSinglePCQueueGetStride((SPHSinglePCQueue_t)a));
      if (A->SPHSinglePCQueueGetNextCompleteDirect((SPHSinglePCQueue_t)a)) fail("phantom", "a new queue delivers an entry");
    }
    h.pages[j].busy = false;
    return j;
  }
  void verify(Heap &h, Page &g, const char *when) {
    for (size_t i = 0; i < g.objs.size(); i++) {
      Obj b = g.objs[i];
      long bad = stamp_check((void *)b.a, b.n & ~7ULL, b.id);
      if (bad >= 0) fail("contents-lost", "storage %llx+%llx in page %llx changed at offset %lx (%s)", (unsigned long long)b.a, (unsigned long long)b.n, (unsigned long long)g.a, bad, when);
    }
    for (size_t i = 0; i < g.q.size(); i++) {
      auto e = g.q[i];
      long bad = stamp_check((void *)(e.first + 16), 112, e.second);
      if (bad >= 0) fail("contents-lost", "queue entry %llx in page %llx changed at offset %lx (%s)", (unsigned long long)e.first, (unsigned long long)g.a, bad + 16, when);
    }
    (void)h;
  }
  bool enter(Heap &h) {   // start of a change
    sim_wait([&h] { return !h.excl; });
    bool alone = h.inflight == 0;
    h.inflight++; h.ver++;
    return alone;
  }
  void leave(Heap &h) { h.inflight--; h.ver++; }
  void op(int th, int idx, const Op &o) override {
    if (idx == 0) A->SASThreadSetUp();
    Heap &h = H[o.a % nheaps];
    switch (o.k) {
      case ALLOC: case NEAR: {
        int kind = pcq ? (mixed && o.d < 2 ? SIMPLE : QUEUE) : SIMPLE;
        bool alone = enter(h); long v0 = h.ver;
        SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
        int near = o.k == NEAR && o.d != 7 ? pick(h, o.b, false) : -1;
        bool isnear = o.k == NEAR && (near >= 0 || o.d == 7);
        u64 at = h.base + 128, nblk = h.base;
        if (near >= 0) { Page &g = h.pages[near]; g.users++; at = g.a + (u64)o.c % h.page; nblk = g.blk; }
        else if (isnear) probe(12);
        auto before = h.blocks;
        u64 a;
        if (nolock) { probe(3); A->SASLock(c, SasUserLock__WRITE); }
        if (isnear) {
          if (nolock) a = kind == SIMPLE ? (u64)A->SASCompoundHeapNearAllocNoLock((void *)at) : (u64)A->SPHCompoundPCQNearAllocNoLock((void *)at);
          else a = kind == SIMPLE ? (u64)A->SASCompoundHeapNearAlloc((void *)at) : (u64)A->SPHCompoundPCQNearAlloc((void *)at);
        } else {
          if (nolock) a = kind == SIMPLE ? (u64)A->SASCompoundHeapAllocNoLock(c) : (u64)A->SPHCompoundPCQAllocNoLock(c);
          else a = kind == SIMPLE ? (u64)A->SASCompoundHeapAlloc(c) : (u64)A->SPHCompoundPCQAlloc(c);
        }
        if (nolock) A->SASUnlock(c);
        if (near >= 0) h.pages[near].users--;
        bool quiet = alone && h.ver == v0;
        bool open = false; for (auto &x : before) if (pct(h, x.second) < h.load && x.second < per_block(h)) open = true;
        if (a) {
          u64 blk = a & ~(h.size - 1);
          bool grew = !before.count(blk);
          if (quiet) {
            if (grew && open && !isnear) fail("growth", "the heap grew although one of its %zu blocks is below the load factor of %d%%", before.size(), h.load);
            if (grew && isnear && before[nblk] < per_block(h)) fail("growth", "a request near %llx grew the heap although that block has room", (unsigned long long)at);
            if (isnear && !grew && before[nblk] < per_block(h) && blk != nblk) fail("near", "a request near %llx was served from block %llx although its own block has room", (unsigned long long)at, (unsigned long long)blk);
            if (isnear) probe(blk == nblk ? 1 : 2);
            else if (!grew && h.expanding) {
              if (pct(h, before[blk]) >= h.load) fail("load-factor", "a page was taken from a block filled to %ld%%, the load factor is %d%%", pct(h, before[blk]), h.load);
              probe(10);
            }
          }
          handed(h, a, kind);
        } else if (h.expanding) {
          if (h.blocks.size() < std::max<u64>(254, (h.size - 4096) / 8 - 2)) fail("refused", "an expanding heap of %zu blocks refused a page", h.blocks.size());
        } else {
          probe(6);
          if (quiet && (long)live_pages(h) < per_block(h)) fail("refused", "a fixed heap with %llu of %ld pages in use refused a page", (unsigned long long)live_pages(h), per_block(h));
        }
        leave(h);
        break;
      }
      case FREE: case FREENEAR: {
        enter(h);
        int j = pick(h, o.b, true);
        if (j < 0) { leave(h); break; }
        Page &g = h.pages[j];
        g.busy = true;
        verify(h, g, "at release");
        g.live = false;
        h.iv.del(g.a);                       // from here it may be handed out again
        if (g.blk != h.base) probe(5);
        h.blocks[g.blk]--;
        SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
        if (nolock) A->SASLock(c, SasUserLock__WRITE);
        if (g.kind == QUEUE) {
          if (nolock) A->SPHCompoundPCQFreeNoLock(c, (SPHSinglePCQueue_t)g.a); else A->SPHCompoundPCQFree(c, (SPHSinglePCQueue_t)g.a);
        } else if (o.k == FREENEAR) {
          u64 at = g.a + (u64)o.c % h.page;
          if (nolock) A->SASCompoundHeapNearDeallocNoLock((void *)at); else A->SASCompoundHeapNearDealloc((void *)at);
        } else {
          if (nolock) A->SASCompoundHeapFreeNoLock(c, (SASSimpleHeap_t)g.a); else A->SASCompoundHeapFree(c, (SASSimpleHeap_t)g.a);
        }
        if (nolock) A->SASUnlock(c);
        leave(h);
        if (!nolock) exact(h, "after a release");
        break;
      }
      case USE: case TAKE: {
        sim_wait([&h] { return !h.excl; });
        int j = pick(h, o.b, false);
        if (j < 0) break;
        Page &g = h.pages[j];
        g.users++;
        if (g.kind == SIMPLE) {
          if (o.k == TAKE) verify(h, g, "later");
          else {
            u64 n = 8 + (u64)o.c % (h.page / 2);
            u64 a = o.d & 1 ? (u64)A->SASSimpleHeapNearAlloc((void *)(g.a + (u64)o.c % h.page), (long)n) : (u64)A->SASSimpleHeapAlloc((SASSimpleHeap_t)g.a, n);
            if (a) {
              if (a < g.a + 128 || a + n > g.a + h.page) fail("outside", "storage %llx+%llx is outside its page %llx+%llx", (unsigned long long)a, (unsigned long long)n, (unsigned long long)g.a, (unsigned long long)h.page);
              for (auto &b : g.objs) if (a < b.a + b.n && b.a < a + n) fail("overlap", "storage %llx+%llx overlaps %llx+%llx", (unsigned long long)a, (unsigned long long)n, (unsigned long long)b.a, (unsigned long long)b.n);
              u64 id = next_id++;
              stamp_write((void *)a, n & ~7ULL, id);
              g.objs.push_back({a, n, id});
            }
          }
        } else if (o.k == USE) {
          if (!g.prod) {
            g.prod = true;
            int k = 1 + (int)(o.c % 3);
            while (k--) {
              long in = g.puts - g.gets;
              u64 e = (u64)A->SPHSinglePCQueueAllocStrideDirect((SPHSinglePCQueue_t)g.a);
              if (!e) {
                probe(11);
                if (in == 0) fail("false-full", "an empty queue at %llx refuses an entry", (unsigned long long)g.a);
                break;
              }
              if (e < g.a + 64 || e + 128 > g.a + h.page) fail("outside", "entry %llx is outside its queue %llx+%llx", (unsigned long long)e, (unsigned long long)g.a, (unsigned long long)h.page);
              for (auto &x : g.q) if (e < x.first + 128 && x.first < e + 128) fail("overwrite", "entry %llx handed out while it is not released", (unsigned long long)e);
              u64 id = next_id++;
              stamp_write((void *)(e + 16), 112, id);
              g.puts++;
              sphLFEntryID_t t = A->SPHSinglePCQueueGetEntryTemplate((SPHSinglePCQueue_t)g.a);
              g.q.push_back({e, id});
              g.started = g.puts;
              if (!A->SPHLFEntryDirectComplete((void *)e, t, (int)(id & 15), 3)) fail("complete", "completing an entry failed");
            }
            g.prod = false;
          }
        } else if (!g.cons) {
          g.cons = true;
          bool avail = g.puts > g.gets && !g.prod;
          u64 e = (u64)A->SPHSinglePCQueueGetNextCompleteDirect((SPHSinglePCQueue_t)g.a);
          if (!e) { if (avail) fail("false-empty", "queue %llx holds %ld entries but delivers none", (unsigned long long)g.a, g.puts - g.gets); }
          else {
            if (g.q.empty()) fail("phantom", "an entry was delivered that was never passed");
            auto x = g.q.front();
            if (e != x.first) fail("order", "delivered entry %llx instead of %llx", (unsigned long long)e, (unsigned long long)x.first);
            if (A->SPHLFEntryDirectCategory((void *)e) != (int)(x.second & 15)) fail("contents-lost", "a delivered entry has another category");
            long bad = stamp_check((void *)(e + 16), 112, x.second);
            if (bad >= 0) fail("contents-lost", "a delivered entry changed at offset %ld", bad + 16);
            g.q.pop_front();                 // may be reused from here
            if (!A->SPHSinglePCQueueFreeNextEntryDirect((SPHSinglePCQueue_t)g.a, (void *)e)) fail("free", "releasing the delivered entry failed");
            g.gets++;
          }
          g.cons = false;
        }
        g.users--;
        break;
      }
      case QUERY: {
        sim_wait([&h] { return !h.excl; });
        h.ver++;   // a query must not be disturbed by a destroy
        if (h.inflight == 0 && !nolock) {
          nreaders[&h - H]++;
          if (o.d < 4) exact(h, "query");
          else {
            SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
            u64 lo = h.blocks.size() * h.size, v;
            switch (o.d) { case 4: v = A->SASCompoundHeapBringAll(c); break; case 5: v = A->SASCompoundHeapSeqAccessAll(c); break; case 6: v = A->SASCompoundHeapRandomAccessAll(c); break; default: v = A->SASCompoundHeapWriteAll(c, 1); }
            if (v < lo || v % h.size) fail("alloc-space", "advice for a heap of at least %llu bytes covered %llu", (unsigned long long)lo, (unsigned long long)v);
          }
          nreaders[&h - H]--;
        }
        break;
      }
      case DESTROY: {
        if (h.excl || h.forced) break;
        h.excl = true;
        sim_wait([this, &h] { if (h.inflight || nreaders[&h - H]) return false; for (auto &g : h.pages) if (g.users) return false; return true; });
        for (auto &g : h.pages) if (g.live) { verify(h, g, "before the heap's destruction"); g.live = false; }
        h.iv.m.clear(); h.ver++;
        SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
        h.blocks.clear();
        if (nolock) A->SASCompoundHeapDestroyNoLock(c); else A->SASCompoundHeapDestroy(c);
        h.pages.clear();
        create(h, nullptr, (int)(&h - H));
        probe(15);
        h.ver++;
        h.excl = false;
        break;
      }
      case REST: for (long i = 0; i < o.b; i++) sim_yield(); break;
    }
    (void)th;
  }
  int nreaders[2] = {0, 0};
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[2] + 9);
    for (int i = 0; i < nheaps; i++) {
      Heap &h = H[i];
      SASCompoundHeap_t c = (SASCompoundHeap_t)h.base;
      exact(h, "at the end");
      std::vector<Page *> v;
      for (auto &g : h.pages) if (g.live) { verify(h, g, "at the end"); v.push_back(&g); }
      for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
      for (auto *g : v) {
        if (g->kind == QUEUE) A->SPHCompoundPCQFree(c, (SPHSinglePCQueue_t)g->a);
        else if (r.chance(1, 2)) A->SASCompoundHeapNearDealloc((void *)g->a);
        else A->SASCompoundHeapFree(c, (SASSimpleHeap_t)g->a);
        h.blocks[g->blk]--; g->live = false; h.iv.del(g->a);
      }
      exact(h, "after everything was released");
      // serves again without growing what a new heap of these blocks can
      long each = 0; while (each < per_block(h) && pct(h, each) < h.load) each++;
      if (!h.expanding) each = per_block(h);
      long n = std::min<long>(each * (long)h.blocks.size(), 300);
      u64 sp = h.space;
      for (long k = 0; k < n; k++) {
        int kind = pcq ? QUEUE : SIMPLE;
        u64 a = kind == SIMPLE ? (u64)A->SASCompoundHeapAlloc(c) : (u64)A->SPHCompoundPCQAlloc(c);
        if (!a) fail("refused", "after everything was released page %ld of %ld is refused", k, n);
        if (!h.blocks.count(a & ~(h.size - 1))) fail("growth", "after everything was released the heap of %zu blocks grew for page %ld of %ld", h.blocks.size(), k, n);
        handed(h, a, kind);
        progress();
      }
      h.space = sp;
      exact(h, "after serving again");
      probe(13);
    }
    for (int i = 0; i < nheaps; i++) A->SASCompoundHeapDestroy((SASCompoundHeap_t)H[i].base);
    u64 u = used_total();
    if (u != used0) fail("destroy", "after all heaps were destroyed %lld bytes more are in use than before they were created", (long long)(u - used0));
  }
};
