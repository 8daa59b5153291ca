// C24: what a synchronous write-back reported as written survives a power failure.
#include "common.h"
#include <deque>
#include <memory>

namespace {
struct C24 : Check {
  enum { WRITE, SYNC, PURGE, HINT, HEAPSYNC, HEAPHINT, VERIFY, REST };
  struct Cell { u64 a; std::vector<u64> hist; size_t durable = 0; int owner; };   // hist: every value stored, in order
  std::vector<Cell> cells;                 // sorted by address
  struct Area { u64 a, len; int kind; };   // 0: block, 1: block of the heap
  std::vector<Area> areas;
  u64 heap = 0, heap_total = 0; u64 nextval = 1;
  std::vector<u64> heapobj; long heap_free = 0;
  int nth = 1;
  bool seg_touched[4][4] = {};
  bool power = false;
  u64 root = 0;
  C24() : Check("C24") {
    what = "1-3 processes, 1-4 threads write words of blocks (in up to 3 segments) and of an expanded compound heap, and call the write-back, purge, hint and release functions over arbitrary byte ranges, with failing write-backs; the power fails at a random step of a random call, every page not synchronised keeps its old, new or a torn content; processes then start anew and the store is read back.";
    opnames = {"write", "sync", "purge", "hint", "heap-sync", "heap-hint", "verify", "rest"};
    probe_names = {"power_during_operation", "sync_succeeded", "sync_failed", "range_over_blocks", "range_over_segments", "unaligned_range", "heap_synced", "lost_unsynchronised", "durable_value_read_back", "whole_heap_after_power_failure", "concurrent_write_during_sync"};
    real = {"sasmsync.c", "sascompoundheap.cpp", "sassim.cpp", "sasalloc.cpp"};
    stub = {"the disk: pages become durable only through msync, or at random"};
    quick_runs = 20000;
    max_steps = 20000000; idle_budget = 3000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(p.nprocs, 4);
    p.cfg = {(long)(r.next() & 0x7fffffff), r.range(2, 6), r.chance(1, 2), r.chance(1, 4) ? r.range(1, 2) : 0, r.range(0, 4), (long)(r.next() & 0x7fffffff)};
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int n = (int)r.range(3, 14);
      for (int i = 0; i < n; i++) {
        Op o{0, (long)r.below(1 << 30), (long)r.below(1 << 30), 0, 0};
        int q = (int)r.below(20);
        if (q < 8) { o.k = WRITE; o.c = r.range(1, 6); }
        else if (q < 13) { o.k = r.chance(1, 4) ? PURGE : SYNC; o.c = (long)r.below(6); o.d = r.chance(1, 5); }
        else if (q < 15) { o.k = HINT; o.c = (long)r.below(4); o.d = (long)r.below(6); }
        else if (q < 16) { o.k = HEAPSYNC; o.a = r.chance(1, 3); o.d = r.chance(1, 5); }
        else if (q < 17) { o.k = HEAPHINT; o.a = (long)r.below(4); }
        else if (q < 19) o.k = VERIFY;
        else { o.k = REST; o.a = r.range(1, 10); }
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    int t = (int)r.below(p.threads.size());
    if (r.chance(2, 3)) p.faults.push_back({F_POWER, t, (int)r.below(p.threads[t].ops.size()), r.range(1, 12), 1, 0});
    if (r.chance(1, 3)) p.faults.push_back({F_MSYNC, 0, 0, r.range(1, 6), r.range(1, 3), r.chance(1, 2) ? 5 : 28});
    if (r.chance(1, 4)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(6), r.range(1, 20), r.range(5, 60), 0});
  }
  u64 raw(u64 a) { return *(volatile u64 *)a; }
  void put(Cell &c) { c.hist.push_back(stamp_word(nextval++, c.a)); *(volatile u64 *)c.a = c.hist.back(); }
  void setup(Prog &p) override {
    Rng r((u64)p.cfg[0]);
    nth = (int)p.threads.size();
    stop_faults();
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    for (int i = 0; i < p.cfg[1]; i++) {
      u64 sz = 0x1000ULL << r.range(0, 5);
      if (i == 1 && p.cfg[3]) {   // fill segments so that blocks lie in more than one
        for (int k = 0; k < p.cfg[3]; k++) {
          u64 big = (u64)A->SASBlockAlloc(R_SEG / 2);
          if (!big) sim_error("no half segment");
          areas.push_back({big, R_SEG / 2, 0});
        }
        sz = R_SEG / 2;
      }
      u64 a = (u64)A->SASBlockAlloc(sz);
      if (!a) sim_error("setup: no block");
      areas.push_back({a, sz, 0});
    }
    if (p.cfg[2]) {
      heap = (u64)A->SASCompoundHeapCreate(0x4000);
      if (!heap) sim_error("setup: no heap");
      for (int i = 0; i < 12; i++) {
        u64 sz = 512 << r.below(3);
        u64 a = (u64)A->SASCompoundHeapAlloc((SASCompoundHeap_t)heap);
        if (!a) break;
        (void)sz;
        heapobj.push_back(a);
      }
    }
    std::set<u64> at;
    for (auto &x : areas) {
      int n = (int)r.range(3, 10);
      for (int i = 0; i < n; i++) {
        u64 off = r.below(x.len / 8) * 8;
        switch (r.below(6)) {
          case 0: off = 0; break;
          case 1: off = x.len - 8; break;
          case 2: off = r.below(x.len / 4096) * 4096 + (r.chance(1, 2) ? 0 : 4088); break;
          case 3: off = x.len > 0x4000 ? r.below(0x4000 / 8) * 8 : off; break;
        }
        at.insert(x.a + off);
      }
    }
    for (u64 o : heapobj) { at.insert(o + 256 + r.below(32) * 8); at.insert(o + 3 * 256); }
    for (u64 a : at) { Cell c; c.a = a; c.owner = (int)r.below(nth); cells.push_back(c); }
    for (auto &c : cells) put(c);
    if (heap) heap_free = (long)A->SASCompoundHeapFreeSpace((SASCompoundHeap_t)heap);
    // everything so far is durable
    u64 top = 0;
    for (auto &c : cells) top = std::max(top, c.a);
    for (u64 s = R_LOW; s <= top; s += R_SEG) {
      int rc = A->sasMsyncWrite((void *)s, R_SEG, 0);
      if (rc != 0) fail("sync-refused", "synchronising a whole segment returned %d", rc);
    }
    for (auto &c : cells) c.durable = 0;
    for (int i = 0; i < p.nprocs; i++) seg_touched[i][0] = true;
    for (auto &c : cells) if ((c.a - R_LOW) / R_SEG < 4) seg_touched[0][(c.a - R_LOW) / R_SEG] = true;
    start_faults();
  }
  void on_kill(int) override { power = true; }
  size_t first_cell(u64 a) {   // index of the first cell that ends after a
    size_t i = 0;
    while (i < cells.size() && cells[i].a + 8 <= a) i++;
    return i;
  }
  void range(const Op &o, u64 &a, u64 &len, bool &attached) {
    const Area &x = areas[o.a % areas.size()];
    u64 m = (u64)o.b;
    a = x.a; len = x.len;
    switch (o.c % 6) {
      case 0: break;                                              // the block
      case 1: a += m % x.len; len = 1 + (m / 7) % (x.len - (a - x.a)); break;   // any byte range in it
      case 2: {                                                   // around a cell
        const Cell &c = cells[m % cells.size()];
        a = c.a - (c.a % 4096 < 16 ? 0 : (m / 3) % 16); len = 8 + (c.a - a) + (m / 5) % 16;
        if (m & 1) { a = c.a; len = 1; }
        break;
      }
      case 3: {                                                   // from one cell to another
        const Cell *c = &cells[m % cells.size()], *d = &cells[(m / 64) % cells.size()];
        if (c->a > d->a) std::swap(c, d);
        a = c->a + (m % 8); len = d->a + 8 - (m / 11) % 8 - a;
        if (d->a + 8 - (m / 11) % 8 <= a) len = 1;
        probe(3);
        break;
      }
      case 4: a = cells[m % cells.size()].a & ~4095UL; len = 4096 * (1 + (m / 17) % 4); break;
      case 5: a = (x.a & ~4095UL) + (m % 2 ? 4095 : 1); len = 4096; break;
    }
    if (a % 4096 || len % 4096) probe(5);
    attached = true;
    int pr = fiber_proc(cur_fiber());
    for (u64 s = (a - R_LOW) / R_SEG; s <= (a + len - 1 - R_LOW) / R_SEG; s++) if (s >= 4 || !seg_touched[pr][s]) attached = false;
    if ((a - R_LOW) / R_SEG != (a + len - 1 - R_LOW) / R_SEG) probe(4);
  }
  void synced(const std::vector<std::pair<size_t, size_t>> &snap) {
    for (auto &s : snap) {
      Cell &c = cells[s.first];
      if (c.hist.size() - 1 > s.second) probe(10);
      c.durable = std::max(c.durable, s.second);
    }
  }
  std::vector<std::pair<size_t, size_t>> snapshot(u64 a, u64 len) {
    std::vector<std::pair<size_t, size_t>> v;
    for (size_t i = first_cell(a); i < cells.size() && cells[i].a < a + len; i++) v.push_back({i, cells[i].hist.size() - 1});
    return v;
  }
  void check_cells(const char *when) {
    for (auto &c : cells) {
      int pr = fiber_proc(cur_fiber());
      if (!seg_touched[pr][(c.a - R_LOW) / R_SEG]) continue;
      u64 v = raw(c.a);
      if (v != c.hist.back()) fail("changed", "word %llx no longer holds what was stored last (%s)", (unsigned long long)c.a, when);
    }
  }
  void op(int th, int idx, const Op &o) override {
    int pr = fiber_proc(cur_fiber());
    if (idx == 0) A->SASThreadSetUp();
    u64 bad0 = os_failed_here();
    switch (o.k) {
      case WRITE:
        for (long i = 0; i < o.c; i++) {
          Cell &c = cells[(o.a + i * (o.b % 7 + 1)) % cells.size()];
          u64 seg = (c.a - R_LOW) / R_SEG;
          if (!seg_touched[pr][seg]) { (void)raw(c.a); if (seg < 4) seg_touched[pr][seg] = true; }
          put(c);
          sim_point_here();
        }
        break;
      case SYNC: case PURGE: {
        u64 a, len; bool attached;
        range(o, a, len, attached);
        auto snap = snapshot(a, len);
        int rc = o.k == SYNC ? A->sasMsyncWrite((void *)a, len, o.d ? 1 : 0) : A->sasMsyncPurge((void *)a, len, o.d ? 1 : 0);
        bool inj = os_failed_here() != bad0;
        logf_("  %s %llx+%llx async %ld -> %d", opnames[o.k], (unsigned long long)a, (unsigned long long)len, o.d, rc);
        if (rc == 0 && !o.d) { synced(snap); probe(1); }
        if (rc != 0) probe(2);
        if (rc != 0 && !inj && attached) fail("sync-refused", "%s of %llx+%llx, all attached, returned %d", opnames[o.k], (unsigned long long)a, (unsigned long long)len, rc);
        break;
      }
      case HINT: {
        u64 a, len; bool attached;
        Op q = o; q.c = o.d;
        range(q, a, len, attached);
        int rc = o.c == 0 ? A->sasMsyncBring((void *)a, len) : o.c == 1 ? A->sasMsyncSequential((void *)a, len) : o.c == 2 ? A->sasMsyncRandom((void *)a, len) : A->sasMsyncRelease((void *)a, len);
        if (rc != 0 && attached) fail("hint-refused", "hint %ld for %llx+%llx, all attached, returned %d", o.c, (unsigned long long)a, (unsigned long long)len, rc);
        check_cells("after a hint");
        break;
      }
      case HEAPSYNC: {
        if (!heap) break;
        std::vector<std::pair<size_t, size_t>> snap;
        for (size_t i = 0; i < cells.size(); i++) {
          bool in = false;
          for (u64 h : heapobj) if (cells[i].a >= h && cells[i].a < h + 1024) in = true;
          if (in) snap.push_back({i, cells[i].hist.size() - 1});
        }
        u64 tot = o.a ? A->SASCompoundHeapPurgeAll((SASCompoundHeap_t)heap, o.d ? 1 : 0) : A->SASCompoundHeapWriteAll((SASCompoundHeap_t)heap, o.d ? 1 : 0);
        if (os_failed_here() == bad0) {
          if (tot != A->SASCompoundHeapAllocSpace((SASCompoundHeap_t)heap)) fail("heap-sync", "%s of the heap reports %llu bytes, it has %llu", o.a ? "purge" : "write-back", (unsigned long long)tot, (unsigned long long)A->SASCompoundHeapAllocSpace((SASCompoundHeap_t)heap));
          if (!o.d) { synced(snap); probe(6); }
        }
        break;
      }
      case HEAPHINT: {
        if (!heap) break;
        SASCompoundHeap_t h = (SASCompoundHeap_t)heap;
        if (o.a == 0) A->SASCompoundHeapBringAll(h); else if (o.a == 1) A->SASCompoundHeapReleaseAll(h);
        else if (o.a == 2) A->SASCompoundHeapSeqAccessAll(h); else A->SASCompoundHeapRandomAccessAll(h);
        check_cells("after a heap hint");
        break;
      }
      case VERIFY: check_cells("verify"); break;
      case REST: for (long i = 0; i < o.a; i++) sim_yield(); break;
    }
    (void)th;
  }
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[5]);
    stop_faults();
    if (power) probe(0);
    os_power_failure(r, (int)p.cfg[4], 4);
    proc_start(0);
    join(0);
    for (auto &c : cells) {
      u64 v = raw(c.a);
      bool ok = false;
      for (size_t i = c.durable; i < c.hist.size(); i++) if (c.hist[i] == v) ok = true;
      if (!ok) {
        long was = -1;
        for (size_t i = 0; i < c.hist.size(); i++) if (c.hist[i] == v) was = (long)i;
        if (was >= 0) fail("lost", "after the power failure word %llx holds its version %ld, although version %zu was reported as written back", (unsigned long long)c.a, was, c.durable);
        fail("lost", "after the power failure word %llx holds %llx, which was never stored there", (unsigned long long)c.a, (unsigned long long)v);
      }
      if (c.durable > 0) probe(8);
      if (v != c.hist.back()) probe(7);
    }
    if (heap && A->SASCompoundHeapFreeSpace((SASCompoundHeap_t)heap) != (u64)heap_free) fail("heap-lost", "the synchronised heap has %llu bytes free instead of %ld after the power failure", (unsigned long long)A->SASCompoundHeapFreeSpace((SASCompoundHeap_t)heap), heap_free);
    if (heap) probe(9);
  }
};
Reg reg(new C24);
}
