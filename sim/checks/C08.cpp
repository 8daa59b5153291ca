// C08: the region lock, resetting and removing the region.
#include "blocks.h"

struct C08 : Check {
  enum { SEIZE, ALLOC, FREE, LOCK, BAR, LEAVE, ACTION, JOIN, ROOT };
  enum { A_NONE, A_RESET, A_REMOVE, A_CRASH, A_RESETMANY };
  int holder = -1, lholder = -1;
  int passed[8] = {0};
  std::vector<std::pair<u64, u64>> live;
  Intervals iv; int nid = 0;
  std::vector<std::pair<u64, u64>> fresh[5]; long fresh_fs = 0; int fresh_shm = 0;
  u64 lockaddr = 0;
  int killed = 0;
  bool in_alloc = false;
  C08() : Check("C08") {
    what = "2-4 threads of 1-3 processes contend for the region lock and address locks and allocate blocks, with interrupted waits and stalls; then the other processes leave, one process resets the region (once or 250 times), removes it, or recovers the lock after a process died holding it; the store is compared with a fresh one and a second round of contention runs on it.";
    opnames = {"seize", "alloc", "free", "lock", "barrier", "leave", "action", "join", "root"};
    probe_names = {"reset", "removed", "died_holding_region_lock", "reset_multi_segment", "seize_contended"};
    real = {"sassim.cpp", "saslock.cpp", "sasshm.c", "sasstname.c"};
    quick_runs = 20000;
    max_steps = 12000000; idle_budget = 2000000;
  }
  void gen(Rng &r, Prog &p) override {
    int act = (int)r.below(4);
    if (r.chance(1, 400)) act = A_RESETMANY;
    p.nprocs = act == A_CRASH ? (int)r.range(2, 3) : (int)r.range(1, 3);
    int nth = (int)r.range(std::max(2, p.nprocs), 4);
    p.cfg = {act, (long)r.below(4), (long)(r.next() & 0xffffffff)};
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      if (act == A_CRASH && tp.proc == 1 && t != 1) tp.proc = 0;
      auto work = [&](bool second) {
        int n = (int)r.range(1, 6);
        if (act == A_CRASH && !second && t != 1) return;
        for (int i = 0; i < n; i++) {
          int q = (int)r.below(10);
          Op o{SEIZE, r.range(0, 6), 0, 0, 0};
          if (act == A_CRASH) { tp.ops.push_back(o); continue; }
          if (q >= 5 && q < 7) { o.k = ALLOC; o.a = 0x1000L << (r.chance(1, 4) ? r.range(15, 16) : r.range(0, 9)); }
          else if (q == 7) { o.k = FREE; o.a = (long)r.below(100); }
          else if (q == 8) { o.k = LOCK; }
          else if (q == 9) o.k = ROOT;
          tp.ops.push_back(o);
        }
      };
      work(false);
      tp.ops.push_back({BAR, 0, 0, 0, 0});
      if (act != A_NONE) {
        if (t == tp.proc && t != 0) tp.ops.push_back({LEAVE, 0, 0, 0, 0});
        tp.ops.push_back({BAR, 1, 0, 0, 0});
        if (t == 0) tp.ops.push_back({ACTION, act, act == A_RESETMANY ? 250 : 1, 0, 0});
        tp.ops.push_back({BAR, 2, 0, 0, 0});
        if (t == tp.proc && t != 0) tp.ops.push_back({JOIN, 0, 0, 0, 0});
        tp.ops.push_back({BAR, 3, 0, 0, 0});
        work(true);
      }
      p.threads.push_back(tp);
    }
    if (act == A_CRASH) p.faults.push_back({F_CRASH, 1, (int)r.below(p.threads[1].ops.size() ? 3 : 1), r.range(1, 30), 1, 0});
    if (r.chance(1, 2)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 4), 0});
    if (r.chance(1, 4)) p.faults.push_back({F_STALL, (int)r.below(nth), (int)r.below(4), r.range(1, 30), r.logrange(50, 5000), 0});
  }
  void snapshot() {
    for (int i = 0; i < 5; i++) { auto l = get_list(i).v; std::sort(l.begin(), l.end()); fresh[i] = l; }
    fresh_fs = A->SASAnchorFreeSpace();
    fresh_shm = os_shm_count();
  }
  void compare(const char *when) {
    for (int i = 0; i < 5; i++) {
      auto l = get_list(i).v; std::sort(l.begin(), l.end());
      if (l != fresh[i]) fail("not-fresh", "%s: the %s list has %zu entries (first %llx+%llx), a new region's has %zu", when, list_names[i], l.size(), l.empty() ? 0ULL : (unsigned long long)l[0].first, l.empty() ? 0ULL : (unsigned long long)l[0].second, fresh[i].size());
    }
    long fs = A->SASAnchorFreeSpace();
    if (fs != fresh_fs) fail("not-fresh", "%s: anchor free space is %ld, a new region's %ld", when, fs, fresh_fs);
    if (A->getSASFinder() != nullptr) fail("not-fresh", "%s: the root reference is still set", when);
    if (os_file_count() != 1) fail("files", "%s: %d store files instead of one", when, os_file_count());
    if (os_shm_count() != fresh_shm) fail("shm", "%s: %d shared memory objects instead of %d", when, os_shm_count(), fresh_shm);
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    snapshot();
    lockaddr = R_LOW + 0x40000;
    Rng r((u64)p.cfg[2]);
    for (long i = 0; i < p.cfg[1]; i++) alloc(0x10000000);
  }
  void alloc(u64 sz) {
    u64 a = (u64)A->SASBlockAlloc(sz);
    if (!a) fail("refused", "request for %llx refused", (unsigned long long)sz);
    if (a < R_LOW + ANCHOR || (a - R_LOW) % sz) fail("bad-block", "block %llx of size %llx", (unsigned long long)a, (unsigned long long)sz);
    int o = iv.overlap(a, a + sz);
    if (o >= 0) fail("overlap", "block %llx+%llx overlaps a live block", (unsigned long long)a, (unsigned long long)sz);
    iv.add(a, a + sz, nid++);
    live.push_back({a, sz});
    note(a);
  }
  void op(int th, int, const Op &o) override {
    switch (o.k) {
    case SEIZE:
      if (holder != -1) probe(4);
      A->SASSeize();
      if (holder != -1) fail("region-lock-exclusion", "threads %d and %d are both inside the region lock", holder, th);
      holder = th;
      for (long i = 0; i < o.a; i++) { if (i & 1) sim_yield(); else sim_point_here(); }
      if (holder != th) fail("region-lock-exclusion", "another thread entered while thread %d holds the region lock", th);
      holder = -1;
      A->SASRelease();
      return;
    case ALLOC: alloc((u64)o.a); return;
    case FREE: {
      if (live.empty()) return;
      auto b = live[o.a % live.size()]; live.erase(live.begin() + o.a % live.size());
      iv.del(b.first);
      A->SASBlockDealloc((void *)b.first, b.second);
      return;
    }
    case LOCK:
      A->SASLock((void *)lockaddr, SasUserLock__WRITE);
      if (lholder != -1) fail("address-lock-exclusion", "threads %d and %d hold the same address lock", lholder, th);
      lholder = th;
      for (int i = 0; i < 3; i++) sim_point_here();
      lholder = -1;
      A->SASUnlock((void *)lockaddr);
      return;
    case ROOT: A->setSASFinder((void *)(R_LOW + 64 * th)); return;
    case BAR: {
      passed[th] = std::max(passed[th], (int)o.a + 1);
      long bar = o.a;
      sim_wait([this, bar] {
        for (size_t i = 0; i < nthreads; i++)
          if (!fiber_killed((int)i) && !fiber_done((int)i) && passed[i] <= bar) return false;
        return true;
      });
      return;
    }
    case LEAVE: A->SASCleanUp(); return;
    case JOIN: { int rc = join_call(); if (rc) fail("join-refused", "rejoining failed with %d", rc); return; }
    case ACTION:
      if (o.a == A_RESET || o.a == A_RESETMANY) {
        if (os_file_count() > 1) probe(3);
        for (long i = 0; i < o.b; i++) { A->SASReset(); progress(); }
        probe(0);
        live.clear(); iv.m.clear();
        compare("after reset");
      } else if (o.a == A_REMOVE) {
        A->SASRemove();
        probe(1);
        live.clear(); iv.m.clear();
        if (os_file_count()) fail("files", "%d store files are left after removing the region", os_file_count());
        if (os_shm_count()) fail("shm", "%d shared memory objects are left after removing the region", os_shm_count());
        int rc = join_call();
        if (rc) fail("join-refused", "joining after removal failed with %d", rc);
        compare("joined after removal");
      } else if (o.a == A_CRASH) {
        A->SASResetSem();
        holder = -1;
      }
      return;
    }
  }
  size_t nthreads = 0;
  void on_kill(int th) override { if (holder == th) probe(2); for (int i = 0; i < 1; i++) killed++; }
  void finish(Prog &p) override {
    for (auto &b : live) { (void)b; }
    A->SASSeize(); A->SASRelease();
  }
};
struct C08b : C08 {
  void setup(Prog &p) override { nthreads = p.threads.size(); C08::setup(p); }
};
static C08b c; static Reg reg(&c);
