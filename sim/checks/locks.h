// Address locks under every kind of contention: C06 (exclusion) and C07 (progress).
#pragma once
#include "common.h"

struct LockCheck : Check {
  enum { LOCKW, LOCKR, UNLOCK, WORK, HOLD };
  struct Addr { int writer = -1, depth = 0; std::map<int, int> readers; u64 guarded = 0; };
  std::vector<u64> addr;
  std::vector<Addr> st;
  std::map<int, std::vector<std::pair<int, int>>> held;  // thread -> (address, type)
  u64 *shared = nullptr;
  bool progress;
  LockCheck(const char *id, bool pr) : Check(id), progress(pr) {
    opnames = {"write_lock", "read_lock", "unlock", "work", "hold_until_ten_readers"};
    probe_names = {"recursive_write", "read_under_write", "recursive_read", "many_readers", "writer_met_holder", "reader_met_writer", "same_slot_addresses", "eleven_readers"};
    real = {"saslock.cpp", "sasmlock.cpp", "saslockl.cpp", "sasulock.cpp", "sasalloc.cpp", "freenode.c"};
    idle_budget = 400000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)(r.chance(2, 5) ? 2 : 1);
    int mode = (int)r.below(6);
    int nth = mode == 0 ? (int)r.range(9, 13) : (int)r.range(2, 5);
    int naddr = mode == 0 ? 1 : mode == 1 ? (int)r.range(1, 2) : mode == 2 ? (int)r.range(3, 6) : mode == 3 ? (int)r.range(8, 24) : (int)r.range(1, 4);
    // cfg: #addresses, how the addresses relate, seed
    p.cfg = {naddr, mode == 0 ? 0L : (long)r.below(3), (long)(r.next() & 0xffffffff)};
    int wr = (int)r.range(1, 9); if (mode == 0) wr = r.chance(1, 2) ? 0 : 1;
    int work = (int)r.below(3);
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = p.nprocs > 1 ? t % p.nprocs : 0;
      int n = mode == 0 ? (int)r.range(1, 3) : (int)r.range(2, 14);
      std::vector<std::pair<int, int>> h;
      for (int i = 0; i < n; i++) {
        int top = -1; for (auto &x : h) top = std::max(top, x.first);
        if (!h.empty() && r.chance(1, 2)) {
          int j = (int)r.below(h.size());
          tp.ops.push_back({UNLOCK, h[j].first, h[j].second, 0, 0});
          h.erase(h.begin() + j);
          continue;
        }
        int a; bool w = r.chance(wr, 10);
        if (!h.empty() && r.chance(1, 3)) {       // again on an address we hold
          a = h[r.below(h.size())].first;
          bool hw = false; for (auto &x : h) if (x.first == a && x.second == LOCKW) hw = true;
          if (!hw) w = false;
        } else {
          if (top + 1 >= naddr) continue;
          a = (int)r.range(top + 1, naddr - 1);
        }
        // a lock object counts one kind only: reads under a write count as writes
        bool hw = false; for (auto &x : h) if (x.first == a && x.second == LOCKW) hw = true;
        tp.ops.push_back({w ? LOCKW : LOCKR, a, 0, 0, 0});
        h.push_back({a, w || hw ? LOCKW : LOCKR});
        if (mode == 0 && !w && r.chance(2, 3)) tp.ops.push_back({HOLD, r.range(1, 60), a, 0, 0});
        if (work) tp.ops.push_back({WORK, r.range(0, work == 1 ? 4 : 40), 0, 0, 0});
      }
      while (!h.empty()) { int j = (int)r.below(h.size()); tp.ops.push_back({UNLOCK, h[j].first, h[j].second, 0, 0}); h.erase(h.begin() + j); }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 8), r.range(1, 6), 0});
    if (r.chance(1, 4)) { int w = (int)r.below(nth); p.faults.push_back({F_STALL, w, (int)r.below(p.threads[w].ops.empty() ? 1 : p.threads[w].ops.size()), r.range(1, 60), r.logrange(50, 20000), 0}); }
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    char *b = (char *)A->SASBlockAlloc(0x400000);
    if (!b) fail("refused", "no block");
    for (int i = 1; i < p.nprocs; i++) { proc_switch(i); *(volatile char *)b; }
    proc_switch(0);
    Rng r((u64)p.cfg[2]);
    int n = (int)p.cfg[0];
    typedef long (*hash_t)(void *, void *);
    hash_t h = (hash_t)lib_sym("_ZN13SasMasterLock4hashEPv");
    int slot = -1;
    for (int i = 0; i < n; i++) {
      u64 a = 0;
      for (int tries = 0; tries < 3000; tries++) {
        a = p.cfg[1] == 0 ? (u64)b + 64 * (i + 1) : (u64)b + 16 * r.below(0x400000 / 16 - 1024) + 8192;
        bool dup = false; for (u64 x : addr) if (x == a) dup = true;
        if (dup) continue;
        if (p.cfg[1] != 2 || !h) break;
        void *k = (void *)a;
        int s = (int)(h(nullptr, &k) & 0xff);
        if (slot < 0) slot = s;
        if (s == slot) { probe(6); break; }
        if (tries == 2999) break;
      }
      addr.push_back(a);
    }
    std::sort(addr.begin(), addr.end());
    addr.erase(std::unique(addr.begin(), addr.end()), addr.end());
    while ((int)addr.size() < n) addr.push_back(addr.back() + 64);
    st.resize(n);
    shared = (u64 *)b;
  }
  void op(int th, int, const Op &o) override {
    if (o.k == WORK) { for (long i = 0; i < o.a; i++) sim_point_here(); return; }
    if (o.k == HOLD) { for (long i = 0; i < o.a && st[o.b].readers.size() < 10; i++) sim_yield(); return; }
    Addr &a = st[o.a];
    void *ad = (void *)addr[o.a];
    auto &hv = held[th];     // addresses this thread holds, one entry per lock call
    if (o.k == LOCKW || o.k == LOCKR) {
      // (shortened programs only) keep to the lock order; no upgrade of a read lock
      if (a.readers.count(th) && o.k == LOCKW) return;
      if (a.writer != th && !a.readers.count(th)) for (auto &x : hv) if (x.first > o.a) return;
      bool mine_w = a.writer == th, mine_r = a.readers.count(th);
      if (o.k == LOCKW) { if (mine_w) probe(0); else if (a.writer >= 0 || !a.readers.empty()) probe(4); }
      else { if (mine_w) probe(1); else if (mine_r) probe(2); else if (a.writer >= 0) probe(5); if (a.readers.size() >= 3) probe(3); if (a.readers.size() >= 10) probe(7); }
      A->SASLock(ad, o.k == LOCKW ? SasUserLock__WRITE : SasUserLock__READ);
      note((u64)o.a * 8 + o.k);
      if (a.writer >= 0 && a.writer != th)
        fail("exclusion", "thread %d got a %s lock on address %ld while thread %d holds the write lock", th, o.k == LOCKW ? "write" : "read", o.a, a.writer);
      if (o.k == LOCKW) {
        if (a.writer < 0) {
          if (!a.readers.empty()) fail("exclusion", "thread %d got the write lock on address %ld while %zu threads hold read locks", th, o.a, a.readers.size());
          a.writer = th;
          shared[o.a]++;
        }
        a.depth++;
      } else if (a.writer == th) a.depth++;
      else a.readers[th]++;
      hv.push_back({(int)o.a, o.k});
    } else {
      size_t j = 0; while (j < hv.size() && hv[j].first != o.a) j++;
      if (j == hv.size()) return;
      hv.erase(hv.begin() + j);
      if (a.writer == th) { if (--a.depth == 0) a.writer = -1; }
      else if (--a.readers[th] == 0) a.readers.erase(th);
      A->SASUnlock(ad);
    }
  }
  void thread_end(int th) override { while (!held[th].empty()) op(th, 0, Op{UNLOCK, held[th].back().first, 0, 0, 0}); }
  void finish(Prog &p) override {
    // every address is free again, for both kinds, from every process
    for (int pr = 0; pr < p.nprocs; pr++) {
      proc_switch(pr);
      for (u64 x : addr) { A->SASLock((void *)x, SasUserLock__WRITE); A->SASUnlock((void *)x); A->SASLock((void *)x, SasUserLock__READ); A->SASUnlock((void *)x); }
    }
    proc_switch(0);
  }
};
