// Processes that come and go: used by C04 and C05.
#pragma once
#include "blocks.h"

struct StoreCheck : BlockCheck {
  enum { WRITE = 6, SETROOT, GETROOT, REST, TSETUP, TCLEAN };
  bool full;                        // C04: everybody leaves between phases
  int nphases = 0; long flags = 0;
  std::vector<long> mask;           // processes attached in each phase
  std::vector<std::vector<int>> thr; // threads of each process
  std::vector<int> phase_t;         // phase a thread works in
  std::vector<int> arrived, phase_p;
  std::vector<bool> in, dead;
  // stages of a full detach, counted over processes
  std::vector<int> n_arr, n_left, n_joined, n_checked; std::vector<bool> snapped;
  std::vector<std::pair<u64, u64>> snap[5]; long snap_fs = 0; void *root = nullptr; bool root_busy = false; u64 root_ver = 0;
  int snap_files = 0, snap_shm = 0;
  int nattached = 0;
  StoreCheck(const char *id, bool f) : BlockCheck(id, true), full(f) {
    opnames = {"alloc", "free", "verify", "list", "alloc_too_big", "anchor_free_space", "write", "set_root", "get_root", "rest", "thread_setup", "thread_cleanup"};
    probe_names = {"grew_store", "split_16th_segment_or_later", "freed_by_other_process", "address_reused", "linear_use_list", "concurrent_list", "coalesced_whole_segment",
                   "all_left_and_rejoined", "joined_late", "left_while_others_work", "touched_unattached_storage", "process_died", "rejoined_while_others_work", "first_join_by_several"};
    real = {"sassim.cpp", "ultree.cpp", "freenode.c", "sasalloc.cpp", "sasstname.c", "saslock.cpp", "sasshm.c"};
    max_steps = 20000000; idle_budget = 3000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(full ? 1 : 2, 4);
    nphases = (int)r.range(2, 4);
    int mode = (int)r.below(4);
    long pre = r.chance(1, 3) ? (long)r.range(1, r.chance(1, 6) ? 18 : 4) : 0L;
    p.cfg = {mode, r.chance(1, 6) ? 1L : 0L, pre, (long)(r.next() & 0xffffffff), (long)r.below(4), nphases, (long)r.below(16)};
    for (int i = 0; i < nphases; i++) {
      long m = 0;
      while (!m || (i && !full && !(m & p.cfg[7 + i - 1]))) m = (long)r.below(1 << p.nprocs);
      p.cfg.push_back(m);
    }
    if (!full && r.chance(1, 10)) { p.cfg[6] |= 64; p.cfg[1] = p.cfg[2] = 0; }   // all join a new store at once
    int nth = (int)r.range(p.nprocs, std::min(6, p.nprocs + 2));
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      bool setup = r.chance(1, 4);
      for (int ph = 0; ph < nphases; ph++) {
        int n = (int)r.range(1, 7);
        if (setup) tp.ops.push_back({TSETUP, 0, 0, 0, ph});
        for (int i = 0; i < n; i++) {
          Op o{0, 0, 0, 0, ph};
          int q = (int)r.below(16);
          if (q < 6) {
            o.k = ALLOC; long l = mode == 0 ? r.range(0, 6) : mode == 1 ? r.range(14, 16) : r.range(0, 16);
            o.a = 0x1000L << l;
          } else if (q < 9) { o.k = FREE; o.a = (long)r.below(1000); }
          else if (q < 12) { o.k = VERIFY; o.a = (long)r.below(1000); }
          else if (q < 13) { o.k = WRITE; o.a = (long)r.below(1000); }
          else if (q < 14) { o.k = r.chance(1, 2) ? SETROOT : GETROOT; o.a = (long)r.below(1000); }
          else if (q < 15) { o.k = LIST; o.a = (long)r.below(5); }
          else { o.k = REST; o.a = r.range(1, 30); }
          tp.ops.push_back(o);
        }
        if (setup) tp.ops.push_back({TCLEAN, 0, 0, 0, ph});
      }
      p.threads.push_back(tp);
    }
    if (!full && !(p.cfg[6] & 64) && r.chance(1, 4)) {    // a process with one thread dies while resting
      std::vector<int> cnt(4, 0); for (auto &t : p.threads) cnt[t.proc]++;
      int t = (int)r.below(p.nprocs);
      if (cnt[p.threads[t].proc] == 1) {
        size_t at = r.below(p.threads[t].ops.size());
        auto &o = p.threads[t].ops[at]; o = {REST, 30, 0, 0, o.d};
        p.faults.push_back({F_CRASH, t, (int)at, r.range(2, 25), 1, 0});
      }
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(nth), (int)r.below(6), r.range(1, 200), r.logrange(50, 5000), 0});
    if (r.chance(1, 4)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  void setup(Prog &p) override {
    nphases = (int)p.cfg[5]; flags = p.cfg[6];
    for (int i = 0; i < nphases; i++) mask.push_back(p.cfg[7 + i]);
    thr.resize(p.nprocs); arrived.assign(p.nprocs, 0); phase_p.assign(p.nprocs, 0);
    in.assign(p.nprocs, false); dead.assign(p.nprocs, false);
    for (size_t t = 0; t < p.threads.size(); t++) thr[p.threads[t].proc].push_back((int)t);
    phase_t.assign(p.threads.size(), 0);
    n_arr.assign(nphases + 1, 0); n_left = n_joined = n_checked = n_arr; snapped.assign(nphases + 1, false);
    entering.assign(p.nprocs, false);
    if (flags & 64) return;
    entering.assign(p.nprocs, true);
    int first = -1;
    for (int i = 0; i < p.nprocs; i++) if (mask[0] >> i & 1) { if (first < 0) first = i; }
    join(first); in[first] = true; nattached = 1;
    if (p.cfg[1]) { A->setSASLinearUseList(); probe(4); }
    calibrate();
    Rng r((u64)p.cfg[3]);
    bool growfirst = r.chance(1, 2);
    auto others = [&] { for (int i = 0; i < p.nprocs; i++) if (i != first && (mask[0] >> i & 1)) { join(i); in[i] = true; nattached++; } proc_switch(first); };
    if (!growfirst) others();
    for (int i = 0; i < p.cfg[2]; i++) do_alloc(i == 0 && p.cfg[2] == 1 ? 0x8000000 : R_SEG);
    if (p.cfg[2]) {
      if (p.cfg[4] == 1) while (!live.empty()) do_free((int)r.below(live.size()));
      else if (p.cfg[4] == 2) for (int i = (int)live.size() / 2; i > 0; i--) do_free((int)r.below(live.size()));
      else if (p.cfg[4] == 3) do_free((int)live.size() - 1);
    }
    if (growfirst) others();
    quiescent("after setup");
  }
  std::vector<bool> entering;
  int np() { return (int)thr.size(); }
  int ended_procs() { int n = 0; for (int i = 0; i < np(); i++) if (dead[i]) n++; return n; }
  void leave(int pr) {
    A->SASCleanUp(); in[pr] = false; nattached--;
    if (os_file_count() < 1) fail("files", "the store's files vanished when process %d left", pr);
    int m = proc_map_count(pr);
    if (m) fail("leak", "process %d still has %d mappings of the store after leaving", pr, m);
    if (proc_open_fds(pr)) fail("leak", "process %d still has %d open files after leaving", pr, proc_open_fds(pr));
  }
  void enter(int pr) {
    int rc = join_call();
    if (rc) fail("join-refused", "process %d: joining the store failed with %d", pr, rc);
    in[pr] = true; nattached++;
    if (proc_open_fds(pr)) fail("leak", "process %d has %d open files after joining", pr, proc_open_fds(pr));
  }
  void take_snapshot() {
    quiescent("before leaving");
    for (int i = 0; i < 5; i++) { snap[i] = get_list(i).v; std::sort(snap[i].begin(), snap[i].end()); }
    snap_fs = A->SASAnchorFreeSpace();
    if (A->getSASFinder() != root) fail("root-lost", "the root reference is %p, published was %p", A->getSASFinder(), root);
    snap_files = os_file_count(); snap_shm = os_shm_count();
  }
  void compare(int pr) {
    for (int i = 0; i < 5; i++) {
      auto l = get_list(i).v; std::sort(l.begin(), l.end());
      if (l != snap[i]) fail("lists-changed", "process %d after rejoining: the %s list has %zu entries, before all left %zu", pr, list_names[i], l.size(), snap[i].size());
    }
    long fs = A->SASAnchorFreeSpace();
    if (fs != snap_fs) fail("lists-changed", "process %d after rejoining: bookkeeping space %ld, before all left %ld", pr, fs, snap_fs);
    if (A->getSASFinder() != root) fail("root-lost", "process %d after rejoining: the root reference is %p, published was %p", pr, A->getSASFinder(), root);
    if (os_file_count() != snap_files || os_shm_count() != snap_shm) fail("files", "files or shared memory changed while nobody was attached");
    for (auto &b : live) check_intact(b, "after rejoining");
  }
  // thread th moves to phase ph; the last one of its process acts for the process
  void advance(int th, int ph) {
    while (phase_t[th] < ph) {
      int pr = fiber_proc(th), cur = phase_t[th];
      arrived[pr]++;
      if (arrived[pr] == (int)thr[pr].size()) {
        arrived[pr] = 0;
        transition(pr, cur);
        phase_p[pr] = cur + 1;
      } else sim_wait([this, pr, cur] { return phase_p[pr] > cur; });
      phase_t[th] = cur + 1;
      progress();
    }
  }
  void transition(int pr, int cur) {
    bool want = mask[cur + 1] >> pr & 1;
    if (!full) {
      bool re = flags >> (pr & 3) & 1;
      if (in[pr] && (!want || re)) { probe(nattached > 1 ? 9 : 7); leave(pr); if (want) { probe(12); } }
      if (!in[pr] && want) { probe(8); enter(pr); }
      return;
    }
    int n = np();
    n_arr[cur]++;
    sim_wait([this, cur, n] { return n_arr[cur] == n; });
    if (in[pr] && !snapped[cur]) {      // the first attached process records the state
      bool mine = true;
      for (int i = 0; i < pr; i++) if (mask[cur] >> i & 1) mine = false;
      if (mine) { take_snapshot(); snapped[cur] = true; }
    }
    sim_wait([this, cur] { return (bool)snapped[cur]; });
    if (in[pr]) leave(pr);
    n_left[cur]++;
    sim_wait([this, cur, n] { return n_left[cur] == n; });
    probe(7);
    if (want) enter(pr);
    n_joined[cur]++;
    sim_wait([this, cur, n] { return n_joined[cur] == n; });
    if (want) compare(pr);
    n_checked[cur]++;
    sim_wait([this, cur, n] { return n_checked[cur] == n; });
  }
  void op(int th, int idx, const Op &o) override {
    int pr = fiber_proc(th);
    if (!entering[pr]) { entering[pr] = true; if (mask[0] >> pr & 1) { probe(13); enter(pr); } }
    else if (phase_t[th] == 0 && (flags & 64) && (mask[0] >> pr & 1)) sim_wait([this, pr] { return (bool)in[pr] || phase_p[pr] > 0; });
    advance(th, (int)o.d);
    if (!in[pr]) return;
    switch (o.k) {
    case WRITE: {
      int j = find_live(o.a); if (j < 0) return;
      u64 id = live[j].id, a = live[j].a, nid = next_id++; live[j].busy = true;
      stamp_write((void *)a, live[j].sz, nid);
      for (auto &x : live) if (x.id == id) { x.id = nid; x.busy = false; }
      return;
    }
    case SETROOT: {
      if (root_busy) return;
      root_busy = true;
      void *v = (void *)(R_LOW + (u64)(o.a + 1) * 64);
      A->setSASFinder(v); root = v; root_ver++; root_busy = false;
      return;
    }
    case GETROOT: {
      u64 ver = root_ver; bool b = root_busy; void *r0 = root;
      void *v = A->getSASFinder();
      if (!b && !root_busy && ver == root_ver && v != r0) fail("root-lost", "the root reference is %p, published was %p", v, r0);
      return;
    }
    case REST: for (long i = 0; i < o.a; i++) sim_point_here(); return;
    case TSETUP: A->SASThreadSetUp(); return;
    case TCLEAN: A->SASThreadCleanUp(); return;
    default: BlockCheck::op(th, idx, o);
    }
  }
  void thread_end(int th) override { advance(th, nphases - 1); }
  void on_kill(int th) override {
    int pr = fiber_proc(th); if (!dead[pr]) { dead[pr] = true; probe(11); if (in[pr]) nattached--; in[pr] = false; }
    for (auto &b : live) (void)b;
  }
  void finish(Prog &p) override {
    if (g_segv) probe(10);
    for (auto &b : live) b.busy = false;
    int any = -1;
    for (int i = 0; i < p.nprocs; i++) if (in[i]) {
      any = i; proc_switch(i);
      quiescent("at the end");
      for (auto &b : live) check_intact(b, "at the end");
      if (A->getSASFinder() != root) fail("root-lost", "process %d: the root reference is %p, published was %p", i, A->getSASFinder(), root);
    }
    // everybody leaves; a process that was not there takes over
    for (int i = 0; i < p.nprocs; i++) if (in[i]) { proc_switch(i); leave(i); }
    Rng r((u64)p.cfg[3] ^ 99);
    int who = (int)r.below(p.nprocs);
    for (int k = 0; dead[who] && k < p.nprocs; k++) who = (who + 1) % p.nprocs;
    if (dead[who]) return;
    proc_switch(who);
    enter(who);
    quiescent("joined last");
    if (A->getSASFinder() != root) fail("root-lost", "joined last: the root reference is %p, published was %p", A->getSASFinder(), root);
    for (auto &b : live) check_intact(b, "joined last");
    do_alloc(0x2000);
    while (!live.empty()) do_free((int)r.below(live.size()));
    quiescent("after releasing everything");
    (void)any;
  }
};
