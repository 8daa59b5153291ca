// C03: a failed attempt to grow or to join the store changes nothing.
#include "blocks.h"

struct C03 : BlockCheck {
  enum { JOIN = 6, LEAVE, FULL, ROOM, LOCK, NAME };
  std::vector<bool> in; bool full = false; int nin = 0;
  int refused = 0;
  C03() : BlockCheck("C03", true) {
    opnames = {"alloc", "free", "verify", "list", "alloc_too_big", "anchor_free_space", "join", "leave", "disk_full", "disk_has_room", "lock", "join_by_odd_name"};
    probe_names = {"grew_store", "split_16th_segment_or_later", "freed_by_other_process", "address_reused", "linear_use_list", "concurrent_list", "coalesced_whole_segment",
                   "growth_refused", "growth_retried_ok", "join_refused", "first_join_refused", "join_retried_ok", "joined_despite_failed_call", "refused_by_full_disk", "exact_check_after_refusal", "others_grew_during_refusal", "name_refused", "long_name_joined"};
    real = {"sassim.cpp", "ultree.cpp", "freenode.c", "sasalloc.cpp", "sasstname.c", "saslock.cpp", "sasshm.c"};
    what = "1-4 processes allocate and release blocks, mostly large ones that make the store grow, and join and leave it, while file creation, sizing, opening, closing, mapping, shared memory, key lookup and memory allocation fail at random moments or the disk is full for a while; every refusal is checked against the state before it and retried when the condition is over.";
    quick_runs = 14000; max_steps = 20000000; idle_budget = 3000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 4);
    long pre = r.chance(1, 2) ? (long)r.below(4) : 0L;
    // cfg: linear list, segments filled at first, seed, who is attached at first
    p.cfg = {r.chance(1, 6) ? 1L : 0L, pre, (long)(r.next() & 0xffffffff), (long)r.below(1 << p.nprocs)};
    if (r.chance(1, 3)) p.cfg[3] = 0;
    int joinw = (int)r.below(4), fullw = (int)r.below(3);
    for (int t = 0; t < p.nprocs; t++) {
      ThreadProg tp; tp.proc = t;
      int n = (int)r.range(3, 12);
      for (int i = 0; i < n; i++) {
        Op o{0, 0, 0, 0, 0};
        int q = (int)r.below(20);
        if (q < 9) { o.k = ALLOC; o.a = 0x1000L << (r.chance(2, 3) ? r.range(14, 16) : r.range(0, 13)); }
        else if (q < 12) { o.k = FREE; o.a = (long)r.below(1000); }
        else if (q < 14) { o.k = VERIFY; o.a = (long)r.below(1000); }
        else if (q < 15) { o.k = LIST; o.a = (long)r.below(5); }
        else if (q < 15 + joinw) o.k = r.chance(1, 2) ? LEAVE : JOIN;
        else if (q < 16 && r.chance(1, 3)) { o.k = NAME; o.a = (long)r.below(5); o.b = r.chance(1, 2) ? r.range(4075, 4100) : r.range(4000, 5000); }
        else if (q < 18) { o.k = LOCK; o.a = (long)r.below(3); }
        else if (fullw) o.k = r.chance(1, 2) ? FULL : ROOM;
        else { o.k = ALLOC; o.a = 0x10000000; }
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    static const int kinds[] = {F_CREATE, F_CREATE, F_FTRUNCATE, F_FTRUNCATE, F_MMAP, F_MMAP, F_OPEN, F_OPEN, F_CLOSE, F_SHMGET, F_SHMAT, F_FTOK, F_MALLOC};
    static const int errs[][3] = {{ENOSPC, EMFILE, EDQUOT}, {ENOSPC, EMFILE, EIO}, {ENOSPC, EIO, EFBIG}, {EIO, ENOSPC, EINTR}, {ENOMEM, EAGAIN, ENOMEM}, {ENOMEM, EPERM, ENOMEM}, {EMFILE, ENFILE, ENOMEM}, {EMFILE, EINTR, EIO}, {EIO, ENOSPC, EIO}, {ENOSPC, ENOMEM, EACCES}, {ENOMEM, EMFILE, EINVAL}, {ENOENT, EACCES, ENOENT}, {ENOMEM, ENOMEM, ENOMEM}};
    int nf = (int)r.range(fullw == 2 ? 0 : 1, 4);
    for (int i = 0; i < nf; i++) {
      int k = (int)r.below(13);
      p.faults.push_back({kinds[k], 0, 0, r.chance(1, 2) ? r.range(1, 3) : r.range(1, 16), r.chance(2, 3) ? 1 : r.range(2, 4), errs[k][r.below(3)]});
    }
    if (r.chance(1, 4)) p.faults.push_back({F_STALL, (int)r.below(p.nprocs), (int)r.below(8), r.range(1, 300), r.logrange(50, 5000), 0});
    if (r.chance(1, 4)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  static const int EIO_ = 5;
  u64 calls = 0; int active = 0;  // calls begun or ended, and under way, that may change the store
  u64 begin() { return ++active == 1 ? ++calls : (++calls, 0); }
  bool end(u64 c0) { active--; ++calls; return c0 && calls == c0 + 1; }
  // a name no store can be joined by: a directory that is not there, no name, one whose files' names are too long;
  // or one that is long but can be used
  std::string odd(const Op &o, bool &bad) {
    bad = true;
    if (o.a == 0) return "/nowhere";
    if (o.a == 1) return "";
    std::string n = STORE; n.resize((size_t)o.b, '/');
    if (o.b > 4082) return n;
    bad = false; return n;
  }
  bool try_join(int pr, bool may_fail, const char *when, const Op *name = nullptr) {
    u64 f0 = os_failed_here(); int files = os_file_count(), shm = os_shm_count(); int n0 = nin; u64 c0 = begin();
    bool bad = false; std::string nm;
    if (name) nm = odd(*name, bad);
    int rc = name ? A->SASJoinRegionByName(nm.c_str()) : join_call();
    bool alone = end(c0);
    bool hit = os_failed_here() != f0 || (full && may_fail);
    logf_("join -> %d", rc);
    if (proc_open_fds(pr)) fail("leak", "process %d has %d open files after %s a store", pr, proc_open_fds(pr), rc ? "being refused by" : "joining");
    if (!rc && bad && name->a < 2) fail("bad-name", "process %d: joining '%s' succeeded", pr, nm.c_str());
    if (!rc && name) probe(17);
    if (rc && bad) { hit = may_fail = true; probe(16); }
    if (!rc) { if (os_failed_here() != f0) probe(12); in[pr] = true; nin++; return true; }
    if (!hit || !may_fail) fail("join-refused", "process %d: joining the store failed with %d although nothing stood in the way (%s)", pr, rc, when);
    probe(9); refused++;
    if (alone && n0 == nin) {
      if (os_file_count() != files) fail("join-left-file", "process %d: a refused join (%d) left %d store files, there were %d", pr, rc, os_file_count(), files);
      if (os_shm_count() != shm) fail("join-left-shm", "process %d: a refused join (%d) left %d shared memory segments, there were %d", pr, rc, os_shm_count(), shm);
      if (files == 0) probe(10);
    }
    if (proc_map_count(pr)) fail("leak", "process %d has %d mappings after being refused by a store", pr, proc_map_count(pr));
    return false;
  }
  void leave(int pr) { u64 c = begin(); A->SASCleanUp(); end(c); in[pr] = false; nin--; }
  struct Snap { std::vector<std::pair<u64, u64>> l[5]; unsigned fs; int files; bool operator==(const Snap &o) const { for (int i = 0; i < 5; i++) if (l[i] != o.l[i]) return false; return fs == o.fs && files == o.files; } };
  Snap snap() { Snap s; for (int i = 0; i < 5; i++) { s.l[i] = get_list(i).v; std::sort(s.l[i].begin(), s.l[i].end()); } s.fs = A->SASAnchorFreeSpace(); s.files = os_file_count(); return s; }
  u64 try_alloc(u64 req, bool may_fail) {
    int pr = in_fiber() ? fiber_proc(cur_fiber()) : 0; (void)pr;
    bool exact = in_fiber() && only_me_runnable();
    Snap s0; if (exact) s0 = snap();
    u64 f0 = os_failed_here(); u64 c0 = begin(); int files = os_file_count();
    u64 a = (u64)A->SASBlockAlloc(req);
    bool alone = end(c0);
    bool hit = os_failed_here() != f0;
    logf_("alloc %llx -> %llx", (unsigned long long)req, (unsigned long long)a);
    if (a) { if (refused && may_fail) probe(8); handed(a, req, req); if (os_file_count() > files) probe(0); return a; }
    if (!hit || !may_fail) fail("refused", "a request for %llu bytes was refused although nothing stood in the way", (unsigned long long)req);
    probe(7); refused++; if (full) probe(13);
    if (!alone) probe(15);
    if (exact && alone) {
      probe(14);
      Snap s1 = snap();
      if (!(s0 == s1)) fail("changed-by-refusal", "a refused request for %llu bytes changed the store: %zu/%zu/%zu/%zu/%zu entries, bookkeeping %u, %d files before; %zu/%zu/%zu/%zu/%zu, %u, %d after", (unsigned long long)req,
        s0.l[0].size(), s0.l[1].size(), s0.l[2].size(), s0.l[3].size(), s0.l[4].size(), s0.fs, s0.files, s1.l[0].size(), s1.l[1].size(), s1.l[2].size(), s1.l[3].size(), s1.l[4].size(), s1.fs, s1.files);
    }
    if (in_fiber() && proc_open_fds(fiber_proc(cur_fiber()))) fail("leak", "%d files left open by a refused request", proc_open_fds(fiber_proc(cur_fiber())));
    return 0;
  }
  void setup(Prog &p) override {
    in.assign(p.nprocs, false);
    // attached before the trouble starts
    stop_faults();
    bool first = true;
    for (int i = 0; i < p.nprocs; i++) if (p.cfg[3] >> i & 1) {
      join(i); in[i] = true; nin++;
      if (first) {
        first = false;
        if (p.cfg[0]) { A->setSASLinearUseList(); probe(4); }
        calibrate();
        for (int k = 0; k < p.cfg[1]; k++) do_alloc(k == 0 ? 0x8000000 : R_SEG);
      }
    }
    start_faults();
  }
  void op(int th, int idx, const Op &o) override {
    int pr = fiber_proc(th);
    if (o.k == NAME) { if (!in[pr]) try_join(pr, true, "by another name", &o); return; }
    if (!in[pr] && o.k != FULL && o.k != ROOM) {
      bool was = refused > 0;
      if (!try_join(pr, true, "during the run")) return;
      if (was) probe(11);
      return;
    }
    switch (o.k) {
    case ALLOC: try_alloc((u64)o.a, true); return;
    case JOIN: return;
    case LEAVE: leave(pr); return;
    case FULL: full = true; os_fail_blocks(true); return;
    case ROOM: full = false; os_fail_blocks(false); return;
    case LOCK: { void *x = (void *)(R_LOW + 0x1000 + (u64)o.a * 64); A->SASLock(x, SasUserLock__WRITE); A->SASUnlock(x); return; }
    case FREE: { u64 c = begin(); BlockCheck::op(th, idx, o); end(c); return; }
    default: BlockCheck::op(th, idx, o);
    }
  }
  void finish(Prog &p) override {
    stop_faults(); os_fail_blocks(false); full = false;
    for (auto &b : live) b.busy = false;
    // the condition has cleared: everybody can join, and everything is there
    for (int i = 0; i < p.nprocs; i++) {
      proc_switch(i);
      if (!in[i]) { try_join(i, false, "after all trouble is over"); }
      if (i == 0 && !entry_cost) { if (live.empty() && os_file_count() == 1) calibrate(); }
      quiescent("after all trouble is over");
      for (auto &b : live) check_intact(b, "after all trouble is over");
      u64 x = R_LOW + 0x2000 + (u64)i * 64;
      A->SASLock((void *)x, SasUserLock__WRITE); A->SASUnlock((void *)x);
    }
    Rng r((u64)p.cfg[2]);
    // the next address range, file after file, is usable
    size_t n0 = get_list(L_ALLOC).v.size();
    int k = (int)r.range(1, 3);
    for (int i = 0; i < k; i++) { proc_switch((int)r.below(p.nprocs)); try_alloc(R_SEG, false); }
    quiescent("after growing again");
    auto al = get_list(L_ALLOC).v; std::sort(al.begin(), al.end());
    for (size_t i = 0; i < al.size(); i++)
      if (al[i].first != R_LOW + i * R_SEG) fail("range-lost", "segment %zu of the store lies at %llx: the address ranges before it were lost", i, (unsigned long long)al[i].first);
    (void)n0;
    while (!live.empty()) { proc_switch((int)r.below(p.nprocs)); do_free((int)r.below(live.size())); }
    for (int i = 0; i < p.nprocs; i++) { proc_switch(i); quiescent("after releasing everything"); }
    for (int i = 0; i < p.nprocs; i++) {
      proc_switch(i); leave(i);
      if (proc_map_count(i)) fail("leak", "process %d still has %d mappings of the store after leaving", i, proc_map_count(i));
      if (proc_open_fds(i)) fail("leak", "process %d still has %d open files after leaving", i, proc_open_fds(i));
    }
  }
};
static C03 c; static Reg reg(&c);
