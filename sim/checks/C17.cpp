// C17: the log portal.
#include "logger.h"

struct C17 : Check {
  enum { PUT, RAW, ADD, WALK, ASK, PAUSE };
  struct Log { void *log; u64 bs, cap, base; int state = 0; u64 c0 = 0, c1 = 0; int index = -1; u64 taken = 0, passed = 0; };   // state 1 being added, 2 added, 3 refused, 4 adder died
  void *portal = nullptr; long cap = 0; int mode = 0; long stride = 0;
  std::deque<Log> pool; size_t next_log = 0;
  std::deque<LEnt> ent; std::map<u64, int> at; Intervals iv;
  std::vector<int> adding; std::vector<u64> infl; std::vector<long> seqs;
  long begun = 0, added = 0, refused_adds = 0, dead_adds = 0; u64 lost_room = 0; bool died = false; long cur_min = -1;
  std::map<long, void *> byindex;
  C17() : Check("C17") {
    what = "Threads in 1-3 processes log typed entries of fixed or varying size through a portal while others add logs of different sizes to it up to and beyond its limit, with stalled and dying writers and adders, on clean and reused storage; entries, rolling, the reported logs and the portal's reader are compared with what was added and written.";
    opnames = {"put", "raw", "add", "walk", "ask", "pause"};
    probe_names = {"refused_no_log", "refused_full", "rolled", "add_refused", "adder_died", "writer_died", "passed_small_log", "walk_several_logs", "raw", "abandoned"};
    real = {"sphlogportal.cpp", "sphlflogger.cpp", "sphlflogentry.h", "sassim.cpp"};
    quick_runs = 30000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    long m = (long)r.below(2), c = r.chance(1, 4) ? 16 : r.range(1, 6);
    static const long ss[] = {16, 32, 48, 64, 96, 128, 40};
    p.cfg = {m, c, ss[r.below(7)], (long)r.below(2), (long)r.below(2), (long)r.below(c + 1), (long)(r.next() & 0x7fffffff), (long)r.chance(1, 4)};
    int nt = (int)r.range(1, 5); bool raw = m == 0 && r.chance(1, 8);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int k = (int)r.range(1, 24), role = (int)r.below(3);
      for (int i = 0; i < k; i++) {
        int q = (int)r.below(20);
        if (role == 0 ? q < 8 : role == 1 && q < 2) { tp.ops.push_back({ADD, 0, 0, 0, 0}); continue; }
        q = (int)r.below(20);
        if (q < 13) tp.ops.push_back({raw && r.chance(1, 4) ? RAW : PUT, r.chance(1, 10) ? r.range(0, 900) : r.range(0, 120), (long)r.below(0x10000), (long)r.below(4), r.chance(1, 40) ? -1 : r.range(0, 8)});
        else if (q < 15) tp.ops.push_back({WALK, 0, 0, 0, 0});
        else if (q < 18) tp.ops.push_back({ASK, (long)r.below(6), r.range(-2, c + 3), 0, 0});
        else tp.ops.push_back({PAUSE, r.range(1, 6), 0, 0, 0});
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(nt), (int)r.below(8), r.range(1, 60), r.logrange(50, 5000), 0});
    if (nt > 1 && r.chance(1, 5)) p.faults.push_back({F_THREADDEATH, (int)r.below(nt), (int)r.below(10), r.range(1, 60), 1, 0});
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    mode = (int)p.cfg[0]; cap = p.cfg[1]; stride = (p.cfg[2] + 15) & ~15L;
    size_t nt = p.threads.size(); adding.assign(nt, -1); infl.assign(nt, 0); seqs.assign(nt, 0);
    u64 bs = 256 + cap * 16;
    if (p.cfg[3]) { void *b = A->SASBlockAlloc(512); memset(b, 0xff, 512); if (p.cfg[3] && cap == 16 && p.cfg[4]) A->SASBlockDealloc(b, 512); else portal = b; }
    if (cap == 16 && p.cfg[4]) portal = A->SPHLogPortalCreate(512);
    else { if (!portal) portal = A->SASBlockAlloc(512); portal = A->SPHLogPortalInit(portal, bs); }
    if (!portal) fail("create", "creating the portal failed");
    int adds = 0; for (auto &t : p.threads) for (auto &o : t.ops) adds += o.k == ADD;
    adds += (int)p.cfg[5] + 1;
    for (int i = 0; i < adds; i++) {
      Log l; u64 x = hash2(p.cfg[6], i);
      l.bs = 256 + (1 + x % (x % 3 ? 20 : 48)) * 16;
      void *b = A->SASBlockAlloc(1024); if (x & 0x1000) memset(b, 0xff, 1024);
      l.log = mode ? A->SPHLFLoggerInitWithStride(b, l.bs, (unsigned short)p.cfg[2], 0) : A->SPHLFLoggerInit(b, l.bs);
      l.cap = l.bs - 256; l.base = (u64)l.log + 256;
      pool.push_back(l);
    }
    if (A->SPHLogPortalCapacity(portal) != cap) fail("capacity", "the portal's capacity is %d instead of %ld", A->SPHLogPortalCapacity(portal), cap);
    if (!A->SPHLogPortalEmpty(portal) || A->SPHLogPortalEntries(portal) || A->SPHLogPortalGetCurrentLogger(portal) || A->SPHLogPortalGetCurrentIndex(portal) != -1 || A->SPHLogPortalGetLoggerByIndex(portal, 0)) fail("empty", "a new portal is not empty");
    SPHLFPortalIterator_t it; if (A->SPHLFPortalCreateIterator(portal, &it)) fail("empty", "an empty portal has an iterator");
    SPHLFLoggerHandle_t h; if (A->SPHLogPortalAllocTimeStamped(portal, 1, 1, 8, &h)) fail("empty", "an empty portal granted an entry");
    if (A->SPHLogPortalAddLogger(portal, portal)) fail("add", "something that is not a log was added");
    for (long i = 0; i < p.cfg[5]; i++) add(-1);
  }
  void on_kill(int th) override {
    if (adding[th] >= 0) { pool[adding[th]].state = 4; dead_adds++; died = true; probe(4); }
    if (infl[th]) { lost_room += infl[th]; infl[th] = 0; died = true; probe(5); }
  }
  void op(int th, int idx, const Op &o) override {
    if (!idx) A->SASThreadSetUp();
    switch (o.k) {
    case PUT: put(th, o); return;
    case RAW: {
      u64 sz = ((u64)o.a + 15) & ~15ull; if (!sz) sz = 16;
      u64 c0 = tick_event(); infl[th] = sz;
      u64 e = (u64)A->SPHLogPortalAllocRaw(portal, o.a ? o.a : 1);
      infl[th] = 0; probe(8);
      if (!e) { refused(c0, sz); return; }
      Log &l = logof(e, sz); (void)l; placed(c0, l, e, sz, -1);
      return;
    }
    case ADD: add(th); return;
    case WALK: walk(false); return;
    case ASK: ask(o); return;
    case PAUSE: for (long i = 0; i < o.a; i++) sim_yield(); return;
    }
  }
  void add(int th) {
    if (next_log >= pool.size()) return;
    size_t i = next_log++; Log &l = pool[i];
    l.state = 1; l.c0 = tick_event(); begun++; if (th >= 0) adding[th] = (int)i;
    long b = begun; (void)b;
    void *r = A->SPHLogPortalAddLogger(portal, l.log);
    if (th >= 0) adding[th] = -1;
    l.c1 = tick_event(); note(r != nullptr);
    if (r) {
      if (r != l.log) fail("add", "adding a log returned something else");
      l.state = 2; added++;
      if (added > cap) fail("add", "%ld logs were added to a portal for %ld", added, cap);
    } else {
      l.state = 3; refused_adds++; probe(3);
      if (begun - refused_adds < cap) fail("add", "a log was refused with only %ld of %ld places taken", begun - refused_adds, cap);
    }
  }
  Log &logof(u64 e, u64 sz) {
    for (auto &l : pool) if (e >= l.base && e < l.base + l.cap) {
      if (l.state == 0 || l.state == 3) fail("place", "an entry was placed in a log that is not in the portal");
      if (e + sz > l.base + l.cap) fail("place", "an entry reaches beyond its log");
      return l;
    }
    fail("place", "entry %llx lies in none of the portal's logs", (unsigned long long)e);
  }
  u64 pending() { u64 s = lost_room; for (u64 x : infl) s += x; return s; }
  // an entry of this size was not placed in log l: room for it must have been taken
  void must_be_full(Log &l, u64 sz, const char *why) {
    if (l.taken + l.passed + pending() + sz <= l.cap) fail("room", "an entry of %llu bytes was %s a log with %llu of %llu bytes used", (unsigned long long)sz, why, (unsigned long long)l.taken, (unsigned long long)l.cap);
    if (l.taken + 16 <= l.cap && sz > l.cap) probe(6);
  }
  void refused(u64 c0, u64 sz) {
    int n = 0; for (auto &l : pool) if (l.state == 2 && l.c1 < c0) { n++; must_be_full(l, sz, "refused although the portal has"); }
    probe(n ? 1 : 0);
    lost_room += sz;       // the refused request may have used up room too small for it
  }
  void placed(u64 c0, Log &l, u64 e, u64 sz, int id) {
    if (e % 16) fail("place", "an entry is not aligned");
    if (iv.overlap(e, e + sz) != -1) fail("overlap", "an entry overlaps another one");
    iv.add(e, e + sz, id); 
    // logs that were surely before this one in the list
    for (auto &k : pool) if (&k != &l) {
      if (k.state == 2 && k.c1 < l.c0) must_be_full(k, sz, "placed behind");
      if (!(l.state == 2 && l.c1 < k.c0)) k.passed += sz;    // it may have been tried there
    }
    l.taken += sz; (void)c0;
    if (l.taken == sz && added > 1) probe(2);
  }
  void put(int th, const Op &o) {
    u64 want = mode ? (u64)stride - 16 : (u64)o.a, sz = mode ? (u64)stride : ((want + 31) & ~15ull);
    SPHLFLoggerHandle_t h; memset(&h, 0x5a, sizeof h);
    LEnt x; x.th = th; x.seq = seqs[th]++; x.cat = (int)(o.b & 0xfff); x.sub = (int)((o.b >> 4) & 0xff); x.size = sz; x.want = want;
    x.seed = hash2(hash2(0x1234, th), x.seq); x.t0 = os_mono(); x.pid = proc_pid(fiber_proc(th)); x.tid = os_tid();
    u64 c0 = tick_event(); infl[th] = sz;
    SPHLFLoggerHandle_t *r = mode ? A->SPHLogPortalAllocStrideTimeStamped(portal, x.cat, x.sub, &h) : A->SPHLogPortalAllocTimeStamped(portal, x.cat, x.sub, want, &h);
    infl[th] = 0; x.t1 = os_mono(); note(r != nullptr);
    if (!r) { refused(c0, sz); return; }
    if (r != &h) fail("handle", "the handle returned is not the caller's");
    x.addr = (u64)h.entry;
    Log &l = logof(x.addr, sz);
    if (h.total_size != sz || h.remaining != sz - 16 || (u64)h.next != x.addr + 16) fail("entry-size", "entry for %llu bytes: total %u, remaining %u", (unsigned long long)want, h.total_size, h.remaining);
    int id = (int)ent.size(); placed(c0, l, x.addr, sz, id);
    ent.push_back(x); at[x.addr] = id; LEnt &e = ent[id];
    SPHLFLoggerHandle_t h2 = h;
    int k = log_payload::write(&h2, e.seed, o.d < 0 ? 2 : (int)o.d, true);
    if (o.d < 0) { probe(9); return; }
    e.items = k; e.all = k >= (int)o.d; e.completing = true;
    int rc = o.c == 0 ? A->SPHLFLoggerEntryComplete(&h) : o.c == 1 ? A->SPHLFLogEntryComplete(&h) : o.c == 2 ? A->SPHLFLogEntryStrongComplete(&h) : A->SPHLFLogEntryWeakComplete(&h);
    if (rc) fail("complete", "completing an entry failed");
    e.completed = true;
  }
  void see(long i, void *log) {
    int j = -1; for (size_t k = 0; k < pool.size(); k++) if (pool[k].log == log) j = (int)k;
    if (j < 0 || pool[j].state == 0 || pool[j].state == 3) fail("list", "place %ld of the portal holds something that was not added", i);
    auto f = byindex.find(i);
    if (f != byindex.end()) { if (f->second != log) fail("list", "place %ld of the portal changed", i); return; }
    for (auto &kv : byindex) if (kv.second == log) fail("list", "a log is at places %ld and %ld of the portal", kv.first, i);
    byindex[i] = log; pool[j].index = (int)i;
    for (auto &a : pool) for (auto &b : pool) if (a.index >= 0 && b.index >= 0 && a.state == 2 && a.c1 < b.c0 && a.index > b.index) fail("list-order", "logs added one after the other are listed the other way round");
  }
  void ask(const Op &o) {
    long a0 = added, n;
    switch (o.a) {
    case 0: n = A->SPHLogPortalEntries(portal); if (n < a0 || n > cap || n > begun) fail("entries", "the portal counts %ld logs, at least %ld and at most %ld were added", n, a0, begun); return;
    case 1: if (A->SPHLogPortalCapacity(portal) != cap) fail("capacity", "the portal's capacity changed"); return;
    case 2: { int e = A->SPHLogPortalEmpty(portal); if (e && a0) fail("empty", "a portal with %ld logs says it is empty", a0); if (!e && !begun) fail("empty", "a portal without logs says it is not empty"); return; }
    case 3: {
      void *l = A->SPHLogPortalGetLoggerByIndex(portal, o.b);
      if (!l) { if (o.b >= 0 && o.b < a0) fail("list", "no log at place %ld of %ld", (long)o.b, a0); return; }
      if (o.b < 0 || o.b >= cap || o.b >= begun) fail("list", "a log is reported at place %ld of %ld", (long)o.b, begun);
      see(o.b, l); return; }
    case 4: {
      long before = cur_min; n = A->SPHLogPortalGetCurrentIndex(portal);
      if (n == -1 ? a0 > 0 : (n < 0 || n >= begun || n >= cap)) fail("current", "the current log is number %ld of %ld", n, a0);
      if (n < before) fail("current", "the current log went back from %ld to %ld", before, n);
      cur_min = std::max(cur_min, n); return; }
    case 5: {
      void *l = A->SPHLogPortalGetCurrentLogger(portal);
      if (!l) { if (a0) fail("current", "no current log among %ld", a0); return; }
      bool ok = false; for (auto &k : pool) ok |= k.log == l && k.state != 0 && k.state != 3;
      if (!ok) fail("current", "the current log was not added");
      return; }
    }
  }
  void walk(bool last) {
    long a0 = added; std::map<u64, bool> done; for (auto &kv : at) done[kv.first] = ent[kv.second].completed;
    SPHLFPortalIterator_t itr; SPHLFLoggerHandle_t h; memset(&itr, 0x5a, sizeof itr); memset(&h, 0x5a, sizeof h);
    SPHLFPortalIterator_t *it = A->SPHLFPortalCreateIterator(portal, &itr);
    if (!it) { if (a0) fail("iterator", "a portal with %ld logs has no iterator", a0); return; }
    if (it != &itr) fail("iterator", "creating an iterator failed");
    std::map<void *, u64> pos; std::vector<void *> order; size_t got = 0;
    for (;;) {
      SPHLFLoggerHandle_t *r = A->SPHLFPortalIteratorNext(it, &h);
      if (!r) break;
      if (r != &h) fail("handle", "the handle returned is not the caller's");
      u64 e = (u64)h.entry; Log &l = logof(e, 16);
      auto f = at.find(e);
      if (f == at.end()) fail("phantom", "a reader is handed an entry that was never written");
      LEnt &x = ent[f->second];
      if (!x.completing) fail("incomplete", "a reader is handed an entry before it is complete");
      if (order.empty() || order.back() != l.log) {
        if (pos.count(l.log)) fail("walk-order", "the reader comes back to a log");
        for (void *b : order) for (auto &k : pool) if (k.log == b && l.state == 2 && l.c1 < k.c0) fail("walk-order", "the reader visits logs in another order than they were added");
        order.push_back(l.log); pos[l.log] = l.base;
      }
      if (pos[l.log] != e) fail("walk-order", "the reader skips or repeats an entry");
      lent_check(x, &h, x.seq);
      pos[l.log] = e + x.size;
      if (++got > ent.size()) fail("walk-end", "the walk does not end");
    }
    if (order.size() > 1) probe(7);
    // complete entries in logs that belonged to the portal before, without an incomplete one before them
    for (auto &l : pool) if (l.state == 2 && last) {
      u64 q = pos.count(l.log) ? pos[l.log] : l.base; auto d = done.find(q);
      if (d != done.end() && d->second) fail("lost", "the walk ended in log %ld before an entry of thread %d that was complete", (long)(&l - &pool[0]), ent[at[q]].th);
    }
  }
  void finish(Prog &p) override {
    proc_switch(0);
    long n = A->SPHLogPortalEntries(portal);
    if (n < added || n > added + dead_adds) fail("entries", "the portal counts %ld logs after %ld were added", n, added);
    for (long i = 0; i < n; i++) { void *l = A->SPHLogPortalGetLoggerByIndex(portal, i); if (!l) fail("list", "place %ld of %ld is empty", i, n); see(i, l); }
    for (long i = n; i < cap + 3; i++) if (A->SPHLogPortalGetLoggerByIndex(portal, i)) fail("list", "a log is reported at place %ld of %ld", i, n);
    if (A->SPHLogPortalGetLoggerByIndex(portal, -1)) fail("list", "a log is reported at place -1");
    for (auto &l : pool) if (l.state == 2 && l.index < 0) fail("list", "a log that was added is not listed");
    for (long q : {0L, 1L, 2L, 4L, 5L}) ask({ASK, q, 0, 0, 0});
    walk(true);
    // a refused log can be added to another portal, and every log be read on its own
    if (p.cfg[7]) {
      int c = 0;
      if (cap == 16 && p.cfg[4] && A->SPHLogPortalDestroy(portal)) fail("destroy", "destroying the portal failed");
      for (auto &l : pool) {
        SPHLFLogIterator_t it; SPHLFLoggerHandle_t h; if (!A->SPHLFLoggerCreateIterator(l.log, &it)) fail("iterator", "a log cannot be read any more");
        u64 q = l.base; while (A->SPHLFLoggerIteratorNext(&it, &h)) { auto f = at.find((u64)h.entry); if (f == at.end()) fail("phantom", "a log holds an entry that was never written"); lent_check(ent[f->second], &h, ent[f->second].seq); q += ent[f->second].size; c++; }
        auto d = at.find(q); if (d != at.end() && ent[d->second].completed) fail("lost", "a log ends before an entry that is complete");
      }
    }
  }
};
static C17 c; static Reg reg(&c);
