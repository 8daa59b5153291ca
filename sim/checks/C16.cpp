// C16: the lock-free logger.
#include "logger.h"

struct C16 : Check {
  enum { PUT, RAW, WALK, ASK, PAUSE, BIG };
  enum { VAR, STRIDE, CIRC };
  void *log = nullptr; u64 bs = 0, cap = 0, base = 0; long stride = 0, n = 0; int mode = 0;
  std::deque<LEnt> ent; std::map<u64, int> at;    // address -> newest entry there
  std::vector<long> visits; std::vector<std::vector<int>> slot_hist;
  Intervals iv;
  int allocating = 0; long nalloc = 0, changes = 0; u64 attempted = 0, taken = 0; bool failed = false, uncertain = false, raws = false;
  std::vector<int> inalloc; std::vector<long> seqs; std::vector<u64> infl;
  int nwriters = 0;
  C16() : Check("C16") {
    what = "1-4 writers in 1-3 processes log typed items through every allocation and completion form into a simple, fixed-stride or circular log on clean or reused storage until and beyond full, entries completed late or never, writers stalled or dying, while readers walk the log; every entry read is compared with what its writer wrote.";
    opnames = {"put", "raw", "walk", "ask", "pause", "too_big"};
    probe_names = {"refused", "wrapped", "abandoned", "walk_quiet_circular_wrapped", "walk_stopped_at_incomplete", "lapped_writer", "leftover_at_end", "died_in_alloc", "raw", "walk_full_circle"};
    real = {"sphlflogger.cpp", "sphlflogentry.h", "sphthread.c", "sphtimer.h", "sassim.cpp"};
    quick_runs = 30000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    long m = (long)r.below(3);
    static const long ss[] = {16, 32, 48, 64, 80, 96, 112, 128, 160, 20, 100, 40, 72};
    long st = m == VAR ? 0 : ss[r.below(13)], b = 512L << r.below(m == VAR ? 4 : 3);
    int nw = (int)r.range(1, 4), nr = (int)r.below(3);
    bool nolock = nw == 1 && r.chance(1, 2);
    p.cfg = {m, b, st, (long)r.below(2), (long)r.below(2), (long)r.below(8), (long)(r.next() & 0x7fffffff), nw};
    bool raw = m != CIRC && r.chance(1, 8);
    for (int t = 0; t < nw + nr; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int k = (int)r.range(1, t < nw ? 24 : 6);
      for (int i = 0; i < k; i++) {
        if (t >= nw) { tp.ops.push_back({r.chance(3, 4) ? WALK : ASK, (long)r.below(4), 0, 0, 0}); if (r.chance(1, 2)) tp.ops.push_back({PAUSE, r.range(1, 10), 0, 0, 0}); continue; }
        int q = (int)r.below(24);
        if (q < 18) tp.ops.push_back({raw && r.chance(1, 4) ? RAW : PUT, m == VAR ? (r.chance(1, 10) ? r.range(0, 900) : r.range(0, 100)) : 0, (long)r.below(0x10000), (long)(nolock) * 8 + (long)r.below(4), r.chance(1, 30) ? -1 : r.range(0, 12)});
        else if (q < 20) tp.ops.push_back({WALK, 0, 0, 0, 0});
        else if (q < 22) tp.ops.push_back({ASK, (long)r.below(4), 0, 0, 0});
        else if (q < 23) tp.ops.push_back({PAUSE, r.range(1, 5), 0, 0, 0});
        else tp.ops.push_back({m == VAR ? BIG : PAUSE, (long)r.below(3), (long)r.below(2), 0, 0});
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(nw), (int)r.below(8), r.range(1, 60), r.logrange(50, 5000), 0});
    if (nw > 1 && r.chance(1, 5)) p.faults.push_back({F_THREADDEATH, (int)r.below(nw), (int)r.below(10), r.range(1, 60), 1, 0});
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    mode = (int)p.cfg[0]; bs = p.cfg[1]; long st = p.cfg[2]; nwriters = (int)p.cfg[7];
    size_t nt = p.threads.size(); inalloc.assign(nt, 0); seqs.assign(nt, 0); infl.assign(nt, 0);
    unsigned opt = mode == CIRC ? SPHLFLOGGER_CIRCULAR : 0;
    bool create = p.cfg[4];
    if (p.cfg[3]) { void *b = A->SASBlockAlloc(bs); memset(b, 0xff, bs); if (create) A->SASBlockDealloc(b, bs); else log = b; }
    if (create && mode == CIRC) log = A->SPHLFCircularLoggerCreate(bs, (unsigned short)st);
    else if (create && mode == VAR) log = A->SPHLFLoggerCreate(bs);
    else { if (!log) log = A->SASBlockAlloc(bs); log = mode == VAR ? A->SPHLFLoggerInit(log, bs) : A->SPHLFLoggerInitWithStride(log, bs, (unsigned short)st, opt); }
    if (!log) fail("create", "creating the log failed");
    cap = A->SPHLFLoggerFreeSpace(log);
    if (cap + 512 < bs || cap + 64 > bs) fail("create", "a new log of %llu bytes has %llu bytes free", (unsigned long long)bs, (unsigned long long)cap);
    base = (u64)log + bs - cap;
    stride = (st + 15) & ~15L;
    if (mode != VAR) { n = cap / stride; { visits.assign(n, 0); slot_hist.assign(n, {}); } if (cap % stride) probe(6); }
    if (!A->SPHLFLoggerEmpty(log) || A->SPHLFLoggerFull(log) || A->SPHLFLoggerWrapped(log)) fail("empty", "a new log is not empty");
    if (p.cfg[5] < 5) for (int i = 0; i < 2; i++) if (A->SPHLFLoggerSetCachePrefetch(log, (int)((p.cfg[5] + i) % 4))) fail("prefetch", "setting the prefetch option failed");
    if (p.cfg[5] % 2 && A->SPHLFLoggerPrefetch(log)) fail("prefetch", "prefetch failed");
    walk_all("new");
  }
  void on_kill(int th) override { if (inalloc[th]) { inalloc[th] = 0; allocating--; uncertain = true; failed = true; probe(7); } }
  void op(int th, int idx, const Op &o) override {
    if (!idx) A->SASThreadSetUp();
    switch (o.k) {
    case PUT: put(th, o); return;
    case RAW: {
      u64 sz = ((u64)o.a + 15) & ~15ull; if (!sz) sz = 16;
      u64 a = enter(th, sz); 
      u64 e = (u64)A->SPHLFLoggerAllocRaw(log, (u64)o.a ? o.a : 1);
      leave(th, a);
      probe(8); raws = true;
      if (!e) { refused(th, a, sz, false); return; }
      if (e < base || e + sz > base + cap) fail("place", "a raw entry lies outside the log");
      if (iv.overlap(e, e + sz) != -1) fail("overlap", "a raw entry overlaps another entry");
      iv.add(e, e + sz, 0); taken += sz; nalloc++;
      return;
    }
    case BIG: {
      // a request that no log can meet: an entry leaves the log as it was, a raw one fills it
      static const u64 sizes[] = {~0ull - 4096, 1ull << 40, 70000};
      SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h);
      if (o.b) { attempted += cap + 16; changes++; failed = true; if (A->SPHLFLoggerAllocRaw(log, sizes[o.a])) fail("too-big", "a raw entry of %llu bytes was granted", (unsigned long long)sizes[o.a]); }
      else if (A->SPHLFLoggerAllocTimeStamped(log, 1, 1, sizes[o.a], &h)) fail("too-big", "an entry of %llu bytes was granted", (unsigned long long)sizes[o.a]);
      return;
    }
    case WALK: walk(); return;
    case ASK: ask(o); return;
    case PAUSE: for (long i = 0; i < o.a; i++) sim_yield(); return;
    }
  }
  u64 enter(int th, u64 sz) { inalloc[th] = 1; allocating++; changes++; attempted += sz; infl[th] = sz; return attempted; }
  void leave(int th, u64) { inalloc[th] = 0; allocating--; changes++; }
  void refused(int, u64, u64 sz, bool circ) {
    failed = true; probe(0);
    if (circ) fail("refused", "a circular log refused an entry");
    if (attempted <= cap && !uncertain) fail("refused", "an entry of %llu bytes was refused although all entries asked for so far need only %llu of %llu bytes", (unsigned long long)sz, (unsigned long long)attempted, (unsigned long long)cap);
  }
  void put(int th, const Op &o) {
    u64 want = mode == VAR ? (u64)o.a : (u64)stride - 16, sz = mode == VAR ? ((want + 16 + 15) & ~15ull) : (u64)stride;
    SPHLFLoggerHandle_t h; memset(&h, 0x5a, sizeof h);
    LEnt x; x.th = th; x.seq = seqs[th]++; x.cat = (int)(o.b & 0xfff); x.sub = (int)((o.b >> 4) & 0xff); x.size = sz; x.want = want;
    x.seed = hash2(hash2(0x1234, th), x.seq); x.t0 = os_mono(); x.pid = proc_pid(fiber_proc(th)); x.tid = os_tid();
    u64 c0 = tick_event(); u64 a0 = enter(th, sz);
    SPHLFLoggerHandle_t *r;
    bool nolock = o.c & 8;
    if (mode == VAR) r = nolock ? A->SPHLFLoggerAllocTimeStampedNoLock(log, x.cat, x.sub, want, &h) : A->SPHLFLoggerAllocTimeStamped(log, x.cat, x.sub, want, &h);
    else r = nolock ? A->SPHLFLoggerAllocStrideTimeStampedNoLock(log, x.cat, x.sub, &h) : A->SPHLFLoggerAllocStrideTimeStamped(log, x.cat, x.sub, &h);
    leave(th, a0);
    x.t1 = os_mono();
    note(r != nullptr);
    if (!r) { refused(th, a0, sz, mode == CIRC); return; }
    x.addr = (u64)h.entry;
    if (r != &h) fail("handle", "the handle returned is not the caller's");
    if (x.addr < base || x.addr + sz > base + cap) fail("place", "entry %llx+%llu lies outside the log", (unsigned long long)x.addr - (u64)log, (unsigned long long)sz);
    if (x.addr % 16) fail("place", "entry %llx is not aligned", (unsigned long long)x.addr);
    if (h.total_size != sz || h.remaining != sz - 16 || h.remaining < want || (u64)h.next != x.addr + 16) fail("entry-size", "entry for %llu bytes: total %u, remaining %u", (unsigned long long)want, h.total_size, h.remaining);
    int id = (int)ent.size();
    if (mode != CIRC) {
      if (iv.overlap(x.addr, x.addr + sz) != -1) fail("overlap", "entry %llx+%llu overlaps another entry", (unsigned long long)x.addr - (u64)log, (unsigned long long)sz);
      iv.add(x.addr, x.addr + sz, id);
      taken += sz;
    } else {
      if ((x.addr - base) % stride) fail("place", "entry %llx is not a multiple of the stride from the start", (unsigned long long)x.addr);
      long s = (x.addr - base) / stride;
      visits[s]++;
      if (nalloc >= n) probe(1);
      // a writer before is still at work, or was when this call began
      for (int j : slot_hist[s]) { LEnt &y = ent[j]; if (!y.end || y.end >= c0) { x.known = false; y.known = false; probe(5); } }
      slot_hist[s].push_back(id);
    }
    ent.push_back(x); at[x.addr] = id; nalloc++; changes++;
    LEnt &e = ent[id];
    if (mode != CIRC && A->SPHLFLogEntryIsComplete(&h)) fail("status", "a new entry says it is complete");
    SPHLFLoggerHandle_t h2 = h;
    e.items = 0;
    int k = log_payload::write(&h2, e.seed, o.d < 0 ? 3 : (int)o.d, true);
    if (o.d < 0) { e.end = tick_event(); probe(2); return; }
    e.items = k; e.all = k >= (int)o.d;
    e.completing = true; changes++;
    int rc = 0;
    switch (o.c & 3) {
    case 0: rc = A->SPHLFLoggerEntryComplete(&h); break;
    case 1: rc = A->SPHLFLogEntryComplete(&h); break;
    case 2: rc = A->SPHLFLogEntryStrongComplete(&h); break;
    case 3: rc = A->SPHLFLogEntryWeakComplete(&h); break;
    }
    if (rc) fail("complete", "completing an entry failed");
    e.completed = true; e.end = tick_event(); changes++;
  }
  void ask(const Op &o) {
    long c0 = changes; bool quiet = !allocating; u64 t0 = taken; long n0 = nalloc;
    u64 fs = 0; int f = 0;
    switch (o.a) {
    case 0: fs = A->SPHLFLoggerFreeSpace(log); break;
    case 1: f = A->SPHLFLoggerFull(log); break;
    case 2: f = A->SPHLFLoggerEmpty(log); break;
    case 3: f = A->SPHLFLoggerWrapped(log); break;
    }
    if (o.a == 2 && f && n0) fail("empty", "Empty is %d after %ld entries", f, n0);
    if (c0 != changes || !quiet || uncertain) return;
    judge(o.a, fs, f, t0, n0);
  }
  void judge(long what, u64 fs, int f, u64 t0, long n0) {
    if (what == 0) {
      if (mode != CIRC && !failed && fs != cap - t0) fail("free-space", "%llu bytes free reported with %llu of %llu used", (unsigned long long)fs, (unsigned long long)t0, (unsigned long long)cap);
      if (mode != CIRC && fs > cap - t0) fail("free-space", "%llu bytes free reported with %llu of %llu used", (unsigned long long)fs, (unsigned long long)t0, (unsigned long long)cap);
      if (mode == CIRC && n0 < n && fs != cap - n0 * stride) fail("free-space", "%llu bytes free reported after %ld of %ld entries", (unsigned long long)fs, n0, n);
      if (fs > cap) fail("free-space", "more bytes free than the log has");
    } else if (what == 1) {
      if (mode != CIRC && !failed && !f != !(t0 == cap)) fail("full", "Full is %d with %llu of %llu bytes used", f, (unsigned long long)t0, (unsigned long long)cap);
      if (mode == CIRC && f && n0 < n) fail("full", "Full with %ld of %ld entries", n0, n);
    } else if (what == 2) {
      if (!f != !(n0 == 0) && !(failed && n0 == 0)) fail("empty", "Empty is %d with %ld entries", f, n0);
    } else {
      if (mode != CIRC && f) fail("wrapped", "a log that is not circular says it wrapped");
      if (mode == CIRC && !f != !(n0 > n)) fail("wrapped", "Wrapped is %d after %ld entries in a log of %ld", f, n0, n);
    }
  }
  void walk() {
    long c0 = changes, n0 = nalloc; bool quiet = !allocating && !uncertain;
    // entries that were complete before the walk
    std::map<u64, bool> done;
    if (mode != CIRC) for (auto &kv : at) done[kv.first] = ent[kv.second].completed;
    SPHLFLogIterator_t itr; SPHLFLoggerHandle_t h; memset(&itr, 0x5a, sizeof itr); memset(&h, 0x5a, sizeof h);
    SPHLFLogIterator_t *it = A->SPHLFLoggerCreateIterator(log, &itr);
    if (it != &itr) fail("iterator", "creating an iterator failed");
    u64 pos = base; std::vector<u64> got;
    for (;;) {
      SPHLFLoggerHandle_t *r = A->SPHLFLoggerIteratorNext(it, &h);
      if (!r) break;
      if (r != &h) fail("handle", "the handle returned is not the caller's");
      u64 e = (u64)h.entry;
      if (e < base || e >= base + cap) fail("walk-place", "a reader is handed an entry outside the log");
      if (mode != CIRC) {
        auto f = at.find(e);
        if (f == at.end()) { if (!raws) fail("phantom", "a reader is handed an entry at %llx that was never written", (unsigned long long)(e - (u64)log)); return; }
        if (e != pos) fail("walk-order", "a reader is handed entry %llx instead of %llx", (unsigned long long)(e - (u64)log), (unsigned long long)(pos - (u64)log));
        LEnt &x = ent[f->second];
        if (!x.completing) fail("incomplete", "a reader is handed entry %ld of writer %d before it is complete", x.seq, x.th);
        lent_check(x, &h, x.seq);
        pos = e + x.size;
      } else {
        if ((e - base) % stride || (long)((e - base) / stride) >= n) fail("walk-place", "a reader is handed something that is not an entry");
      }
      got.push_back(e);
      if (got.size() > cap / 16 + 1 || (mode == CIRC && (long)got.size() > n)) fail("walk-end", "the walk does not end");
    }
    if (mode != CIRC) {
      auto d = done.find(pos);
      if (d != done.end() && d->second) fail("lost", "the walk ended before entry %ld of writer %d, which was complete before it began", ent[at[pos]].seq, ent[at[pos]].th);
      if (d != done.end()) probe(4);
      return;
    }
    if (c0 != changes || !quiet || allocating || uncertain) return;
    if (nalloc > n) probe(3);
    judge_circ(got, n0);
  }
  void judge_circ(std::vector<u64> &got, long n0) {
    long from = n0 > n ? n0 - n : 0;
    size_t i = 0;
    for (long k = from; k < n0; k++, i++) {
      u64 a = base + (k % n) * stride;
      if (!at.count(a)) fail("lost-slot", "entry number %ld was handed out nowhere", k);
      LEnt &x = ent[at[a]];
      if (i >= got.size()) {
        if (x.completed && x.known) fail("lost", "the walk ended after %zu entries before entry %ld of writer %d (number %ld of %ld), which is complete", i, x.seq, x.th, k, n0);
        return;
      }
      if (got[i] != a) fail("walk-order", "the walk gives the entry at %llx instead of number %ld at %llx", (unsigned long long)(got[i] - (u64)log), k, (unsigned long long)(a - (u64)log));
      if (!x.known) continue;
      if (!x.completing) fail("incomplete", "a reader is handed entry %ld of writer %d before it is complete", x.seq, x.th);
    }
    if (i < got.size()) fail("phantom", "the walk gives %zu entries, %zu were expected", got.size(), i);
    if (n0 > n) probe(9);
  }
  // quiet walk with contents (main context)
  void walk_all(const char *when) {
    SPHLFLogIterator_t itr; SPHLFLoggerHandle_t h;
    A->SPHLFLoggerCreateIterator(log, &itr);
    std::vector<u64> got; u64 pos = base;
    while (A->SPHLFLoggerIteratorNext(&itr, &h)) {
      u64 e = (u64)h.entry; auto f = at.find(e);
      if (f == at.end()) { if (raws) return; fail("phantom", "%s log: a reader is handed an entry at %llx that was never written", when, (unsigned long long)(e - (u64)log)); }
      LEnt &x = ent[f->second];
      if (x.known && !(uncertain && mode == CIRC)) {
        if (!x.completing) fail("incomplete", "%s log: a reader is handed entry %ld of writer %d, which is not complete", when, x.seq, x.th);
        lent_check(x, &h, x.seq);
      }
      if (mode != CIRC) { if (e != pos) fail("walk-order", "%s log: entry %llx instead of %llx", when, (unsigned long long)(e - (u64)log), (unsigned long long)(pos - (u64)log)); pos = e + x.size; }
      got.push_back(e);
      if (got.size() > cap / 16 + 1 || (mode == CIRC && (long)got.size() > n)) fail("walk-end", "%s log: the walk does not end", when);
    }
    if (mode != CIRC) { auto f = at.find(pos); if (f != at.end() && ent[f->second].completed) fail("lost", "%s log: the walk ended before entry %ld of writer %d, which is complete", when, ent[f->second].seq, ent[f->second].th); }
    else if (!uncertain) { if (nalloc > n) probe(3); judge_circ(got, nalloc); }
  }
  void finish(Prog &p) override {
    proc_switch(0);
    allocating = 0;
    walk_all("final");
    if (!uncertain) {
      judge(0, A->SPHLFLoggerFreeSpace(log), 0, taken, nalloc);
      judge(1, 0, A->SPHLFLoggerFull(log), taken, nalloc);
      judge(2, 0, A->SPHLFLoggerEmpty(log), taken, nalloc);
      judge(3, 0, A->SPHLFLoggerWrapped(log), taken, nalloc);
    }
    if (p.cfg[6] & 1) {
      // start over, with other entry sizes
      bool full = A->SPHLFLoggerFull(log); int rc = 0;
      if (p.cfg[6] & 2) { rc = A->SPHLFLoggerResetIfFullSync(log); if (full && rc) fail("reset", "a full log was not reset"); if (!rc && !full && !failed && mode != CIRC && taken + 256 < cap) fail("reset", "a log that is not full was reset"); }
      else { rc = A->SPHLFLoggerResetAsync(log); if (rc) fail("reset", "resetting the log failed"); }
      if (!rc) {
        if (!A->SPHLFLoggerEmpty(log) || A->SPHLFLoggerFull(log) || A->SPHLFLoggerWrapped(log) || A->SPHLFLoggerFreeSpace(log) != cap) fail("reset", "a log that was reset is not empty");
        ent.clear(); at.clear(); iv = Intervals(); nalloc = 0; taken = attempted = 0; failed = uncertain = raws = false; { visits.assign(n, 0); slot_hist.assign(n, {}); }
        walk_all("reset");
        u64 rs = p.cfg[6];
        for (int i = 0; i < 40; i++) {
          Op o{PUT, (long)(hash2(rs, i) % 150), (long)i * 131, (long)(hash2(rs, i + 99) % 4), (long)(hash2(rs, i + 7) % 9)};
          put(0, o);
          if (i % 8 == 3) walk_all("refilled");
        }
        walk_all("refilled");
      }
    }
    if (p.cfg[4] && A->SPHLFLoggerDestroy(log)) fail("destroy", "destroying the log failed");
  }
};
static C16 c; static Reg reg(&c);
