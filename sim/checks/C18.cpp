// C18: the lock-free heap.
#include "common.h"
#include <deque>

struct C18 : Check {
  enum { ALLOC, ALIGN, NEAR, FREE, BADCHK, FIND, ASK, TOOBIG, PAUSE };
  void *h = nullptr; u64 bs = 0, unit = 0, cap0 = 0, nwords = 0;
  struct Blk { u64 a, sz, units; u64 id; int owner; bool live; };
  std::deque<Blk> blk; std::vector<std::vector<int>> mine;
  Intervals iv; u64 next_id = 1;
  std::vector<char> usable;             // unit can be handed out
  struct Pend { u64 units; bool alloc; };
  std::map<u64, Pend> pend; u64 next_call = 1;
  struct Watch { std::vector<u64> during; };   // units of allocations overlapping a call
  std::map<u64, Watch> watch;
  long changes = 0;
  C18() : Check("C18") {
    what = "1-5 threads of 1-3 processes allocate (plain, aligned, near), release by every entry point and query one lock-free heap of 2-16 bit words, on clean and on reused storage, with stalls; every allocation is stamped and compared with the set of live ones; refusals are judged against the space that was free throughout the call; at the end all is released and the whole capacity is handed out again.";
    opnames = {"alloc", "align_alloc", "near_alloc", "free", "free_wrong_size", "near_find", "ask", "too_big", "pause"};
    probe_names = {"refused", "aligned_beyond_unit", "freed_by_other_thread", "full_size_32", "judged_refusal_possible", "second_word"};
    real = {"sphlockfreeheap.cpp", "bitv.c", "sassim.cpp"};
    quick_runs = 40000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    static const long us[] = {16, 16, 32, 64, 128, 8, 256, 1024};
    long u = us[r.below(8)]; long words = 2L << r.below(3);
    long style = r.below(4);
    p.cfg = {u, u * 64 * words, (long)r.below(2), (long)r.below(2), (long)(r.next() & 0x7fffffff), style, r.chance(1, 2) ? 0 : r.chance(1, 2) ? (long)(words - 1) * 64 : r.range(1, words * 64)};
    int nt = (int)r.range(1, 5);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int k = (int)r.range(2, style == 2 ? 24 : 14);
      for (int i = 0; i < k; i++) {
        int q = (int)r.below(20);
        long un = style == 0 ? 1 : style == 1 ? r.range(1, 32) : style == 2 ? r.range(1, 3) : r.range(12, 32);
        long sz = r.chance(1, 3) ? (un - 1) * u + r.range(1, u) : un * u;
        if (sz >= 32 * u) sz = 32 * u - 1;        // the repository's tests expect 32 units to be refused
        if (q < 7) tp.ops.push_back({ALLOC, sz, 0, 0, 0});
        else if (q < 9) tp.ops.push_back({ALIGN, sz, r.chance(1, 6) ? 1L << r.below(4) : u << r.below(r.chance(1, 4) ? 7 : 4), 0, 0});
        else if (q < 10) tp.ops.push_back({NEAR, sz, (long)r.below(1000), 0, 0});
        else if (q < 16) tp.ops.push_back({FREE, (long)r.below(1000), (long)r.below(5), (long)r.below(4), 0});
        else if (q < 17) tp.ops.push_back({BADCHK, (long)r.below(1000), r.range(1, 33), 0, 0});
        else if (q < 18) tp.ops.push_back({r.chance(1, 2) ? FIND : TOOBIG, (long)r.below(1000), r.range(1, 40), 0, 0});
        else if (q < 19) tp.ops.push_back({ASK, (long)r.below(3), 0, 0, 0});
        else tp.ops.push_back({PAUSE, r.range(1, 4), 0, 0, 0});
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(nt), (int)r.below(4), r.range(1, 60), r.logrange(50, 3000), 0});
  }
  u64 nunits(u64 sz) { return (sz + unit - 1) / unit; }
  u64 quiet_alloc(u64 sz) { return (u64)A->SPHLockFreeHeapAlloc(h, sz); }
  void drain_and_refill(const char *when) {
    if (!A->SPHLockFreeHeapEmpty(h)) fail("empty", "the %s heap says it is not empty", when);
    std::vector<u64> as;
    u64 fs = A->SPHLockFreeHeapFreeSpace(h);
    if (cap0 && fs != cap0) fail("free-space", "the %s heap reports %llu bytes free instead of %llu", when, (unsigned long long)fs, (unsigned long long)cap0);
    for (u64 i = 0; i < nwords * 64 + 1; i++) {
      if (A->SPHLockFreeHeapFreeSpace(h) != fs - as.size() * unit) fail("free-space", "%s heap: free space is not what it was less what was taken", when);
      u64 a = quiet_alloc(unit);
      if (!a) break;
      if (a < (u64)h + 64 || a + unit > (u64)h + bs || a % unit) fail("place", "unit at %llx is misplaced", (unsigned long long)a);
      as.push_back(a);
    }
    if (as.size() * unit != fs) fail("capacity", "the %s heap reports %llu bytes free and hands out %llu", when, (unsigned long long)fs, (unsigned long long)as.size() * unit);
    if (!A->SPHLockFreeHeapFull(h)) fail("full", "a heap that handed out everything says it is not full");
    std::vector<u64> so = as; std::sort(so.begin(), so.end());
    for (size_t i = 1; i < so.size(); i++) if (so[i] - so[i - 1] < unit) fail("overlap", "two units overlap");
    std::vector<char> us(nwords * 64, 0);
    for (u64 a : as) us[(a - (u64)h) / unit] = 1;
    if (!cap0) { usable = us; cap0 = fs; }
    else if (us != usable) fail("capacity", "the %s heap hands out other units than when new", when);
    for (u64 i = 0; i < as.size(); i++) if (A->SPHLockFreeHeapFree(h, (void *)as[(i * 7919) % as.size()]) && as.size() % 7919) fail("free", "releasing an allocation failed");
    if (A->SPHLockFreeHeapFreeSpace(h) != fs || !A->SPHLockFreeHeapEmpty(h)) fail("capacity", "%s heap: releasing everything does not restore it", when);
    // the largest request
    bool fits = false;
    for (u64 w = 0; w < nwords; w++) for (int i = 0, run = 0; i < 64; i++) { run = usable[w * 64 + i] ? run + 1 : 0; if (run >= 32) fits = true; }
    if (fits) {
      u64 a = quiet_alloc(32 * unit - 1);
      if (!a) fail("largest", "%s heap: a request for just less than 32 units is refused", when);
      if (A->SPHLockFreeHeapFreeChk(h, (void *)a, 32 * unit - 1)) fail("largest", "%s heap: releasing an allocation of 32 units failed", when);
    }
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    unit = p.cfg[0]; bs = p.cfg[1]; nwords = bs / unit / 64;
    mine.resize(p.threads.size());
    if (p.cfg[2]) { void *b = A->SASBlockAlloc(bs); memset(b, 0xff, bs); if (p.cfg[3]) A->SASBlockDealloc(b, bs); else h = b; }
    if (p.cfg[3]) h = A->SPHLockFreeHeapCreate(bs, unit);
    else { if (!h) h = A->SASBlockAlloc(bs); void *x = A->SPHLockFreeHeapInit(h, SAS_RUNTIME_LOCKFREEHEAP, bs, unit); if (x == (void *)-1) h = nullptr; }
    if (!h) { nwords = 0; return; }      // more bookkeeping than one allocation can hold
    drain_and_refill("new");
    // part of the capacity is taken from the start
    for (long left = p.cfg[6], i = 0; left > 0; i++) {
      u64 u = (p.cfg[4] >> (i % 20)) & 1 ? 1 : std::min<u64>(left, 1 + (p.cfg[4] >> 8) % 5);
      u64 a = quiet_alloc(u * unit);
      if (!a) break;
      got((int)(i % mine.size()), a, u * unit, unit);
      left -= u;
    }
  }
  // the space a call is certain to find: the live allocations at its start, and
  // those that may come during the call, in the worst place
  bool must_fit(const std::vector<char> &busy0, const Watch &w, u64 units, u64 al) {
    std::vector<char> f = usable;
    for (size_t i = 0; i < f.size(); i++) if (busy0[i]) f[i] = 0;
    u64 sum = 0, c = w.during.size();
    for (u64 u : w.during) sum += u;
    for (u64 wd = 0; wd < nwords; wd++) {
      if (al <= 1) {
        for (int i = 0; i < 64;) {
          int j = i; while (j < 64 && f[wd * 64 + j]) j++;
          u64 run = j - i;
          if (run > sum && (run - sum) >= units * (c + 1)) return true;
          i = j + 1;
        }
      } else {
        // aligned places that are free; each other allocation spoils those it may touch
        u64 places = 0;
        u64 last_end = 0;
        for (u64 i = 0; i + units <= 64; i += al) {
          if (i < last_end) continue;      // count disjoint places only
          bool ok = true;
          for (u64 k = 0; k < units; k++) if (!f[wd * 64 + i + k]) ok = false;
          if (ok) { places++; last_end = i + units; }
        }
        u64 spoil = 0;
        for (u64 u : w.during) spoil += u / std::max<u64>(1, std::min(al, units)) + 2;
        if (places > spoil) return true;
      }
    }
    return false;
  }
  std::vector<char> busy() {
    std::vector<char> b(nwords * 64, 0);
    for (auto &x : blk) if (x.live) for (u64 k = 0; k < x.units; k++) b[(x.a - (u64)h) / unit + k] = 1;
    return b;
  }
  void begin_alloc(u64 units, u64 &me) {
    me = next_call++;
    Watch w; for (auto &kv : pend) w.during.push_back(kv.second.units);
    for (auto &kv : watch) kv.second.during.push_back(units);
    pend[me] = {units, true}; watch[me] = w; changes++;
  }
  Watch end_alloc(u64 me) { Watch w = watch[me]; watch.erase(me); pend.erase(me); changes++; return w; }
  void got(int th, u64 a, u64 sz, u64 al) {
    u64 un = nunits(sz);
    if (a < (u64)h || a + un * unit > (u64)h + bs) fail("place", "allocation %llx of %llu bytes is outside the heap", (unsigned long long)a, (unsigned long long)sz);
    if (a % al) fail("alignment", "allocation %llx is not aligned to %llu", (unsigned long long)a, (unsigned long long)al);
    u64 u0 = (a - (u64)h) / unit;
    for (u64 k = 0; k < un; k++) if (!usable[u0 + k]) fail("header", "allocation %llx overlaps the heap's own data", (unsigned long long)a);
    if (u0 >= 64) probe(5);
    int o = iv.overlap(a, a + un * unit);
    if (o != -1) fail("overlap", "allocation %llx of %llu bytes overlaps live allocation %d", (unsigned long long)a, (unsigned long long)sz, o);
    iv.add(a, a + un * unit, (int)next_id);
    blk.push_back({a, sz, un, next_id++, th, true});
    Blk &b = blk.back();
    mine[th].push_back((int)blk.size() - 1);
    stamp_write((void *)a, sz, b.id);
    note(a - (u64)h);
  }
  int take_live(int th, long sel, bool any) {
    std::vector<int> c;
    if (any) { for (size_t i = 0; i < blk.size(); i++) if (blk[i].live && blk[i].owner >= 0) c.push_back((int)i); }
    else for (int i : mine[th]) if (blk[i].live && blk[i].owner >= 0) c.push_back(i);
    if (c.empty()) return -1;
    return c[sel % c.size()];
  }
  void release(int th, int i, int how) {
    Blk &b = blk[i];
    if (b.owner != th) probe(2);
    b.owner = -1;                          // being released: nobody else takes it
    long bad = stamp_check((void *)b.a, b.sz, b.id);
    if (bad >= 0) fail("contents", "allocation %llu changed at offset %ld", (unsigned long long)b.id, bad);
    b.live = false; iv.del(b.a); changes++;
    // while the call runs the units may or may not be free
    u64 me; begin_alloc_free(b, me);
    int rc = 0;
    void *q = (void *)b.a;
    switch (how) {
    case 0: rc = A->SPHLockFreeHeapFree(h, q); break;
    case 1: rc = A->SPHLockFreeHeapFreeNear(q); break;
    case 2: rc = A->SPHLockFreeHeapFreeIn(h, q); break;
    case 3: rc = A->SPHLockFreeHeapFreeChk(h, q, b.sz); break;
    case 4: rc = A->SPHLockFreeHeapFreeNearChk(q, b.sz); break;
    }
    freeing.erase(me); changes++;
    if (rc) fail("free", "releasing live allocation %llu of %llu bytes failed with %d (entry point %d)", (unsigned long long)b.id, (unsigned long long)b.sz, rc, how);
  }
  std::map<u64, Blk> freeing;
  void begin_alloc_free(Blk &b, u64 &me) { me = next_call++; freeing[me] = b; }
  void op(int th, int, const Op &o) override {
    if (!h) return;
    switch (o.k) {
    case ALLOC: case ALIGN: case NEAR: {
      u64 sz = (u64)o.a, al = o.k == ALIGN ? (u64)o.b : unit, me;
      int i = -1;
      if (o.k == NEAR) { i = take_live(th, o.b, false); if (i < 0) return; }
      auto b0 = busy();
      for (auto &kv : freeing) for (u64 k = 0; k < kv.second.units; k++) b0[(kv.second.a - (u64)h) / unit + k] = 1;
      begin_alloc(nunits(sz), me);
      u64 a = o.k == ALLOC ? (u64)A->SPHLockFreeHeapAlloc(h, sz) : o.k == ALIGN ? (u64)A->SPHLockFreeHeapAlignAlloc(h, sz, al)
            : (u64)A->SPHLockFreeHeapNearAlloc((void *)blk[i].a, (long)sz);
      Watch w = end_alloc(me);
      note(a != 0);
      if (sz > 31 * unit) probe(3);
      if (al > unit) probe(1);
      if (!a) {
        probe(0);
        // judged unless the alignment is more than one word spans
        if (al <= 64 * unit && must_fit(b0, w, nunits(sz), al > unit ? al / unit : 1))
          fail("refused", "a request for %llu bytes (alignment %llu) was refused although %s", (unsigned long long)sz, (unsigned long long)al, w.during.empty() ? "there is room" : "there was room throughout");
        return;
      }
      got(th, a, sz, std::max(al, unit));
      return;
    }
    case FREE: { int i = take_live(th, o.a, o.c == 0); if (i >= 0) release(th, i, (int)o.b); return; }
    case BADCHK: {
      int i = take_live(th, o.a, false); if (i < 0) return;
      u64 sz = o.b * unit; if (nunits(sz) == blk[i].units) return;
      int own = blk[i].owner; blk[i].owner = -1;
      u64 fs = 0; long c0 = changes; bool quiet = pend.empty() && freeing.empty();
      if (quiet) fs = A->SPHLockFreeHeapFreeSpace(h);
      int rc = (o.a & 1) ? A->SPHLockFreeHeapFreeChk(h, (void *)blk[i].a, sz) : A->SPHLockFreeHeapFreeNearChk((void *)blk[i].a, sz);
      if (!rc) fail("wrong-size", "an allocation of %llu units was released by a call that named %ld units", (unsigned long long)blk[i].units, o.b);
      if (quiet && A->SPHLockFreeHeapFreeSpace(h) != fs && c0 == changes) fail("wrong-size", "a refused release changed the free space");
      blk[i].owner = own;
      return;
    }
    case FIND: {
      int i = take_live(th, o.a, false); if (i < 0) return;
      int own = blk[i].owner; blk[i].owner = -1;
      void *f = A->SPHLockFreeHeapNearFind((void *)(blk[i].a + (o.b * 8) % blk[i].sz));
      if (f != h) fail("near-find", "the heap of a live allocation was reported as %p instead of %p", f, h);
      blk[i].owner = own;
      return;
    }
    case TOOBIG: {
      long c0 = changes; bool quiet = pend.empty() && freeing.empty();
      u64 fs = A->SPHLockFreeHeapFreeSpace(h);
      quiet = quiet && pend.empty() && freeing.empty() && c0 == changes;
      u64 a = (o.b & 1) ? (u64)A->SPHLockFreeHeapAlloc(h, (65 + o.b) * unit) : (u64)A->SPHLockFreeHeapAlignAlloc(h, (65 + o.b) * unit, unit * 2);
      if (a) fail("too-big", "a request for %ld units was granted", 65 + o.b);
      if (quiet && A->SPHLockFreeHeapFreeSpace(h) != fs && c0 == changes) fail("too-big", "a refused request changed the free space");
      return;
    }
    case ASK: {
      long c0 = changes; bool quiet = pend.empty() && freeing.empty();
      u64 held = 0; for (auto &b : blk) if (b.live) held += b.units;
      if (o.a == 0) {
        u64 fs = A->SPHLockFreeHeapFreeSpace(h);
        if (quiet && c0 == changes && fs != cap0 - held * unit) fail("free-space", "%llu bytes free reported with %llu of %llu units held", (unsigned long long)fs, (unsigned long long)held, (unsigned long long)cap0 / unit);
        if (fs > cap0) fail("free-space", "more than the capacity is reported free");
      } else if (o.a == 1) {
        int e = A->SPHLockFreeHeapEmpty(h);
        if (quiet && c0 == changes && !e != !(held == 0)) fail("empty", "Empty is %d with %llu units held", e, (unsigned long long)held);
      } else {
        int f = A->SPHLockFreeHeapFull(h);
        if (quiet && c0 == changes && !f != !(held * unit == cap0)) fail("full", "Full is %d with %llu units held", f, (unsigned long long)held);
      }
      return;
    }
    case PAUSE: for (long i = 0; i < o.a; i++) sim_yield(); return;
    }
  }
  void finish(Prog &p) override {
    if (!h) return;
    proc_switch(0);
    u64 held = 0;
    for (auto &b : blk) if (b.live) {
      held += b.units;
      long bad = stamp_check((void *)b.a, b.sz, b.id);
      if (bad >= 0) fail("contents", "allocation %llu changed at offset %ld", (unsigned long long)b.id, bad);
    }
    if (A->SPHLockFreeHeapFreeSpace(h) != cap0 - held * unit) fail("free-space", "%llu bytes free reported with %llu of %llu units held", (unsigned long long)A->SPHLockFreeHeapFreeSpace(h), (unsigned long long)held, (unsigned long long)cap0 / unit);
    for (auto &b : blk) if (b.live) {
      b.live = false;
      if (A->SPHLockFreeHeapFree(h, (void *)b.a)) fail("free", "releasing live allocation %llu failed", (unsigned long long)b.id);
      if (!A->SPHLockFreeHeapFree(h, (void *)b.a)) fail("double-free", "an allocation was released twice");
    }
    drain_and_refill("emptied");
    if (p.cfg[3] && A->SPHLockFreeHeapDestroy(h)) fail("destroy", "destroying the heap failed");
  }
};
static C18 c; static Reg reg(&c);
