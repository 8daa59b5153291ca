// The shared-block workload: used by C01 and C02.
#pragma once
#include "common.h"

struct Lst { std::vector<std::pair<u64, u64>> v; };
enum { L_USED, L_FREE, L_UNC, L_REGION, L_ALLOC };
static inline Lst get_list(int which) {
  static void *addr[16384]; static unsigned long size[16384];
  // separate buffers per call: several fibers may be listing
  std::vector<void *> av(4096); std::vector<unsigned long> sv(4096);
  (void)addr; (void)size;
  int n = 0;
  switch (which) {
  case L_USED: A->SASListInUseMem(av.data(), sv.data(), &n); break;
  case L_FREE: A->SASListFreeMem(av.data(), sv.data(), &n); break;
  case L_UNC: A->SASListUncommittedMem(av.data(), sv.data(), &n); break;
  case L_REGION: A->SASListFreeRegion(av.data(), sv.data(), &n); break;
  case L_ALLOC: A->SASListAllocatedRegion(av.data(), sv.data(), &n); break;
  }
  Lst l;
  for (int i = 0; i < n; i++) l.v.push_back({(u64)av[i], (u64)sv[i]});
  return l;
}
static const char *list_names[] = {"in-use", "free", "uncommitted", "free-region", "allocated-region"};

// merged union of intervals; fails on overlap inside the list
static inline std::vector<std::pair<u64, u64>> merge(std::vector<std::pair<u64, u64>> v, const char *what) {
  std::vector<std::pair<u64, u64>> iv;
  for (auto &p : v) iv.push_back({p.first, p.first + p.second});
  std::sort(iv.begin(), iv.end());
  std::vector<std::pair<u64, u64>> out;
  for (auto &p : iv) {
    if (!out.empty() && p.first < out.back().second)
      fail("list-overlap", "%s list: entry at %llx overlaps the one before it", what, (unsigned long long)p.first);
    if (!out.empty() && p.first == out.back().second) out.back().second = p.second;
    else out.push_back(p);
  }
  return out;
}
static inline void check_entries(const Lst &l, int which) {
  for (auto &p : l.v) {
    if (p.first < R_LOW || p.second == 0 || p.first + p.second > R_LOW + R_SIZE)
      fail("list-range", "%s list has an entry %llx+%llx outside the region", list_names[which], (unsigned long long)p.first, (unsigned long long)p.second);
    if ((p.first - R_LOW) % p.second)
      fail("list-align", "%s list has a misaligned entry %llx+%llx", list_names[which], (unsigned long long)p.first, (unsigned long long)p.second);
  }
}
typedef std::vector<std::pair<u64, u64>> IV;   // disjoint sorted [a,b)
static inline std::string iv_str(const IV &v) {
  std::string s; char b[64]; int n = 0;
  for (auto &p : v) { if (n++ > 12) { s += " ..."; break; } snprintf(b, sizeof b, " %llx+%llx", (unsigned long long)(p.first - R_LOW), (unsigned long long)(p.second - p.first)); s += b; }
  return s;
}

struct BlockCheck : Check {
  enum { ALLOC, FREE, VERIFY, LIST, TOOBIG, ANCHORFS };
  struct Blk { u64 a, sz; u64 id; bool busy; int proc = -1; };
  std::set<u64> freed_at;
  std::vector<Blk> live;          // blocks handed out and not being released
  Intervals iv;
  u64 next_id = 1;
  bool acct;                      // C02
  long entry_cost = 0; long acct_const = 0;
  std::vector<std::pair<u64, u64>> peak; u64 peak_bytes = 0;
  u64 live_bytes = 0, gen_no = 0;
  u64 ev_freed = 0;               // stamp of the last release start
  BlockCheck(const char *id, bool acct_) : Check(id), acct(acct_) {
    opnames = {"alloc", "free", "verify", "list", "alloc_too_big", "anchor_free_space"};
    probe_names = {"grew_store", "split_16th_segment_or_later", "freed_by_other_process", "address_reused", "linear_use_list", "concurrent_list", "coalesced_whole_segment"};
    real = {"sassim.cpp", "ultree.cpp", "freenode.c", "sasalloc.cpp", "sasstname.c"};
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)(r.chance(1, 2) ? 1 : r.range(2, 3));
    int mode = (int)r.below(5);
    int nth = (int)r.range(mode == 4 ? 1 : 2, 4);
    p.cfg = {mode, r.chance(1, 4) ? 1L : 0L, r.chance(1, 3) ? (long)r.range(1, 18) : 0L, (long)(r.next() & 0xffffffff), (long)r.below(4)};
    int total = (int)r.range(6, mode == 4 ? 60 : 36);
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int freeweight = (int)r.range(2, 6);
      for (int i = 0; i < total / nth + 1; i++) {
        Op o{0, 0, 0, 0, 0};
        int q = (int)r.below(12);
        if (q < 6) {
          o.k = ALLOC;
          long lo = 0, hi = 16;
          if (mode == 0) { lo = 0; hi = 3; } else if (mode == 1) { lo = 0; hi = 8; } else if (mode == 2) { lo = 13; hi = 16; }
          long l = r.range(lo, hi);
          if (mode >= 3 && r.chance(2, 3)) l = r.range(0, 5);
          o.a = 0x1000L << l;
          if (l == 0 && r.chance(1, 8)) o.a = 0x100L << r.below(4);
        } else if (q < 6 + freeweight) { o.k = FREE; o.a = (long)r.below(1000); }
        else if (q < 10) { o.k = VERIFY; o.a = (long)r.below(1000); }
        else if (q < 11 || !acct) { o.k = r.chance(1, 8) ? TOOBIG : acct ? LIST : VERIFY; o.a = o.k == TOOBIG ? (long)(R_SEG << r.range(1, 8)) : (long)r.below(5); }
        else o.k = ANCHORFS;
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
  }
  u64 words(u64 sz) { return sz < 256 ? sz : sz; }
  void handed(u64 a, u64 sz, u64 req) {
    if (!a) fail("refused", "a request for %llu bytes was refused although space was available", (unsigned long long)req);
    if (a < R_LOW || a + sz > R_LOW + R_SIZE) fail("outside", "block %llx+%llx is outside the region", (unsigned long long)a, (unsigned long long)sz);
    if ((a - R_LOW) % sz) fail("misaligned", "block %llx of size %llx is misaligned", (unsigned long long)a, (unsigned long long)sz);
    if (a < R_LOW + ANCHOR) fail("anchor-overlap", "block %llx overlaps the region's bookkeeping", (unsigned long long)a);
    int o = iv.overlap(a, a + sz);
    if (o != -1) fail("overlap", "block %llx+%llx overlaps live block %d", (unsigned long long)a, (unsigned long long)sz, o);
    Blk b{a, sz, next_id++, true, in_fiber() ? fiber_proc(cur_fiber()) : -1};
    if (freed_at.count(a)) probe(3);
      // busy until stamped: the first touch may attach a segment
    iv.add(a, a + sz, (int)b.id);
    live.push_back(b); live_bytes += sz;
    if (live_bytes > peak_bytes) { peak_bytes = live_bytes; peak.clear(); for (auto &x : live) peak.push_back({x.a, x.sz}); }
    stamp_write((void *)a, sz, b.id);
    for (auto &x : live) if (x.id == b.id) x.busy = false;
    note(a);
  }
  u64 do_alloc(u64 req) {
    u64 a = (u64)A->SASBlockAlloc(req);
    handed(a, req, req);
    return a;
  }
  int find_live(long k) {
    if (live.empty()) return -1;
    for (size_t i = 0; i < live.size(); i++) { size_t j = (k + i) % live.size(); if (!live[j].busy) return (int)j; }
    return -1;
  }
  void check_intact(const Blk &b, const char *when) {
    long bad = stamp_check((void *)b.a, b.sz, b.id);
    if (bad >= 0) fail("contents-lost", "block %llx+%llx changed at offset %lx (%s)", (unsigned long long)b.a, (unsigned long long)b.sz, bad, when);
  }
  Blk take(int j) { Blk b = live[j]; live.erase(live.begin() + j); return b; }
  void do_free(int j) {
    live[j].busy = true;
    Blk b = live[j];
    check_intact(b, "at release");
    for (size_t k = 0; k < live.size(); k++) if (live[k].id == b.id) { live.erase(live.begin() + k); break; }
    iv.del(b.a); live_bytes -= b.sz; freed_at.insert(b.a);
    if (in_fiber() && b.proc >= 0 && b.proc != fiber_proc(cur_fiber())) probe(2);
    ev_freed = tick_event();
    A->SASBlockDealloc((void *)b.a, b.sz);
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    if (p.cfg[1]) { A->setSASLinearUseList(); probe(4); }
    if (acct) calibrate();
    Rng r((u64)p.cfg[3]);
    // grow the store first; keep or release what was taken
    int grown = 0;
    for (int i = 0; i < p.cfg[2]; i++) { do_alloc(i == 0 && p.cfg[2] == 1 ? 0x8000000 : R_SEG); grown++; }
    if (p.cfg[2]) {
      if (p.cfg[4] == 1) while (!live.empty()) do_free((int)r.below(live.size()));
      else if (p.cfg[4] == 2) for (int i = (int)live.size() / 2; i > 0; i--) do_free((int)r.below(live.size()));
      else if (p.cfg[4] == 3) { do_free((int)live.size() - 1); }
    }
    if (acct) quiescent("after setup");
  }
  size_t nentries() { size_t n = 0; for (int i = 0; i < 5; i++) n += get_list(i).v.size(); return n; }
  void calibrate() {
    // bookkeeping cost of one list entry, from a change in the number of entries
    size_t n0 = nentries(); long f0 = A->SASAnchorFreeSpace();
    void *x = A->SASBlockAlloc(0x100000);
    void *y = A->SASBlockAlloc(0x4000);
    if (!x || !y) fail("refused", "a first small request was refused");
    size_t n1 = nentries(); long f1 = A->SASAnchorFreeSpace();
    if (n1 != n0) { entry_cost = (f0 - f1) / ((long)n1 - (long)n0); acct_const = f1 + entry_cost * (long)n1; }
    A->SASBlockDealloc(x, 0x100000);
    A->SASBlockDealloc(y, 0x4000);
  }
  // exact partition of the store's space at a quiescent moment
  void quiescent(const char *when) {
    Lst l[5]; IV m[5];
    for (int i = 0; i < 5; i++) { l[i] = get_list(i); check_entries(l[i], i); m[i] = merge(l[i].v, list_names[i]); }
    std::vector<std::pair<u64, u64>> want = {{R_LOW, ANCHOR}};
    for (auto &b : live) want.push_back({b.a, b.sz < 4096 ? 4096 : b.sz});
    IV w = merge(want, "model");
    if (w != m[L_USED]) fail("in-use-wrong", "%s: in-use list covers%s but live blocks and anchor are%s", when, iv_str(m[L_USED]).c_str(), iv_str(w).c_str());
    std::vector<std::pair<u64, u64>> all;
    for (int i = 0; i < 3; i++) all.insert(all.end(), l[i].v.begin(), l[i].v.end());
    IV part = merge(all, "in-use+free+uncommitted");
    if (part != m[L_ALLOC]) fail("not-partition", "%s: in-use, free and uncommitted cover%s but the segments are%s", when, iv_str(part).c_str(), iv_str(m[L_ALLOC]).c_str());
    all = l[L_REGION].v; all.insert(all.end(), l[L_ALLOC].v.begin(), l[L_ALLOC].v.end());
    part = merge(all, "region");
    IV whole = {{R_LOW, R_LOW + R_SIZE}};
    if (part != whole) fail("region-lost", "%s: free and allocated region space do not make up the region:%s", when, iv_str(part).c_str());
    if ((u64)os_file_count() != l[L_ALLOC].v.size()) fail("files", "%s: %d store files for %zu segments", when, os_file_count(), l[L_ALLOC].v.size());
    // buddies that are both free must have been joined
    std::set<std::pair<u64, u64>> fr(l[L_FREE].v.begin(), l[L_FREE].v.end());
    for (auto &f : fr) {
      if (f.second >= R_SEG) probe(6);
      u64 bud = R_LOW + ((f.first - R_LOW) ^ f.second);
      if (f.second < R_SEG && fr.count({bud, f.second})) fail("not-joined", "%s: free blocks %llx and %llx of size %llx are buddies but were not joined", when, (unsigned long long)f.first, (unsigned long long)bud, (unsigned long long)f.second);
    }
    if (entry_cost > 0) {
      long f = A->SASAnchorFreeSpace();
      size_t n = 0; for (int i = 0; i < 5; i++) n += l[i].v.size();
      if (f + entry_cost * (long)n != acct_const)
        fail("bookkeeping-leak", "%s: anchor free space %ld with %zu list entries; expected %ld", when, f, n, acct_const - entry_cost * (long)n);
    }
  }
  void op(int th, int, const Op &o) override {
    switch (o.k) {
    case ALLOC: {
      size_t before = 0; (void)before;
      int f0 = os_file_count();
      u64 a = do_alloc((u64)o.a);
      if (os_file_count() > f0) probe(0);
      if ((a - R_LOW) / R_SEG >= 16 && o.a < (long)R_SEG) probe(1);
      logf_("alloc %lx -> %llx", o.a, (unsigned long long)a);
      return;
    }
    case FREE: { int j = find_live(o.a); if (j < 0) return; logf_("free %llx+%llx", (unsigned long long)live[j].a, (unsigned long long)live[j].sz); do_free(j); return; }
    case VERIFY: {
      int j = find_live(o.a); if (j < 0) return;
      u64 id = live[j].id; live[j].busy = true; Blk b = live[j];
      check_intact(b, "while live");
      stamp_write((void *)b.a, b.sz, b.id);
      for (auto &x : live) if (x.id == id) x.busy = false;
      return;
    }
    case TOOBIG: { void *x = A->SASBlockAlloc((u64)o.a); if (x) fail("too-big", "a request larger than a segment (%lx) was granted at %p", o.a, x); return; }
    case ANCHORFS: { unsigned v = A->SASAnchorFreeSpace(); if (v > ANCHOR) fail("anchor-space", "free space of the anchor reported as %u", v); return; }
    case LIST: {
      std::vector<Blk> before; for (auto &b : live) before.push_back(b);
      Lst l = get_list((int)o.a);
      check_entries(l, (int)o.a);
      IV m = merge(l.v, list_names[o.a]);
      probe(5);
      // blocks live during the whole call
      std::set<u64> now; for (auto &b : live) now.insert(b.id);
      for (auto &b : before) {
        if (!now.count(b.id)) continue;
        bool inside = false, touches = false;
        for (auto &x : m) { if (x.first <= b.a && b.a + b.sz <= x.second) inside = true; if (x.first < b.a + b.sz && b.a < x.second) touches = true; }
        if ((o.a == L_USED || o.a == L_ALLOC) && !inside) fail("live-not-listed", "live block %llx+%llx is missing from the %s list", (unsigned long long)b.a, (unsigned long long)b.sz, list_names[o.a]);
        if ((o.a == L_FREE || o.a == L_UNC || o.a == L_REGION) && touches) fail("live-listed-free", "live block %llx+%llx is in the %s list", (unsigned long long)b.a, (unsigned long long)b.sz, list_names[o.a]);
      }
      return;
    }
    }
  }
  void finish(Prog &p) override {
    for (auto &b : live) b.busy = false;
    for (auto &b : live) check_intact(b, "at the end");
    if (!acct) return;
    quiescent("at the end");
    // depth reports agree with the lists
    Rng r((u64)p.cfg[3] ^ 77);
    while (!live.empty()) { proc_switch((int)r.below(p.nprocs)); do_free((int)r.below(live.size())); }
    proc_switch(0);
    quiescent("after releasing everything");
    size_t segs = get_list(L_ALLOC).v.size();
    // what was live at the peak fits again, largest first, without growing
    std::sort(peak.begin(), peak.end(), [](auto &x, auto &y) { return x.second > y.second || (x.second == y.second && x.first < y.first); });
    auto want = peak;
    for (auto &b : want) { proc_switch((int)r.below(p.nprocs)); do_alloc(b.second); }
    if (get_list(L_ALLOC).v.size() != segs) fail("grew", "re-requesting what was live before made the store grow from %zu to %zu segments", segs, get_list(L_ALLOC).v.size());
    quiescent("after re-requesting");
    while (!live.empty()) { proc_switch((int)r.below(p.nprocs)); do_free((int)r.below(live.size())); }
    proc_switch(0);
    quiescent("after releasing again");
  }
};
