// Ordered maps: string trees (C09, C10) and indexes (C11, C12).
#pragma once
#include "blocks.h"
#include <deque>
#include <memory>

static inline bool linearizable_(const std::vector<LinOp> &h, long st, const LinApply &ap, std::set<long> *f, bool *gave) { return linearizable(h, st, ap, f, gave); }

struct MapCheck : Check {
  enum { PUT, REPLACE, GET, CONTAINS, REMOVE, QUERY, BULK, HOLD, REMMIN, WALK, REST, PAGES };
  enum { SEEN = 20 };
  static const long NULLV = 1;                    // "present with a null value"
  struct KeyState {
    std::vector<long> st{0}; std::vector<LinOp> batch;
    int inflight = 0; u64 sure = 0; bool listed = false;
  };
  std::vector<KeyState> ks; int n = 0;            // the universe, in model order
  std::set<int> present; long nambig = 0;         // keys surely/possibly there
  std::vector<int> pending;                       // keys with unresolved operations
  long changed = 0, asked = 0; int modifiers = 0, nexts = 0, keyops = 0; u64 ver = 0; long serial = 0;
  bool walkcheck; int regime = 0; u64 other = 0; bool expanding = true, nulls = false, shkeys = false; long total_put = 0;
  void *tree = nullptr; u64 used0 = 0, size = 0, page = 4096; int how = 0;
  std::vector<u64> shbuf; std::vector<std::vector<char>> priv;
  MapCheck(const char *id, bool w) : Check(id), walkcheck(w) {
    opnames = {"put", "replace", "get", "contains", "remove", "query", "bulk", "hold", "remove-min", "walk", "rest", "pages"};
    probe_names = {"refused_present_key", "refused_no_room", "removed", "removed_absent", "query_judged", "emptied", "three_levels", "held_lock", "nolock_other_lock", "walk_static", "walk_with_changes", "walk_start_at", "walk_removed_current", "walk_of_1000", "rejoined", "refilled_after_emptying", "dirty_storage", "concurrent_on_one_key", "null_value", "fixed_tree", "key_over_400_bytes", "key_too_long_refused", "grew", "recycled", "walk_begin_moved", "ordered_search", "nodes_in_order", "node_page", "node_page_near", "node_pages_judged"};
    quick_runs = walkcheck ? 12000 : 16000;
    max_steps = 200000000; idle_budget = 20000000;
  }
  // ---- the container
  virtual void universe(Rng &r, Prog &p) = 0;               // fills n and the keys, ascending
  virtual const void *key(int k, std::vector<char> &buf) = 0; // a copy
  virtual size_t keylen(int k) = 0;
  virtual std::string kname(int k) = 0;
  virtual bool mayrefuse(int k) { return false; }
  virtual int keyof(const void *p) = 0;                     // -1: not in the universe
  virtual void *m_create(int how, u64 size, u64 page) = 0;
  virtual void m_destroy() = 0;
  virtual int m_put(bool nl, const void *k, void *v) = 0;
  virtual void *m_replace(bool nl, const void *k, void *v) = 0;
  virtual void *m_get(bool nl, const void *k) = 0;
  virtual int m_contains(bool nl, const void *k) = 0;
  virtual void *m_remove(bool nl, const void *k) = 0;
  virtual const void *m_min(bool nl) = 0;
  virtual const void *m_max(bool nl) = 0;
  virtual int m_empty(bool nl) = 0;
  virtual long m_count() { return -1; }                     // -1: has none
  virtual u64 m_freespace() = 0;
  virtual long m_mods(bool nl) = 0;                         // changes made, from 1
  enum { EQ, GE, GT, LE, LT, NSEARCH };
  virtual void *m_root(bool nl) = 0;
  virtual bool m_search(void *root, int kind, const void *k, const void *&fk, void *&fv) = 0;
  virtual int m_node(void *node, int i, void *&branch, const void *&k, void *&v) = 0;   // gives the number of keys
  virtual void *e_create() = 0;
  virtual long e_count(void *) { return -1; }
  virtual void *e_start(int k, int variant, int &lb) { return nullptr; }   // lb: first key the walk owes
  virtual bool has_start() { return false; }
  virtual bool has_pages() { return false; }                // the caller may take node pages of the tree
  virtual void pages(int th, const Op &o) {}
  virtual void pages_check(bool drop) {}
  virtual int e_more(void *e) = 0;
  virtual void *e_next(bool nl, void *e) = 0;
  virtual const void *e_cur(void *e) { return nullptr; }
  virtual void e_destroy(void *e) = 0;

  // ---- generation
  virtual void gen_universe(Rng &r, Prog &p) = 0;           // pushes its cfg (from index 16)
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(std::max(2, p.nprocs), 4);
    int sz = (int)r.below(20);
    long un = sz < 5 ? r.range(1, 12) : sz < 12 ? r.range(12, 200) : sz < 18 ? r.range(200, 900) : sz < 19 || r.chance(1, 3) ? r.range(900, 3000) : r.range(4500, 7000);
    long lh = r.range(14, 18), lp = 12;
    if (un > 300) lh = r.range(16, 20);
    int hw = (int)r.below(8); hw = hw < 3 ? 0 : hw < 4 ? 1 : hw < 5 ? 2 : hw < 7 ? 3 : 4;
    if (hw == 1 || hw > 2) lp = r.chance(1, 4) ? 11 : 12;
    long pre = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 100 : r.range(10, 95);   // percent of the universe
    p.cfg = {un, (long)r.below(8), (long)(r.next() & 0x7fffffff), hw, lh, lp, r.chance(1, 3) ? r.range(1, 2) : 0L, pre, (long)r.below(4), r.chance(1, 3) ? 1L : 0L, r.chance(1, 4) ? 1L : 0L, !walkcheck && r.chance(1, 6) ? 1L : 0L, r.chance(1, 4) ? 1L : 0L, r.chance(1, 3) ? 1L : 0L, r.chance(1, 2) ? 1L : 0L, 0};
    if ((hw == 2 || hw == 4) && r.chance(1, 2)) p.cfg[13] = p.cfg[14] = 1;
    gen_universe(r, p);
    int hot = (int)r.range(1, 8);
    bool pg = has_pages() && r.chance(1, 3); int pgn = (int)r.range(1, 3);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int cnt = (int)r.range(2, un > 900 ? 8 : 24);
      for (int i = 0; i < cnt; i++) {
        Op o{0, 0, (long)r.below(1000), (long)r.below(1000), (long)r.below(1000000)};
        o.a = r.chance(1, 2) ? (long)r.below(hot) * 7 % un : (long)r.below(un);
        int q = (int)r.below(32);
        if (walkcheck && t == 0) q = r.chance(1, 2) ? 30 : q;
        if (q < 7) o.k = PUT; else if (q < 9) o.k = REPLACE; else if (q < 13) o.k = GET; else if (q < 15) o.k = CONTAINS;
        else if (q < 21) o.k = REMOVE; else if (q < 23) o.k = QUERY; else if (q < 26) o.k = BULK; else if (q < 28) o.k = HOLD;
        else if (q < 29) o.k = REMMIN; else if (q < 31) o.k = walkcheck || r.chance(1, 4) ? WALK : QUERY; else { o.k = REST; o.b = r.range(1, 10); }
        if (pg && (int)r.below(4) < pgn) o.k = PAGES;
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 400), r.range(5, 3000), 0});
    if (r.chance(1, 8)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  // ---- model
  static long rv(long s) { return s == NULLV ? 0 : s; }
  long newval(int k) { if (nulls && serial % 5 == 3) { serial++; probe(18); return NULLV; } return ((long)(k + 2) << 24) | (++serial & 0xffffff); }
  static int val_key(long v) { return (int)(v >> 24) - 2; }
  static bool apply(long st, const LinOp &o, long &ns) {
    ns = st;
    switch (o.kind) {
      case PUT: if (o.ret) { if (st) return false; ns = o.arg; return true; } return st != 0 || o.arg2;
      case REPLACE: if (o.ret != rv(st)) return false; if (st) ns = o.arg; return true;
      case GET: return o.ret == rv(st);
      case CONTAINS: return (o.ret != 0) == (st != 0);
      case REMOVE: if (o.ret != rv(st)) return false; ns = 0; return true;
      case SEEN: return st && o.ret == rv(st);
    }
    return false;
  }
  std::string opstr(const LinOp &o) {
    char b[120]; const char *nm = o.kind == SEEN ? "walked" : opnames[o.kind];
    snprintf(b, sizeof b, " %s(%lx)=%lx@%llu-%llu", nm, o.arg, o.ret, (unsigned long long)o.inv, (unsigned long long)o.res);
    return b;
  }
  void resolve(int k) {
    KeyState &s = ks[k];
    std::vector<long> nst;
    if (s.batch.size() == 1) {
      for (long x : s.st) { long y; if (apply(x, s.batch[0], y)) nst.push_back(y); }
    } else {
      std::set<long> fin;
      for (long x : s.st) { bool gave; std::set<long> f; if (linearizable(s.batch, x, apply, &f, &gave)) { if (gave) sim_error("history too long to decide"); for (long y : f) fin.insert(y); } }
      nst.assign(fin.begin(), fin.end());
    }
    if (nst.empty()) {
      std::string d; char b[40]; for (long x : s.st) { snprintf(b, sizeof b, " %lx", x); d += b; }
      std::string l; for (auto &o : s.batch) { l += opstr(o); if (l.size() > 900) { l += " ..."; break; } }
      fail("wrong-result", "key %d %s: stored value was%s (0: absent); then%s", k, kname(k).c_str(), d.c_str(), l.c_str());
    }
    std::sort(nst.begin(), nst.end()); nst.erase(std::unique(nst.begin(), nst.end()), nst.end());
    nambig += (nst.size() != 1) - (s.st.size() != 1);
    bool was = s.st.size() == 1 && s.st[0], is = nst.size() == 1 && nst[0];
    if (was != is) { if (is) present.insert(k); else present.erase(k); }
    s.st = nst; s.batch.clear();
    bool all = true; for (long x : nst) if (!x) all = false;
    if (!all) s.sure = 0; else if (!s.sure) s.sure = tick_event();
  }
  void settle() {
    if (nexts) return;
    size_t j = 0;
    for (size_t i = 0; i < pending.size(); i++) {
      int k = pending[i];
      if (ks[k].inflight) { pending[j++] = k; continue; }
      ks[k].listed = false; if (!ks[k].batch.empty()) resolve(k);
    }
    pending.resize(j);
  }
  u64 begin(int k, int kind) {
    KeyState &s = ks[k];
    if (s.inflight) probe(17);
    s.inflight++; keyops++;
    if (kind == REMOVE) s.sure = 0;
    if (kind == PUT || kind == REPLACE || kind == REMOVE) { modifiers++; ver++; }
    if (!s.listed) { s.listed = true; pending.push_back(k); }
    return tick_event();
  }
  void end(int k, int kind, u64 inv, long arg, long ret, long arg2 = 0) {
    KeyState &s = ks[k];
    if (kind == PUT || kind == REPLACE || kind == REMOVE) { asked++; if (ret) changed++; }
    note(hash2((u64)k * 31 + kind, (u64)ret));
    s.batch.push_back({kind, arg, arg2, ret, inv, tick_event(), false});
    s.inflight--; keyops--;
    if (kind == PUT || kind == REPLACE || kind == REMOVE) { modifiers--; ver++; }
    settle();
    progress();
  }
  const void *kbuf(int th, int k) {
    std::vector<char> &b = priv[th];
    const void *p = key(k, b);
    if (shkeys && keylen(k) <= 4000) { memcpy((void *)shbuf[th], p, keylen(k)); return (void *)shbuf[th]; }
    return p;
  }
  void scribble(int th) { std::vector<char> &b = priv[th]; std::fill(b.begin(), b.end(), (char)0x41); if (shkeys) memset((void *)shbuf[th], 0x41, 4000); }
  // regime: 0 the tree locks itself, 1/2 the caller holds a lock
  bool lock(bool forced = false) {
    if (regime == 0) return false;
    A->SASLock(regime == 1 ? tree : (void *)other, SasUserLock__WRITE);
    if (regime == 2) probe(8);
    return true;
  }
  void unlock() { if (regime) A->SASUnlock(regime == 1 ? tree : (void *)other); }
  void one(int th, int k, int kind, bool nl) {
    if (k < 0 || k >= n) return;
    const void *kb = kbuf(th, k);
    long v = kind == PUT || kind == REPLACE ? newval(k) : 0;
    void *pv = (void *)rv(v);
    u64 inv = begin(k, kind);
    bool alone = modifiers == 1; u64 v0 = ver;
    long ret = 0, ok = 0;
    switch (kind) {
      case PUT:
        ret = m_put(nl, kb, pv) != 0;
        if (ret) { if (++total_put % 64 == 0) probe(22); }
        else {
          bool room = expanding;
          if (!expanding && alone && ver == v0 && regime == 0 && !nl) { u64 f = m_freespace(); if (f >= 8 * page && ver == v0) room = true; }
          ok = !room || mayrefuse(k);
        }
        break;
      case REPLACE: ret = (long)m_replace(nl, kb, pv); break;
      case GET: ret = (long)m_get(nl, kb); break;
      case CONTAINS: ret = m_contains(nl, kb) != 0; break;
      case REMOVE: ret = (long)m_remove(nl, kb); break;
    }
    scribble(th);
    if (kind == PUT && !ret) probe(ok ? 1 : 0);
    if (kind == PUT && ret && keylen(k) > 400) probe(20);
    if (kind == PUT && !ret && mayrefuse(k)) probe(21);
    if (kind == REMOVE) probe(ret ? 2 : 3);
    end(k, kind, inv, v, ret, ok);
  }
  void wrapped(int th, int k, int kind) { bool nl = lock(); one(th, k, kind, nl); if (nl) unlock(); }
  bool quiet() { return modifiers == 0 && keyops == 0 && nexts == 0 && pending.empty() && nambig == 0; }
  void query(bool nl, const char *when) {
    for (int q = 0; q < 5; q++) {
      if (!quiet()) return;
      u64 v0 = ver;
      int mi = present.empty() ? -1 : *present.begin(), ma = present.empty() ? -1 : *present.rbegin();
      long c = (long)present.size();
      if (q < 2) {
        const void *p = q ? m_max(nl) : m_min(nl);
        if (ver != v0) return;
        int want = q ? ma : mi;
        if (!p && want >= 0) fail("min-max", "%s: no %s key although %ld keys are stored", when, q ? "largest" : "smallest", c);
        if (p) { int g = keyof(p); if (g != want) fail("min-max", "%s: the %s key is reported as %s, it is %s (%ld keys)", when, q ? "largest" : "smallest", g < 0 ? "one never stored" : kname(g).c_str(), want < 0 ? "none" : kname(want).c_str(), c); }
      } else if (q == 2) {
        int e = m_empty(nl);
        if (ver != v0) return;
        if ((e != 0) != (c == 0)) fail("empty", "%s: %s although %ld keys are stored", when, e ? "reported empty" : "not reported empty", c);
      } else if (q == 4) {
        if (nulls) return;
        long m = m_mods(nl) - 1;         // whether calls that found nothing to change count is not said
        if (ver != v0) return;
        if (m < changed || m > asked) fail("changes", "%s: %ld changes are reported, %ld were made in %ld calls", when, m, changed, asked);
      } else {
        long g = m_count();
        if (ver != v0) return;
        if (g >= 0 && g != c) fail("count", "%s: %ld keys reported, %ld are stored", when, g, c);
      }
      if (c == 0) probe(5);
      probe(4);
    }
  }
  // ordered searches in the nodes, with the tree locked by the caller as documented
  static const char *sname(int s) { static const char *n[] = {"equal to", "from", "after", "up to", "before"}; return n[s]; }
  void search(int th, const Op &o) {
    if (nulls) return;
    A->SASLock(regime == 2 ? (void *)other : tree, SasUserLock__WRITE);
    if (quiet()) {
      u64 v0 = ver;
      void *root = m_root(true);
      if ((root == nullptr) != present.empty() && ver == v0) fail("search", "the tree has %s root with %zu keys stored", root ? "a" : "no", present.size());
      Rng r((u64)o.d);
      for (int i = 0; root && i < 6; i++) {
        int k = i ? (int)r.below(n) : (int)o.a % n, kind = (int)r.below(NSEARCH);
        auto lo = present.lower_bound(k), hi = present.upper_bound(k);
        int want = -1;
        switch (kind) {
          case EQ: if (lo != present.end() && *lo == k) want = k; break;
          case GE: if (lo != present.end()) want = *lo; break;
          case GT: if (hi != present.end()) want = *hi; break;
          case LE: if (hi != present.begin()) want = *std::prev(hi); break;
          case LT: if (lo != present.begin()) want = *std::prev(lo); break;
        }
        const void *kb = kbuf(th, k), *fk = nullptr; void *fv = nullptr;
        bool f = m_search(root, kind, kb, fk, fv);
        int g = f ? fk ? keyof(fk) : -2 : -1;
        scribble(th);
        if (ver != v0) break;
        if (g != want || f != (want >= 0)) fail("search", "searching %s %s found %s, stored is %s (%zu keys)", sname(kind), kname(k).c_str(), g < 0 ? f ? "a key never stored" : "nothing" : kname(g).c_str(), want < 0 ? "none" : kname(want).c_str(), present.size());
        if (f && (long)fv != ks[want].st[0]) fail("search", "searching %s %s found value %p, stored is %lx", sname(kind), kname(k).c_str(), fv, ks[want].st[0]);
        probe(25);
      }
      if (root && r.chance(1, 8) && ver == v0) {
        auto it = present.begin(); bool moved = false;
        nodes(root, it, v0, moved, 0);
        if (!moved && ver == v0) { if (it != present.end()) fail("search", "the nodes do not hold key %s", kname(*it).c_str()); probe(26); }
      }
    }
    A->SASUnlock(regime == 2 ? (void *)other : tree);
  }
  void nodes(void *nd, std::set<int>::iterator &it, u64 v0, bool &moved, int depth) {
    void *b, *v; const void *k;
    int c = m_node(nd, 0, b, k, v);
    if (depth > 20) fail("search", "the nodes are more than twenty levels deep");
    if (c < 1 || c > 1000) fail("search", "a node holds %d keys", c);
    for (int i = 0; i <= c && !moved; i++) {
      m_node(nd, i, b, k, v);
      if (ver != v0) { moved = true; return; }
      if (i) {
        int g = k ? keyof(k) : -1;
        if (it == present.end() || g != *it) fail("search", "the nodes hold %s where %s is stored", g < 0 ? "a key never stored" : kname(g).c_str(), it == present.end() ? "nothing more" : kname(*it).c_str());
        if ((long)v != ks[g].st[0]) fail("search", "the nodes hold value %p for %s, stored is %lx", v, kname(g).c_str(), ks[g].st[0]);
        ++it;
      }
      if (b) nodes(b, it, v0, moved, depth + 1);
      progress();
    }
  }
  void bulk(int th, const Op &o) {
    long cnt = 1 + o.b % 80; int kind = (int)(o.c % 4), dir = (int)(o.c / 4 % 3);
    Rng r((u64)o.d);
    for (long i = 0; i < cnt; i++) {
      long k = dir == 0 ? o.a + i : dir == 1 ? o.a - i : (long)r.below(n);
      if (k < 0 || k >= n) break;
      wrapped(th, (int)k, kind == 0 ? PUT : kind == 1 ? REMOVE : kind == 2 ? (i & 1 ? PUT : REMOVE) : (r.chance(1, 2) ? GET : REMOVE));
    }
  }
  void hold(int th, const Op &o) {
    // several operations under one lock: nobody else may interfere
    probe(7);
    void *l = regime == 2 ? (void *)other : tree;
    A->SASLock(l, SasUserLock__WRITE);
    Rng r((u64)o.d);
    int cnt = 1 + (int)(o.b % 5);
    for (int i = 0; i < cnt; i++) {
      int k = (int)((o.a + (long)r.below(4)) % n);
      long v = 0;
      int a = (int)r.below(5);
      // while the lock is held two looks at a key agree
      one(th, k, a == 0 ? REMOVE : a == 1 ? REPLACE : a == 2 ? GET : PUT, true);
      u64 i1 = begin(k, CONTAINS); const void *kb = kbuf(th, k);
      int c1 = m_contains(true, kb) != 0; int c2 = m_contains(true, kb) != 0; v = (long)m_get(true, kb);
      scribble(th);
      if (c1 != c2 || (v && !c1)) fail("lock-ignored", "key %s changed while the tree's lock was held", kname(k).c_str());
      end(k, CONTAINS, i1, 0, c1);
      if (a > 2 && !c1 && expanding && !mayrefuse(k)) fail("lock-ignored", "key %s just stored is missing while the tree's lock is held", kname(k).c_str());
    }
    if (n <= 64) {
      int mi = -1, ma = -1; long c = 0;
      for (int k = 0; k < n; k++) {
        std::vector<char> b; const void *kb = key(k, b);
        if (m_contains(true, kb)) { if (mi < 0) mi = k; ma = k; c++; }
      }
      const void *p = m_min(true), *q = m_max(true); int e = m_empty(true); long g = m_count();
      if ((p ? keyof(p) : -1) != mi || (p && mi < 0)) fail("min-max", "with the lock held the smallest key is reported as %s, it is %s", p ? (keyof(p) < 0 ? "one never stored" : kname(keyof(p)).c_str()) : "none", mi < 0 ? "none" : kname(mi).c_str());
      if ((q ? keyof(q) : -1) != ma || (q && ma < 0)) fail("min-max", "with the lock held the largest key is reported as %s, it is %s", q ? (keyof(q) < 0 ? "one never stored" : kname(keyof(q)).c_str()) : "none", ma < 0 ? "none" : kname(ma).c_str());
      if ((e != 0) != (c == 0) || (g >= 0 && g != c)) fail("count", "with the lock held %ld keys (%s) are reported, %ld are stored", g, e ? "empty" : "not empty", c);
    }
    A->SASUnlock(l);
  }
  void remmin(int th, const Op &o) {
    A->SASLock(regime == 2 ? (void *)other : tree, SasUserLock__WRITE);
    const void *p = o.b & 1 ? m_min(true) : m_max(true);
    if (p) {
      int k = keyof(p);
      if (k < 0) fail("min-max", "the %s key reported was never stored", o.b & 1 ? "smallest" : "largest");
      u64 inv = begin(k, REMOVE);
      void *v = m_remove(true, p);
      end(k, REMOVE, inv, 0, (long)v);
    }
    A->SASUnlock(regime == 2 ? (void *)other : tree);
    (void)th;
  }
  void walk(int th, const Op &o) {
    Rng r((u64)o.d);
    bool start = has_start() && o.b % 3 == 0;
    int lb = 0;
    u64 B = tick_event(); u64 v0 = ver; bool quiet0 = quiet();
    long c0 = (long)present.size();
    std::vector<std::pair<int, u64>> owed;      // keys there since before the walk
    void *e;
    int style = (int)(o.c / 4 % 6);             // 0: stop early 1: remove current 2: insert around 3: yields 4: smaller keys come and the first keys go before the first step
    int X = (int)std::min((long)n, 1 + (o.b % 2 && n <= 900 ? o.a : o.a % 140));
    if (style == 4) for (int k = 0; k < X; k++) { if (present.count(k)) wrapped(th, k, REMOVE); progress(); }
    B = tick_event(); v0 = ver; quiet0 = quiet(); c0 = (long)present.size();
    bool nl = lock();
    if (start) { e = e_start((int)o.a % n, (int)(o.c % 4), lb); probe(11); } else e = e_create();
    if (nl) unlock();
    for (int k = lb; k < n; k++) if (ks[k].sure && ks[k].sure < B) owed.push_back({k, ks[k].sure});
    bool still = quiet0 && ver == v0;
    if (!e) {
      if (!start) fail("walk-refused", "no enumeration for a tree of %ld keys", c0);
      for (auto &x : owed) if (ks[x.first].sure == x.second) fail("walk-refused", "no enumeration from a key on although %s is stored", kname(x.first).c_str());
      return;
    }
    if (still && start && owed.empty() && c0 == 0) fail("walk-start", "an enumeration starts behind the largest key");
    long calls = 0, nullrun = 0; int last = -1; bool changes = false;
    if (style == 4) {
      for (int k = 0; k < X; k++) if (r.chance(3, 4)) { wrapped(th, k, PUT); progress(); }
      bool all = r.chance(2, 3);
      for (int k = X, c = (int)r.below(40); k < n && c >= 0; k++) if (present.count(k)) { if (all || r.chance(4, 5)) wrapped(th, k, REMOVE); c--; progress(); }
      changes = true; probe(24);
    }
    long cnt0 = start ? -1 : e_count(e);
    if (cnt0 >= 0 && quiet0 && ver == v0 && cnt0 != c0) fail("walk-count", "an enumeration over %ld keys reports %ld", c0, cnt0);
    long limit = style == 0 ? 1 + o.b % 20 : n > 1200 && walk_budget < n ? walk_budget : n + 3;
    size_t nseen = 0; std::vector<char> seen(n, 0);
    bool ended = false;
    while (true) {
      if (!e_more(e)) { ended = true; break; }
      if (++calls > (style == 0 || limit < n ? limit : n + 3)) { if (limit >= n + 3) fail("walk-endless", "a walk over at most %d keys made %ld calls", n, calls); break; }
      if (!next(e, last, lb, seen, nseen, o)) {
        if (quiet0 && ver == v0) fail("walk-gap", "a walk over an unchanging tree returned nothing after %zu of %ld keys", nseen, c0);
        if (++nullrun > 2) fail("walk-endless", "the walk keeps saying there is more and returns nothing");
      } else { nullrun = 0; if (cnt0 >= 0 && quiet0 && ver == v0) { long c = e_count(e); if (c != c0 - (long)nseen && quiet0 && ver == v0) fail("walk-count", "after %zu of %ld keys an enumeration reports %ld left", nseen, c0, c); } }
      if (style == 1 && r.chance(1, 3)) { wrapped(th, last < 0 ? 0 : last, REMOVE); changes = true; probe(12); }
      else if (style == 2 && r.chance(1, 3)) { wrapped(th, (int)std::max(0L, std::min((long)n - 1, (long)last + r.range(-3, 5))), r.chance(1, 2) ? PUT : REMOVE); changes = true; }
      else if (style == 3) for (int i = (int)r.below(4); i > 0; i--) sim_yield();
      progress();
    }
    if (ended) {
      for (auto &x : owed) if (!seen[x.first] && ks[x.first].sure == x.second) fail("walk-missed", "the walk ended after %zu keys without key %d %s, stored all the time (last was %s, %zu owed)", nseen, x.first, kname(x.first).c_str(), last < 0 ? "none" : kname(last).c_str(), owed.size());
      bool q = quiet0 && ver == v0;
      if (q) { probe(9); if (nseen > 1000) probe(13); } else probe(10);
      size_t ns = nseen; int l0 = last;
      if (o.c % 2 && next(e, last, lb, seen, nseen, o) && q && ver == v0) fail("walk-past-end", "after the end the walk returned %s (last %s, %zu keys)", kname(last).c_str(), l0 < 0 ? "none" : kname(l0).c_str(), ns);
    }
    (void)changes;
    e_destroy(e);
    walk_budget -= calls;
  }
  long walk_budget = 4000;
  bool next(void *e, int &last, int lb, std::vector<char> &seen, size_t &nseen, const Op &o) {
    nexts++;
    bool nl = lock();
    u64 inv = tick_event();
    void *v = e_next(nl, e);
    u64 res = tick_event();
    if (nl) unlock();
    if (!v) { nexts--; settle(); return false; }
    int k = val_key((long)v);
    if (k < 0 || k >= n) fail("walk-phantom", "the walk returned %p, never stored", v);
    const void *c = e_cur(e);
    if (c) { int g = keyof(c); if (g != k) fail("walk-current", "the walk returned the value of %s but reports key %s", kname(k).c_str(), g < 0 ? "never stored" : kname(g).c_str()); }
    if (k <= last) fail(k == last ? "walk-repeat" : "walk-order", "the walk returned %s after %s", kname(k).c_str(), kname(last).c_str());
    if (k < lb) fail("walk-start", "the walk returned %s, before its start", kname(k).c_str());
    last = k; seen[k] = 1; nseen++;
    note(hash2(k, 77));
    ks[k].batch.push_back({SEEN, 0, 0, (long)v, inv, res, false});
    if (!ks[k].listed) { ks[k].listed = true; pending.push_back(k); }
    nexts--; settle();
    return true;
    (void)o;
  }
  void op(int th, int idx, const Op &o0) override {
    if (idx == 0) A->SASThreadSetUp();
    Op o = o0; o.a %= n;
    switch (o.k) {
      case PUT: case REPLACE: case GET: case CONTAINS: case REMOVE: wrapped(th, (int)o.a, o.k); break;
      case QUERY: {
        if (o.b % 3 == 0) { search(th, o); break; }
        if (regime == 2) { A->SASLock((void *)other, SasUserLock__WRITE); query(true, "query"); A->SASUnlock((void *)other); }
        else query(o.b & 1, "query");
        break;
      }
      case BULK: bulk(th, o); break;
      case HOLD: hold(th, o); break;
      case REMMIN: remmin(th, o); break;
      case WALK: if (nulls) query(regime != 0, "query"); else walk(th, o); break;
      case REST: for (long i = 0; i < o.b; i++) sim_yield(); break;
      case PAGES: pages(th, o); break;
    }
  }
  // ---- set-up and end
  u64 used_total() { u64 s = 0; for (auto &x : get_list(L_USED).v) s += x.second; return s; }
  void make(const std::vector<long> &c) {
    how = (int)c[3]; size = 1ULL << c[4]; page = how == 0 || how == 2 ? 4096 : 1ULL << c[5];
    expanding = how != 2 && how != 4;
    if (!expanding) probe(19);
    tree = m_create(how, size, page);
    if (!tree) fail("create", "creating a tree of %llu bytes was refused", (unsigned long long)size);
    if (((u64)tree & (size - 1)) || (u64)tree < R_LOW) fail("create", "the tree is not a block of the store");
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    regime = (int)p.cfg[6]; nulls = p.cfg[11]; shkeys = p.cfg[12];
    Rng r((u64)p.cfg[2]);
    universe(r, p);
    ks.resize(n); priv.resize(p.threads.size() + 1);
    u64 b0 = (u64)A->SASBlockAlloc(4096 * 16);
    if (!b0) sim_error("setup: block");
    other = b0;
    for (size_t i = 0; i <= p.threads.size(); i++) shbuf.push_back(b0 + 4096 * (i + 1));
    used0 = used_total();
    if (p.cfg[9]) {      // storage used before
      probe(16);
      std::vector<u64> v; u64 bs = 1ULL << p.cfg[4];
      for (int i = 0; i < 4; i++) { u64 b = (u64)A->SASBlockAlloc(bs); if (!b) sim_error("setup: block"); for (u64 j = 0; j < bs; j += 8) *(u64 *)(b + j) = i & 1 ? b + (r.next() & (bs - 1) & ~7ULL) : 0x0000000100000001ULL * (1 + r.below(200)); v.push_back(b); }
      for (u64 b : v) A->SASBlockDealloc((void *)b, bs);
    }
    make(p.cfg);
    int T = (int)p.threads.size();
    long want = (long)n * p.cfg[7] / 100;
    int order = (int)p.cfg[8];
    std::vector<int> idx(n); for (int i = 0; i < n; i++) idx[i] = i;
    if (p.cfg[7] < 100 || order >= 2) for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]);
    idx.resize(want);
    if (order == 0) std::sort(idx.begin(), idx.end()); else if (order == 1) { std::sort(idx.begin(), idx.end()); std::reverse(idx.begin(), idx.end()); }
    for (int k : idx) one(T, k, PUT, regime != 0);
    query(regime != 0, "after filling");
    if (n > 4200 && want > 4200) probe(6);
  }
  void verify(int T, const char *when) {
    bool nl = regime != 0;
    for (int i = 0; i < 4; i++) { Op o{QUERY, (long)(hash2(n, i) % n), 0, 0, (long)(hash2(n, i + 9) >> 3)}; search(T, o); }
    for (int k = 0; k < n; k++) { one(T, k, GET, nl); if (nulls || k % 5 == 0) one(T, k, CONTAINS, nl); }
    query(nl, when);
    if (!nulls && walkcheck) { walk_budget = 1000000; Op o{WALK, 0, 1, 1, 0}; o.c = 4 * 4 + 1; walk(T, o); if (has_start()) for (int i = 0; i < 4; i++) { o.a = (long)(hash2(i, n) % n); o.b = 3; o.c = 4 * 4 + i; walk(T, o); } }
  }
  // filling and emptying a tree again and again must not use up its storage
  void recycle(int T, bool nl) {
    for (int k = 0; k < n; k++) { one(T, k, REMOVE, nl); progress(); }
    long first = 0;
    for (int round = 0; round < 12; round++) {
      long got = 0;
      for (int k = 0; k < n; k++) { one(T, k, PUT, nl); progress(); }
      settle();
      for (int k = 0; k < n; k++) got += present.count(k);
      for (int k = 0; k < n; k++) { one(T, k, REMOVE, nl); progress(); }
      if (!round) first = got;
      else if (got < first * 3 / 4 - 2) fail("space-lost", "filled and emptied %d times the tree takes %ld keys, it took %ld at first", round, got, first);
    }
    probe(23);
  }
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[2] + 5);
    int T = (int)p.threads.size();
    bool nl = regime != 0;
    pages_check(false);
    verify(T, "at the end");
    if (p.cfg[10]) {
      for (int i = 0; i < p.nprocs; i++) { proc_switch(i); A->SASCleanUp(); proc_exit(i); }
      for (int i = 0; i < p.nprocs; i++) { proc_start(i); join(i); }
      proc_switch(0);
      pages_check(false);
      verify(T, "after everybody left and rejoined");
      probe(14);
    }
    if (p.cfg[13]) {
      std::vector<int> idx(n); for (int i = 0; i < n; i++) idx[i] = i;
      int order = (int)r.below(4);
      if (order == 1) std::reverse(idx.begin(), idx.end());
      else if (order) for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]);
      long c = 0;
      for (int k : idx) { one(T, k, REMOVE, nl); if (n < 200 || ++c % 16 == 0) query(nl, "while emptying"); progress(); }
      verify(T, "after removing everything");
      if (p.cfg[14]) {
        if (r.chance(1, 2)) for (int i = n - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]);
        size_t lim = r.chance(1, 2) ? n : std::min(n, 100);
        for (size_t i = 0; i < lim; i++) { one(T, idx[i], PUT, nl); progress(); }
        probe(15);
        verify(T, "after refilling");
        if (!expanding && n <= 900) recycle(T, nl);
      }
    }
    pages_check(p.cfg[2] & 1);
    m_destroy();
    u64 u = used_total();
    if (u != used0) fail("destroy", "after destroying the tree %lld bytes more are in use than before it was created", (long long)(u - used0));
    if (p.cfg[14] && p.cfg[13]) {         // again, on used storage
      make(p.cfg);
      for (auto &s : ks) { s.st.assign(1, 0); s.sure = 0; s.batch.clear(); s.listed = false; s.inflight = 0; }
      present.clear(); nambig = 0; pending.clear(); changed = asked = 0;
      query(nl, "after creating it again");
      for (int i = 0; i < std::min(n, 150); i++) one(T, (int)r.below(n), r.chance(2, 3) ? PUT : REMOVE, nl);
      verify(T, "after creating it again");
      m_destroy();
    }
  }
};
