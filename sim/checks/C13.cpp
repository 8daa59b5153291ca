// C13: naming contexts and project contexts.
#include "blocks.h"
namespace {
struct C13 : Check {
  enum { ADD, RENAME, FINDN, FINDA, REMN, REMA, ENUM, HELD, SETUP, ALT, GETBY, CURRENT, REMOVEP, DESTROYP, REST };
  enum { UNJUDGED = -3 };
  typedef std::vector<long> State;            // directory: address index by name, -1 none; projects: address by project, then current by process
  struct Obj {
    std::map<State, long> ids; std::vector<State> st; std::set<long> cur; std::vector<LinOp> batch; int inflight = 0, mods = 0; u64 ver = 0;
    long id(const State &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; long n = (long)st.size(); ids[s] = n; st.push_back(s); return n; }
    void init(const State &s) { ids.clear(); st.clear(); batch.clear(); cur = {id(s)}; }
    bool known() const { return cur.size() == 1 && batch.empty(); }
    const State &now() { return st[*cur.begin()]; }
  };
  std::vector<std::string> names; std::vector<u64> addrs; std::vector<std::string> pnames;
  std::vector<Obj> dir; Obj proj; std::vector<u64> ctx; std::vector<long> free0;
  int perm = 0, np = 1; u64 used0 = 0, kept = 0; bool hadroot = false; std::vector<std::vector<char>> priv; std::vector<u64> orphans;
  C13() : Check("C13") {
    opnames = {"add", "rename", "find-name", "find-address", "remove-name", "remove-address", "enumerate", "several-held", "setup-project", "setup-other-project", "get-project", "get-current", "remove-project", "destroy-project", "rest"};
    probe_names = {"add_taken_name", "add_taken_address", "context_full", "name_too_long", "renamed", "rename_refused_taken", "renamed_by_own_name", "removed_by_own_name", "concurrent_history", "enumerated", "null_address", "rejoined", "project_created", "project_destroyed", "project_creation_refused", "root_creation_refused", "churned", "context_creation_refused", "rename_same_name", "concurrent_project_history", "root_context_full"};
    real = {"sphcontext.cpp", "sasstringbtree*.cpp", "sasindex*.cpp", "freenode.c", "saslock.cpp", "sasalloc.cpp", "sassim.cpp", "sasanchr.cpp"};
    what = "1-2 contexts created or initialised on blocks of 256 bytes to 64 KB and 1-2 project contexts used by name, 1-40 names (empty, of lengths around allocation units, up to longer than a page) and 1-20 addresses (also null); 2-4 threads of 1-3 processes add, rename, find and remove by either side, some holding the context's lock over several calls and passing in the name the context itself returned, enumerate, and set up, look up, remove and destroy further projects; some stalled or interrupted; then everything is looked up from both sides, again after all left and rejoined, emptied, churned and refilled with its space compared, new projects and contexts are set up while the store or the root context is full, and everything is destroyed.";
    quick_runs = 16000; max_steps = 200000000; idle_budget = 20000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(std::max(2, p.nprocs), 4);
    long nn = r.chance(1, 2) ? r.range(1, 6) : r.range(3, 40), na = r.chance(1, 2) ? r.range(1, 4) : r.range(2, 20);
    long nd = r.range(0, 2), npj = nd ? r.range(0, 2) : r.range(1, 2);
    p.cfg = {nn, na, (long)r.below(6), nd, npj, r.chance(1, 2) ? 12L : r.range(8, 16), r.range(8, 16), (long)(r.next() & 0x7fffffff), r.chance(1, 2) ? 1L : 0L /* warm */, r.chance(1, 3) ? 1L : 0L /* rejoin */, r.chance(1, 4) ? r.range(1, 8) : 0L /* exhaust */, r.chance(1, 3) ? 1L : 0L /* churn */, r.chance(1, 4) ? 1L : 0L /* dirty */};
    bool projects = npj && r.chance(1, 2); int nc = (int)(nd + npj);
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int cnt = (int)r.range(2, 16);
      for (int i = 0; i < cnt; i++) {
        Op o{0, (long)r.below(nn), (long)r.below(na), (long)r.below(nc) + 4 * (long)r.below(1000), (long)r.below(1000000)};
        int q = (int)r.below(32);
        o.k = q < 9 ? ADD : q < 12 ? RENAME : q < 15 ? FINDN : q < 18 ? FINDA : q < 21 ? REMN : q < 24 ? REMA : q < 25 ? ENUM : q < 28 ? HELD : q < 30 ? (projects || r.chance(1, 8) ? -1 : ADD) : REST;
        if (projects && r.chance(1, 3)) o.k = -1;
        if (o.k == -1) { int z = (int)r.below(12); o.k = z < 3 ? SETUP : z < 5 ? ALT : z < 7 ? GETBY : z < 9 ? CURRENT : z < 10 ? REMOVEP : DESTROYP; o.a = (long)r.below(5); }
        if (o.k == REST) o.b = r.range(1, 10);
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 300), r.range(5, 3000), 0});
    if (r.chance(1, 8)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  // ---- model of a context
  static u64 unit(size_t len) { return (len + 1 + 15) & ~15ULL; }
  static bool mayrefuse(const std::string &s) { return s.size() + 1 > 3800; }
  bool roomy(int c, const State &s, int n) {      // a fragment large enough must exist
    u64 used = 0, cnt = 1; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 0) { used += unit(names[i].size()); cnt++; }
    u64 F = (u64)free0[c] > used ? free0[c] - used : 0;
    return F / cnt > unit(names[n].size()) + 16 && !mayrefuse(names[n]);
  }
  static long find_addr(const State &s, long a) { for (size_t i = 0; i < s.size(); i++) if (s[i] == a) return (long)i; return -1; }
  long val(const State &s, long n) { return s[n] < 0 ? 0 : (long)addrs[s[n]]; }
  bool apply(int c, long st, const LinOp &o, long &ns) {
    Obj &d = dir[c]; const State s = d.st[st]; ns = st;
    long n = o.arg & 0xffff, n2 = o.arg >> 16, a = o.arg2;
    switch (o.kind) {
      case ADD: {
        bool taken = s[n] >= 0 || find_addr(s, a) >= 0;
        if (!o.ret) return taken || !roomy(c, s, (int)n);
        if (taken) return false;
        State t = s; t[n] = a; ns = d.id(t); return true;
      }
      case RENAME: {
        bool has = val(s, n) && (u64)val(s, n) == addrs[a];       // the association to replace
        if (addrs[a] == 0) has = s[n] == a;
        bool can = has && (n2 == n || s[n2] < 0);
        if (!o.ret) return !can || !roomy(c, s, (int)n2) || addrs[a] == 0;
        if (!can) return false;
        State t = s; t[n] = -1; t[n2] = a; ns = d.id(t); return true;
      }
      case FINDN: return o.ret == val(s, n);
      case FINDA: { long f = find_addr(s, a); return o.ret == UNJUDGED ? f >= 0 : o.ret == f; }
      case REMN: if ((o.ret == 0) != (s[n] >= 0)) return false; if (o.ret == 0) { State t = s; t[n] = -1; ns = d.id(t); } return true;
      case REMA: { long f = find_addr(s, a); if ((o.ret == 0) != (f >= 0)) return false; if (f >= 0) { State t = s; t[f] = -1; ns = d.id(t); } return true; }
    }
    return false;
  }
  std::string show(const State &s) { std::string r; char b[60]; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 0) { snprintf(b, sizeof b, " n%zu=a%ld", i, s[i]); r += b; if (r.size() > 200) break; } return r.empty() ? " nothing" : r; }
  void resolve(Obj &d, const LinApply &ap, const char *cls, const std::function<std::string(const State &)> &sh) {
    std::set<long> nf;
    for (long x : d.cur) { bool gave; std::set<long> f; if (linearizable(d.batch, x, ap, &f, &gave)) { if (gave) sim_error("history too long to decide"); nf.insert(f.begin(), f.end()); } }
    if (nf.empty()) {
      std::string h; char b[160];
      for (auto &o : d.batch) { snprintf(b, sizeof b, " %s(%lx,%lx)=%lx@%llu-%llu", opnames[o.kind], o.arg, o.arg2, o.ret, (unsigned long long)o.inv, (unsigned long long)o.res); h += b; if (h.size() > 900) { h += " ..."; break; } }
      fail(cls, "held%s; then%s", sh(d.st[*d.cur.begin()]).c_str(), h.c_str());
    }
    d.cur = nf; d.batch.clear();
  }
  u64 begin(Obj &d, int kind) { bool m = kind == ADD || kind == RENAME || kind == REMN || kind == REMA || (kind >= SETUP && kind != GETBY && kind != CURRENT); d.inflight++; if (m) { d.mods++; d.ver++; } return tick_event(); }
  void end(Obj &d, int c, int kind, u64 inv, long arg, long arg2, long ret) {
    bool m = kind == ADD || kind == RENAME || kind == REMN || kind == REMA || (kind >= SETUP && kind != GETBY && kind != CURRENT);
    note(hash2((u64)arg * 31 + kind + (u64)arg2 * 7, (u64)ret));
    d.batch.push_back({kind, arg, arg2, ret, inv, tick_event(), false});
    d.inflight--; if (m) { d.mods--; d.ver++; }
    if (!d.inflight) {
      if (d.batch.size() > 1) probe(c < 0 ? 19 : 8);
      if (c >= 0) resolve(d, [this, c](long s, const LinOp &o, long &ns) { return apply(c, s, o, ns); }, "wrong-result", [this](const State &s) { return show(s); });
      else resolve(d, [this](long s, const LinOp &o, long &ns) { return papply(s, o, ns); }, "project", [this](const State &s) { std::string r; char b[40]; for (long x : s) { snprintf(b, sizeof b, " %lx", x); r += b; } return r; });
    }
    progress();
  }
  // ---- calls on a context
  const char *nbuf(int th, int n, int which) { std::vector<char> &b = priv[th * 2 + which]; b.assign(names[n].c_str(), names[n].c_str() + names[n].size() + 1); return b.data(); }
  void scribble(int th) { for (int i = 0; i < 2; i++) std::fill(priv[th * 2 + i].begin(), priv[th * 2 + i].end(), (char)'#'); }
  long nindex(const char *s) { std::string x(s, strnlen(s, 20000)); for (size_t i = 0; i < names.size(); i++) if (names[i] == x) return (long)i; return -2; }
  void one(int th, int c, int kind, long n, long n2, long a, bool held = false) {
    Obj &d = dir[c]; void *x = (void *)ctx[c];
    const char *nm = nbuf(th, (int)n, 0), *nm2 = nbuf(th, (int)n2, 1);
    if (held && (kind == REMN || kind == RENAME) && d.known() && !d.inflight && d.now()[n] >= 0 && (n + a) % 2) {   // the name as the context keeps it
      const char *own = (const char *)A->SPHContextFindByAddr(x, (void *)addrs[d.now()[n]]);
      if (own && nindex(own) == n) { nm = own; probe(kind == REMN ? 7 : 6); }
    }
    u64 v0 = d.ver; bool quiet = !d.mods;
    u64 inv = begin(d, kind); long ret = 0; State s0; bool k0 = d.known() && d.inflight == 1; if (k0) s0 = d.now();
    switch (kind) {
      case ADD: ret = A->SPHContextAddName(x, nm, (void *)addrs[a]) != 0;
        if (ret && addrs[a] == 0) probe(10);
        if (!ret && k0)
          probe(s0[n] >= 0 ? 0 : find_addr(s0, a) >= 0 ? 1 : mayrefuse(names[n]) ? 3 : 2);
        break;
      case RENAME: ret = A->SPHContextRename(x, nm, nm2, (void *)addrs[a]) != 0; if (ret) probe(n == n2 ? 18 : 4); else if (k0 && s0[n] == a && s0[n2] >= 0) probe(5); break;
      case FINDN: ret = (long)A->SPHContextFindByName(x, nm); break;
      case FINDA: {
        const char *s = (const char *)A->SPHContextFindByAddr(x, (void *)addrs[a]);
        if (!s) ret = -1;
        else if ((quiet && d.ver == v0) || held) { ret = nindex(s); if (ret == -2) fail("foreign-name", "looking up address %llx gave a name that was never registered: \"%.40s\"", (unsigned long long)addrs[a], s); }
        else ret = UNJUDGED;
        break;
      }
      case REMN: ret = A->SPHContextRemoveByName(x, nm); break;
      case REMA: ret = A->SPHContextRemoveByAddr(x, (void *)addrs[a]); break;
    }
    scribble(th);
    end(d, c, kind, inv, n | n2 << 16, a, ret);
  }
  void enumerate(int c, const char *when) {      // nobody changes the context
    Obj &d = dir[c]; bool judge = d.known() && !d.inflight;
    State s; if (judge) s = d.now();
    void *e = A->SPHContextGetNameEnum((void *)ctx[c]);
    if (!e) { fail("enumerate", "%s: no enumeration of names", when); }
    std::map<std::string, u64> got; std::string last; bool first = true;
    for (int i = 0; A->SASStringBTreeEnumHasMore(e); i++) {
      if (i > 200) fail("enumerate", "%s: the enumeration does not end", when);
      u64 v = (u64)A->SASStringBTreeEnumNext(e);
      const char *q = (const char *)A->SASStringBTreeEnumCurrent(e);
      if (!q) fail("enumerate", "%s: an enumerated name is missing", when);
      std::string w = q;
      if (!first && !(last < w)) fail("enumerate", "%s: names not in order", when);
      first = false; last = w; got[w] = v; progress();
    }
    A->SASStringBTreeEnumDestroy(e);
    if (judge) {
      std::map<std::string, u64> want; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 0) want[names[i]] = addrs[s[i]];
      if (got != want) fail("enumerate", "%s: %zu names enumerated, %zu are registered, or with other addresses", when, got.size(), want.size());
      probe(9);
    }
  }
  void space(int c, const char *when) {
    Obj &d = dir[c]; if (!d.known() || d.inflight) return;
    const State &s = d.now(); long used = 0; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 0) used += (long)unit(names[i].size());
    long f = (long)A->SPHContextFreeSpace((void *)ctx[c]);
    if (f != free0[c] - used) fail("space", "%s: the context reports %ld bytes of room, %ld of %ld are left", when, f, free0[c] - used, free0[c]);
  }
  // ---- projects: addresses by project, then what is current in each process
  bool papply(long st, const LinOp &o, long &ns) {
    const State s = proj.st[st]; ns = st; long k = o.arg, p = o.arg2 + (long)pnames.size();
    State t = s;
    switch (o.kind) {
      case SETUP: case ALT:
        if (!o.ret) return false;
        if (s[k]) { if (o.ret != s[k]) return false; }
        else { for (size_t i = 0; i < pnames.size(); i++) if (s[i] == o.ret) return false; t[k] = o.ret; }
        if (o.kind == SETUP) t[p] = o.ret;
        ns = proj.id(t); return true;
      case GETBY: return o.ret == s[k];
      case CURRENT: return o.ret == UNJUDGED || o.ret == s[p];
      case REMOVEP: if (o.ret != s[k]) return false; if (s[k]) { if (s[p] == s[k]) t[p] = 0; t[k] = 0; } ns = proj.id(t); return true;
      case DESTROYP: if ((o.ret == 0) != (s[k] != 0)) return false; if (s[k]) { if (s[p] == s[k]) t[p] = 0; t[k] = 0; } ns = proj.id(t); return true;
    }
    return false;
  }
  long pcall(int th, int kind, long k, int pr) {
    std::vector<char> &b = priv[th * 2]; b.assign(pnames[k].c_str(), pnames[k].c_str() + pnames[k].size() + 1);
    const char *nm = b.data();
    u64 v0 = proj.ver; bool quiet = !proj.mods;      // the current project is set a little after the names change
    u64 inv = begin(proj, kind); long ret = 0;
    switch (kind) {
      case SETUP: ret = (long)A->SPHSetupProjectContext(nm); break;
      case ALT: ret = (long)A->SPHSetupAltProjectContext(nm); break;
      case GETBY: ret = (long)A->getProjectContextByName(nm); break;
      case CURRENT: ret = (long)A->getCurrentProjectContext(); break;
      case REMOVEP: ret = (long)A->SPHRemoveProjectContext(nm); break;
      case DESTROYP: ret = A->SPHDestroyProjectContext(nm); if (!ret) probe(13); break;
    }
    if (kind == SETUP || kind == ALT) probe(12);
    scribble(th);
    end(proj, -1, kind, inv, k, pr, kind != CURRENT || (quiet && proj.ver == v0) ? ret : UNJUDGED);
    return ret;
  }
  void op(int th, int, const Op &o) override {
    A->SASThreadSetUp();
    int pr = fiber_proc(cur_fiber());
    long a = o.b % (long)addrs.size(), n = o.a % (long)names.size(), n2 = o.d % (long)names.size(); int nc = (int)dir.size(), c = (int)(o.c % 4) % nc; long x = o.c / 4;
    if (o.k < SETUP) {
      int nd = nc - perm;
      if (c >= nd && x % 4 == 0) {        // find the project again
        long g = pcall(th, x % 3 == 0 ? SETUP : x % 3 == 1 ? ALT : GETBY, c - nd, pr);
        if (g != (long)ctx[c]) fail("project", "a project context is at %lx, was at %llx", g, (unsigned long long)ctx[c]);
      }
    }
    switch (o.k) {
      case ADD: case FINDN: case FINDA: case REMN: case REMA: one(th, c, o.k, n, n, a); break;
      case RENAME: {
        if (x % 3 && dir[c].known() && dir[c].now()[n] >= 0) a = dir[c].now()[n];
        one(th, c, RENAME, n, x % 7 == 0 ? n : n2, a); break;
      }
      case ENUM: A->SASLock((void *)ctx[c], SasUserLock__WRITE); enumerate(c, "with the lock held"); A->SASUnlock((void *)ctx[c]); break;
      case HELD: {
        Rng r((u64)o.d * 77 + o.c);
        A->SASLock((void *)ctx[c], SasUserLock__WRITE);
        for (int i = (int)r.range(2, 6); i > 0; i--) {
          static const int K[] = {ADD, RENAME, FINDN, FINDA, REMN, REMA, FINDA, RENAME, REMN};
          long m = (long)r.below(names.size()), m2 = (long)r.below(names.size()), b = (long)r.below(addrs.size()); int k = K[r.below(9)];
          if ((k == RENAME || k == REMN) && dir[c].known() && r.chance(2, 3)) { const State &s = dir[c].now(); for (size_t j = 0; j < s.size(); j++) { size_t q = (j + m) % s.size(); if (s[q] >= 0) { m = (long)q; b = s[q]; break; } } }
          one(th, c, k, m, r.chance(1, 8) ? m : m2, b, true);
        }
        A->SASUnlock((void *)ctx[c]);
        break;
      }
      case REST: for (long i = 0; i < o.b; i++) sim_yield(); break;
      case SETUP: case ALT: case GETBY: case CURRENT: case REMOVEP: case DESTROYP: {
        long k = o.a % (long)pnames.size();
        if ((o.k == REMOVEP || o.k == DESTROYP) && k < perm) k = perm + k % ((long)pnames.size() - perm);
        long g = pcall(th, o.k, k, pr);
        if (o.k == REMOVEP && g) { if (o.d % 2) { if (A->SPHContextDestroy((void *)g)) fail("destroy", "destroying a removed project context failed"); } else orphans.push_back((u64)g); }
        break;
      }
    }
  }
  // ---- set-up and end
  u64 used_total() { u64 s = 0; for (auto &x : get_list(L_USED).v) s += x.second; return s; }
  void setup(Prog &p) override {
    np = p.nprocs;
    for (int i = 0; i < np; i++) join(i);
    proc_switch(0);
    Rng r((u64)p.cfg[7]);
    priv.resize((p.threads.size() + 1) * 2);
    int T = (int)p.threads.size();
    std::set<std::string> s; int st = (int)p.cfg[2];
    for (int tries = 0; (long)s.size() < p.cfg[0] && tries < 2000; tries++) {
      char b[32]; snprintf(b, sizeof b, "%d", (int)r.below(500)); std::string w = b;
      long len = st == 0 ? 0 : st == 1 ? r.range(14, 18) : st == 2 ? r.range(0, 200) : st == 3 ? 16 * r.range(1, 8) - 1 + r.range(-1, 1) : st == 4 ? (r.chance(1, 10) ? r.range(3600, 9000) : r.range(0, 60)) : r.range(0, 3);
      while ((long)w.size() < len) w += st == 2 ? (char)r.range(1, 255) : (char)('a' + w.size() % 26);
      if (st == 5) w = w.substr(0, len);
      s.insert(w);
    }
    names.assign(s.begin(), s.end());
    std::set<u64> as; while ((long)as.size() < p.cfg[1]) as.insert(r.chance(1, 30) ? 0 : r.chance(1, 2) ? R_LOW + 16 * r.below(100000) : r.chance(1, 2) ? r.below(300) + 1 : r.next());
    addrs.assign(as.begin(), as.end());
    for (size_t i = addrs.size() - 1; i > 0; i--) std::swap(addrs[i], addrs[r.below(i + 1)]);
    perm = (int)p.cfg[4];
    for (int i = 0; i < perm + 3; i++) { char b[40]; snprintf(b, sizeof b, "%s%d", i % 2 ? "project-with-a-longer-name" : "p", i); pnames.push_back(b); }
    State ps(pnames.size() + np, 0); proj.init(ps);
    if (p.cfg[12]) {   // storage used before
      std::vector<u64> v; for (int i = 0; i < 4; i++) { u64 sz = 1ULL << (12 + 4 * i / 3); u64 b = (u64)A->SASBlockAlloc(sz); if (!b) sim_error("setup: block"); memset((void *)b, 0x5a + i, sz); v.push_back(b); v.push_back(sz); }
      for (size_t i = 0; i < v.size(); i += 2) A->SASBlockDealloc((void *)v[i], v[i + 1]);
    }
    if (p.cfg[8]) { pcall(T, SETUP, perm, 0); pcall(T, DESTROYP, perm, 0); hadroot = true; }
    used0 = used_total();
    for (int i = 0; i < p.cfg[3]; i++) {
      u64 sz = 1ULL << p.cfg[5 + i]; void *x;
      if ((p.cfg[7] >> i) % 3 == 0) { void *b = A->SASBlockAlloc(sz); if (!b) sim_error("setup: block"); x = A->SPHContextInit(b, CTYPE, sz); }
      else x = A->SPHContextCreate(sz);
      if (!x) fail("create", "creating a context of %llu bytes was refused", (unsigned long long)sz);
      ctx.push_back((u64)x);
    }
    for (int i = 0; i < perm; i++) ctx.push_back((u64)pcall(T, i % 2 ? ALT : SETUP, i, 0));
    dir.resize(ctx.size());
    for (size_t i = 0; i < ctx.size(); i++) {
      dir[i].init(State(names.size(), -1));
      free0.push_back((long)A->SPHContextFreeSpace((void *)ctx[i]));
      u64 sz = (long)i < p.cfg[3] ? 1ULL << p.cfg[5 + i] : 1 << 20;
      if (free0[i] <= 0 || free0[i] > (long)sz) fail("create", "a new context of %llu bytes reports %ld bytes of room", (unsigned long long)sz, free0[i]);
      enumerate((int)i, "after creating it");
    }
  }
  static const sas_type_t CTYPE = SAS_RUNTIME_CONTEXT;
  void verify(int T, const char *when) {
    for (int c = 0; c < (int)dir.size(); c++) {
      for (size_t i = 0; i < names.size(); i++) one(T, c, FINDN, (long)i, (long)i, 0);
      for (size_t i = 0; i < addrs.size(); i++) one(T, c, FINDA, 0, 0, (long)i);
      enumerate(c, when); space(c, when);
    }
    for (size_t k = 0; k < pnames.size(); k++) pcall(T, GETBY, (long)k, 0);
    for (int i = 0; i < np; i++) { proc_switch(i); pcall(T, CURRENT, 0, i); for (int k = 0; k < perm; k++) if (pcall(T, GETBY, k, i) != (long)ctx[ctx.size() - perm + k]) fail("project", "%s: process %d finds another context for a project", when, i); }
    proc_switch(0);
  }
  void empty(int T, int c, Rng &r) {
    std::vector<int> idx; for (size_t i = 0; i < names.size(); i++) idx.push_back((int)i);
    for (int i = (int)idx.size() - 1; i > 0; i--) std::swap(idx[i], idx[r.below(i + 1)]);
    for (int i : idx) if (dir[c].now()[i] >= 0) { if (r.chance(1, 2)) one(T, c, REMN, i, i, 0); else one(T, c, REMA, i, i, dir[c].now()[i]); progress(); }
    space(c, "when emptied"); enumerate(c, "when emptied");
  }
  void fill(int T, int c) { for (size_t i = 0; i < names.size() && i < addrs.size(); i++) { one(T, c, ADD, (long)i, (long)i, (long)i); progress(); } }
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[7] + 3); int T = (int)p.threads.size();
    stop_faults();
    verify(T, "at the end");
    if (p.cfg[9]) {
      for (int i = 0; i < np; i++) { proc_switch(i); A->SASCleanUp(); proc_exit(i); }
      for (int i = 0; i < np; i++) { proc_start(i); join(i); }
      proc_switch(0);
      std::set<long> nc; for (long x : proj.cur) { State s = proj.st[x]; for (int i = 0; i < np; i++) s[pnames.size() + i] = 0; nc.insert(proj.id(s)); }
      proj.cur = nc;                       // what is current is a matter of the process
      verify(T, "after everybody left and rejoined"); probe(11);
    }
    for (int c = 0; c < (int)dir.size(); c++) {
      empty(T, c, r);
      if (p.cfg[11]) {
        fill(T, c); State s = dir[c].now(); empty(T, c, r);
        for (int i = 0; i < 40; i++) { long n = (long)r.below(names.size()), a = (long)r.below(addrs.size()); one(T, c, ADD, n, n, a); if (r.chance(1, 2)) { n = (long)r.below(names.size()); a = dir[c].now()[n]; if (a >= 0) one(T, c, RENAME, n, (long)r.below(names.size()), a); } if (r.chance(2, 3)) one(T, c, r.chance(1, 2) ? REMN : REMA, n, n, (long)r.below(addrs.size())); progress(); }
        empty(T, c, r); fill(T, c); if (dir[c].now() != s) fail("space", "after use the context takes other names than a new one of its size");
        probe(16);
        if (r.chance(1, 2)) empty(T, c, r);
      }
    }
    if (p.cfg[10]) exhaust(p, T, r);
    if (p.cfg[10] % 3 == 1) rootfull(T, r);
    for (size_t i = 0; i < ctx.size() - perm; i++) if (A->SPHContextDestroy((void *)ctx[i])) fail("destroy", "destroying a context failed");
    for (u64 g : orphans) if (A->SPHContextDestroy((void *)g)) fail("destroy", "destroying a removed project context failed");
    for (size_t k = 0; k < pnames.size(); k++) pcall(T, DESTROYP, (long)k, 0);
    for (size_t k = 0; k < pnames.size(); k++) pcall(T, GETBY, (long)k, 0);
    u64 u = used_total(), root = 65536 + (32ULL << 20);
    if (u != used0 && (hadroot || u != used0 + root)) fail("destroy", "after destroying every context %lld bytes more are in use than before", (long long)(u - used0));
  }
  // set up projects and contexts while the store is full but for a few pieces
  void exhaust(Prog &p, int T, Rng &r) {
    os_fail_blocks(true);
    std::vector<std::pair<u64, u64>> hog;
    for (u64 sz = 128ULL << 20; sz >= (64 << 10); sz >>= 1) for (;;) { u64 b = (u64)A->SASBlockAlloc(sz); if (!b) break; hog.push_back({b, sz}); }
    long leave = p.cfg[10] - 1; int trees = (int)(leave % 4);
    auto give = [&](u64 sz) { for (size_t i = 0; i < hog.size(); i++) if (hog[i].second == sz) { A->SASBlockDealloc((void *)hog[i].first, sz); hog.erase(hog.begin() + i); return true; } return false; };
    auto cut = [&](u64 sz) {               // let one piece of a size become free
      if (give(sz)) return;
      for (u64 z = sz * 2; z <= (128ULL << 20); z *= 2) if (give(z)) { for (u64 y = z / 2; y >= sz; y /= 2) { u64 b = (u64)A->SASBlockAlloc(y); if (b) hog.push_back({b, y}); } return; }
    };
    for (int i = 0; i < trees; i++) cut(16 << 20);
    if (leave >= 4) cut(1 << 20);
    if (leave & 1) cut(64 << 10);
    u64 u0 = used_total();
    bool root = A->getSASFinder() != nullptr;
    long g;
    bool alt = r.chance(1, 2); u64 was = (u64)A->getCurrentProjectContext();
    g = (long)(alt ? A->SPHSetupAltProjectContext("no-room") : A->SPHSetupProjectContext("no-room"));
    long cur = (long)A->getCurrentProjectContext();
    if (alt ? (u64)cur != was : g ? cur != g : cur && (u64)cur != was) fail("exhausted", "the current project context is %lx after setting up a project in a full store gave %lx", cur, g);
    setcur(cur);
    if (g && trees < 2) fail("exhausted", "a project context was granted without storage for its directories");
    if (!g) {
      probe(root ? 14 : 15);
      if (A->getProjectContextByName("no-room")) fail("exhausted", "a project context that was refused is found");
      u64 u = used_total();
      if (u != u0 && !(!root && A->getSASFinder())) fail("exhausted", "a refused project context left %lld bytes in use", (long long)(u - u0));
    }
    u64 u1 = used_total();
    void *x = A->SPHContextCreate(4096);
    if (x) {
      if (!A->SPHContextAddName(x, "n", x) || A->SPHContextFindByName(x, "n") != x) fail("exhausted", "a context created in a full store does not work");
      if (A->SPHContextDestroy(x)) fail("exhausted", "a context created in a full store cannot be destroyed");
    } else probe(17);
    if (used_total() != u1) fail("exhausted", "a context that was refused left %lld bytes in use", (long long)(used_total() - u1));
    verify(T, "with a full store");
    if (g) { if (A->SPHDestroyProjectContext("no-room")) fail("exhausted", "destroying the project failed"); setcur((long)A->getCurrentProjectContext()); }
    os_fail_blocks(false);
    for (auto &h : hog) A->SASBlockDealloc((void *)h.first, h.second);
    u64 uu = used_total(); bool had = A->getSASFinder() != nullptr;
    g = (long)A->SPHSetupProjectContext("no-room");
    if (!g) fail("exhausted", "with storage again a project is still refused");
    if (!A->SPHContextAddName((void *)g, "n", (void *)g) || A->SPHContextFindByName((void *)g, "n") != (void *)g) fail("exhausted", "with storage again a project context does not work");
    if (A->SPHDestroyProjectContext("no-room")) fail("exhausted", "destroying the project failed");
    if (had && used_total() != uu) fail("exhausted", "setting up and destroying a project left %lld bytes in use", (long long)(used_total() - uu));
    setcur(0);
  }
  // set up a project when the root context has no room for its name
  void rootfull(int T, Rng &r) {
    void *root = A->getSASFinder(); if (!root) return;
    std::vector<std::string> v; std::string fill;
    long f0 = (long)A->SPHContextFreeSpace(root); u64 k = 0;
    for (size_t len = 3000; len >= 16; len /= 2) for (;;) {
      std::string w(len, 'r'); w += std::to_string(k++);
      if (!A->SPHContextAddName(root, w.c_str(), (void *)(8 + 16 * k))) break;
      v.push_back(w); progress();
    }
    while (A->SPHContextAddName(root, std::to_string(k).c_str(), (void *)(8 + 16 * k))) { v.push_back(std::to_string(k)); k++; progress(); }
    std::string name(r.range(40, 200), 'q'); bool alt = r.chance(1, 2); u64 u = used_total();
    long g = (long)(alt ? A->SPHSetupAltProjectContext(name.c_str()) : A->SPHSetupProjectContext(name.c_str()));
    if (g) fail("exhausted", "a project was granted though the root context has no room for its name");
    if (A->getProjectContextByName(name.c_str())) fail("exhausted", "a project that was refused for lack of room in the root context is found");
    if (used_total() != u) fail("exhausted", "a project that was refused for lack of room in the root context left %lld bytes in use", (long long)(used_total() - u));
    setcur((long)A->getCurrentProjectContext()); probe(20);
    for (auto &w : v) { if (A->SPHContextRemoveByName(root, w.c_str())) fail("wrong-result", "a name in the full root context cannot be removed"); progress(); }
    if ((long)A->SPHContextFreeSpace(root) != f0) fail("space", "emptying the full root context left it %ld bytes smaller", f0 - (long)A->SPHContextFreeSpace(root));
    (void)T;
  }
  void setcur(long x) { std::set<long> n; for (long i : proj.cur) { State s = proj.st[i]; s[pnames.size()] = x; n.insert(proj.id(s)); } proj.cur = n; }
};
Reg reg(new C13);
}
