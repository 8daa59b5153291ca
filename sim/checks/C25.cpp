// C25: running out of store space fails the operation and nothing else.
#include "blocks.h"
namespace {
struct C25 : Check {
  enum { PUT, DEL, GET, BLOCK, UNBLOCK, CREATE, USE, DESTROY, PROJECT, GIVE, TAKE, ROOM, FULL, LOCKS };
  enum { TREE, INDEX, HEAP, PCQHEAP, CONTEXT, NOBJ };                         // the containers everybody shares
  enum { K_SHEAP, K_STACK, K_SPACE, K_CHEAP, K_CFIXED, K_TREE, K_TFIXED, K_INDEX, K_IFIXED, K_CONTEXT, K_LFHEAP, K_LOG, K_CLOG, K_PORTAL, K_QUEUE, K_SQUEUE, K_MQUEUE, K_SOM, NKINDS };
  static const char *kname(int k) { static const char *n[] = {"simple heap", "simple stack", "simple space", "compound heap", "fixed compound heap", "string tree", "fixed string tree", "index", "fixed index", "context", "lock-free heap", "logger", "circular logger", "portal", "queue", "queue with stride", "multi-party queue", "block of zeros"}; return n[k]; }
  struct Thing { int kind; u64 a, sz, id; std::vector<std::pair<u64, u64>> parts; };   // parts: stamped storage inside
  struct Mine {
    std::set<int> keys[NOBJ]; std::vector<std::pair<u64, u64>> pages[NOBJ]; std::vector<std::pair<u64, u64>> blocks; std::vector<Thing> things; u64 project = 0;
    std::vector<Op> refused;
  };
  struct Shared { int kind; u64 a; };
  std::vector<Shared> S; std::vector<Mine> M; std::vector<std::pair<u64, u64>> hog; std::vector<std::pair<u64, u64>> pre[NOBJ]; std::set<int> prekeys[NOBJ]; void *anchored = nullptr; std::vector<std::pair<void *, long>> ahog;
  u64 used0 = 0, serial = 1; bool full = false, anchor_mode = false; int np = 1; long blocks0 = 0; u64 refusals = 0; long keylen = 100, nobj = 0, sz = 16384; int active = 0; u64 calls = 0;
  C25() : Check("C25") {
    opnames = {"put", "remove", "get", "block", "return-block", "create", "use", "destroy", "project", "some-room", "less-room", "room", "full", "locks"};
    probe_names = {"put_refused", "put_refused_into_deep_tree", "page_refused", "block_refused", "create_refused", "project_refused", "bookkeeping_space_low", "growth_call_failed", "retried", "served_with_little_room", "rejoined_while_full", "nothing_changed_by_refused_create", "string_tree_refused", "index_refused", "compound_refused", "context_create_refused", "many_blocks", "served_again_after_room", "bookkeeping_space_used_up"};
    real = {"sasstringbtree*.cpp", "sasindex*.cpp", "sascompoundheap.cpp", "sassimpleheap.cpp", "sassimplestack.cpp", "sassimplespace.cpp", "sphcontext.cpp", "sphlockfreeheap.cpp", "sphlflogger.cpp", "sphlogportal.cpp", "sphsinglepcqueue.cpp", "sphmultipcqueue.cpp", "sassim.cpp", "sasalloc.cpp", "ultree.cpp", "freenode.c", "saslock.cpp"};
    what = "2-4 threads of 1-3 processes use shared string trees, indexes, compound heaps of both kinds and contexts (new, or grown to where their block lists must be extended) and create, use and destroy heaps, stacks, trees, contexts, loggers, queues, portals and projects of 4 KB to 1 MB while the store is full but for a few pieces and the disk refuses to grow, or growing fails at random calls, or the bookkeeping space is nearly used up; room comes and goes; whatever was refused is tried again when there is room, everything is checked and destroyed, and the space in use must be what it was.";
    quick_runs = 6000; max_steps = 200000000; idle_budget = 20000000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    int nt = (int)r.range(2, 4), mode = (int)r.below(4);            // 0,1: the disk is full; 2: growing fails at some calls; 3: bookkeeping space
    long deep = r.chance(1, 3) ? r.range(55, 66) : r.chance(1, 2) ? r.range(1, 10) : 0;
    p.cfg = {mode, (long)(1 + r.below((1 << NOBJ) - 1)), deep, r.chance(1, 2) ? 1L : r.range(0, 8) /* free pieces */, (long)(r.next() & 0x7fffffff), r.chance(1, 3) ? 1L : 0L /* rejoin */, (long)r.below(4) /* key length */, r.chance(1, 4) ? 1L : 0L /* unwarmed root */, (long)(r.chance(1, 2) ? r.range(0, 30) : r.range(0, 220)) /* bookkeeping left */, deep > 20 ? r.range(13, 14) : r.range(13, 17), r.chance(1, 2) ? 1L : 0L /* fill to the brim */, r.chance(1, 2) ? 1L : 0L /* linear list */};
    if (deep > 20 && r.chance(1, 3)) {          // one block may be added where the list of blocks is full
      p.cfg[3] = -r.range(1, 3); p.cfg[2] = 254 + p.cfg[3] + r.range(-1, 1); p.cfg[1] = 1 << HEAP; p.cfg[9] = r.range(13, 14); p.cfg[10] = 1; mode = p.cfg[0] = 0;
    }
    for (int t = 0; t < nt; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int cnt = (int)r.range(3, 22);
      for (int i = 0; i < cnt; i++) {
        Op o{0, (long)r.below(NOBJ), (long)r.below(400), (long)r.below(1000), (long)r.below(1000000)};
        int q = (int)r.below(40);
        o.k = q < 14 ? PUT : q < 16 ? DEL : q < 18 ? GET : q < 20 ? BLOCK : q < 21 ? UNBLOCK : q < 28 ? CREATE : q < 30 ? USE : q < 32 ? DESTROY : q < 33 ? PROJECT : q < 35 ? GIVE : q < 36 ? TAKE : q < 37 ? (mode == 2 ? GIVE : ROOM) : q < 38 ? (mode == 2 ? TAKE : FULL) : LOCKS;
        if (o.k == CREATE) { o.a = (long)r.below(NKINDS); o.b = r.chance(3, 4) ? r.range(12, 16) : r.range(12, 20); }
        if (o.k == BLOCK) o.b = r.range(8, 18);
        if (o.k == PUT) o.b = r.chance(1, 3) ? r.range(1, 40) : r.range(1, 6);
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    if (mode == 2) {
      static const int kinds[] = {F_CREATE, F_FTRUNCATE, F_MMAP, F_CLOSE}; static const int errs[] = {28, 28, 12, 5};
      for (int i = (int)r.range(1, 4); i > 0; i--) { int k = (int)r.below(3); p.faults.push_back({kinds[k], 0, 0, r.chance(1, 2) ? 1L : r.range(1, 12), r.chance(1, 2) || kinds[k] == F_MMAP ? r.range(1, 3) : 1000, errs[k]}); }
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 300), r.range(5, 3000), 0});
    if (r.chance(1, 8)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  // ---- calls that may be refused
  u64 used_total() { u64 s = 0; for (auto &x : get_list(L_USED).v) s += x.second; return s; }
  bool may = true;                       // a refusal may be in order
  struct Try { C25 *c; u64 f0, n0; bool exact; u64 u0 = 0; };
  Try begin() { Try t{this, os_failed_here(), ++calls, false}; active++; if (in_fiber() && active == 1 && only_me_runnable()) { t.exact = true; t.u0 = used_total(); } return t; }
  // a call returned: was a refusal justified, and did it leave everything as it was
  void end(Try &t, bool refused, const char *what, bool creates) {
    active--;
    bool hit = os_failed_here() != t.f0 || anchor_mode;
    if (refused) {
      refusals++;
      if (!hit || !may) fail("refused", "%s was refused although storage was available", what);
      if (t.exact && calls == t.n0 && creates) {
        u64 u = used_total(); probe(11);
        if (u != t.u0) fail("left-behind", "%s was refused and left %lld bytes more in use", what, (long long)(u - t.u0));
      }
      if (!full && !anchor_mode) probe(7);
      if (anchor_mode) probe(6);
    } else if (full) probe(9);
    calls++; progress();
  }
  std::string key(int t, int i) { char b[32]; snprintf(b, sizeof b, "%c%04d-", 'a' + t, i); std::string s = b; while ((long)s.size() < keylen + i % 7) s += (char)('a' + (s.size() * 7 + i) % 26); return s; }
  u64 value(int t, int i) { return 0x1000 + 16 * (u64)(t * 10000 + i); }
  bool put(const Shared &s, int t, int i) {
    std::string k = key(t, i); std::vector<char> buf(k.c_str(), k.c_str() + k.size() + 1); SASIndexKey_t ik; bool ok = false;
    bool isctx = s.kind == CONTEXT;
    if (isctx) { buf.resize(12); buf[11] = 0; }
    Try tr = begin();
    if (s.kind == TREE) ok = A->SASStringBTreePut((SASStringBTree_t)s.a, buf.data(), (void *)value(t, i)) != 0;
    else if (s.kind == INDEX) { A->SASIndexKeyInitUInt64(&ik, value(t, i) * 0x9e3779b97f4a7c15ULL); ok = A->SASIndexPut((SASIndex_t)s.a, &ik, (void *)value(t, i)) != 0; }
    else { ok = A->SPHContextAddName((void *)s.a, buf.data(), (void *)value(t, i)) != 0; }
    std::fill(buf.begin(), buf.end(), '#');
    end(tr, !ok, s.kind == TREE ? "adding a key to a string tree" : s.kind == INDEX ? "adding a key to an index" : "adding a name to a context with room", false);
    if (!ok) { probe(0); if (blocks0 > 50) probe(1); probe(s.kind == TREE ? 12 : 13); }
    return ok;
  }
  bool del(const Shared &s, int t, int i) {
    std::string k = key(t, i); SASIndexKey_t ik; if (s.kind == CONTEXT) k.resize(11);
    Try tr = begin(); bool ok;
    if (s.kind == TREE) ok = A->SASStringBTreeRemove((SASStringBTree_t)s.a, k.c_str()) != nullptr;
    else if (s.kind == INDEX) { A->SASIndexKeyInitUInt64(&ik, value(t, i) * 0x9e3779b97f4a7c15ULL); ok = A->SASIndexRemove((SASIndex_t)s.a, &ik) != nullptr; }
    else ok = A->SPHContextRemoveByName((void *)s.a, k.c_str()) == 0;
    end(tr, false, "", false);
    return ok;
  }
  u64 get(const Shared &s, int t, int i) {
    std::string k = key(t, i); SASIndexKey_t ik; if (s.kind == CONTEXT) k.resize(11);
    Try tr = begin(); u64 v;
    if (s.kind == TREE) v = (u64)A->SASStringBTreeGet((SASStringBTree_t)s.a, k.c_str());
    else if (s.kind == INDEX) { A->SASIndexKeyInitUInt64(&ik, value(t, i) * 0x9e3779b97f4a7c15ULL); v = (u64)A->SASIndexGet((SASIndex_t)s.a, &ik); }
    else v = (u64)A->SPHContextFindByName((void *)s.a, k.c_str());
    end(tr, false, "", false);
    return v;
  }
  // a page of a shared heap, filled with a stamp
  u64 page(const Shared &s, u64 &id) {
    Try tr = begin(); u64 a = (u64)(s.kind == HEAP ? (void *)A->SASCompoundHeapAlloc((SASCompoundHeap_t)s.a) : (void *)A->SPHCompoundPCQAlloc((SASCompoundHeap_t)s.a));
    end(tr, !a, s.kind == HEAP ? "a page of a compound heap" : "a queue of a compound heap", false);
    if (!a) { probe(2); probe(14); return 0; }
    id = serial++;
    if (a % 4096 || a < R_LOW) fail("heap", "a page was handed out at %llx", (unsigned long long)a);
    stamp_write((void *)(a + 2048), 2048, id);
    return a;
  }
  void unpage(const Shared &s, std::pair<u64, u64> g) {
    if (stamp_check((void *)(g.first + 2048), 2048, g.second) >= 0) fail("contents-lost", "a page of a compound heap changed");
    Try tr = begin();
    if (s.kind == HEAP) A->SASCompoundHeapFree((SASCompoundHeap_t)s.a, (SASSimpleHeap_t)g.first); else A->SPHCompoundPCQFree((SASCompoundHeap_t)s.a, (SPHSinglePCQueue_t)g.first);
    end(tr, false, "", false);
  }
  u64 make(int k, u64 z) {
    switch (k) {
      case K_SHEAP: return (u64)A->SASSimpleHeapCreate(z);
      case K_STACK: return (u64)A->SASSimpleStackCreate(z);
      case K_SPACE: return (u64)A->SASSimpleSpaceCreate(z);
      case K_CHEAP: return (u64)A->SASCompoundHeapCreate(z);
      case K_CFIXED: return (u64)A->SASCompoundFixedHeapCreate(z);
      case K_TREE: return (u64)A->SASStringBTreeCreate(z);
      case K_TFIXED: return (u64)A->SASStringBTreeFixedCreate(z);
      case K_INDEX: return (u64)A->SASIndexCreate(z);
      case K_IFIXED: return (u64)A->SASIndexFixedCreate(z);
      case K_CONTEXT: return (u64)A->SPHContextCreate(z);
      case K_LFHEAP: return (u64)A->SPHLockFreeHeapCreate(z, std::max<u64>(64, z / 1024));
      case K_LOG: return (u64)A->SPHLFLoggerCreate(z);
      case K_CLOG: return (u64)A->SPHLFCircularLoggerCreate(z, 128);
      case K_PORTAL: return (u64)A->SPHLogPortalCreate(z);
      case K_QUEUE: return (u64)A->SPHSinglePCQueueCreate(z);
      case K_SQUEUE: return (u64)A->SPHSinglePCQueueCreateWithStride(z, 128);
      case K_MQUEUE: return (u64)A->SPHMPMCQCreateWithStride(z, 128);
      case K_SOM: return (u64)A->SASSOMAlloc((long)z, (long)z);
    }
    return 0;
  }
  void put_parts(Thing &t, u64 a, u64 n) { u64 id = serial++; stamp_write((void *)a, n, id); t.parts.push_back({a, id << 16 | n}); }
  void use(Thing &t) {                      // take something from it
    void *x = (void *)t.a; u64 a = 0; char nm[24]; snprintf(nm, sizeof nm, "key-%llu", (unsigned long long)t.id); SASIndexKey_t ik;
    switch (t.kind) {
      case K_SHEAP: a = (u64)A->SASSimpleHeapAlloc(x, 64); if (a) put_parts(t, a, 64); break;
      case K_STACK: if (t.parts.empty()) { a = (u64)A->SASSimpleStackAlloc(x, 64); if (a) put_parts(t, a, 64); } else return; break;
      case K_SPACE: a = (u64)A->SASSimpleSpaceToAddr(x); if (t.parts.empty()) put_parts(t, a, 64); break;
      case K_CHEAP: case K_CFIXED: return;
      case K_TREE: case K_TFIXED: if (!t.parts.empty()) return; if (!A->SASStringBTreePut(x, nm, x)) fail("use", "a new %s takes no key", kname(t.kind)); if (A->SASStringBTreeGet(x, nm) != x) fail("use", "a %s lost its key", kname(t.kind)); t.parts.push_back({0, 0}); return;
      case K_INDEX: case K_IFIXED: if (!t.parts.empty()) return; A->SASIndexKeyInitUInt64(&ik, t.id); if (!A->SASIndexPut(x, &ik, x)) fail("use", "a new %s takes no key", kname(t.kind)); if (A->SASIndexGet(x, &ik) != x) fail("use", "a %s lost its key", kname(t.kind)); t.parts.push_back({0, 0}); return;
      case K_CONTEXT: if (!t.parts.empty()) return; if (!A->SPHContextAddName(x, nm, x)) fail("use", "a new context takes no name"); if (A->SPHContextFindByName(x, nm) != x) fail("use", "a context lost its name"); t.parts.push_back({0, 0}); return;
      case K_LFHEAP: a = (u64)A->SPHLockFreeHeapAlloc(x, 64); if (a) put_parts(t, a, 64); break;
      case K_LOG: case K_CLOG: if (t.kind == K_CLOG && t.parts.size()) return; a = (u64)A->SPHLFLoggerAllocRaw(x, 128); if (a) put_parts(t, a + 64, 64); break;
      case K_PORTAL: if (!A->SPHLogPortalEmpty(x)) fail("use", "a new portal is not empty"); return;
      case K_QUEUE: case K_SQUEUE: if (!A->SPHSinglePCQueueEmpty(x) && t.parts.empty()) fail("use", "a new queue is not empty"); return;
      case K_MQUEUE: if (!A->SPHMPMCQIsEmpty(x)) fail("use", "a new queue is not empty"); return;
      case K_SOM: { if (!t.parts.empty()) return; volatile u64 *w = (volatile u64 *)t.a; u64 n = som(t.sz) / 8; for (u64 i = 0; i < n; i++) if (w[i]) fail("not-zero", "word %llu of %llu of a block of zeros is %llx", (unsigned long long)i, (unsigned long long)n, (unsigned long long)w[i]); for (u64 i = 0; i < n; i += 97) w[i] = 1; w[n - 1] = 7; put_parts(t, t.a, 4096); return; }
    }
    if (a && (a < t.a || a >= t.a + (t.kind == K_SPACE ? 2 * t.sz + 4096 : t.sz))) fail("use", "a %s handed out storage outside itself", kname(t.kind));
    if (!a && t.parts.empty() && t.sz >= 8192) fail("use", "a new %s of %llu bytes has nothing to hand out", kname(t.kind), (unsigned long long)t.sz);
  }
  static u64 som(u64 z) { return z <= 4096 ? 4096 : z <= 16384 ? 16384 : z <= 65536 ? 65536 : z <= (256 << 10) ? 256 << 10 : 1 << 20; }
  void intact(Thing &t) {
    for (auto &x : t.parts) if (x.first && stamp_check((void *)x.first, x.second & 0xffff, x.second >> 16) >= 0) fail("contents-lost", "storage of a %s changed", kname(t.kind));
    char nm[24]; snprintf(nm, sizeof nm, "key-%llu", (unsigned long long)t.id); SASIndexKey_t ik; void *x = (void *)t.a;
    if (t.parts.empty()) return;
    switch (t.kind) {
      case K_TREE: case K_TFIXED: if (A->SASStringBTreeGet(x, nm) != x) fail("contents-lost", "a string tree lost its key"); break;
      case K_INDEX: case K_IFIXED: A->SASIndexKeyInitUInt64(&ik, t.id); if (A->SASIndexGet(x, &ik) != x) fail("contents-lost", "an index lost its key"); break;
      case K_CONTEXT: if (A->SPHContextFindByName(x, nm) != x || std::string(nm) != (char *)A->SPHContextFindByAddr(x, x)) fail("contents-lost", "a context lost its name"); break;
    }
  }
  void destroy(Thing &t) {
    void *x = (void *)t.a; int rc = 0; intact(t);
    Try tr = begin();
    switch (t.kind) {
      case K_SHEAP: A->SASSimpleHeapDestroy(x); break;
      case K_STACK: A->SASSimpleStackDestroy(x); break;
      case K_SPACE: A->SASSimpleSpaceDestroy(x); break;
      case K_CHEAP: case K_CFIXED: A->SASCompoundHeapDestroy(x); break;
      case K_TREE: case K_TFIXED: A->SASStringBTreeDestroy(x); break;
      case K_INDEX: case K_IFIXED: A->SASIndexDestroy(x); break;
      case K_CONTEXT: rc = A->SPHContextDestroy(x); break;
      case K_LFHEAP: A->SPHLockFreeHeapDestroy(x); break;
      case K_LOG: case K_CLOG: rc = A->SPHLFLoggerDestroy(x); break;
      case K_PORTAL: rc = A->SPHLogPortalDestroy(x); break;
      case K_QUEUE: case K_SQUEUE: rc = A->SPHSinglePCQueueDestroy(x); break;
      case K_MQUEUE: rc = A->SPHMPMCQDestroy(x); break;
      case K_SOM: A->SASSOMDestroy(x, (long)t.sz); break;
    }
    end(tr, false, "", false);
    if (rc) fail("destroy", "destroying a %s failed", kname(t.kind));
  }
  bool create(Mine &m, int k, u64 z) {
    if ((k == K_CHEAP || k == K_CFIXED || k == K_TREE || k == K_TFIXED || k == K_INDEX || k == K_IFIXED || k >= K_LOG) && k != K_SOM && z < 16384) z = 16384;
    if (k == K_LFHEAP && z < 8192) z = 8192;
    Try tr = begin(); u64 a = make(k, z);
    char b[60]; snprintf(b, sizeof b, "creating a %s of %llu bytes", kname(k), (unsigned long long)z);
    end(tr, !a, b, true);
    if (!a) { probe(4); if (k == K_CONTEXT) probe(15); return false; }
    if (a < R_LOW || a % 4096) fail("create", "%s gave %llx", b, (unsigned long long)a);
    Thing t{k, a, z, serial++, {}}; use(t); m.things.push_back(t);
    return true;
  }
  bool block(Mine &m, u64 z) {
    Try tr = begin(); u64 a = (u64)A->SASBlockAlloc(z);
    end(tr, !a, "a block", true);
    if (!a) { probe(3); return false; }
    u64 id = serial++; stamp_write((void *)a, z, id); m.blocks.push_back({a, z | id << 32});
    return true;
  }
  void unblock(std::pair<u64, u64> b) { u64 z = b.second & 0xffffffff; if (stamp_check((void *)b.first, z, b.second >> 32) >= 0) fail("contents-lost", "a block changed"); Try tr = begin(); A->SASBlockDealloc((void *)b.first, z); end(tr, false, "", false); }
  bool project(Mine &m, int t) {
    char nm[20]; snprintf(nm, sizeof nm, "project-%d", t);
    Try tr = begin(); u64 a = (u64)A->SPHSetupAltProjectContext(nm);
    bool root = A->getSASFinder() != nullptr; (void)root;
    end(tr, !a, "setting up a project", false);
    if (!a) { probe(5); if (m.project) fail("project", "a project that exists is refused"); if (A->getProjectContextByName(nm)) fail("project", "a refused project exists"); return false; }
    if (m.project && m.project != a) fail("project", "another context is returned for a project");
    if (!m.project) { m.project = a; if (!A->SPHContextAddName((void *)a, "n", (void *)a)) fail("use", "a new project takes no name"); }
    if (A->SPHContextFindByName((void *)a, "n") != (void *)a) fail("contents-lost", "a project lost its name");
    return true;
  }
  void hogmore(u64 least) { for (u64 z = 128ULL << 20; z >= least; z >>= 1) for (;;) { u64 b = (u64)A->SASBlockAlloc(z); if (!b) break; hog.push_back({b, z}); } }
  void fillup() { bool f = full; os_fail_blocks(true); hogmore(4096); if (!f) os_fail_blocks(false); }
  void give(long x, u64 want = 0) {          // let a piece become free
    if (hog.empty()) return;
    size_t best = hog.size() - 1 - (size_t)x % std::min<size_t>(hog.size(), 8);
    if (!want) want = 4096ULL << (x / 8 % 8);
    else for (size_t i = 0; i < hog.size(); i++) if (hog[i].second >= want) { best = i; break; }
    auto h = hog[best]; hog.erase(hog.begin() + best);
    if (h.second > want) {                   // keep the rest
      A->SASBlockDealloc((void *)h.first, h.second);
      for (u64 z = h.second / 2; z >= want; z /= 2) { u64 b = (u64)A->SASBlockAlloc(z); if (b) hog.push_back({b, z}); }
    } else A->SASBlockDealloc((void *)h.first, h.second);
  }
  // one operation; false when it was refused and is to be tried again
  bool run(int th, Mine &m, const Op &o) {
    switch (o.k) {
      case PUT: case DEL: case GET: {
        const Shared &s = S[o.a % (long)S.size()]; int si = (int)(o.a % (long)S.size());
        if (s.kind == HEAP || s.kind == PCQHEAP) {
          if (o.k == PUT) { u64 id, a = page(s, id); if (!a) return false; m.pages[si].push_back({a, id}); }
          else if (o.k == DEL) { if (!m.pages[si].empty()) { size_t j = o.b % m.pages[si].size(); auto g = m.pages[si][j]; m.pages[si].erase(m.pages[si].begin() + j); unpage(s, g); } }
          else for (auto &g : m.pages[si]) if (stamp_check((void *)(g.first + 2048), 2048, g.second) >= 0) fail("contents-lost", "a page of a compound heap changed");
          return true;
        }
        if (o.k == PUT) {
          for (int i = 0, n = 0; n < (s.kind == CONTEXT ? 1 : o.b); i++) {
            int k = (int)(o.d + i * 37) % 1000; if (m.keys[si].count(k)) { if (i > 1000) break; continue; }
            if (s.kind == CONTEXT && m.keys[si].size() >= 20) return true;
            n++;
            if (!put(s, th, k)) { if (get(s, th, k)) fail("half-done", "a key whose insertion was refused is found"); return false; }
            m.keys[si].insert(k);
          }
        } else if (o.k == DEL) {
          if (m.keys[si].empty()) return true;
          auto it = m.keys[si].begin(); std::advance(it, o.b % m.keys[si].size()); int k = *it; m.keys[si].erase(it);
          if (!del(s, th, k)) fail("contents-lost", "a key that was put cannot be removed");
          if (get(s, th, k)) fail("contents-lost", "a removed key is still found");
        } else {
          for (int i = 0; i < 5; i++) { int k = (int)(o.d + i * 91) % 1000; bool want = m.keys[si].count(k); u64 v = get(s, th, k); if (v != (want ? value(th, k) : 0)) fail("contents-lost", "a key has value %llx, should have %llx", (unsigned long long)v, (unsigned long long)(want ? value(th, k) : 0)); }
        }
        return true;
      }
      case BLOCK: return block(m, 1ULL << o.b);
      case UNBLOCK: if (!m.blocks.empty()) { size_t j = o.d % m.blocks.size(); auto b = m.blocks[j]; m.blocks.erase(m.blocks.begin() + j); unblock(b); } return true;
      case CREATE: return create(m, (int)o.a, 1ULL << o.b);
      case USE: if (!m.things.empty()) { Thing &t = m.things[o.d % m.things.size()]; intact(t); use(t); } return true;
      case DESTROY: if (!m.things.empty()) { size_t j = o.d % m.things.size(); Thing t = m.things[j]; m.things.erase(m.things.begin() + j); destroy(t); } return true;
      case PROJECT: return project(m, th);
      case GIVE: { Try tr = begin(); give(o.d); end(tr, false, "", false); return true; }
      case TAKE: { Try tr = begin(); u64 z = 4096ULL << (o.d % 6); u64 b = (u64)A->SASBlockAlloc(z); if (b) hog.push_back({b, z}); end(tr, false, "", false); return true; }
      case ROOM: full = false; os_fail_blocks(false); return true;
      case FULL: full = true; os_fail_blocks(true); return true;
      case LOCKS: { const Shared &s = S[o.a % (long)S.size()]; A->SASLock((void *)s.a, o.d % 2 ? SasUserLock__WRITE : SasUserLock__READ); A->SASUnlock((void *)s.a); return true; }
    }
    return true;
  }
  void op(int th, int, const Op &o) override {
    A->SASThreadSetUp();
    Mine &m = M[th];
    if (!run(th, m, o)) m.refused.push_back(o);
  }
  void setup(Prog &p) override {
    np = p.nprocs; stop_faults();
    for (int i = 0; i < np; i++) join(i);
    proc_switch(0);
    Rng r((u64)p.cfg[4]);
    M.resize(p.threads.size() + 1); int T = (int)p.threads.size();
    keylen = (long[]){8, 60, 300, 1000}[p.cfg[6]]; sz = 1L << p.cfg[9];
    if (!p.cfg[7]) { if (!A->SPHSetupAltProjectContext("warm") || A->SPHDestroyProjectContext("warm")) fail("project", "setting up or destroying a project failed"); }
    if (p.cfg[0] == 3 && p.cfg[11]) A->setSASLinearUseList();
    used0 = used_total();
    for (int k = 0; k < NOBJ; k++) if (p.cfg[1] >> k & 1) {
      u64 a = (u64)(k == TREE ? A->SASStringBTreeCreate(sz) : k == INDEX ? A->SASIndexCreate(sz) : k == CONTEXT ? A->SPHContextCreate(4096 * 4) : A->SASCompoundHeapCreate(sz));
      if (!a) fail("create", "creating a shared container was refused");
      S.push_back({k, a});
    }
    may = false;
    // grow them first
    u64 want = (u64)p.cfg[2] * (u64)sz;
    for (size_t i = 0; i < S.size(); i++) {
      int k = S[i].kind; u64 u0 = used_total();
      if (k == CONTEXT) continue;
      if (!p.cfg[2]) continue;
      for (int j = 0; j < 4000 && ((j % 16 && p.cfg[3] >= 0) || used_total() - u0 < want); j++) {
        if (k == HEAP || k == PCQHEAP) { u64 id, a = page(S[i], id); M[T].pages[i].push_back({a, id}); }
        else { put(S[i], T, j); M[T].keys[i].insert(j); }
        progress();
      }
      if (p.cfg[2] > 50) probe(16);
    }
    may = true; blocks0 = p.cfg[2];
    // take what the store has, but for a few pieces
    full = p.cfg[0] != 2; os_fail_blocks(true);
    hogmore(4096);
    for (int i = 0; i < p.cfg[3]; i++) give((long)r.below(1000));
    for (int i = 0; i > p.cfg[3]; i--) give((long)r.below(1000), (u64)sz);
    os_fail_blocks(full);
    if (p.cfg[0] == 3) {
      anchor_mode = true; full = r.chance(1, 2); os_fail_blocks(full);
      long left = (96 + p.cfg[8]) * 32;     // what the store keeps for returning storage stays
      for (long z = 65536; z >= 32; z /= 2) for (;;) { long f = (long)A->SASAnchorFreeSpace(); if (f - z < left) break; void *x = A->SASNearAlloc((void *)R_LOW, z); if (!x) break; ahog.push_back({x, z}); }
    }
    if (p.cfg[10] && p.cfg[0] != 2) for (size_t i = 0; i < S.size(); i++) {
      Mine &m = M[T]; int base = (int)m.keys[i].size();
      if (S[i].kind == CONTEXT) continue;
      for (int j = 0; j < 150 && base + j < 1000; j++) {
        if (S[i].kind == HEAP || S[i].kind == PCQHEAP) { u64 id, a = page(S[i], id); if (!a) break; m.pages[i].push_back({a, id}); }
        else { if (!put(S[i], T, base + j)) { m.refused.push_back({PUT, (long)i, 1, 0, (long)(base + j)}); break; } m.keys[i].insert(base + j); }
        progress();
      }
    }
    start_faults();
  }
  void verify(const char *when, bool locks) {
    for (size_t th = 0; th < M.size(); th++) {
      Mine &m = M[th];
      for (size_t i = 0; i < S.size(); i++) {
        if (S[i].kind == HEAP || S[i].kind == PCQHEAP) { for (auto &g : m.pages[i]) if (stamp_check((void *)(g.first + 2048), 2048, g.second) >= 0) fail("contents-lost", "%s: a page of a compound heap changed", when); continue; }
        for (int k = 0; k < 4000; k++) {
          bool want = m.keys[i].count(k); if (!want && (k % 16 || k > 1000)) continue;
          u64 v = get(S[i], (int)th, k);
          if (v != (want ? value((int)th, k) : 0)) fail("contents-lost", "%s: a key of %s has value %llx, should have %llx", when, S[i].kind == TREE ? "a string tree" : S[i].kind == INDEX ? "an index" : "a context", (unsigned long long)v, (unsigned long long)(want ? value((int)th, k) : 0));
        }
      }
      for (auto &b : m.blocks) if (stamp_check((void *)b.first, b.second & 0xffffffff, b.second >> 32) >= 0) fail("contents-lost", "%s: a block changed", when);
      for (auto &t : m.things) intact(t);
      if (m.project && A->SPHContextFindByName((void *)m.project, "n") != (void *)m.project) fail("contents-lost", "%s: a project lost its name", when);
      progress();
    }
    if (locks) for (int i = 0; i < np; i++) {
      proc_switch(i);
      for (auto &s : S) { A->SASLock((void *)s.a, SasUserLock__WRITE); A->SASUnlock((void *)s.a); }
      A->SASLock((void *)R_LOW, SasUserLock__WRITE); A->SASUnlock((void *)R_LOW);
    }
    proc_switch(0);
  }
  // use up the bookkeeping space with blocks, and give them back
  void listspace(Rng &r) {
    u64 u = used_total(); std::vector<std::pair<u64, u64>> v;
    os_fail_blocks(false);
    for (int round = 0; round < 3; round++) {
      for (int i = 0; i < 400; i++) { u64 z = 4096ULL << r.below(r.chance(1, 8) ? 12 : 2), b = (u64)A->SASBlockAlloc(z); if (!b) break; stamp_write((void *)b, 64, b); v.push_back({b, z}); progress(); }
      for (auto &b : v) if (stamp_check((void *)b.first, 64, b.first) >= 0) fail("contents-lost", "a block changed while the bookkeeping space was used up");
      size_t keep = round == 2 ? 0 : v.size() / 3;
      while (v.size() > keep) { size_t j = r.below(v.size()); A->SASBlockDealloc((void *)v[j].first, v[j].second); v.erase(v.begin() + j); progress(); }
    }
    if (used_total() != u) fail("leak", "blocks taken and returned with little bookkeeping space left %lld bytes in use", (long long)(used_total() - u));
    verify("after the bookkeeping space was used up", true); probe(18);
  }
  void finish(Prog &p) override {
    Rng r((u64)p.cfg[4] + 1);
    stop_faults();
    verify("with the store still full", true);
    if (p.cfg[5] && !anchor_mode) {
      for (int i = 0; i < np; i++) { proc_switch(i); A->SASCleanUp(); proc_exit(i); }
      for (int i = 0; i < np; i++) { proc_start(i); join(i); }
      proc_switch(0); probe(10);
      verify("after everybody left and rejoined", true);
    }
    if (anchor_mode && p.cfg[11]) listspace(r);
    // room again
    for (auto &x : ahog) A->SASNearDealloc(x.first, x.second);
    anchor_mode = false; full = false; os_fail_blocks(false); may = false;
    if (r.chance(1, 2)) { for (auto &h : hog) A->SASBlockDealloc((void *)h.first, h.second); hog.clear(); }
    for (size_t th = 0; th < M.size(); th++) {
      proc_switch((int)(th % np));
      for (auto &o : M[th].refused) { probe(8); if (!run((int)th, M[th], o)) fail("refused", "%s is refused though there is room again", opnames[o.k]); progress(); }
    }
    proc_switch(0);
    verify("after trying again", true);
    for (int i = 0; i < 3; i++) {                // and go on
      for (size_t j = 0; j < S.size(); j++) { Op o{PUT, (long)j, 3, 0, (long)r.below(1000)}; if (!run(0, M[0], o)) fail("refused", "a container does not grow though there is room"); }
      progress();
    }
    probe(17);
    // everything goes
    for (size_t th = 0; th < M.size(); th++) {
      Mine &m = M[th];
      for (size_t i = 0; i < S.size(); i++) {
        while (!m.pages[i].empty()) { unpage(S[i], m.pages[i].back()); m.pages[i].pop_back(); progress(); }
        if (r.chance(1, 2)) for (int k : m.keys[i]) { if (!del(S[i], (int)th, k)) fail("contents-lost", "at the end a key cannot be removed"); progress(); }
      }
      for (auto &b : m.blocks) unblock(b);
      for (auto &t : m.things) { destroy(t); progress(); }
      char nm[20]; snprintf(nm, sizeof nm, "project-%d", (int)th);
      if (m.project && A->SPHDestroyProjectContext(nm)) fail("destroy", "destroying a project failed");
    }
    for (auto &h : hog) A->SASBlockDealloc((void *)h.first, h.second);
    for (auto &s : S) {
      if (s.kind == TREE) A->SASStringBTreeDestroy((void *)s.a); else if (s.kind == INDEX) A->SASIndexDestroy((void *)s.a);
      else if (s.kind == CONTEXT) { if (A->SPHContextDestroy((void *)s.a)) fail("destroy", "destroying a context failed"); } else A->SASCompoundHeapDestroy((void *)s.a);
      progress();
    }
    u64 u = used_total(), root = p.cfg[7] && A->getSASFinder() ? 65536 + (32ULL << 20) : 0;
    if (u != used0 + root) fail("leak", "with everything destroyed %lld bytes more are in use than at first", (long long)(u - used0 - root));
  }
};
Reg reg(new C25);
}
