// String-keyed trees: C09 (map) and C10 (walks).
#pragma once
#include "map.h"
struct StrMap : MapCheck {
  std::vector<std::string> keys;
  StrMap(const char *id, bool w) : MapCheck(id, w) {
    real = {"sasstringbtree.cpp", "sasstringbtreenode.cpp", "sasstringbtreeenum.cpp", "freenode.c", "saslock.cpp", "sasalloc.cpp", "sassim.cpp", "ultree.cpp"};
  }
  void gen_universe(Rng &r, Prog &p) override {
    if (p.cfg[1] == 5 || p.cfg[1] == 6) { p.cfg[0] = std::min(p.cfg[0], 250L); p.cfg[4] = std::max(p.cfg[4], p.cfg[1] == 5 ? 16L : 18L); }
    if (p.cfg[1] == 3) p.cfg[4] = std::max(p.cfg[4], p.cfg[0] > 300 ? 18L : 16L);
    if (p.cfg[0] > 2000 && p.cfg[1] == 1) p.cfg[1] = 0;
    (void)r;
  }
  void universe(Rng &r, Prog &p) override {
    std::set<std::string> s; long want = p.cfg[0]; int style = (int)p.cfg[1];
    std::string pre; for (int i = (int)r.range(20, 200); i > 0; i--) pre += (char)r.range('a', 'z');
    auto rnd = [&](long lo, long hi) { std::string x; for (long i = r.range(lo, hi); i > 0; i--) x += (char)r.range(1, 255); return x; };
    char b[64];
    for (long tries = 0; (long)s.size() < want && tries < want * 20 + 100; tries++) {
      switch (style) {
        case 0: snprintf(b, sizeof b, "%ld", (long)r.below(want * 3)); s.insert(b); break;
        case 1: snprintf(b, sizeof b, "%06ld", (long)r.below(want * 2)); s.insert(pre + b); break;
        case 2: s.insert(rnd(0, 5)); break;
        case 3: s.insert(r.chance(1, 6) ? rnd(100, 1000) : rnd(0, 40)); break;
        case 4: { std::string x; for (int i = (int)r.range(1, 5); i > 0; i--) { x += '/'; x += std::string((size_t)r.range(1, 3), (char)r.range('a', 'e')); } s.insert(x); break; }
        case 5: s.insert(rnd(300, 900)); break;
        case 6: s.insert(r.chance(1, 3) ? rnd(1000, 3600) : r.chance(1, 6) ? rnd(3700, 9000) : rnd(0, 300)); break;
        default: snprintf(b, sizeof b, "%ld", tries); s.insert(std::string(b) + std::string((size_t)r.below(20), 'x')); break;
      }
    }
    if (r.chance(1, 3)) s.insert("");
    keys.assign(s.begin(), s.end());      // std::string orders by unsigned bytes
    n = (int)keys.size();
  }
  const void *key(int k, std::vector<char> &b) override { b.assign(keys[k].c_str(), keys[k].c_str() + keys[k].size() + 1); return b.data(); }
  size_t keylen(int k) override { return keys[k].size() + 1; }
  bool mayrefuse(int k) override { return keys[k].size() + 1 > page - 256; }
  std::string kname(int k) override {
    std::string s = "\""; char b[8];
    for (size_t i = 0; i < keys[k].size() && i < 24; i++) { unsigned char c = (unsigned char)keys[k][i]; if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\%02x", c); s += b; } else s += (char)c; }
    snprintf(b, sizeof b, "%zu", keys[k].size());
    return s + "\"[" + b + "]";
  }
  int keyof(const void *p) override {
    std::string s((const char *)p);
    auto it = std::lower_bound(keys.begin(), keys.end(), s);
    return it != keys.end() && *it == s ? (int)(it - keys.begin()) : -1;
  }
  SASStringBTree_t t() { return (SASStringBTree_t)tree; }
  void *m_create(int how, u64 size, u64 page) override {
    switch (how) {
      case 0: return A->SASStringBTreeCreate(size);
      case 1: return A->SASStringBTreeCreatePageSize(size, page);
      case 2: return A->SASStringBTreeFixedCreate(size);
      default: {
        void *b = A->SASBlockAlloc(size);
        if (!b) sim_error("setup: block");
        return A->SASStringBTreeInit(b, size, page, how == 3);
      }
    }
  }
  void m_destroy() override { if (regime) { lock(); A->SASStringBTreeDestroyNoLock(t()); unlock(); } else A->SASStringBTreeDestroy(t()); }
  int m_put(bool nl, const void *k, void *v) override { return nl ? A->SASStringBTreePut_nolock(t(), (const char *)k, v) : A->SASStringBTreePut(t(), (const char *)k, v); }
  void *m_replace(bool nl, const void *k, void *v) override { return nl ? A->SASStringBTreeReplace_nolock(t(), (const char *)k, v) : A->SASStringBTreeReplace(t(), (const char *)k, v); }
  void *m_get(bool nl, const void *k) override { return nl ? A->SASStringBTreeGet_nolock(t(), (const char *)k) : A->SASStringBTreeGet(t(), (const char *)k); }
  int m_contains(bool nl, const void *k) override { return nl ? A->SASStringBTreeContainsKey_nolock(t(), (const char *)k) : A->SASStringBTreeContainsKey(t(), (const char *)k); }
  void *m_remove(bool nl, const void *k) override { return nl ? A->SASStringBTreeRemove_nolock(t(), (const char *)k) : A->SASStringBTreeRemove(t(), (const char *)k); }
  const void *m_min(bool nl) override { return nl ? A->SASStringBTreeGetMinKey_nolock(t()) : A->SASStringBTreeGetMinKey(t()); }
  const void *m_max(bool nl) override { return nl ? A->SASStringBTreeGetMaxKey_nolock(t()) : A->SASStringBTreeGetMaxKey(t()); }
  int m_empty(bool nl) override { return nl ? A->SASStringBTreeIsEmpty_nolock(t()) : A->SASStringBTreeIsEmpty(t()); }
  long m_count() override { return A->SASStringBTreeGetCurCount(t()); }
  u64 m_freespace() override { return A->SASStringBTreeFreeSpace(t()); }
  long m_mods(bool nl) override { return nl ? A->SASStringBTreeGetModCount_nolock(t()) : A->SASStringBTreeGetModCount(t()); }
  void *m_root(bool nl) override { return nl ? A->SASStringBTreeGetRootNodeNoLock(t()) : A->SASStringBTreeGetRootNode(t()); }
  bool m_search(void *root, int kind, const void *k, const void *&fk, void *&fv) override {
    SBTnodePosRef ref = {nullptr, 0}; int f = 0; auto q = (const char *)k;
    switch (kind) {
      case EQ: f = A->SASStringBTreeNodeSearch(root, q, &ref); break;
      case GE: f = A->SASStringBTreeNodeSearchGE(root, q, &ref); break;
      case GT: f = A->SASStringBTreeNodeSearchGT(root, q, &ref); break;
      case LE: f = A->SASStringBTreeNodeSearchLE(root, q, &ref); break;
      case LT: f = A->SASStringBTreeNodeSearchLT(root, q, &ref); break;
    }
    if (f) { fk = A->SASStringBTreeNodeGetKeyIndexed(ref.node, ref.pos); fv = A->SASStringBTreeNodeGetValIndexed(ref.node, ref.pos); }
    return f != 0;
  }
  int m_node(void *nd, int i, void *&b, const void *&k, void *&v) override {
    b = A->SASStringBTreeNodeGetBranchIndexed(nd, i); k = i ? A->SASStringBTreeNodeGetKeyIndexed(nd, i) : nullptr; v = i ? A->SASStringBTreeNodeGetValIndexed(nd, i) : nullptr;
    return A->SASStringBTreeNodeGetCount(nd);
  }
  // Pages of the tree taken and given back by the caller, whoever took them
  struct Page { u64 p; u64 tag; };
  std::vector<Page> pool; u64 tags = 0;
  bool has_pages() override { return !walkcheck; }
  u64 blk(u64 a) { return a & ~(size - 1); }
  void page_new(u64 a, const char *how) {
    if (!a) return;
    probe(27);
    if ((a & (page - 1)) || (a & (size - 1)) < 4096) fail("page-place", "a node page of %llu bytes %s at %llx, in no page of a block of %llu bytes", (unsigned long long)page, how, (unsigned long long)a, (unsigned long long)size);
    for (auto &x : pool) if (x.p == a) fail("page-twice", "the node page at %llx is given out twice", (unsigned long long)a);
    if (int c = A->SASStringBTreeNodeGetCount((void *)a)) fail("page-content", "a new node page holds %d keys", c);
    u64 tag = 0x517cc1b727220a95ULL * ++tags;
    for (u64 i = page - 256; i < page; i += 8) *(u64 *)(a + i) = tag + i;
    pool.push_back({a, tag});
  }
  void page_ok(const Page &x) {
    for (u64 i = page - 256; i < page; i += 8) if (*(u64 *)(x.p + i) != x.tag + i) fail("page-content", "byte %llu of a node page at %llx changed while the caller held it", (unsigned long long)i, (unsigned long long)x.p);
  }
  void page_free(int how, Page x, bool nl, Rng &r) {
    page_ok(x);
    u64 in = x.p + (how & 2 ? r.below(page) : 0);
    if (how & 1) { if (nl) A->SASStringBTreeNearDeallocNoLock((void *)in); else A->SASStringBTreeNearDealloc((void *)in); }
    else { if (nl) A->SASStringBTreeFreeNoLock(t(), (void *)x.p); else A->SASStringBTreeFree(t(), (void *)x.p); }
  }
  void pages(int th, const Op &o) override {
    Rng r((u64)o.d);
    bool nl = lock();
    int act = (int)(o.c % 8);
    size_t cap = expanding ? 12 : 3;
    for (int i = 0; i <= (int)(o.b % 3); i++) {
      if (A->SASStringBTreeAllocSize(t()) != page) fail("page-size", "pages of %llu bytes reported, created with %llu", (unsigned long long)A->SASStringBTreeAllocSize(t()), (unsigned long long)page);
      bool alone = modifiers == 0; modifiers++; ver++; u64 v0 = ver;
      u64 f0 = nl ? A->SASStringBTreeFreeSpaceNoLock(t()) : A->SASStringBTreeFreeSpace(t());
      long grow = 0; u64 near = 0, got = 0; bool was = false;
      std::vector<Page> mine;
      int m = act;
      if (m > 4 && pool.empty()) m = (int)r.below(4);
      if (m <= 4 && pool.size() >= cap) m = 7;
      if (m <= 4) {
        if (m > 2) {
          near = (u64)tree;
          if (!pool.empty() && r.chance(2, 3)) { Page x = pool[r.below(pool.size())]; pool.erase(std::find_if(pool.begin(), pool.end(), [&](const Page &y) { return y.p == x.p; })); mine.push_back(x); near = x.p + (r.chance(1, 2) ? r.below(page) : 0); }
          else if (r.chance(1, 2)) near += r.below(4096);
          got = (u64)(nl ? A->SASStringBTreeNearAllocNoLock((void *)near) : A->SASStringBTreeNearAlloc((void *)near));
          probe(28);
        } else got = (u64)(nl ? A->SASStringBTreeAllocNoLock(t()) : A->SASStringBTreeAlloc(t()));
        page_new(got, m > 2 ? "near an address" : "of the tree");
        for (auto &x : mine) { page_ok(x); pool.push_back(x); }
        was = true;
        if (!got && expanding) fail("page-refused", "an expanding tree has no page for a node");
        grow = got ? -(long)page : 0;
      } else {
        size_t k = r.below(pool.size()); Page x = pool[k]; pool.erase(pool.begin() + k);
        page_free((int)r.below(4), x, nl, r);
        grow = (long)page;
      }
      u64 f1 = nl ? A->SASStringBTreeFreeSpaceNoLock(t()) : A->SASStringBTreeFreeSpace(t());
      if (alone && ver == v0) {
        probe(29);
        long d = (long)(f1 - f0);
        bool ok = d == grow || (was && got && expanding && d == grow + (long)(size - 4096));
        if (!ok) fail("page-space", "%s a node page of %llu bytes changed the free space of the tree by %ld", was ? got ? "taking" : "failing to take" : "giving back", (unsigned long long)page, d);
        if (was && !got && f1 >= page) fail("page-refused", "no node page although %llu bytes are free", (unsigned long long)f1);
        if (got && near && blk(near) != blk(got)) {
          // only with no page left in the near block: a page given back there is taken next
          u64 g2 = (u64)(nl ? A->SASStringBTreeNearAllocNoLock((void *)near) : A->SASStringBTreeNearAlloc((void *)near));
          page_new(g2, "near an address");
          if (g2 && blk(g2) == blk(near) && ver == v0) fail("page-near", "a node page near %llx was taken from another block than the next one, near it", (unsigned long long)near);
        }
      }
      modifiers--; ver++;
      settle(); progress();
      if (!nl) for (int j = (int)r.below(3); j > 0; j--) sim_yield();
    }
    if (nl) unlock();
  }
  void pages_check(bool drop) override {
    Rng r(tags + 1);
    for (auto &x : pool) page_ok(x);
    if (!drop) return;
    bool nl = regime != 0;
    if (nl) lock();
    while (!pool.empty()) { Page x = pool.back(); pool.pop_back(); u64 f0 = A->SASStringBTreeFreeSpaceNoLock(t()); page_free((int)r.below(4), x, nl, r); if (A->SASStringBTreeFreeSpaceNoLock(t()) != f0 + page) fail("page-space", "giving back a node page left %lld bytes more free", (long long)(A->SASStringBTreeFreeSpaceNoLock(t()) - f0)); }
    if (nl) unlock();
  }
  void *e_create() override { return A->SASStringBTreeEnumCreate(t()); }
  long e_count(void *e) override { return A->SASStringBTreeEnumCount(e); }
  bool has_start() override { return true; }
  void *e_start(int k, int variant, int &lb) override {
    std::string s = keys[k];
    if (variant == 1) s += '\x01';
    else if (variant == 2 && !s.empty()) s.resize(s.size() / 2);
    else if (variant == 3 && !s.empty() && (unsigned char)s.back() < 255) s.back()++;
    lb = (int)(std::lower_bound(keys.begin(), keys.end(), s) - keys.begin());
    std::vector<char> b(s.c_str(), s.c_str() + s.size() + 1);
    void *e = A->SASStringBTreeEnumCreateStartAt(t(), b.data());
    if (memcmp(b.data(), s.c_str(), s.size() + 1)) fail("walk-start", "the start key was changed by the call");
    std::fill(b.begin(), b.end(), 0x41);
    return e;
  }
  int e_more(void *e) override { return A->SASStringBTreeEnumHasMore(e); }
  void *e_next(bool nl, void *e) override { return nl ? A->SASStringBTreeEnumNext_nolock(e) : A->SASStringBTreeEnumNext(e); }
  const void *e_cur(void *e) override { return A->SASStringBTreeEnumCurrent(e); }
  void e_destroy(void *e) override { A->SASStringBTreeEnumDestroy(e); }
};
