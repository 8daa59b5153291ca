// Binary-keyed indexes: C11 (map) and C12 (walks).
#pragma once
#include "map.h"
#include <cmath>
struct IdxMap : MapCheck {
  enum { UINT, INT, DOUBLE, REF, WORDS, MIXED };
  struct Key { std::vector<u64> w; u64 u = 0; long long i = 0; double d = 0; };
  std::vector<Key> keys; int type = 0;
  IdxMap(const char *id, bool w) : MapCheck(id, w) {
    real = {"sasindex.cpp", "sasindexnode.cpp", "sasindexenum.cpp", "sasindexkey.h", "freenode.c", "saslock.cpp", "sasalloc.cpp", "sassim.cpp", "ultree.cpp"};
  }
  void gen_universe(Rng &r, Prog &p) override {
    (void)r;
    if (p.cfg[1] >= 6) p.cfg[4] = std::max(p.cfg[4], p.cfg[0] > 300 ? 18L : 16L);
  }
  static bool less(const Key &a, const Key &b) { return a.w < b.w; }      // word by word, then the shorter one
  void universe(Rng &r, Prog &p) override {
    long want = p.cfg[0]; int st = (int)p.cfg[1];
    // 0,1 unsigned; 2 signed; 3 floating point; 4 addresses; 5 small signed; 6 several words; 7 mixed lengths
    static const int T[8] = {UINT, UINT, INT, DOUBLE, REF, INT, WORDS, MIXED};
    type = T[st];
    std::vector<Key> v; long words = r.range(2, 15); int how = (int)r.below(4);
    static const double SP[] = {0.0, 1.0, -1.0, 1e308, -1e308, 5e-324, -5e-324, 0.5, -0.5, 2.2250738585072014e-308, -2.2250738585072014e-308, HUGE_VAL, -HUGE_VAL};
    static const u64 SU[] = {0, 1, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, 1ULL << 32, 0xffffffffULL, 0xff, 0x100};
    auto word = [&]() -> u64 { int q = (int)r.below(4); return q == 0 ? r.below(4) : q == 1 ? r.below(4) << (8 * r.below(8)) : q == 2 ? SU[r.below(10)] : r.next(); };
    for (long i = 0; i < want; i++) {
      Key k;
      switch (type) {
        case UINT: k.u = r.chance(1, 20) ? SU[r.below(10)] : how == 0 ? r.below(want * 2) : how == 1 ? r.next() : how == 2 ? (u64)i << 32 : r.next() >> r.below(64); k.w = {k.u}; break;
        case INT: k.i = r.chance(1, 20) ? (long long)SU[r.below(10)] : st == 5 ? (long long)r.below(want * 2) - want : how & 1 ? (long long)r.next() : (long long)(r.next() >> r.below(63)) * (r.chance(1, 2) ? -1 : 1); k.w = {(u64)k.i ^ (1ULL << 63)}; break;
        case DOUBLE: {
          if (r.chance(1, 8)) k.d = SP[r.below(13)];
          else if (how == 0) k.d = ((double)r.below(want * 2) - (double)want) / 4;
          else if (how == 1) { u64 b = r.next(); memcpy(&k.d, &b, 8); if (k.d != k.d) k.d = 3; }
          else k.d = (double)(long long)r.next() / (double)(1ULL << r.below(63));
          if (k.d == 0) k.d = 0;          // one zero
          u64 b; memcpy(&b, &k.d, 8); k.w = {k.d < 0 ? ~b : b ^ (1ULL << 63)}; break;
        }
        case REF: k.u = how & 1 ? (u64)R_LOW + 16 * r.below(want * 3) : r.below(want * 3) << (r.below(4) * 8); k.w = {k.u}; break;
        case WORDS: for (long j = 0; j < words; j++) k.w.push_back(word()); if (how == 0) for (long j = 0; j + 1 < words; j++) k.w[j] = 7; break;
        default: for (long j = r.range(1, words); j > 0; j--) k.w.push_back(how == 0 ? r.below(3) << (8 * r.below(3)) : word()); break;
      }
      v.push_back(k);
    }
    std::sort(v.begin(), v.end(), less);
    v.erase(std::unique(v.begin(), v.end(), [](const Key &a, const Key &b) { return a.w == b.w; }), v.end());
    keys = v; n = (int)v.size();
  }
  size_t keylen(int) override { return sizeof(SASIndexKey_t); }
  void fill(int k, SASIndexKey_t *x) {
    const Key &q = keys[k];
    switch (type) {
      case UINT: A->SASIndexKeyInitUInt64(x, q.u); break;
      case INT: A->SASIndexKeyInitInt64(x, q.i); break;
      case DOUBLE: A->SASIndexKeyInitDouble(x, q.d == 0 && (k + serial) % 2 ? -0.0 : q.d); break;
      case REF: A->SASIndexKeyInitRef(x, (void *)q.u); break;
      default:
        x->copy_size = (machine_uhalf_t)(8 + 8 * q.w.size()); x->compare_size = (machine_uhalf_t)(8 * q.w.size());
        for (size_t j = 0; j < q.w.size(); j++) x->data[j] = q.w[j];
    }
  }
  const void *key(int k, std::vector<char> &b) override {
    b.resize(sizeof(SASIndexKey_t));
    for (size_t i = 0; i < b.size(); i++) b[i] = (char)(0x55 + k * 7 + i);     // what is not part of the key does not count
    fill(k, (SASIndexKey_t *)b.data());
    return b.data();
  }
  std::string kname(int k) override {
    char b[80]; const Key &q = keys[k];
    switch (type) {
      case INT: snprintf(b, sizeof b, "%lld", q.i); return b;
      case DOUBLE: snprintf(b, sizeof b, "%.17g", q.d); return b;
      case WORDS: case MIXED: { std::string s = "{"; for (size_t j = 0; j < q.w.size() && j < 6; j++) { snprintf(b, sizeof b, "%s%llx", j ? " " : "", (unsigned long long)q.w[j]); s += b; } snprintf(b, sizeof b, "}[%zu]", q.w.size()); return s + b; }
      default: snprintf(b, sizeof b, "0x%llx", (unsigned long long)q.u); return b;
    }
  }
  int keyof(const void *p) override {
    const SASIndexKey_t *x = (const SASIndexKey_t *)p; Key q;
    size_t nw = x->compare_size / 8;
    if (nw < 1 || nw > 15 || x->compare_size % 8 || ::SASIndexKeySize(x) != 8 + 8 * nw) return -1;
    for (size_t j = 0; j < nw; j++) q.w.push_back(x->data[j]);
    auto it = std::lower_bound(keys.begin(), keys.end(), q, less);
    if (it == keys.end() || it->w != q.w) return -1;
    if (type == UINT && ::SASIndexKeyReturn1stUInt64(x) != it->u) fail("key-value", "the unsigned key %llx reads back as %llx", (unsigned long long)it->u, ::SASIndexKeyReturn1stUInt64(x));
    if (type == INT && ::SASIndexKeyReturn1stInt64(x) != it->i) fail("key-value", "the signed key %lld reads back as %lld", it->i, ::SASIndexKeyReturn1stInt64(x));
    if (type == DOUBLE && ::SASIndexKeyReturn1stDouble(x) != it->d) fail("key-value", "the floating point key %g reads back as %g", it->d, ::SASIndexKeyReturn1stDouble(x));
    return (int)(it - keys.begin());
  }
  SASIndex_t t() { return (SASIndex_t)tree; }
  void *m_create(int how, u64 size, u64 page) override {
    switch (how) {
      case 0: return A->SASIndexCreate(size);
      case 1: return A->SASIndexCreatePageSize(size, page);
      case 2: return A->SASIndexFixedCreate(size);
      default: {
        void *b = A->SASBlockAlloc(size);
        if (!b) sim_error("setup: block");
        return A->SASIndexInit(b, size, page, how == 3);
      }
    }
  }
  typedef SASIndexKey_t *K;
  void m_destroy() override { if (regime) lock(); A->SASIndexDestroy(t()); if (regime) unlock(); }
  int m_put(bool nl, const void *k, void *v) override { return nl ? A->SASIndexPut_nolock(t(), (K)k, v) : A->SASIndexPut(t(), (K)k, v); }
  void *m_replace(bool nl, const void *k, void *v) override { return nl ? A->SASIndexReplace_nolock(t(), (K)k, v) : A->SASIndexReplace(t(), (K)k, v); }
  void *m_get(bool nl, const void *k) override { return nl ? A->SASIndexGet_nolock(t(), (K)k) : A->SASIndexGet(t(), (K)k); }
  int m_contains(bool nl, const void *k) override { return nl ? A->SASIndexContainsKey_nolock(t(), (K)k) : A->SASIndexContainsKey(t(), (K)k); }
  void *m_remove(bool nl, const void *k) override { return nl ? A->SASIndexRemove_nolock(t(), (K)k) : A->SASIndexRemove(t(), (K)k); }
  const void *m_min(bool nl) override { return nl ? A->SASIndexGetMinKey_nolock(t()) : A->SASIndexGetMinKey(t()); }
  const void *m_max(bool nl) override { return nl ? A->SASIndexGetMaxKey_nolock(t()) : A->SASIndexGetMaxKey(t()); }
  int m_empty(bool nl) override { return nl ? A->SASIndexIsEmpty_nolock(t()) : A->SASIndexIsEmpty(t()); }
  u64 m_freespace() override { return A->SASIndexFreeSpace(t()); }
  long m_mods(bool nl) override { return nl ? A->SASIndexGetModCount_nolock(t()) : A->SASIndexGetModCount(t()); }
  void *m_root(bool nl) override { if (!A->SASIndexGetRootNode || !A->SASIndexGetRootNode_nolock) return nullptr; return nl ? A->SASIndexGetRootNode_nolock(t()) : A->SASIndexGetRootNode(t()); }
  bool m_search(void *root, int kind, const void *k, const void *&fk, void *&fv) override {
    IDXnodePosRef ref = {nullptr, 0}; int f = 0; auto q = (K)k;
    switch (kind) {
      case EQ: f = A->SASIndexNodeSearch(root, q, &ref); break;
      case GE: f = A->SASIndexNodeSearchGE(root, q, &ref); break;
      case GT: f = A->SASIndexNodeSearchGT(root, q, &ref); break;
      case LE: f = A->SASIndexNodeSearchLE(root, q, &ref); break;
      case LT: f = A->SASIndexNodeSearchLT(root, q, &ref); break;
    }
    if (f) { fk = A->SASIndexNodeGetKeyIndexed(ref.node, ref.pos); fv = A->SASIndexNodeGetValIndexed(ref.node, ref.pos); }
    return f != 0;
  }
  int m_node(void *nd, int i, void *&b, const void *&k, void *&v) override {
    b = A->SASIndexNodeGetBranchIndexed(nd, i); k = i ? A->SASIndexNodeGetKeyIndexed(nd, i) : nullptr; v = i ? A->SASIndexNodeGetValIndexed(nd, i) : nullptr;
    return A->SASIndexNodeGetCount(nd);
  }
  void *e_create() override { return A->SASIndexEnumCreate(t()); }
  int e_more(void *e) override { return A->SASIndexEnumHasMore(e); }
  void *e_next(bool nl, void *e) override { return nl ? A->SASIndexEnumNext_nolock(e) : A->SASIndexEnumNext(e); }
  void e_destroy(void *e) override { A->SASIndexEnumDestroy(e); }
};
