// Shared pieces of the checks.
#pragma once
#include "sim.h"
#include "api.h"
#include <string.h>
#include <stdio.h>
#include <algorithm>
#include <unordered_map>

#define CALL(f) (A->f)
static const u64 ANCHOR = 0x100000;

// join the current process's store, named in one of the ways there are
static inline int join_call() {
  static u64 n;
  u64 way = hash2(run_seed(), ++n) % 8;
  int rc;
  if (way < 4) return A->SASJoinRegionByName(STORE);
  if (way == 4) return A->SASJoinRegionByName((std::string(STORE) + "/").c_str());
  static const std::string slash = std::string(STORE) + "/";
  os_set_store_env(way == 5 ? STORE : way == 6 ? slash.c_str() : nullptr);     // else the working directory, which is the store
  rc = A->SASJoinRegion();
  os_set_store_env(nullptr);
  return rc;
}
// join a process to the store; violation if refused without an injected fault
static inline void join(int pr) {
  proc_switch(pr);
  int rc = join_call();
  if (rc != 0) fail("join-refused", "process %d: joining the store failed with %d", pr, rc);
}
static inline const char *pname(long) { return ""; }

// content stamps: every 8-byte word of a live area is derived from its owner
static inline u64 stamp_word(u64 id, u64 i) { u64 x = id * 0x9e3779b97f4a7c15ULL + i * 0xbf58476d1ce4e5b9ULL; x ^= x >> 29; return x | 1; }
// write / verify a stamp over [a,a+len): all words of small areas, else sampled
// words (first, last, each page start and some more)
template <class F> static inline void stamp_each(u64 a, u64 len, F f) {
  u64 n = len / 8;
  if (n <= 64) { for (u64 i = 0; i < n; i++) f(i); return; }
  for (u64 i = 0; i < 8; i++) f(i);
  u64 step = n <= 8192 ? 61 : n <= 131072 ? 512 : n / 64;
  for (u64 i = step; i < n - 8; i += step) f(i);
  for (u64 i = n - 8; i < n; i++) f(i);
}
static inline void stamp_write(void *p, u64 len, u64 id) {
  volatile u64 *w = (volatile u64 *)p;
  stamp_each((u64)p, len, [&](u64 i) { w[i] = stamp_word(id, i); });
}
static inline long stamp_check(const void *p, u64 len, u64 id) {   // -1: intact
  const volatile u64 *w = (const volatile u64 *)p;
  long bad = -1;
  stamp_each((u64)p, len, [&](u64 i) { if (bad < 0 && w[i] != stamp_word(id, i)) bad = (long)(i * 8); });
  return bad;
}

struct NodeList { std::vector<std::pair<u64, u64>> v; u64 total = 0; };
