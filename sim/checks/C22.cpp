// C22: atomic helpers and spin locks.
#include "common.h"

enum { ADD, SWAP, INC, DEC, CAS, LOADOP, INCL, DECL, ADDP, AND_, OR_, LOCK, TRY, LOCKY, PTRSET };

struct C22 : Check {
  struct Ev { int cell; LinOp o; };
  std::vector<Ev> hist;
  long *cells = nullptr;          // in the store
  unsigned *lock = nullptr;
  void **plock = nullptr;
  int holder = -1, pholder = -1;
  long guarded = 0, pguarded = 0;
  u64 pval = 0;
  C22() : Check("C22") {
    what = "2-5 threads of 1-2 processes run 1-8 atomic helper calls each on 1-2 shared words with start values around 0, 2^32 and 2^63, or spin-lock critical sections; every history is checked for linearizability against the sequential meaning of the helpers.";
    opnames = {"add", "swap", "inc", "dec", "cas", "load", "inc_long", "dec_long", "add_ptr", "and", "or", "lock", "trylock", "lock_with_yield", "lock_ptr"};
    probe_names = {"cas_failed", "trylock_failed", "lock_contended", "ptr_trylock_failed"};
    real = {"sasatom.h", "sasatom_x86_64.h"};
    quick_runs = 24000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = r.chance(1, 3) ? 2 : 1;
    int nth = (int)r.range(2, 5);
    long starts[] = {0, 1, -1, 5, 0xffffffffL, 0xfffffffeL, 0x100000000L, 0x7fffffffL, 0x7fffffffffffffffL, -2, 0x123456789abcdefL};
    bool locks = r.chance(2, 5);
    p.cfg = {starts[r.below(11)], starts[r.below(11)], (long)locks, (long)(r.next() & 0x7fffffff)};
    int ncell = (int)r.range(1, 2);
    int mix = (int)r.below(4);
    int budget = 14;
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = p.nprocs == 2 ? (int)r.below(2) : 0;
      int n = locks ? (int)r.range(1, 8) : (int)r.range(1, std::max(1, std::min(6, budget / (nth - t))));
      budget -= n;
      for (int i = 0; i < n; i++) {
        Op o{0, 0, 0, 0, 0};
        if (locks) {
          int q = (int)r.below(10);
          o.k = q < 4 ? LOCK : q < 6 ? TRY : q < 8 ? LOCKY : PTRSET;
          o.a = r.range(0, 6);
          o.b = r.below(4);
        } else {
          static const int k0[] = {ADD, SWAP, INC, DEC, CAS, LOADOP, INCL, DECL, ADDP, CAS, AND_, OR_};
          if (mix == 0) o.k = k0[r.below(12)];
          else if (mix == 1) o.k = r.chance(1, 2) ? CAS : (int)k0[r.below(6)];
          else if (mix == 2) o.k = r.chance(1, 2) ? INC : DEC;
          else o.k = r.chance(1, 2) ? SWAP : ADD;
          o.a = (long)r.below(ncell);
          o.b = r.chance(1, 3) ? starts[r.below(11)] : (long)r.range(-3, 3);
          if (o.k == AND_ || o.k == OR_) o.b = (long)r.next();
          o.c = r.chance(1, 2) ? starts[r.below(11)] : (long)r.next();
        }
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    char *b = (char *)A->SASBlockAlloc(4096);
    if (!b) fail("setup", "no block");
    for (int i = 1; i < p.nprocs; i++) { proc_switch(i); *(volatile char *)b; }
    proc_switch(0);
    cells = (long *)(b + 64);
    cells[0] = p.cfg[0]; cells[8] = p.cfg[1];
    lock = (unsigned *)(b + 1024); plock = (void **)(b + 2048);
    A->sas_spin_lock_init(lock);
    A->sas_lock_ptr_init(plock);
    if (*lock != 0) fail("lock-init", "initialised spin lock is not free");
  }
  void rec(int cell, int k, long a, long b, long ret, u64 inv) {
    Ev e; e.cell = cell; e.o = LinOp{k, a, b, ret, inv, tick_event(), false};
    hist.push_back(e); note((u64)ret);
    logf_("%s(%lx,%lx) = %lx", opnames[k], a, b, ret);
  }
  void critical(int th, long n) {
    if (holder != -1) fail("lock-exclusion", "threads %d and %d hold the spin lock together", holder, th);
    holder = th;
    for (long i = 0; i < n; i++) sim_point_here();
    if (holder != th) fail("lock-exclusion", "spin lock taken by two threads");
    if (*(volatile unsigned *)lock == 0) fail("lock-lost", "a held spin lock reads as free");
    guarded++;
    holder = -1;
  }
  void op(int th, int, const Op &o) override {
    long *w = cells + o.a * 8;
    u64 inv = tick_event();
    long r = 0;
    switch (o.k) {
    case ADD: r = A->sas_fetch_and_add(w, o.b); break;
    case ADDP: r = (long)A->sas_fetch_and_add_ptr((void **)w, o.b); break;
    case SWAP: r = A->sas_atomic_swap(w, o.c); rec((int)o.a, SWAP, o.c, 0, r, inv); return;
    case INC: A->sas_atomic_inc(w); break;
    case DEC: A->sas_atomic_dec(w); break;
    case INCL: r = A->sas_atomic_inc_long(w); break;
    case DECL: r = A->sas_atomic_dec_long(w); break;
    case AND_: r = A->sas_fetch_and_and_long((unsigned long *)w, o.b); break;
    case OR_: r = A->sas_fetch_and_or_long((unsigned long *)w, o.b); break;
    case LOADOP: r = *(volatile long *)w; break;
    case CAS: {
      long e = *(volatile long *)w;
      if (o.b == 2) e = o.c;
      inv = tick_event();
      r = A->sas_compare_and_swap(w, e, o.c) ? 1 : 0;
      if (!r) probe(0);
      rec((int)o.a, CAS, e, o.c, r, inv);
      return;
    }
    case LOCK: if (*(volatile unsigned *)lock) probe(2); A->sas_spin_lock(lock); critical(th, o.a); A->sas_spin_unlock(lock); return;
    case LOCKY: A->sas_spin_lock_with_yield(lock); critical(th, o.a); A->sas_spin_unlock(lock); return;
    case TRY: {
      int v = A->sas_spin_trylock(lock);
      bool got = v == 0;     // 0: taken (what every caller in the library relies on)
      note((u64)got);
      if (got) { critical(th, o.a); A->sas_spin_unlock(lock); }
      else probe(1);
      return;
    }
    case PTRSET: {
      // a lock in the low bit of a pointer, and the pointer value under it
      bool got = true;
      u64 nv = (u64)(th * 100 + pguarded + 1) * 16;
      if (o.b == 0) {
        u64 v = (u64)A->sas_lock_ptr((volatile sas_lock_ptr_t *)plock);
        if (v != pval) fail("ptr-lock-value", "locking the pointer returned %llx, its value is %llx", (unsigned long long)v, (unsigned long long)pval);
      } else if (o.b == 1) A->sas_lock_ptr_with_yield((volatile sas_lock_ptr_t *)plock);
      else if (o.b == 2) got = A->sas_trylock_ptr((volatile sas_lock_ptr_t *)plock) == 0;
      else { A->sas_set_unlocked_ptr((volatile sas_lock_ptr_t *)plock, (sas_lock_ptr_t)nv); pval = nv; }
      if (!got) { probe(3); return; }
      if (pholder != -1) fail("ptr-lock-exclusion", "threads %d and %d hold the pointer lock together", pholder, th);
      pholder = th;
      for (long i = 0; i < o.a; i++) sim_point_here();
      u64 v = (u64)*plock;
      if (!(v & 1)) fail("ptr-lock-lost", "a held pointer lock reads as free");
      if ((v & ~1ULL) != pval) fail("ptr-lock-value", "pointer under the lock is %llx, expected %llx", (unsigned long long)v, (unsigned long long)pval);
      pguarded++;
      if (o.a & 1) {
        A->sas_set_locked_ptr((volatile sas_lock_ptr_t *)plock, (sas_lock_ptr_t)nv);
        pval = nv;
        for (long i = 0; i < o.a; i++) sim_point_here();
      }
      if (pholder != th) fail("ptr-lock-exclusion", "pointer lock held twice");
      pholder = -1;
      A->sas_unlock_ptr((volatile sas_lock_ptr_t *)plock);
      return;
    }
    }
    rec((int)o.a, o.k, o.b, 0, r, inv);
  }
  static bool apply(long s, const LinOp &o, long &n) {
    n = s;
    switch (o.kind) {
    case ADD: case ADDP: n = (long)((u64)s + (u64)o.arg); return o.ret == s;
    case SWAP: n = o.arg; return o.ret == s;
    case INC: n = (long)((u64)s + 1); return true;
    case INCL: n = (long)((u64)s + 1); return o.ret == s;
    case DEC: n = (long)((u64)s - 1); return true;
    case DECL: n = (long)((u64)s - 1); return o.ret == s;
    case AND_: n = s & o.arg; return o.ret == s;
    case OR_: n = s | o.arg; return o.ret == s;
    case LOADOP: return o.ret == s;
    case CAS: if (o.ret) { n = o.arg2; return s == o.arg; } return s != o.arg;
    }
    return false;
  }
  void finish(Prog &p) override {
    for (int c = 0; c < 2; c++) {
      std::vector<LinOp> h;
      for (auto &e : hist) if (e.cell == c) h.push_back(e.o);
      LinOp last{LOADOP, 0, 0, cells[c * 8], tick_event(), 0, false};
      last.res = tick_event();
      h.push_back(last);
      bool gave;
      if (!linearizable(h, p.cfg[c], apply, nullptr, &gave)) {
        std::string s;
        for (auto &o : h) { char b[160]; snprintf(b, sizeof b, " %s(%lx,%lx)=%lx@%llu-%llu", opnames[o.kind], o.arg, o.arg2, o.ret, (unsigned long long)o.inv, (unsigned long long)o.res); s += b; }
        fail("not-atomic", "no one-at-a-time order explains word %d starting at %lx:%s", c, p.cfg[c], s.c_str());
      }
    }
    if (*lock != 0) fail("lock-leak", "all threads released the spin lock but it is not free");
    if ((u64)*plock & 1) fail("lock-leak", "all threads released the pointer lock but it is not free");
    // a released lock can be taken again
    A->sas_spin_lock(lock); A->sas_spin_unlock(lock);
    note(guarded);
  }
};
static C22 c22;
static Reg reg(&c22);
