// C29: the application's own fault handler.
#include "common.h"
#include <deque>

struct Caught { int n = 0, which = 0, sig = 0, pr = -1; u64 addr = 0; void *uc = nullptr; };
static Caught caught[MAXFIBER + 2];            // by thread
extern int cur_proc;
static void got(int which, int sig, siginfo_t *si, void *uc) {
  Caught &c = caught[cur_fiber() + 1];
  c.n++; c.which = which; c.sig = sig; c.pr = cur_proc; c.addr = si ? (u64)si->si_addr : 0; c.uc = uc;
}
static void h_info0(int s, siginfo_t *si, void *uc) { got(0, s, si, uc); }
static void h_info1(int s, siginfo_t *si, void *uc) { got(1, s, si, uc); }
static void h_plain2(int s) { got(2, s, nullptr, nullptr); }
static void h_plain3(int s) { got(3, s, nullptr, nullptr); }

struct C29 : Check {
  enum { FAULT, TSETUP, TCLEAN, LEAVE, JOIN, GROW, TOUCH, REST };
  struct PS { bool in = false, moving = false; int busy = 0, set = 0, h = -1; };
  struct Blk { u64 a, sz, id; bool busy; };
  std::vector<PS> ps; std::vector<char> up;
  std::deque<Blk> live; u64 ids = 0; int segs = 0;
  C29() : Check("C29") {
    what = "1-4 threads of each of 1-3 processes, with an application fault handler of either style (or none) installed before joining, set themselves up and clean up in any order, fault outside the store (near its bounds, at null, in heap and stack), touch storage other processes added, leave, change the handler and rejoin, also when joining is refused because system calls fail; at the end one process removes the region and joins a new one.";
    opnames = {"fault", "thread-setup", "thread-cleanup", "leave", "join", "grow", "touch", "rest"};
    probe_names = {"fault_served", "fault_thread_not_set_up", "fault_while_others_set_up", "fault_not_attached", "rejoined", "join_refused", "handler_restored", "attached_by_fault", "removed_and_rejoined", "no_handler", "fault_at_the_bounds", "plain_handler", "handler_changed"};
    real = {"sassim.cpp", "sasshm.c", "saslock.cpp", "ultree.cpp"};
    quick_runs = 20000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    for (int i = 0; i < 3; i++) p.cfg.push_back(r.chance(1, 8) ? -1 : (long)r.below(4));
    p.cfg.push_back((long)(r.next() & 0x7fffffff));
    for (int i = 0; i < p.nprocs; i++) {
      int nt = (int)r.range(1, p.nprocs == 1 ? 4 : p.nprocs == 2 ? 3 : 2);
      for (int t = 0; t < nt; t++) {
        ThreadProg tp; tp.proc = i;
        for (int j = (int)r.range(3, 16); j > 0; j--) {
          Op o{0, (long)r.below(1000), (long)r.below(1000), (long)r.below(1000), 0};
          int q = (int)r.below(30);
          o.k = q < 9 ? FAULT : q < 14 ? TSETUP : q < 18 ? TCLEAN : q < 20 ? LEAVE : q < 23 ? JOIN : q < 25 ? GROW : q < 28 ? TOUCH : REST;
          tp.ops.push_back(o);
        }
        p.threads.push_back(tp);
      }
    }
    if (r.chance(1, 3)) {
      static const int kinds[] = {F_OPEN, F_MMAP, F_SHMGET, F_SHMAT, F_MALLOC, F_FTOK};
      for (int i = (int)r.range(1, 3); i > 0; i--) { int k = kinds[r.below(6)]; p.faults.push_back({k, 0, 0, r.range(1, 10), r.range(1, 2), k == F_OPEN ? 24 : 12}); }
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(p.threads.size()), (int)r.below(8), r.range(1, 100), r.range(5, 2000), 0});
    if (r.chance(1, 6)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  static struct sigaction act(int h) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    switch (h) {
      case 0: sa.sa_sigaction = h_info0; sa.sa_flags = SA_SIGINFO; break;
      case 1: sa.sa_sigaction = h_info1; sa.sa_flags = SA_SIGINFO | SA_RESTART; break;
      case 2: sa.sa_handler = h_plain2; break;
      case 3: sa.sa_handler = h_plain3; sa.sa_flags = SA_RESTART; break;
      default: sa.sa_handler = SIG_DFL;
    }
    return sa;
  }
  void install(int pr, int h) { ps[pr].h = h; sim_set_sigsegv(pr, act(h)); }
  void same(int pr, const char *when) {
    struct sigaction a = act(ps[pr].h), b = sim_sigsegv(pr);
    if (a.sa_handler != b.sa_handler || a.sa_flags != b.sa_flags)
      fail("handler-lost", "process %d, %s: the fault handler the application had before joining is not in place, %s is", pr, when, b.sa_handler == SIG_DFL ? "none" : "another");
    probe(6);
  }
  static u64 where(const Op &o, bool &edge) {
    u64 x = (u64)o.b * 4099 + (u64)o.c;
    edge = o.a % 9 == 1 || o.a % 9 == 2 || o.a % 9 == 6;
    switch (o.a % 9) {
      case 0: return (u64)o.b & ~7ULL;                       // near null
      case 1: return R_LOW - 1 - x % 5000;
      case 2: return R_LOW + R_SIZE + x % 5000;
      case 3: return 0x3ff555550000ULL + x;                  // program and heap
      case 4: return 0x7fff00000000ULL + x;                  // stack
      case 5: return 0x7f0000000000ULL + x * 4096;
      case 6: return o.b & 1 ? R_LOW - 1 : R_LOW + R_SIZE;
      case 7: return R_LOW / 2 + x;
      default: return ~0ULL - x;
    }
  }
  void fault(int pr, const Op &o, const char *when) {
    PS &s = ps[pr];
    bool edge; u64 a = where(o, edge); int ctx = 0;
    if (s.h < 0) {        // ends the thread or process, and here the run
      if (!s.in || o.c % 4) return;
      probe(9);
      sim_exit_ok[cur_fiber() + 1] = true;
      if (sim_fault(a, &ctx)) fail("fault-ignored", "process %d, %s: after a fault at %#llx, with no handler of the application, the thread goes on as if nothing had happened", pr, when, (unsigned long long)a);
      return;             // the system's default action
    }
    Caught &c = caught[cur_fiber() + 1]; c = Caught();
    if (edge) probe(10);
    bool ok = sim_fault(a, &ctx);
    if (!ok || !c.n) fail("handler-missed", "process %d, %s: a fault at %#llx did not reach the application's handler", pr, when, (unsigned long long)a);
    if (c.n > 1) fail("handler-repeated", "process %d, %s: a fault at %#llx reached the application's handler %d times", pr, when, (unsigned long long)a, c.n);
    if (c.which != s.h) fail("handler-wrong", "process %d, %s: a fault at %#llx reached another handler than the one installed before joining", pr, when, (unsigned long long)a);
    if (c.sig != SIGSEGV || c.pr != pr || (s.h < 2 && (c.addr != a || c.uc != &ctx))) fail("handler-info", "process %d, %s: the application's handler got signal %d at %#llx%s for a fault at %#llx", pr, when, c.sig, (unsigned long long)c.addr, c.uc != &ctx ? " with another context" : "", (unsigned long long)a);
    probe(0); if (s.h > 1) probe(11);
    note(hash2(a, (u64)c.which));
  }
  bool join_(int pr, const char *when) {
    u64 f0 = os_failed_here();
    int rc = join_call();
    if (rc) {
      if (os_failed_here() == f0) fail("join-refused", "process %d, %s: joining the store failed with %d", pr, when, rc);
      probe(5);
      same(pr, "after joining was refused");
      return false;
    }
    struct sigaction b = sim_sigsegv(pr);
    if (b.sa_handler == act(ps[pr].h).sa_handler) fail("no-handler", "process %d, %s: no handler to attach storage is in place after joining", pr, when);
    ps[pr].in = true;
    return true;
  }
  void leave_(int pr, const char *when) {
    A->SASCleanUp();
    ps[pr].in = false;
    same(pr, when);
  }
  void grow(int pr, const Op &o) {
    if (segs >= 8 || live.size() >= 40) return;
    u64 sz = o.a % 3 ? R_SEG : 1ULL << (12 + o.b % 16);
    if (sz == R_SEG) segs++;
    u64 f0 = os_failed_here();
    u64 a = (u64)A->SASBlockAlloc(sz);
    if (!a) { if (os_failed_here() == f0) fail("alloc-refused", "process %d: a block of %llu bytes was refused", pr, (unsigned long long)sz); if (sz == R_SEG) segs--; return; }
    u64 id = ++ids;
    stamp_write((void *)a, sz, id);
    live.push_back({a, sz, id, false});
  }
  void touch(int pr, const Op &o) {
    if (live.empty()) return;
    Blk b = live[(size_t)o.a % live.size()];
    u64 g0 = g_segv;
    long bad = stamp_check((void *)b.a, b.sz, b.id);
    if (bad >= 0) fail("content", "process %d: the block at %llx+%llx differs at byte %ld", pr, (unsigned long long)b.a, (unsigned long long)b.sz, bad);
    if (g_segv != g0) probe(7);
  }
  void setup(Prog &p) override {
    ps.resize(p.nprocs); up.assign(p.threads.size(), 0);
    stop_faults();
    for (int i = 0; i < p.nprocs; i++) { proc_switch(i); install(i, (int)p.cfg[i]); if (i == 0 || (p.cfg[3] >> i & 1)) join_(i, "at first"); }
    proc_switch(0);
    Rng r((u64)p.cfg[3]);
    for (int i = (int)r.below(3); i > 0; i--) grow(0, Op{0, (long)r.below(100), (long)r.below(100), 0, 0});
    start_faults();
  }
  void op(int th, int idx, const Op &o) override {
    int pr = fiber_proc(th); PS &s = ps[pr];
    if (s.moving) sim_wait([&s] { return !s.moving; });
    if (o.k == LEAVE || o.k == JOIN) {
      if (s.in != (o.k == LEAVE) || s.set) return;     // threads clean up before their process leaves
      s.moving = true;
      if (s.busy) sim_wait([&s] { return s.busy == 0; });
      if (s.set == 0) {
        if (o.k == LEAVE) leave_(pr, "after leaving");
        else {
          if (o.b % 4 == 0) { install(pr, o.c % 5 == 0 ? -1 : (int)(o.c % 4)); probe(12); }
          if (join_(pr, "again")) probe(4);
        }
      }
      s.moving = false;
      return;
    }
    s.busy++;
    switch (o.k) {
      case FAULT:
        if (!s.in) probe(3); else if (!up[th]) { probe(1); if (s.set) probe(2); }
        fault(pr, o, !s.in ? "not attached" : up[th] ? "in a thread set up" : s.set ? "in a thread not set up" : "attached");
        break;
      case TSETUP: if (s.in && !up[th]) { s.set++; up[th] = 1; A->SASThreadSetUp(); } break;
      case TCLEAN: if (s.in && up[th]) { A->SASThreadCleanUp(); up[th] = 0; s.set--; } break;
      case GROW: if (s.in) grow(pr, o); break;
      case TOUCH: if (s.in) touch(pr, o); break;
      case REST: for (long i = o.a % 20; i > 0; i--) sim_point_here(); break;
    }
    s.busy--;
    (void)idx;
  }
  void thread_end(int th) override {
    int pr = fiber_proc(th); PS &s = ps[pr];
    if (!up[th]) return;
    if (s.moving) sim_wait([&s] { return !s.moving; });
    s.busy++;
    A->SASThreadCleanUp(); up[th] = 0; s.set--;
    s.busy--;
  }
  void finish(Prog &p) override {
    stop_faults();
    Rng r((u64)p.cfg[3] + 7);
    auto fop = [&] { return Op{FAULT, (long)r.below(1000), (long)r.below(1000), (long)r.below(1000), 0}; };
    for (int i = 0; i < p.nprocs; i++) {
      proc_switch(i);
      if (!ps[i].in && r.chance(1, 2)) join_(i, "at the end");
      fault(i, fop(), "at the end");
      if (ps[i].in) for (size_t k = 0; k < live.size(); k++) touch(i, Op{0, (long)k, 0, 0, 0});
      if (ps[i].in) leave_(i, "after leaving at the end");
      fault(i, fop(), "after leaving");
    }
    int who = (int)r.below(p.nprocs);
    proc_switch(who);
    join_(who, "before removing");
    if (r.chance(1, 2)) A->SASThreadSetUp();
    A->SASRemove(); live.clear();
    fault(who, fop(), "after removing the region");
    join_(who, "to a new region");
    fault(who, fop(), "attached to a new region");
    grow(who, Op{0, 1, 0, 0, 0}); grow(who, Op{0, 0, 3, 0, 0});
    fault(who, fop(), "attached to a new region");
    leave_(who, "after leaving a new region");
    fault(who, fop(), "after leaving a new region");
    probe(8);
  }
};
static C29 c; static Reg reg(&c);
