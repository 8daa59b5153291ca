// Deterministic simulator for sphde: core declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <signal.h>

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s0, s1;
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) { u64 x = seed; s0 = mix(x); s1 = mix(x); }
  u64 next() {
    u64 a = s0, b = s1, r = a + b;
    b ^= a;
    s0 = ((a << 55) | (a >> 9)) ^ b ^ (b << 14);
    s1 = (b << 36) | (b >> 28);
    return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  // roughly log-uniform in [lo,hi]
  long logrange(long lo, long hi);
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

static inline u64 hash2(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}

// ---------------------------------------------------------------- program
struct Op { int k; long a, b, c, d; };
struct ThreadProg { int proc; std::vector<Op> ops; };

// kinds of injected faults
enum FaultKind {
  F_OPEN, F_CREATE, F_FTRUNCATE, F_CLOSE, F_MMAP, F_SHMGET, F_SHMAT, F_FTOK,
  F_REMOVE, F_MSYNC, F_MALLOC, F_EINTR, F_STALL, F_CRASH, F_THREADDEATH, F_CLOCK, F_POWER,
  F_NOSPACE, F_NKINDS
};
extern const char *fault_names[F_NKINDS];
// For OS call faults: the nth call of that kind (1-based, counted from when
// faults are enabled) up to nth+len-1 fails with err.  F_STALL: fiber `who` is
// not scheduled for `len` steps once it made `nth` steps in op `at`.
// F_CRASH: process of fiber `who` dies there (F_THREADDEATH: only that thread).
// F_CLOCK: real-time clock jumps by arg ns at global step nth.  F_NOSPACE and
// F_POWER: all processes die there; the check then lets the store lose its contents (os_power_failure).
struct Fault { int kind; int who; int at; long nth; long len; long arg; };

struct SchedEv { int fiber; int to; u64 fstep; };   // fiber switched to `to` at its own step

struct Prog {
  std::string check;
  u64 seed = 0;            // of the run (schedule derives from it)
  u64 sched_seed = 0;
  std::vector<long> cfg;   // check specific numbers
  int nprocs = 1;
  std::vector<ThreadProg> threads;
  std::vector<Fault> faults;
  bool explicit_sched = false;
  std::vector<SchedEv> sched;
};

// ---------------------------------------------------------------- results
enum Status { ST_NONE, ST_OK, ST_VIOL, ST_ERR };
enum { NPROBES = 48, TRACE_MAX = 400000 };
struct Result {
  volatile int status;
  int preset;        // counters valid
  char cls[96];
  char msg[1800];
  u64 hash;          // every decision and every observed result
  u64 sched_hash;    // interleaving only
  u64 steps, switches, preempts, opsdone, simns;
  u64 nops_failed;
  u64 faults[F_NKINDS];
  u64 probes[NPROBES];
  u64 live_calls;    // calls into real code
  u64 ntrace; int trace_overflow;
  SchedEv trace[TRACE_MAX];
};
extern Result *g_res;

// ---------------------------------------------------------------- checks
struct Check {
  const char *id;
  const char *what;          // one line for evidence: how cases are made
  std::vector<const char *> opnames;
  std::vector<const char *> probe_names;
  long quick_runs = 3000;
  u64 idle_budget = 300000;  // steps without any operation finishing => stuck
  u64 max_steps = 6000000;
  bool crash_ok_deadlock = false;
  std::vector<std::string> real, stub;
  std::vector<std::string> assumptions;
  Check(const char *i) : id(i) {}
  virtual ~Check() {}
  virtual void gen(Rng &r, Prog &p) = 0;
  virtual void setup(Prog &p) = 0;              // main context
  virtual void op(int th, int idx, const Op &o) = 0; // fiber context
  virtual void thread_end(int th) {}            // fiber context, after the last op
  virtual void finish(Prog &p) = 0;             // main context: after all fibers ended
  // all remaining fibers blocked or no progress.  default: violation
  virtual bool stuck_ok(Prog &p) { return false; }
  virtual void on_kill(int th) {}
};
std::vector<Check *> &all_checks();
struct Reg { Reg(Check *c) { all_checks().push_back(c); } };

// ---------------------------------------------------------------- runtime API for checks
struct Proc;
struct Api;
extern u64 g_step;                 // global step counter = logical time
extern u64 g_time_ns;              // simulated time
void fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void probe(int i);                 // "this rare condition was hit"
void note(u64 v);                  // fold an observed value into the run hash
void sim_yield();                  // polling client: let the others run
void sim_wait(std::function<bool()> c); // client waits, without taking steps, for a condition of the harness
void sim_point_here();             // an ordinary scheduling point in client code
bool in_fiber();
int cur_fiber();
int fiber_proc(int f);
bool fiber_done(int f);
bool fiber_killed(int f);
u64 fiber_steps(int f);
void fiber_wait_all_others();      // yields until every other fiber is done or killed
u64 tick_event();                  // strictly increasing event stamp
void progress();                   // a step of a long operation is done: restart the idle budget
void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // only shown with -v
extern bool g_verbose;
void count_fault(int kind);
bool only_me_runnable();           // no other fiber can run now
void stop_faults();                // no OS call faults from now on
void start_faults();

// processes
Proc *proc(int i);
void proc_start(int i);            // fresh copy of the library, runs its constructors
void proc_exit(int i);             // process gone: mappings, descriptors
bool proc_alive(int i);
int proc_pid(int i);
int os_tid();        // of the calling simulated thread
void proc_switch(int i);           // main context: act as process i
const Api *api_of(int i);
extern const Api *A;               // of the current process
int proc_open_fds(int i);
void *lib_sym(const char *name);   // symbol of the current process's library, or null
unsigned os_sem_value(void *sem);
int proc_map_count(int i);
int fiber_op(int f);
bool others_ended();
void kill_proc(int i);             // kill its fibers, drop its mappings

// simulated OS
void os_reset();
u64 run_seed();
void os_set_store_env(const char *v);   // SASSTOREPATH of the current process, or none
void os_mkdir(const char *path);
int os_file_count();
bool os_file_exists(const char *path);
std::vector<std::string> os_files();
int os_shm_count();
void os_power_failure(Rng &r, int keep_num, int keep_den); // all processes gone
void os_fail_blocks(bool on);      // refuse new segments while on
extern u64 os_calls_failed;
u64 os_failed_here();               // OS calls failed by injection in the current fiber
#define MAXFIBER 78
void os_set_clock(u64 mono, u64 real);
u64 os_mono();
u64 os_real();
extern void (*g_clock_hook)(int real, u64 value);   // after each clock read of the library
bool sim_fault(u64 addr, void *uc);  // a memory fault of the application; false: it would end the process
extern bool sim_exit_ok[];           // by thread + 1: the library may end it, and with it this run
void sim_exited();
struct sigaction sim_sigsegv(int pr);
void sim_set_sigsegv(int pr, const struct sigaction &sa);
extern u64 g_segv;                  // faults served by the library's handler
extern u64 g_tick;                 // ns per step
extern const char *STORE;

// ---------------------------------------------------------------- region constants
static const u64 R_LOW = 0x400000000000ULL;
static const u64 R_SIZE = 0x200000000000ULL;
static const u64 R_SEG = 0x10000000ULL;

// ---------------------------------------------------------------- interval model
struct Intervals {            // live storage [a,b) -> owner id
  std::map<u64, std::pair<u64, int>> m;
  // returns -1 if free of overlap, else the owner of an overlapping interval
  int overlap(u64 a, u64 b) const {
    auto it = m.upper_bound(a);
    if (it != m.end() && it->first < b) return it->second.second;
    if (it != m.begin()) { --it; if (it->second.first > a) return it->second.second; }
    return -1;
  }
  void add(u64 a, u64 b, int o) { m[a] = {b, o}; }
  void del(u64 a) { m.erase(a); }
};

// ---------------------------------------------------------------- linearizability of one object
struct LinOp { int kind; long arg; long arg2; long ret; u64 inv, res; bool pending; };
// apply(state, op, newstate) -> true if op with its result is legal in state
typedef std::function<bool(long, const LinOp &, long &)> LinApply;
bool linearizable(const std::vector<LinOp> &h, long init, const LinApply &ap,
                  std::set<long> *finals = nullptr, bool *gave_up = nullptr);
