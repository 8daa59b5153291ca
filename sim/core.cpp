// Deterministic simulator core: fibers, seeded scheduler, process images,
// and the runtime that the instrumented library calls.
#include "internal.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <link.h>
#include <dlfcn.h>
#include <algorithm>
#include <unordered_map>

const char *fault_names[F_NKINDS] = {"open", "create", "ftruncate", "close", "mmap", "shmget", "shmat", "ftok",
  "remove", "msync", "malloc", "eintr", "stall", "process_death", "thread_death", "clock_jump", "power_failure", "store_full"};

Result *g_res;
u64 g_step, g_time_ns, g_tick = 3;
bool g_verbose;
static u64 g_event;
static u64 g_hash, g_shash;
static u64 g_last_progress;
static u64 g_main_points;
Check *g_check;
Prog *g_prog;
u64 run_seed() { return g_prog ? g_prog->seed : 0; }

long Rng::logrange(long lo, long hi) {
  double a = log((double)lo + 1), b = log((double)hi + 1);
  double x = a + (b - a) * ((double)(next() >> 11) / 9007199254740992.0);
  long v = (long)floor(exp(x)) - 1 + (long)0;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}

std::vector<Check *> &all_checks() { static std::vector<Check *> v; return v; }

// ------------------------------------------------------------------ fibers
enum FState { FS_READY, FS_BLOCKED, FS_DONE, FS_KILLED };
struct Fiber {
  int id, proc;
  FState st;
  void *sp;
  char *stack;
  u64 steps, opstart, trip;
  int opidx;
  long prio;
  u64 stall_until;
  std::function<bool()> cond;   // waits for this
  int err;
  void *semaddr; int semproc;
  bool interrupted;
  std::vector<char> tls;
  u64 last_run;
  u64 last_fault_addr; int fault_rep;
  char *fault_sp = nullptr;            // serving a fault: the stack may not go below
  std::vector<SchedEv> ev; size_t evp;
};
static std::vector<Fiber *> fibers;
static Fiber *cur;
static void *main_sp;
static int main_errno;
static std::vector<std::vector<char>> main_tls;   // per process
static const size_t STACK = 512 * 1024;

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

// ------------------------------------------------------------------ processes
struct Module {
  void *handle;
  std::string path;
  char *data; size_t len;              // writable data outside RELRO
  std::vector<char> image;             // before constructors
  void (**init)(int, char **, char **); size_t ninit;
  size_t tls_id; char *tls; size_t tls_len; const char *tls_init; size_t tls_filesz;
  Api api;
};
static Module mods[MAXPROC];
static int nmods;
Proc procs[MAXPROC];
int cur_proc;
const Api *A;

struct FindCtx { void *addr; Module *m; };
static int find_cb(struct dl_phdr_info *i, size_t, void *v) {
  FindCtx *c = (FindCtx *)v;
  bool in = false;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD) {
      u64 lo = i->dlpi_addr + p.p_vaddr;
      if ((u64)c->addr >= lo && (u64)c->addr < lo + p.p_memsz) in = true;
    }
  }
  if (!in) return 0;
  Module *m = c->m;
  u64 wlo = 0, whi = 0, rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { wlo = i->dlpi_addr + p.p_vaddr; whi = wlo + p.p_memsz; }
    if (p.p_type == PT_GNU_RELRO) { rlo = i->dlpi_addr + p.p_vaddr; rhi = (rlo + p.p_memsz) & ~4095UL; }
    if (p.p_type == PT_TLS) {
      m->tls_id = i->dlpi_tls_modid; m->tls = (char *)i->dlpi_tls_data; m->tls_len = p.p_memsz;
      m->tls_init = (const char *)(i->dlpi_addr + p.p_vaddr); m->tls_filesz = p.p_filesz;
    }
    if (p.p_type == PT_DYNAMIC) {
      for (ElfW(Dyn) *d = (ElfW(Dyn) *)(i->dlpi_addr + p.p_vaddr); d->d_tag != DT_NULL; d++) {
        if (d->d_tag == DT_INIT_ARRAY) m->init = (decltype(m->init))(i->dlpi_addr + d->d_un.d_ptr);
        if (d->d_tag == DT_INIT_ARRAYSZ) m->ninit = d->d_un.d_val / sizeof(void *);
      }
    }
  }
  if (rhi > wlo && rlo <= wlo) wlo = rhi;
  m->data = (char *)wlo; m->len = whi - wlo;
  return 1;
}

extern "C" __attribute__((visibility("default"))) void sim_module_ctor(void *addr) {
  static bool in_start;
  (void)in_start;
  Module *m = &mods[nmods];
  if (m->data) return;      // constructor run again at a process start
  for (int i = 0; i < nmods; i++)
    if ((char *)addr >= mods[i].data && (char *)addr < mods[i].data + mods[i].len) return;
  FindCtx c{addr, m};
  dl_iterate_phdr(find_cb, &c);
  m->image.assign(m->data, m->data + m->len);
}

void load_modules(const char *dir, int n) {
  for (int i = 0; i < n; i++) {
    Module *m = &mods[i];
    m->path = std::string(dir) + "/libp" + std::to_string(i) + ".so";
    cur_proc = i;
    m->handle = dlopen(m->path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!m->handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    if (!m->data) { fprintf(stderr, "module %d: no data\n", i); exit(3); }
    ((void *(*)())dlsym(m->handle, "sim_tls_touch"))();
    if (!m->tls && m->tls_len) {
      FindCtx c{m->data, m};
      dl_iterate_phdr(find_cb, &c);
      if (!m->tls) { fprintf(stderr, "module %d: no thread-local block\n", i); exit(3); }
    }
    m->tls_init = nullptr;
    void **tab = (void **)dlsym(m->handle, "sim_inline_table");
    int k = 0;
#define X(n) m->api.n = (decltype(m->api.n))dlsym(m->handle, #n);
    API_LIST(X)
#undef X
#define X(n) m->api.n = (decltype(m->api.n))tab[k++];
    INLINE_LIST(X)
#undef X
    nmods = i + 1;
  }
  cur_proc = 0;
  A = &mods[0].api;
}
const Api *api_of(int i) { return &mods[i].api; }
void *lib_sym(const char *n) { return dlsym(mods[cur_proc].handle, n); }

// The pristine thread-local image, captured right after loading.
static std::vector<char> tls_pristine[MAXPROC];
void capture_tls() {
  for (int i = 0; i < nmods; i++) tls_pristine[i].assign(mods[i].tls_len, 0);
  // .tdata is copied from the file image by the loader before constructors ran;
  // constructors of this library set none of it for other threads, so a new
  // thread's block is the initial image.
  for (int i = 0; i < nmods; i++) {
    FindCtx c{mods[i].data, &mods[i]};
    dl_iterate_phdr(find_cb, &c);
    if (mods[i].tls_filesz) memcpy(tls_pristine[i].data(), mods[i].tls_init, mods[i].tls_filesz);
  }
}

Proc *proc(int i) { return &procs[i]; }
bool proc_alive(int i) { return procs[i].alive; }
int proc_pid(int i) { return procs[i].pid; }

static inline void save_tls(std::vector<char> &v, Module &m) {
  if (m.tls_len) { v.resize(m.tls_len); memcpy(v.data(), m.tls, m.tls_len); }
}
static inline void load_tls(const std::vector<char> &v, Module &m) {
  if (m.tls_len && v.size() == m.tls_len) memcpy(m.tls, v.data(), m.tls_len);
}

static u64 data_lo, data_len;
static void set_proc(int i) {
  cur_proc = i;
  A = &mods[i].api;
  data_lo = (u64)mods[i].data; data_len = mods[i].len;
}
void proc_switch(int i) {
  if (cur) sim_error("proc_switch in a fiber");
  set_proc(i);
  os_map_proc(i);
}
static int pid_seq;
void proc_start(int i) {
  if (cur) sim_error("proc_start in a fiber");
  Module &m = mods[i];
  memcpy(m.data, m.image.data(), m.len);
  if (m.tls_len) memcpy(m.tls, tls_pristine[i].data(), m.tls_len);
  Proc &p = procs[i];
  p = Proc();
  p.alive = true;
  p.pid = 3001 + 17 * pid_seq++;
  proc_switch(i);
  for (size_t k = 0; k < m.ninit; k++)
    if (m.init[k] && (u64)m.init[k] != ~0ULL) m.init[k](0, nullptr, nullptr);
}
void proc_exit(int i) {
  os_proc_gone(i);
  procs[i].alive = false;
}

// ------------------------------------------------------------------ ending a run
static void fill_result() {
  Result *r = g_res;
  r->hash = hash2(g_hash, g_shash);
  r->sched_hash = g_shash;
  r->steps = g_step;
  r->simns = g_time_ns;
  r->preset = 1;
}
static void vfail(int status, const char *cls, const char *fmt, va_list ap) {
  Result *r = g_res;
  if (!r || r->status != ST_NONE) _exit(0);
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  int n = vsnprintf(r->msg, sizeof r->msg, fmt, ap);
  if (n < 0) n = 0;
  if (n < (int)sizeof r->msg - 80) {
    if (cur) snprintf(r->msg + n, sizeof r->msg - n, " [thread %d process %d op %d step %llu]", cur->id, cur->proc, cur->opidx, (unsigned long long)g_step);
    else snprintf(r->msg + n, sizeof r->msg - n, " [quiescent, process %d]", cur_proc);
  }
  g_hash = hash2(g_hash, 0xdead);
  fill_result();
  if (g_verbose) fprintf(stderr, "%s: %s\n", r->cls, r->msg);
  r->status = status;
  _exit(0);
}
void fail(const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vfail(ST_VIOL, cls, fmt, ap);
  _exit(0);
}
void sim_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vfail(ST_ERR, "simulator-error", fmt, ap);
  _exit(0);
}
bool sim_exit_ok[MAXFIBER + 2];
void sim_exited() {     // the library ended the caller's process or thread: the run ends here if that is right
  if (!sim_exit_ok[(cur ? cur->id : -1) + 1]) return;
  fill_result(); g_res->status = ST_OK; _exit(0);
}
void logf_(const char *fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "  [%llu t%d p%d] ", (unsigned long long)g_step, cur ? cur->id : -1, cur_proc);
  vfprintf(stderr, fmt, ap);
  fputc('\n', stderr);
}
void probe(int i) { if (i >= 0 && i < NPROBES) g_res->probes[i]++; }
void note(u64 v) { g_hash = hash2(g_hash, v); }
u64 tick_event() { return ++g_event; }
void progress() {
  if (!in_fiber()) g_main_points = 0;
  g_last_progress = g_step;
}
void count_fault(int k) { g_res->faults[k]++; }

// ------------------------------------------------------------------ scheduling
enum Strat { S_RANDOM, S_PCT, S_SYNC, S_CONFLICT, S_RR, S_NSTRAT };
static Rng sr;
static Strat strat;
static u64 mean_gap;         // mean number of steps between preemptions
static int sync_num;         // out of 16: preempt at synchronisation points
static int conf_num;         // out of 16: preempt at conflicting accesses
static int stall_den;        // 1/n preempted threads are stalled for long; 0 never
static int nstalls;
static long pct_low;
static u64 countdown;
static bool explicit_mode;
static const u64 FAIR = 20000;
static u64 run_since;        // steps since cur was switched in
struct Last { u64 key; int fiber; bool w; };
static Last last[4096];

static u64 gap() {
  if (mean_gap >= (1ULL << 40)) return ~0ULL;
  double u = ((double)(sr.next() >> 11) + 1) / 9007199254740993.0;
  u64 g = (u64)(-log(u) * (double)mean_gap) + 1;
  return g;
}

static bool runnable(Fiber *f) { return f->st == FS_READY && (f->stall_until <= g_step) && (!f->cond || f->cond()); }
static Fiber *runnable_list[64];
static int list_runnable(Fiber *except) {
  int n = 0;
  for (Fiber *f : fibers) if (f != except && runnable(f)) runnable_list[n++] = f;
  return n;
}
// earliest stalled fiber, made runnable (idle time passes)
static Fiber *wake_stalled(Fiber *except) {
  Fiber *b = nullptr;
  for (Fiber *f : fibers)
    if (f != except && f->st == FS_READY && f->stall_until > g_step && (!f->cond || f->cond()))
      if (!b || f->stall_until < b->stall_until) b = f;
  if (b) { g_time_ns += (b->stall_until - g_step) * g_tick; b->stall_until = 0; }
  return b;
}
static Fiber *default_next(Fiber *from) {
  // round robin by id
  size_t n = fibers.size();
  size_t base = from ? (size_t)from->id : n - 1;
  for (size_t k = 1; k <= n; k++) {
    Fiber *f = fibers[(base + k) % n];
    if (f != from && runnable(f)) return f;
  }
  return nullptr;
}
static Fiber *choose(Fiber *from, int why) {
  int n = list_runnable(from);
  if (n == 0) return nullptr;
  if (explicit_mode) return default_next(from);
  switch (strat) {
  case S_PCT: {
    Fiber *b = nullptr;
    for (int i = 0; i < n; i++) if (!b || runnable_list[i]->prio > b->prio) b = runnable_list[i];
    return b;
  }
  case S_RR: return default_next(from);
  default: return runnable_list[sr.below(n)];
  }
}

static void record(Fiber *from, Fiber *to) {
  g_shash = hash2(hash2(g_shash, from ? (u64)from->id * 0x10001 + from->steps * 64 : 7), (u64)(to ? to->id : 99));
  if (from && to) {
    if (g_res->ntrace < TRACE_MAX) g_res->trace[g_res->ntrace++] = SchedEv{from->id, to->id, from->steps};
    else g_res->trace_overflow = 1;
  }
}
static void switch_to(Fiber *to) {
  Fiber *from = cur;
  if (from == to) return;
  record(from, to);
  if (g_verbose && getenv("SIM_TRACE")) fprintf(stderr, "    [%llu] %d(%d,%ld) -> %d\n", (unsigned long long)g_step, from ? from->id : -1, from ? (int)from->st : 0, from ? (long)from->stall_until : 0, to ? to->id : -1);
  g_res->switches++;
  if (from) { from->err = errno; save_tls(from->tls, mods[from->proc]); }
  else { main_errno = errno; main_tls.resize(nmods); for (int i = 0; i < nmods; i++) save_tls(main_tls[i], mods[i]); }
  void **save = from ? &from->sp : &main_sp;
  void *sp;
  cur = to;
  if (to) {
    to->last_run = g_step;
    load_tls(to->tls, mods[to->proc]);
    if (to->proc != cur_proc) { set_proc(to->proc); os_map_proc(to->proc); }
    errno = to->err;
    sp = to->sp;
  } else {
    for (int i = 0; i < nmods; i++) load_tls(main_tls[i], mods[i]);
    errno = main_errno;
    sp = main_sp;
  }
  run_since = 0;
  countdown = explicit_mode ? ~0ULL : (strat == S_RR ? mean_gap : gap());
  sim_switch(save, sp);
  // back in `from`
}

static SchedEv *explicit_due() {
  Fiber *f = cur;
  while (f->evp < f->ev.size() && f->ev[f->evp].fstep < f->steps) f->evp++;
  if (f->evp < f->ev.size() && f->ev[f->evp].fstep == f->steps) return &f->ev[f->evp++];
  return nullptr;
}

static void stuck(const char *why) {
  char buf[1200]; int n = 0;
  for (Fiber *f : fibers)
    n += snprintf(buf + n, n < 1100 ? 1100 - n : 0, " t%d(p%d):%s op%d%s", f->id, f->proc,
                  f->st == FS_READY ? "running" : f->st == FS_BLOCKED ? "blocked" : f->st == FS_DONE ? "done" : "killed",
                  f->opidx, f->st == FS_BLOCKED ? " in sem_wait" : "");
  if (g_check->stuck_ok(*g_prog)) { fill_result(); g_res->status = ST_OK; _exit(0); }
  fail(why, "%s:%s", why[0] == 'd' ? "all threads are blocked" : "no operation finishes any more", buf);
}

// cur gives up the processor because it cannot or should not go on
static void must_leave() {     // cur is blocked, done or killed
  Fiber *to = nullptr;
  Fiber *me = cur;
  me->steps++;
  if (explicit_mode) {
    SchedEv *e = explicit_due();
    if (e && e->to >= 0 && e->to < (int)fibers.size() && fibers[e->to] != me && runnable(fibers[e->to])) to = fibers[e->to];
  }
  if (!to) to = choose(me, 1);
  if (!to) to = wake_stalled(me);
  if (!to) {
    bool alldone = true;
    for (Fiber *f : fibers) if (f->st == FS_READY || f->st == FS_BLOCKED) alldone = false;
    if (alldone) { switch_to(nullptr); return; }
    // only blocked fibers are left
    if (me->st == FS_READY && !me->cond) return;
    // a signal may still arrive
    stuck("deadlock");
  }
  switch_to(to);
}
static void yield_now() {
  Fiber *me = cur;
  me->steps++;
  if (g_step - g_last_progress > g_check->idle_budget) stuck("stuck");
  Fiber *to = nullptr;
  if (explicit_mode) {
    SchedEv *e = explicit_due();
    if (e && e->to >= 0 && e->to < (int)fibers.size() && runnable(fibers[e->to])) to = fibers[e->to];
    if (!to) to = default_next(me);
  } else {
    if (strat == S_PCT) me->prio = --pct_low;
    to = choose(me, 2);
  }
  if (!to) to = wake_stalled(me);
  if (!to || to == me) return;
  switch_to(to);
}

static void preempt() {
  Fiber *me = cur;
  if (strat == S_PCT) me->prio = --pct_low;
  Fiber *to = choose(me, 0);
  countdown = strat == S_RR ? mean_gap : gap();
  if (!to) return;
  if (stall_den && nstalls < 12 && sr.below(stall_den) == 0) nstalls++, me->stall_until = g_step + sr.logrange(50, 20000);
  g_res->preempts++;
  switch_to(to);
}

static void trip();

static void check_limits() {
  if (g_step - g_last_progress > g_check->idle_budget) stuck("stuck");
  if (g_step > g_check->max_steps) fail("step-limit", "the run exceeds %llu steps", (unsigned long long)g_check->max_steps);
}

// every instrumented access to shared memory, every wrapped call
static char *main_fault_sp;
static void deep(char *lim) { if (lim && (char *)__builtin_frame_address(0) < lim) fail("fault-loop", "serving a memory fault calls itself again and again"); }
void sim_point(int kind, u64 addr) {
  Fiber *f = cur;
  if (__builtin_expect((f ? f->fault_sp : main_fault_sp) != nullptr, 0)) deep(f ? f->fault_sp : main_fault_sp);
  g_step++;
  g_time_ns += g_tick;
  if (__builtin_expect(!f, 0)) {
    if (++g_main_points > 40000000) fail("stuck", "an operation at a quiescent moment never ends");
    return;
  }
  f->steps++;
  run_since++;
  if (__builtin_expect((g_step & 1023) == 0, 0)) check_limits();
  if (__builtin_expect(f->steps == f->trip, 0)) { trip(); if (cur != f) return; }
  if (explicit_mode) {
    if (f->evp < f->ev.size() && f->ev[f->evp].fstep <= f->steps) {
      SchedEv *e = explicit_due();
      if (e && e->to >= 0 && e->to < (int)fibers.size() && e->to != f->id && runnable(fibers[e->to])) {
        g_res->preempts++;
        switch_to(fibers[e->to]);
        return;
      }
    }
    if (run_since > FAIR) { Fiber *to = default_next(f); if (to) { g_res->preempts++; switch_to(to); } else run_since = 0; }
    return;
  }
  if (kind == P_SPIN || kind == P_PAUSE) { yield_now(); return; }
  if (--countdown == 0) { preempt(); return; }
  if (run_since > FAIR) {
    run_since = 0;
    Fiber *b = nullptr;
    for (Fiber *o : fibers) if (o != f && runnable(o) && (!b || o->last_run < b->last_run)) b = o;
    if (b) { if (strat == S_PCT) f->prio = --pct_low; g_res->preempts++; switch_to(b); }
    return;
  }
  if (sync_num && (kind == P_RMW || kind == P_SYNC)) {
    if (sr.below(16) < (u64)sync_num) { preempt(); return; }
  } else if (conf_num && addr) {
    u64 key = (addr - data_lo < data_len ? addr - data_lo + 0x1000 : addr) >> 3;
    Last &l = last[(key ^ (key >> 12) ^ (key >> 24)) & 4095];
    bool w = kind != P_READ;
    bool conflict = l.key == key && l.fiber != f->id && (l.w || w);
    if (conflict && sr.below(16) < (u64)conf_num) { l.fiber = f->id; l.w = w; preempt(); return; }
    if (l.key == key && l.fiber == f->id) l.w |= w;
    else { l.key = key; l.fiber = f->id; l.w = w; }
  }
}
void sim_yield_point() {      // pause, sched_yield, sleep
  sim_point(P_SYNC, 0);
  if (cur && !explicit_mode) yield_now();
  else if (cur) yield_now();
}
void sim_yield() { sim_yield_point(); }
void sim_wait(std::function<bool()> c) {
  if (!cur) { if (!c()) fail("stuck", "waiting at a quiescent moment would never end"); return; }
  sim_point(P_SYNC, 0);
  while (!c()) { cur->cond = c; must_leave(); cur->cond = nullptr; }
}
void sim_point_here() { sim_point(P_PLAIN, 0); }
bool in_fiber() { return cur != nullptr; }
int cur_fiber() { return cur ? cur->id : -1; }
int fiber_proc(int f) { return fibers[f]->proc; }
bool fiber_done(int f) { return fibers[f]->st == FS_DONE; }
bool fiber_killed(int f) { return fibers[f]->st == FS_KILLED; }
u64 fiber_steps(int f) { return fibers[f]->steps; }
int fiber_op(int f) { return fibers[f]->opidx; }
bool only_me_runnable() {
  for (Fiber *f : fibers) if (f != cur && f->st == FS_READY) return false;
  return true;
}
bool others_ended() {
  for (Fiber *f : fibers) if (f != cur && (f->st == FS_READY || f->st == FS_BLOCKED)) return false;
  return true;
}
void fiber_wait_all_others() { while (!others_ended()) sim_yield(); }

// ------------------------------------------------------------------ blocking on semaphores
void sim_block_on(void *sem, int sproc) {
  if (!cur) fail("stuck", "a semaphore is still held at a quiescent moment: waiting would never end");
  cur->st = FS_BLOCKED; cur->semaddr = sem; cur->semproc = sproc; cur->interrupted = false;
  must_leave();
}
void sim_wake(void *sem, int sproc) {
  for (Fiber *f : fibers)
    if (f->st == FS_BLOCKED && f->semaddr == sem && (f->semproc == sproc)) f->st = FS_READY;
}

// ------------------------------------------------------------------ planned faults on fibers
static std::vector<Fault> op_faults;     // F_STALL, F_CRASH, F_THREADDEATH
static bool faults_on = true;
static u64 fault_count[F_NKINDS];
void stop_faults() { faults_on = false; }
void start_faults() { faults_on = true; }
static void set_trip(Fiber *f) {
  f->trip = 0;
  for (auto &x : op_faults)
    if (x.who == f->id && x.at == f->opidx && x.len > 0) {
      u64 t = f->opstart + (x.nth < 1 ? 1 : x.nth);
      if (t > f->steps && (!f->trip || t < f->trip)) f->trip = t;
    }
}
void kill_proc(int i) {
  procs[i].alive = false;
  for (Fiber *f : fibers)
    if (f->proc == i && (f->st == FS_READY || f->st == FS_BLOCKED)) { f->st = FS_KILLED; g_check->on_kill(f->id); }
  os_proc_gone(i);
}
static void trip() {
  Fiber *f = cur;
  for (auto &x : op_faults)
    if (x.who == f->id && x.at == f->opidx && x.len > 0 && f->opstart + (x.nth < 1 ? 1 : x.nth) == f->steps) {
      if (x.kind == F_STALL) {
        g_res->faults[F_STALL]++;
        f->stall_until = g_step + x.len;
        x.len = 0;
        f->steps++;
        set_trip(f);
        Fiber *to = nullptr;
        if (explicit_mode) {
          SchedEv *e = explicit_due();
          if (e && e->to >= 0 && e->to < (int)fibers.size() && e->to != f->id && runnable(fibers[e->to])) to = fibers[e->to];
        }
        if (!to) to = choose(f, 0);
        if (to) switch_to(to); else f->stall_until = 0;
        return;
      }
      x.len = 0;
      if (x.kind != F_POWER) g_res->faults[x.kind]++;   // counted when the store loses its contents
      g_last_progress = g_step;
      note(0xcccc0000 + f->id);
      if (x.kind == F_CRASH) { int p = f->proc; kill_proc(p); }
      else if (x.kind == F_POWER) { for (int p = 0; p < MAXPROC; p++) if (procs[p].alive) kill_proc(p); }
      else { f->st = FS_KILLED; g_check->on_kill(f->id); }
      must_leave();
      sim_error("killed fiber continues");
    }
  set_trip(f);
}
int os_fault(int kind, int deferr) {
  if (!g_prog || !faults_on) return 0;
  u64 n = ++fault_count[kind];
  for (auto &x : g_prog->faults)
    if (x.kind == kind && n >= (u64)x.nth && n < (u64)(x.nth + x.len)) {
      g_res->faults[kind]++;
      logf_("fault %s #%llu", fault_names[kind], (unsigned long long)n);
      return x.arg ? (int)x.arg : deferr;
    }
  return 0;
}

// ------------------------------------------------------------------ fiber main
static void fiber_main() {
  Fiber *f = cur;
  ThreadProg &tp = g_prog->threads[f->id];
  for (size_t i = 0; i < tp.ops.size(); i++) {
    f->opidx = (int)i;
    f->opstart = f->steps;
    set_trip(f);
    sim_point(P_SYNC, 0);
    Op &o = tp.ops[i];
    if (g_verbose) logf_("begin %s %ld %ld %ld %ld", o.k < (int)g_check->opnames.size() ? g_check->opnames[o.k] : "?", o.a, o.b, o.c, o.d);
    g_check->op(f->id, (int)i, o);
    g_res->opsdone++;
    g_last_progress = g_step;
  }
  f->opidx = (int)tp.ops.size();
  f->opstart = f->steps;
  set_trip(f);
  g_check->thread_end(f->id);
  g_last_progress = g_step;
  f->st = FS_DONE;
  must_leave();
  sim_error("finished fiber continues");
}
extern "C" void sim_fiber_entry() { fiber_main(); _exit(9); }

// ------------------------------------------------------------------ faults of the real machine
static struct { u64 addr; int n; u64 step; } mainflt;
u64 g_segv;
extern bool sim_fault_info_ok;
bool step_trap(void *uc);
static void on_segv(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGTRAP && step_trap(uc)) return;
  u64 a = (u64)si->si_addr;
  if (sig == SIGSEGV && a >= R_LOW && a < R_LOW + R_SIZE + R_SEG + 0x2000000 && si->si_code > 0) {
    Proc &p = procs[cur_proc];
    if (!p.segv) fail("crash", "memory fault at region address %#llx with no handler installed", (unsigned long long)a);
    u64 &la = cur ? cur->last_fault_addr : mainflt.addr;
    int &n = cur ? cur->fault_rep : mainflt.n;
    if (la == a) n++; else { la = a; n = 1; }
    if (n > 60) fail("fault-loop", "access to %#llx faults again and again", (unsigned long long)a);
    g_res->live_calls++;
    sim_point(P_SYNC, 0);
    g_segv++;
    p.segv(sig, si, uc);
    return;
  }
  fail("crash", "signal %d (%s) at %#llx", sig, strsignal(sig), (unsigned long long)a);
}
// a memory fault of the application, outside the store, served as the kernel would: false if it ends the process
bool sim_fault(u64 addr, void *uc) {
  struct sigaction sa = procs[cur_proc].sa_segv;
  if (sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN) return false;
  siginfo_t si; memset(&si, 0, sizeof si);
  si.si_signo = SIGSEGV; si.si_code = SEGV_MAPERR; si.si_addr = (void *)addr;
  char *&sp = cur ? cur->fault_sp : main_fault_sp;
  char *old = sp; Fiber *f = cur;
  sp = (char *)__builtin_frame_address(0) - 100000;
  if (sa.sa_flags & SA_SIGINFO) sa.sa_sigaction(SIGSEGV, &si, uc); else sa.sa_handler(SIGSEGV);
  if (cur != f) sim_error("fault on another thread");
  (cur ? cur->fault_sp : main_fault_sp) = old;
  sim_fault_info_ok = si.si_addr == (void *)addr && si.si_signo == SIGSEGV;
  return true;
}
bool sim_fault_info_ok;
struct sigaction sim_sigsegv(int pr) { return procs[pr].sa_segv; }
void sim_set_sigsegv(int pr, const struct sigaction &sa) {
  procs[pr].sa_segv = sa; bool h = sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN;
  procs[pr].segv = h ? sa.sa_sigaction : nullptr;
}
static void on_cpu(int) { fail("cpu-time", "the run does not end (processor time limit)"); }

void run_child(Check *c, Prog &p) {
  g_check = c; g_prog = &p;
  g_hash = hash2(p.seed * 0, 1); g_shash = 1;
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_cpu; sa.sa_flags = 0;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval it = {{0, 0}, {20, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);

  sr.reseed(p.sched_seed ^ 0x5eed);
  explicit_mode = p.explicit_sched;
  int t = sr.below(12);
  strat = t < 3 ? S_RANDOM : t < 6 ? S_PCT : t < 8 ? S_SYNC : t < 11 ? S_CONFLICT : S_RR;
  mean_gap = 1;
  switch (strat) {
  case S_RANDOM: mean_gap = sr.logrange(1, 400); break;
  case S_PCT: mean_gap = sr.logrange(20, 30000); break;
  case S_SYNC: mean_gap = sr.logrange(50, 3000); sync_num = 1 + sr.below(10); break;
  case S_CONFLICT: mean_gap = sr.logrange(100, 5000); conf_num = 1 + sr.below(8); if (sr.chance(1, 2)) sync_num = 1 + sr.below(4); break;
  default: mean_gap = sr.logrange(1, 120); break;
  }
  stall_den = sr.chance(1, 2) ? 0 : 1 << sr.below(5);
  g_tick = 1 + sr.below(20);
  faults_on = true;
  op_faults.clear();
  for (auto &x : p.faults)
    if (x.kind == F_STALL || x.kind == F_CRASH || x.kind == F_THREADDEATH || x.kind == F_POWER) { op_faults.push_back(x); if (op_faults.back().len <= 0) op_faults.back().len = 1; }
  os_reset();
  for (int i = 0; i < p.nprocs; i++) proc_start(i);
  proc_switch(0);
  c->setup(p);

  size_t n = p.threads.size();
  std::vector<long> pr;
  for (size_t i = 0; i < n; i++) pr.push_back(1000 + i);
  for (size_t i = n; i > 1; i--) std::swap(pr[i - 1], pr[sr.below(i)]);
  pct_low = 900;
  for (size_t i = 0; i < n; i++) {
    Fiber *f = new Fiber();
    f->id = (int)i; f->proc = p.threads[i].proc;
    f->st = procs[f->proc].alive ? FS_READY : FS_KILLED;
    f->prio = pr[i];
    f->tls = tls_pristine[f->proc];
    f->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 4096, PROT_NONE);
    u64 *sp = (u64 *)(f->stack + STACK - 64);
    *--sp = 0;
    *--sp = (u64)&sim_fiber_entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    f->sp = sp;
    f->opidx = -1;
    fibers.push_back(f);
  }
  if (explicit_mode)
    for (auto &e : p.sched) if (e.fiber >= 0 && e.fiber < (int)n) fibers[e.fiber]->ev.push_back(e);
  g_last_progress = g_step;
  if (n) {
    Fiber *first = nullptr;
    int start_choice = explicit_mode && !p.sched.empty() ? p.sched[0].fiber : -1;
    if (start_choice >= 0 && start_choice < (int)n && runnable(fibers[start_choice])) first = fibers[start_choice];
    else first = choose(nullptr, 1);
    if (first) switch_to(first);
  }
  cur = nullptr;
  proc_switch(0);
  for (int i = 0; i < p.nprocs; i++) if (procs[i].alive) { proc_switch(i); break; }
  c->finish(p);
  fill_result();
  g_res->status = ST_OK;
  _exit(0);
}

// ------------------------------------------------------------------ instrumentation runtime
static inline bool shared(u64 a) {
  return a - R_LOW < R_SIZE + R_SEG + 0x2000000 || a - data_lo < data_len;
}
#define EXP extern "C" __attribute__((visibility("default")))
#define RD(n) EXP void __tsan_read##n(void *p) { if (shared((u64)p)) sim_point(P_READ, (u64)p); } \
  EXP void __tsan_unaligned_read##n(void *p) { if (shared((u64)p)) sim_point(P_READ, (u64)p); } \
  EXP void __tsan_volatile_read##n(void *p) { if (shared((u64)p)) sim_point(P_READ, (u64)p); } \
  EXP void __tsan_unaligned_volatile_read##n(void *p) { if (shared((u64)p)) sim_point(P_READ, (u64)p); } \
  EXP void __tsan_read##n##_pc(void *p, void *) { if (shared((u64)p)) sim_point(P_READ, (u64)p); }
#define WR(n) EXP void __tsan_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_unaligned_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_volatile_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_unaligned_volatile_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_write##n##_pc(void *p, void *) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_read_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); } \
  EXP void __tsan_unaligned_read_write##n(void *p) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); }
RD(1) RD(2) RD(4) RD(8) RD(16)
WR(1) WR(2) WR(4) WR(8) WR(16)
EXP void __tsan_read_range(void *p, size_t) { if (shared((u64)p)) sim_point(P_READ, (u64)p); }
EXP void __tsan_write_range(void *p, size_t) { if (shared((u64)p)) sim_point(P_WRITE, (u64)p); }
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_vptr_update(void **, void *) {}
EXP void __tsan_vptr_read(void **) {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define ATP(p) if (shared((u64)(p))) sim_point(P_RMW, (u64)(p))
#define ATL(p) if (shared((u64)(p))) sim_point(P_READ, (u64)(p))
#define ATW(p) if (shared((u64)(p))) sim_point(P_WRITE, (u64)(p))
#define AT(N, T) \
  EXP T __tsan_atomic##N##_load(const volatile T *p, int) { ATL(p); return *p; } \
  EXP void __tsan_atomic##N##_store(volatile T *p, T v, int) { ATW(p); *p = v; } \
  EXP T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { ATP(p); T o = *p; *p = v; return o; } \
  EXP T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { ATP(p); T o = *p; *p = o + v; return o; } \
  EXP T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { ATP(p); T o = *p; *p = o - v; return o; } \
  EXP T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { ATP(p); T o = *p; *p = o & v; return o; } \
  EXP T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { ATP(p); T o = *p; *p = o | v; return o; } \
  EXP T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { ATP(p); T o = *p; *p = o ^ v; return o; } \
  EXP T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { ATP(p); T o = *p; *p = ~(o & v); return o; } \
  EXP int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { ATP(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXP int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { ATP(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXP T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { ATP(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, __uint128_t)
EXP void __tsan_atomic_thread_fence(int) { if (cur) sim_point(P_PLAIN, 0); }
EXP void __tsan_atomic_signal_fence(int) {}
// Whether an inline assembly read-modify-write really is indivisible is read off the instruction itself: the first
// time a hook returns to a place, the processor is single-stepped from there to the instruction.  One that is
// neither locked nor an exchange reads, lets the others run, and writes what it made of the old value.
struct AsmSite { u64 ret; int state; int size; };   // state 0 new, 1 indivisible, 2 two halves
static AsmSite asm_sites[512];
static struct { AsmSite *site; volatile void *addr; int left; } stepping;
static AsmSite *asm_site(u64 ret) {
  for (u64 i = (ret >> 1) & 511, n = 0; n < 512; i = (i + 1) & 511, n++) {
    if (asm_sites[i].ret == ret) return &asm_sites[i];
    if (!asm_sites[i].ret) { asm_sites[i].ret = ret; return &asm_sites[i]; }
  }
  return nullptr;
}
static void split_rmw(volatile void *a, int size) {
  u64 old = 0;
  memcpy(&old, (const void *)a, size);
  sim_point(P_RMW, (u64)a);
  memcpy((void *)a, &old, size);
}
// 0: not a read-modify-write of memory, 1: indivisible, 2: not; -1: a call or return
static int rmw_kind(const unsigned char *p, int *size) {
  bool lock = false, o16 = false, rexw = false;
  for (;; p++) {
    if (*p == 0xf0) lock = true;
    else if (*p == 0x66) o16 = true;
    else if (*p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x3e || *p == 0x64 || *p == 0x65) ;
    else break;
  }
  if ((*p & 0xf0) == 0x40) { rexw = *p & 8; p++; }
  if (*p == 0xe8 || *p == 0xc3 || *p == 0xc2 || (*p == 0xff && (p[1] >> 3 & 7) >= 2 && (p[1] >> 3 & 7) <= 5)) return -1;
  bool byte = false, xchg = false; int m;
  if (*p == 0x0f) {
    int o = p[1];
    if (!(o == 0xb0 || o == 0xb1 || o == 0xc0 || o == 0xc1 || o == 0xab || o == 0xb3 || o == 0xbb)) return 0;
    byte = o == 0xb0 || o == 0xc0; m = p[2];
  } else if (*p == 0x86 || *p == 0x87) { xchg = true; byte = *p == 0x86; m = p[1]; }
  else if (*p < 0x38 && (*p & 7) <= 1) { byte = !(*p & 1); m = p[1]; }          // add or adc sbb and sub xor
  else if (*p == 0x80 || *p == 0x81 || *p == 0x83) { byte = *p == 0x80; m = p[1]; if ((m >> 3 & 7) == 7) return 0; }
  else if (*p == 0xfe || *p == 0xff) { byte = *p == 0xfe; m = p[1]; if ((m >> 3 & 7) > 1) return 0; }
  else return 0;
  if (m >> 6 == 3) return 0;
  *size = byte ? 1 : rexw ? 8 : o16 ? 2 : 4;
  return lock || xchg ? 1 : 2;
}
bool step_trap(void *ucp) {
  if (!stepping.site) return false;
  ucontext_t *uc = (ucontext_t *)ucp;
  greg_t &fl = uc->uc_mcontext.gregs[REG_EFL];
  u64 ip = (u64)uc->uc_mcontext.gregs[REG_RIP];
  AsmSite *s = stepping.site;
  bool there = ip - s->ret < 4096;
  int size = 8, k = there ? rmw_kind((const unsigned char *)ip, &size) : 0;
  if (k == 0 && stepping.left-- > 0) return true;
  fl &= ~0x100L;
  volatile void *a = stepping.addr;
  stepping.site = nullptr;
  s->state = k == 2 ? 2 : 1; s->size = size;
  if (k == 2) split_rmw(a, size);
  return true;
}
static void hook_point(volatile void *a, int kind);
EXP __attribute__((noinline)) void sphde_sim_point(volatile void *a, int kind) {
  hook_point(a, kind);
  if (kind == 3 || !cur || !a || !shared((u64)a)) return;
  AsmSite *s = asm_site((u64)__builtin_return_address(0));
  if (!s || s->state == 1) return;
  if (s->state == 2) { split_rmw(a, s->size); return; }
  stepping.site = s; stepping.addr = a; stepping.left = 400;
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
}
static void hook_point(volatile void *a, int kind) {
  if (kind == 3) { sim_yield_point(); return; }
  if (!a || !shared((u64)a)) { if (kind == 2) sim_yield_point(); return; }
  if (kind == 2) {
    // about to try: a failing try is a wait
    bool held = *(volatile unsigned *)a != 0;
    sim_point(P_RMW, (u64)a);
    int guard = 0;
    while (cur && held && *(volatile unsigned *)a != 0 && guard++ < 2) yield_now_pub();
    if (!cur && *(volatile unsigned *)a != 0) {
      static u64 spins;
      if (++spins > 100000) fail("stuck", "a spin lock is still held at a quiescent moment");
    }
    return;
  }
  sim_point(P_RMW, (u64)a);
}
void yield_now_pub() { if (cur) { sim_point(P_PLAIN, 0); yield_now(); } }

// ------------------------------------------------------------------ linearizability (single object, Wing & Gong with memo)
struct LinSearch {
  const std::vector<LinOp> &h; const LinApply &ap; std::set<long> *finals;
  std::set<std::pair<std::vector<bool>, long>> seen; u64 budget; bool any;
  bool rec(std::vector<bool> &done, long st) {
    if (budget-- == 0) return true;
    if (!seen.insert({done, st}).second) return false;
    u64 minres = ~0ULL; bool all = true;
    for (size_t i = 0; i < h.size(); i++)
      if (!done[i] && !h[i].pending) { all = false; minres = std::min(minres, h[i].res); }
    if (all) {
      any = true;
      if (!finals) return true;
      finals->insert(st);
      // pending operations may still take effect
    }
    for (size_t i = 0; i < h.size(); i++) {
      if (done[i] || h[i].inv > minres) continue;
      long ns = st;
      if (!ap(st, h[i], ns)) continue;
      done[i] = true;
      if (rec(done, ns)) return true;
      done[i] = false;
    }
    return false;
  }
};
bool linearizable(const std::vector<LinOp> &h, long init, const LinApply &ap, std::set<long> *finals, bool *gave_up) {
  LinSearch s{h, ap, finals, {}, 400000, false};
  std::vector<bool> done(h.size(), false);
  bool r = s.rec(done, init);
  if (gave_up) *gave_up = false;
  if (s.budget == 0 || s.budget == ~0ULL) { if (gave_up) *gave_up = true; return true; }
  return r || s.any;
}
