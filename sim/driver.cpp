// Search driver: many seeded runs in parallel, gate, minimise, replay, evidence.
#include "internal.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <unordered_set>
#include <sstream>
#include <fstream>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static Check *chk;
static int W = 8;

static void reset_result(Result *r) { memset((void *)r, 0, offsetof(Result, trace)); }

// run one program in a child; returns the status
static int run_one(Prog &p, Result *r) {
  reset_result(r);
  g_res = r;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); dup2(n, 1); } }
    run_child(chk, p);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == ST_NONE) {
    if (WIFSIGNALED(st)) {
      r->status = ST_VIOL;
      snprintf(r->cls, sizeof r->cls, "crash");
      snprintf(r->msg, sizeof r->msg, "the process was killed by signal %d (%s), for example by running out of stack", WTERMSIG(st), strsignal(WTERMSIG(st)));
    } else {
      r->status = ST_ERR;
      snprintf(r->cls, sizeof r->cls, "simulator-error");
      snprintf(r->msg, sizeof r->msg, "child ended without a result (status %x)", st);
    }
  }
  return r->status;
}

// ------------------------------------------------------------------ programs
static u64 idx_seed(u64 base, u64 idx) { u64 x = base * 0x9e3779b97f4a7c15ULL + idx * 0xd1342543de82ef95ULL + 77; Rng::mix(x); return Rng::mix(x); }
static Prog make_prog(u64 base, u64 idx) {
  Prog p;
  p.check = chk->id;
  p.seed = idx_seed(base, idx);
  Rng r(p.seed);
  p.sched_seed = r.next();
  chk->gen(r, p);
  return p;
}
static std::string prog_text(const Prog &p, bool with_sched = true) {
  std::ostringstream o;
  o << "check " << p.check << "\nseed " << p.seed << "\nsched_seed " << p.sched_seed << "\nprocesses " << p.nprocs << "\ncfg";
  for (long c : p.cfg) o << ' ' << c;
  o << "\n";
  for (auto &f : p.faults) o << "fault " << fault_names[f.kind] << ' ' << f.who << ' ' << f.at << ' ' << f.nth << ' ' << f.len << ' ' << f.arg << "\n";
  for (size_t i = 0; i < p.threads.size(); i++) {
    o << "thread " << i << " process " << p.threads[i].proc << "\n";
    for (auto &op : p.threads[i].ops) o << "  op " << op.k << ' ' << op.a << ' ' << op.b << ' ' << op.c << ' ' << op.d << " # " << (op.k >= 0 && op.k < (int)chk->opnames.size() ? chk->opnames[op.k] : "?") << "\n";
  }
  o << "explicit " << (p.explicit_sched ? 1 : 0) << "\n";
  if (with_sched && p.explicit_sched) for (auto &e : p.sched) o << "switch " << e.fiber << ' ' << e.to << ' ' << e.fstep << "\n";
  return o.str();
}
static bool prog_parse(std::istream &in, Prog &p, std::string &cls, u64 &hash) {
  std::string line;
  bool got = false;
  while (std::getline(in, line)) {
    size_t h = line.find(" # ");
    if (h != std::string::npos) line.resize(h);
    std::istringstream s(line);
    std::string w;
    if (!(s >> w)) continue;
    if (w == "check") { s >> p.check; got = true; }
    else if (w == "seed") s >> p.seed;
    else if (w == "sched_seed") s >> p.sched_seed;
    else if (w == "processes") s >> p.nprocs;
    else if (w == "cfg") { long v; while (s >> v) p.cfg.push_back(v); }
    else if (w == "fault") {
      Fault f; std::string k; s >> k >> f.who >> f.at >> f.nth >> f.len >> f.arg; f.kind = -1;
      for (int i = 0; i < F_NKINDS; i++) if (k == fault_names[i]) f.kind = i;
      if (f.kind >= 0) p.faults.push_back(f);
    } else if (w == "thread") { int i, pr; std::string x; s >> i >> x >> pr; p.threads.push_back(ThreadProg{pr, {}}); }
    else if (w == "op") { Op o; s >> o.k >> o.a >> o.b >> o.c >> o.d; p.threads.back().ops.push_back(o); }
    else if (w == "explicit") { int e; s >> e; p.explicit_sched = e; }
    else if (w == "switch") { SchedEv e; s >> e.fiber >> e.to >> e.fstep; p.sched.push_back(e); }
    else if (w == "violation_class") s >> cls;
    else if (w == "hash") s >> hash;
  }
  return got;
}

// ------------------------------------------------------------------ minimise
static double min_deadline;
static bool reproduces(Prog &p, Result *r, const std::string &cls) {
  if (now_s() > min_deadline) return false;
  return run_one(p, r) == ST_VIOL && cls == r->cls;
}
static void take_trace(Prog &p, Result *r) {
  p.explicit_sched = true;
  p.sched.assign(r->trace, r->trace + r->ntrace);
}
// try to make candidate c fail the same way, with the old schedule or other seeds
static bool try_cand(Prog &c, Result *r, const std::string &cls, int tries) {
  if (reproduces(c, r, cls)) { if (!r->trace_overflow && c.explicit_sched) take_trace(c, r); return true; }
  if (tries) {
    Prog s = c;
    s.explicit_sched = false; s.sched.clear();
    Rng rr(c.sched_seed ^ 0xabcdef);
    for (int k = 0; k < tries && now_s() < min_deadline; k++) {
      s.sched_seed = rr.next();
      if (reproduces(s, r, cls)) {
        Prog e = s;
        if (!r->trace_overflow) {
          take_trace(e, r);
          if (reproduces(e, r, cls)) { c = e; return true; }
        }
        c = s;
        return true;
      }
    }
  }
  return false;
}
static Prog minimise(Prog p, Result *r, const std::string &cls, double secs) {
  min_deadline = now_s() + secs;
  if (!reproduces(p, r, cls)) return p;
  if (!r->trace_overflow) {
    Prog e = p;
    take_trace(e, r);
    if (reproduces(e, r, cls)) p = e;
  }
  bool again = true;
  for (int round = 0; again && round < 4; round++) {
    again = false;
    for (size_t i = 0; i < p.faults.size();) {
      Prog c = p; c.faults.erase(c.faults.begin() + (long)i);
      if (try_cand(c, r, cls, 6)) { p = c; again = true; } else i++;
    }
    for (size_t t = 0; t < p.threads.size(); t++) {
      if (p.threads[t].ops.empty()) continue;
      Prog c = p; c.threads[t].ops.clear();
      if (try_cand(c, r, cls, 10)) { p = c; again = true; continue; }
      for (size_t n = p.threads[t].ops.size(), ch = (n + 1) / 2; ch >= 1 && now_s() < min_deadline; ch = ch == 1 ? 0 : (ch + 1) / 2) {
        for (size_t at = 0; at < p.threads[t].ops.size() && now_s() < min_deadline;) {
          Prog d = p;
          auto &v = d.threads[t].ops;
          size_t e = std::min(at + ch, v.size());
          v.erase(v.begin() + (long)at, v.begin() + (long)e);
          if (try_cand(d, r, cls, ch == 1 ? 12 : 6)) { p = d; again = true; }
          else at += ch;
        }
      }
    }
  }
  // preemptions
  if (p.explicit_sched)
    for (size_t ch = std::max<size_t>(1, p.sched.size() / 2); ch >= 1; ch = ch == 1 ? 0 : ch / 2) {
      for (size_t at = 0; at < p.sched.size() && now_s() < min_deadline;) {
        Prog d = p;
        size_t e = std::min(at + ch, d.sched.size());
        d.sched.erase(d.sched.begin() + (long)at, d.sched.begin() + (long)e);
        if (reproduces(d, r, cls)) p = d; else at += ch;
      }
      if (now_s() > min_deadline) break;
    }
  return p;
}

// ------------------------------------------------------------------ shared state of a search
struct Shared {
  volatile u64 stop_at;
  volatile u64 err_at;
  u64 steps, switches, preempts, opsdone, simns, live, faults[F_NKINDS], probes[NPROBES], nops_failed, runs, rerun, known;
  char err[2000];
};
static void json_str(std::ostream &o, const std::string &s) {
  o << '"';
  for (char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if ((unsigned char)c < 32) o << ' ';
    else o << c;
  }
  o << '"';
}

struct Known { std::string prop, cls, text; };
static std::vector<Known> load_known(const char *path) {
  std::vector<Known> v;
  std::ifstream in(path);
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    std::istringstream s(l.substr(6));
    std::string a, b; s >> a >> b;
    if (a.compare(0, 9, "property=") || b.compare(0, 6, "class=")) continue;
    std::string rest; std::getline(s, rest);
    v.push_back(Known{a.substr(9), b.substr(6), rest});
  }
  return v;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string id, tier = "quick", dir = ".", evid, repdir = ".", replay, known_path, seedstr = "1";
  long runs = -1, only = -1; double wall = -1; bool quiet_ev = false, keep_going = false;
  bool checkhash = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--check") id = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--seed") seedstr = nx();
    else if (a == "--libs") dir = nx();
    else if (a == "--evidence") evid = nx();
    else if (a == "--replays") repdir = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--known") known_path = nx();
    else if (a == "--runs") runs = atol(nx().c_str());
    else if (a == "--wall") wall = atof(nx().c_str());
    else if (a == "--only") only = atol(nx().c_str());
    else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--keep-going") keep_going = true;
    else if (a == "-v") g_verbose = true;
    else if (a == "--check-hash") checkhash = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  (void)quiet_ev;
  u64 vseed = strtoull(seedstr.c_str(), nullptr, 10);
  Result *res = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_res = res;
  reset_result(res);

  Prog rp; std::string rcls; u64 rhash = 0;
  if (!replay.empty()) {
    std::ifstream in(replay);
    if (!in || !prog_parse(in, rp, rcls, rhash)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    id = rp.check;
  }
  for (Check *c : all_checks()) if (id == c->id) chk = c;
  if (!chk) { fprintf(stderr, "no such check %s\n", id.c_str()); return 3; }
  load_modules(dir.c_str(), MAXPROC);
  capture_tls();
  signal(SIGPIPE, SIG_IGN);
  std::vector<Known> known = load_known(known_path.c_str());

  if (!replay.empty()) {
    int st = run_one(rp, res);
    if (st == ST_VIOL) {
      bool same = res->hash == rhash && rcls == res->cls;
      if (!checkhash) printf("replay: %s: %s%s\n", res->cls, res->msg, same ? " (exactly as recorded)" : "");
      if (checkhash) return same ? 1 : 4;
      return 1;
    }
    printf("replay: %s %s\n", st == ST_OK ? "the run passes" : "simulator error:", res->msg);
    return st == ST_OK ? 0 : 3;
  }
  u64 base = vseed;
  for (char c : id) base = base * 131 + (unsigned char)c;
  if (only >= 0) {
    Prog p = make_prog(base, (u64)only);
    printf("%s", prog_text(p).c_str());
    int st = run_one(p, res);
    printf("status %d %s %s\nhash %llx steps %llu switches %llu\n", st, res->cls, res->msg, (unsigned long long)res->hash, (unsigned long long)res->steps, (unsigned long long)res->switches);
    return st == ST_OK ? 0 : 1;
  }
  bool thorough = tier == "thorough";
  long N = runs > 0 ? runs : thorough ? chk->quick_runs * 40 : chk->quick_runs;
  double cap = wall > 0 ? wall : thorough ? 1800 : 260;
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop_at = ~0ULL; sh->err_at = ~0ULL;
  u64 *hashes = (u64 *)mmap(nullptr, (size_t)N * 24 + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 *shashes = hashes + N, *flags = hashes + 2 * N;
  double t0 = now_s();
  printf("check %s tier %s seed %llu: up to %ld simulated runs\n", id.c_str(), tier.c_str(), (unsigned long long)vseed, N);
  fflush(stdout);
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      Result *r = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      for (u64 i = (u64)w; i < (u64)N; i += (u64)W) {
        if (i > sh->stop_at || sh->err_at != ~0ULL) break;
        if (now_s() - t0 > cap) break;
        Prog p = make_prog(base, i);
        int st = run_one(p, r);
        auto add = [](u64 &x, u64 v) { __atomic_fetch_add(&x, v, __ATOMIC_RELAXED); };
        add(sh->runs, 1); add(sh->steps, r->steps); add(sh->switches, r->switches); add(sh->preempts, r->preempts);
        add(sh->opsdone, r->opsdone); add(sh->simns, r->simns); add(sh->live, r->live_calls); add(sh->nops_failed, r->nops_failed);
        u64 nf = 0;
        for (int k = 0; k < F_NKINDS; k++) { add(sh->faults[k], r->faults[k]); nf += r->faults[k]; }
        for (int k = 0; k < NPROBES; k++) add(sh->probes[k], r->probes[k]);
        hashes[i] = r->hash; shashes[i] = r->sched_hash; flags[i] = 1 | (r->preempts || nf || r->switches > 2 * p.threads.size() ? 2 : 0);
        u64 h1 = r->hash;
        if (st == ST_ERR) {
          snprintf(sh->err, sizeof sh->err, "run %llu: %s", (unsigned long long)i, r->msg);
          sh->err_at = i;
          break;
        }
        if (st == ST_VIOL) {
          bool kn = false;
          for (auto &k : known) if (k.prop == id && k.cls == r->cls) kn = true;
          if (kn) { add(sh->known, 1); flags[i] |= 8; }
          else {
            flags[i] |= 4;
            if (keep_going) { printf("run %llu: %s: %s\n", (unsigned long long)i, r->cls, r->msg); fflush(stdout); }
            else for (;;) { u64 s = sh->stop_at; if (i >= s || __sync_bool_compare_and_swap(&sh->stop_at, s, i)) break; }
          }
        }
        if (i % 37 == 5) {     // determinism: the same seed again
          run_one(p, r);
          add(sh->rerun, 1);
          if (r->hash != h1) {
            snprintf(sh->err, sizeof sh->err, "run %llu is not deterministic: %llx %llx", (unsigned long long)i, (unsigned long long)h1, (unsigned long long)r->hash);
            sh->err_at = i;
            break;
          }
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st)) { fprintf(stderr, "a worker died (status %x)\n", st); return 3; } }
  double wall_s = now_s() - t0;
  if (sh->err_at != ~0ULL) { printf("ERROR: %s\n", sh->err); return 3; }

  std::unordered_set<u64> dh, ds; u64 nontrivial = 0, viol = 0;
  for (long i = 0; i < N; i++)
    if (flags[i] & 1) {
      ds.insert(shashes[i]);
      if (dh.insert(hashes[i]).second && (flags[i] & 2)) nontrivial++;
      if (flags[i] & 4) viol++;
    }

  int rc = 0;
  std::string vline, vmsg;
  if (sh->stop_at != ~0ULL) {
    u64 i = sh->stop_at;
    Prog p = make_prog(base, i);
    run_one(p, res);
    std::string cls = res->cls;
    u64 h = res->hash;
    std::string msg0 = res->msg;
    run_one(p, res);
    if (res->status != ST_VIOL || res->hash != h || cls != res->cls) { printf("ERROR: run %llu fails but not twice alike (%s / %s)\n", (unsigned long long)i, msg0.c_str(), res->msg); return 3; }
    printf("run %llu fails: %s: %s\nminimising\n", (unsigned long long)i, cls.c_str(), msg0.c_str());
    fflush(stdout);
    Prog m = minimise(p, res, cls, thorough ? 180 : 60);
    run_one(m, res);
    if (res->status != ST_VIOL || cls != res->cls) { m = p; run_one(m, res); }
    std::string path = repdir + "/" + id + "-" + std::to_string(p.seed) + ".replay";
    auto emit = [&]() {
      std::ofstream o(path);
      o << "# " << cls << ": " << res->msg << "\n# replay: /verif/check.sh --replay " << path << "\n";
      o << "violation_class " << cls << "\nhash " << res->hash << "\n" << prog_text(m);
    };
    auto fresh = [&]() {
      pid_t pid = fork();
      if (pid == 0) {
        execl("/proc/self/exe", "sim", "--libs", dir.c_str(), "--replay", path.c_str(), "--check-hash", (char *)nullptr);
        _exit(9);
      }
      int st; waitpid(pid, &st, 0);
      return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
    };
    emit();
    int fr = fresh();
    if (fr != 1) { m = p; run_one(m, res); emit(); fr = fresh(); }
    if (fr != 1) { printf("ERROR: the failure does not replay in a fresh process (%d)\n", fr); return 3; }
    size_t nops = 0; for (auto &t : m.threads) nops += t.ops.size();
    printf("minimised to %zu operations, %zu faults, %zu switches: %s\n", nops, m.faults.size(), m.sched.size(), res->msg);
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
    vmsg = res->msg;
    rc = 1;
  }
  if (viol && !rc) rc = 1;
  for (auto &k : known)
    if (k.prop == id && sh->known) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());

  if (!evid.empty()) {
    std::ofstream o(evid);
    o << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << vseed << ",\n \"level\": \"exploration\",\n";
    o << " \"coverage\": {\n  \"evaluations\": " << sh->runs << ",\n  \"distinct_nontrivial\": " << nontrivial << ",\n  \"rule\": ";
    json_str(o, std::string(chk->what) + "  One case is one simulated run decided by one seed.  Distinct: its hash over every scheduling decision and every observed result differs from all others; non-trivial: threads were preempted or blocked inside operations, or a fault fired.");
    o << ",\n  \"samples\": [";
    bool first = true;
    for (long i = 0; i < N && i < 3; i++) { Prog p = make_prog(base, (u64)i); if (!first) o << ", "; first = false; json_str(o, prog_text(p, false).substr(0, 1500)); }
    o << "],\n  \"runs_per_hour\": " << (u64)(wall_s > 0 ? (double)sh->runs / wall_s * 3600 : 0) << ",\n  \"seeds_per_hour\": " << (u64)(wall_s > 0 ? (double)sh->runs / wall_s * 3600 : 0);
    o << ",\n  \"simulated_seconds\": " << (double)sh->simns * 1e-9 << ",\n  \"scheduling_points\": " << sh->steps << ",\n  \"context_switches\": " << sh->switches << ",\n  \"preemptions\": " << sh->preempts;
    o << ",\n  \"operations_completed\": " << sh->opsdone << ",\n  \"operations_refused\": " << sh->nops_failed << ",\n  \"distinct_interleavings\": " << ds.size() << ",\n  \"interleaving_measure\": \"hash of the sequence of (thread, its step, next thread) at every context switch\"";
    o << ",\n  \"distinct_histories\": " << dh.size() << ",\n  \"determinism_reruns\": " << sh->rerun << ",\n  \"faults_injected\": {";
    first = true;
    for (int k = 0; k < F_NKINDS; k++) { if (!first) o << ", "; first = false; o << "\"" << fault_names[k] << "\": " << sh->faults[k]; }
    o << "},\n  \"probes\": {";
    first = true;
    for (size_t k = 0; k < chk->probe_names.size(); k++) { if (!first) o << ", "; first = false; json_str(o, chk->probe_names[k]); o << ": " << sh->probes[k]; }
    o << "},\n  \"simulated_os_calls\": " << sh->live << ",\n  \"real_code\": [";
    first = true;
    for (auto &s : chk->real) { if (!first) o << ", "; first = false; json_str(o, s); }
    o << "],\n  \"stubs\": [";
    std::vector<std::string> stubs = {"file system (in memory)", "System V shared memory (in memory)", "POSIX semaphores", "clocks", "thread scheduling (fibers)", "process identity", "stdout/stderr"};
    for (auto &s : chk->stub) stubs.push_back(s);
    first = true;
    for (auto &s : stubs) { if (!first) o << ", "; first = false; json_str(o, s); }
    o << "],\n  \"known_findings_hit\": " << sh->known << "\n },\n \"assumptions\": [";
    first = true;
    std::vector<std::string> as = {"sequentially consistent memory at the granularity of the compiled code's loads and stores (no store buffers)", "x86_64 build, GCC instrumentation does not change the meaning of the code"};
    for (auto &s : chk->assumptions) as.push_back(s);
    for (auto &s : as) { if (!first) o << ", "; first = false; json_str(o, s); }
    o << "],\n \"wall_s\": " << wall_s << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
  }
  printf("%s: %llu runs, %llu distinct non-trivial, %llu interleavings, %.1f s: %s\n", id.c_str(), (unsigned long long)sh->runs, (unsigned long long)nontrivial, (unsigned long long)ds.size(), wall_s, rc ? "VIOLATED" : "held");
  for (size_t k = 0; k < chk->probe_names.size(); k++) if (getenv("SIM_PROBES")) printf("  probe %s: %llu\n", chk->probe_names[k], (unsigned long long)sh->probes[k]);
  if (getenv("SIM_PROBES")) for (int k = 0; k < F_NKINDS; k++) if (sh->faults[k]) printf("  fault %s: %llu\n", fault_names[k], (unsigned long long)sh->faults[k]);
  return rc;
}
