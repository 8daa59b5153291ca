// C23: the emulated clocks against the simulated system clocks.
#include "common.h"
#include <deque>

namespace {
struct Read { int real; u64 val, at; };
std::vector<Read> reads;          // clock reads of a start-up
std::vector<u64> delays; size_t dpos;
bool starting;
void hook(int real, u64 val) {
  if (!starting) return;
  reads.push_back({real, val, g_time_ns});
  if (!delays.empty()) g_time_ns += delays[dpos++ % delays.size()];
}

struct C23 : Check {
  enum { ADV, GTOD, GETTIME, TIMER, CONV, CONVT, FACTOR, SAVED, RESTART, RATE, NK };
  typedef __int128 i128;
  struct PS { u64 rval, rat, tol; u64 mtol; u64 f1, f2; bool up = false; };   // start-up of a process: wall clock seen, when, tolerances in ns
  PS ps[6];
  struct Saved { u64 ts, factor, ns, tol; };
  std::deque<Saved> saved;
  // for monotonicity: of one process, (time the call ended, value)
  struct Best { u64 end = 0; i128 v = -1; };
  std::deque<std::pair<u64, i128>> hist[6][3];
  C23() : Check("C23") {
    what = "1-3 processes start (constructors run, with random delays between their clock samples) at arbitrary wall and monotonic clock values; 1-4 threads read the emulated time of day, the emulated monotonic clock and the timer, convert arbitrary time stamps, save factors and convert old stamps after a reboot, while time passes in amounts from nanoseconds to decades and the wall clock is stepped.";
    opnames = {"advance", "gtod", "gettime", "timer", "convert-gtod", "convert-gettime", "factor", "save", "check-saved", "rate"};
    probe_names = {"slow_start", "wall_step_before_start", "years_elapsed", "saved_factor_used", "usec_boundary", "concurrent_reads"};
    real = {"sphgtod.c", "sphgettime.c", "sphtimer.c", "sphtimer.h"};
    stub = {"clock_gettime and gettimeofday"};
    quick_runs = 60000;
  }
  static u64 lognum(Rng &r, u64 lo, u64 hi) { return (u64)r.logrange((long)lo, (long)hi); }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    u64 mono = r.chance(1, 6) ? r.below(1000) : lognum(r, 1, 300000000000000000ULL);
    u64 real = r.chance(1, 4) ? lognum(r, 10000000000ULL, 6000000000000000000ULL) : 1000000000000000000ULL + r.below(1000000000000000000ULL);
    if (r.chance(1, 4)) real = real / 1000000000ULL * 1000000000ULL + (r.chance(1, 2) ? 0 : 999999000ULL + r.below(1000));
    p.cfg = {(long)mono, (long)real, (long)r.next(), (long)r.below(4), (long)r.below(3)};
    int nth = (int)r.range(p.nprocs, 4);
    for (int t = 0; t < nth; t++) {
      ThreadProg tp; tp.proc = t < p.nprocs ? t : (int)r.below(p.nprocs);
      int n = (int)r.range(4, 14);
      for (int i = 0; i < n; i++) {
        Op o{(int)r.below(NK - 1), 0, 0, 0, 0};
        if (o.k == RESTART) o.k = RATE;
        if (r.chance(1, 4)) o.k = GTOD;
        if (o.k == ADV) {
          int q = (int)r.below(6);
          o.a = q == 0 ? r.range(1, 2000) : q == 1 ? r.range(1, 2000000000) : q < 5 ? (long)lognum(r, 1, 40000000000000000ULL) : (long)lognum(r, 1000000000, 400000000000000000ULL);
          o.b = r.below(4);   // align to a boundary
        }
        if (o.k == CONV || o.k == CONVT) {
          o.a = r.chance(1, 3) ? (long)lognum(r, 1, 9000000000000000000ULL) : (long)(lognum(r, 1, 9000000000ULL) * 1000000000ULL + (r.chance(1, 2) ? 999999999 - r.below(1100) : r.below(1100)));
          o.b = r.chance(1, 2) ? 0 : (long)lognum(r, 1, 9000000000000000000ULL);
          if (r.chance(1, 4)) o.b = -(long)r.below((u64)o.a);
        }
        if (o.k == RATE) o.a = (long)lognum(r, 1, 1000000000000ULL);
        tp.ops.push_back(o);
      }
      p.threads.push_back(tp);
    }
    int nj = (int)r.below(3);
    for (int i = 0; i < nj; i++)
      p.faults.push_back({F_CLOCK, 0, 0, r.range(0, 60), 1, (r.chance(1, 2) ? 1 : -1) * (long)lognum(r, 1000, 900000000ULL)});
  }
  void check_start(int i) {
    PS &s = ps[i];
    // the wall clock sample and the samples of the timer around it
    s.up = true; s.tol = 0; s.mtol = 0;
    u64 span = reads.empty() ? 0 : reads.back().at - reads.front().at;
    int ri = -1;
    for (size_t k = 0; k < reads.size(); k++) if (reads[k].real) ri = (int)k;
    if (ri < 0) { s.rval = os_real(); s.rat = g_time_ns; s.tol = span; }
    else {
      s.rval = reads[ri].val; s.rat = reads[ri].at;
      int b = ri - 1, a = ri + 1;
      while (b >= 0 && reads[b].real) b--;
      while (a < (int)reads.size() && reads[a].real) a++;
      s.tol = b >= 0 && a < (int)reads.size() ? (reads[a].at - reads[b].at) / 2 : span;
      if (a < (int)reads.size() && b >= 0 && reads[a].at - reads[b].at > 1000000) probe(0);
    }
    u64 w = 0;
    for (size_t k = 2; k < reads.size(); k++) w = std::max(w, reads[k].at - reads[k - 2].at);
    s.mtol = w / 2;
    s.tol += 2002;   // both system and emulated reading are truncated to 1 us s.mtol += 3;
    s.f1 = CALL(sphget_gtod_conv_factor)(); s.f2 = CALL(sphget_gettime_conv_factor)();
  }
  void start(int i) {
    reads.clear(); starting = true; proc_start(i); starting = false;
    check_start(i);
  }
  void setup(Prog &p) override {
    Rng r((u64)p.cfg[2]);
    delays.clear(); dpos = 0;
    g_clock_hook = hook;
    os_set_clock((u64)p.cfg[0], (u64)p.cfg[1]);
    for (int i = 0; i < 40; i++) {
      u64 d = 0;
      switch (p.cfg[3]) {
        case 0: d = 0; break;
        case 1: d = r.below(200); break;
        case 2: d = r.chance(1, 3) ? (u64)r.logrange(1, 2000000000) : r.below(100); break;
        case 3: d = i % 7 == 0 ? (u64)r.logrange(1, 60000000000) : 20; break;
      }
      delays.push_back(d);
    }
    int late = 0;
    for (auto &f : p.faults) if (f.kind == F_CLOCK && f.nth < 8) late = 1;
    for (int i = 0; i < p.nprocs; i++) {
      if (i && p.cfg[4]) g_time_ns += (u64)r.logrange(1, p.cfg[4] == 1 ? 1000000000L : 100000000000000000L);
      proc_exit(i); start(i);
    }
    if (late) probe(1);
    proc_switch(0);
  }
  static long long sec_of(i128 ns) { return (long long)(ns / 1000000000); }
  void mono_check(int pr, int which, u64 t0, i128 v, const char *name) {
    // readings of calls that had ended before this one began are not later
    for (auto &h : hist[pr][which])
      if (h.first < t0 && h.second > v)
        fail("backwards", "%s: %lld.%09lld returned after an earlier call had returned %lld.%09lld", name, sec_of(v), (long long)(v % 1000000000), sec_of(h.second), (long long)(h.second % 1000000000));
    hist[pr][which].push_back({tick_event(), v});
  }
  i128 conv(long what, u64 ts, u64 f, i128 *exact) {
    int rc; i128 ns;
    if (what == 0) {
      struct timeval tv = {-7, -7};
      rc = CALL(sphtb2gtod_withfactor)(&tv, ts, f);
      if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) fail("not-normalised", "sphtb2gtod_withfactor(%llu, %llu) gives %lld s %lld us", (unsigned long long)ts, (unsigned long long)f, (long long)tv.tv_sec, (long long)tv.tv_usec);
      ns = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_usec * 1000;
    } else {
      struct timespec tv = {-7, -7};
      rc = CALL(sphtb2gettime_withfactor)(&tv, ts, f);
      if (tv.tv_nsec < 0 || tv.tv_nsec >= 1000000000) fail("not-normalised", "sphtb2gettime_withfactor(%llu, %llu) gives %lld s %lld ns", (unsigned long long)ts, (unsigned long long)f, (long long)tv.tv_sec, (long long)tv.tv_nsec);
      ns = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_nsec;
    }
    if (rc != 0) fail("conversion", "conversion returned %d", rc);
    u64 freq = CALL(sphgetcpufreq)();
    u64 tot = ts + f;
    *exact = (i128)tot * 1000000000 / freq;
    return ns;
  }
  void op(int th, int idx, const Op &o) override {
    int pr = fiber_proc(cur_fiber());
    PS &s = ps[pr];
    if (!s.up) return;
    u64 e0 = tick_event(), t0 = g_time_ns;
    switch (o.k) {
      case ADV: {
        u64 d = (u64)o.a;
        if (g_time_ns > 1500000000000000000ULL) d %= 1000000000ULL;
        if (d > 31536000000000000ULL) probe(2);
        g_time_ns += d;
        if (o.b) {   // to just before or at a whole second / microsecond of the emulated clock
          u64 unit = o.b == 1 ? 1000ULL : 1000000000ULL;
          u64 now = s.rval + (g_time_ns - s.rat);
          g_time_ns += unit - now % unit - (o.b == 3 ? 3 * g_tick : 0);
          probe(4);
        }
        break;
      }
      case GTOD: {
        struct timeval tv = {-7, -7};
        int rc = CALL(sphgtod)(&tv, nullptr);
        u64 t1 = g_time_ns;
        if (rc != 0) fail("gtod", "sphgtod returned %d", rc);
        if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) fail("not-normalised", "sphgtod gives %lld s %lld us", (long long)tv.tv_sec, (long long)tv.tv_usec);
        i128 v = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_usec * 1000;
        i128 lo = (i128)s.rval + (i128)(t0 - s.rat) - s.tol, hi = (i128)s.rval + (i128)(t1 - s.rat) + s.tol;
        if (v < lo || v > hi)
          fail("gtod", "sphgtod gives %lld.%06lld, the time of day is between %lld.%09lld and %lld.%09lld (start-up uncertainty %llu ns)", (long long)tv.tv_sec, (long long)tv.tv_usec,
               sec_of(lo), (long long)(lo % 1000000000), sec_of(hi), (long long)(hi % 1000000000), (unsigned long long)s.tol);
        mono_check(pr, 0, e0, v, "sphgtod");
        note((u64)v);
        break;
      }
      case GETTIME: {
        struct timespec tv = {-7, -7};
        u64 m0 = os_mono();
        int rc = CALL(sphgettime)(&tv);
        u64 m1 = os_mono();
        if (rc != 0) fail("gettime", "sphgettime returned %d", rc);
        if (tv.tv_nsec < 0 || tv.tv_nsec >= 1000000000) fail("not-normalised", "sphgettime gives %lld s %lld ns", (long long)tv.tv_sec, (long long)tv.tv_nsec);
        i128 v = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_nsec;
        if (v + s.mtol < m0 || v > (i128)m1 + s.mtol)
          fail("gettime", "sphgettime gives %lld.%09lld, the monotonic clock is between %llu and %llu ns (start-up uncertainty %llu ns)", (long long)tv.tv_sec, (long long)tv.tv_nsec,
               (unsigned long long)m0, (unsigned long long)m1, (unsigned long long)s.mtol);
        mono_check(pr, 1, e0, v, "sphgettime");
        note((u64)v);
        break;
      }
      case TIMER: {
        u64 f = CALL(sphfastcpufreq)();
        u64 m0 = os_mono();
        u64 v = CALL(sphgettimer)();
        u64 m1 = os_mono();
        i128 ns = (i128)v * 1000000000 / f;
        if (ns + 1 < m0 || ns > (i128)m1 + 1) fail("timer", "the timer reads %llu at %llu Hz, the monotonic clock is between %llu and %llu ns", (unsigned long long)v, (unsigned long long)f, (unsigned long long)m0, (unsigned long long)m1);
        mono_check(pr, 2, e0, (i128)v, "sphgettimer");
        break;
      }
      case CONV: case CONVT: {
        i128 exact, ns;
        ns = conv(o.k == CONVT, (u64)o.a, (u64)o.b, &exact);
        i128 res = o.k == CONV ? 1000 : 1;
        i128 d = ns - exact; if (d < 0) d = -d;
        if (d > res) fail("conversion", "%s(%llu, factor %llu) differs from the exact value by %lld ns", opnames[o.k], (unsigned long long)o.a, (unsigned long long)o.b, (long long)d);
        i128 e2, n2 = conv(o.k == CONVT, (u64)o.a + 1 + (u64)(e0 % 977), (u64)o.b, &e2);
        if (n2 < ns && e2 >= exact) fail("backwards", "%s: a later time stamp converts to an earlier time", opnames[o.k]);
        break;
      }
      case FACTOR: {
        u64 f1 = CALL(sphget_gtod_conv_factor)(), f2 = CALL(sphget_gettime_conv_factor)();
        if (f1 != s.f1 || f2 != s.f2) fail("factor", "a conversion factor changed from %llu, %llu to %llu, %llu", (unsigned long long)s.f1, (unsigned long long)s.f2, (unsigned long long)f1, (unsigned long long)f2);
        // the factor applied by hand agrees with the emulated clock
        struct timeval tv, tw; u64 ts = CALL(sphgettimer)();
        CALL(sphtb2gtod_withfactor)(&tv, ts, f1); CALL(sphgtod)(&tw, nullptr);
        i128 a = (i128)tv.tv_sec * 1000000 + tv.tv_usec, b = (i128)tw.tv_sec * 1000000 + tw.tv_usec;
        i128 late = (i128)(g_time_ns - t0) / 1000 + 2;
        if (b < a || b - a > late) fail("factor", "a stamp converted with the factor differs from the emulated time of day by %lld us", (long long)(b - a));
        break;
      }
      case SAVED: {
        u64 m = CALL(sphgettimer)(); u64 t1 = g_time_ns;
        saved.push_back({m, CALL(sphget_gtod_conv_factor)(), s.rval + (t1 - s.rat), s.tol + (t1 - t0)});
        break;
      }
      case RATE: {
        u64 f = CALL(sphgetcpufreq)();
        u64 a0 = os_mono(), a = CALL(sphgettimer)(), a1 = os_mono();
        u64 keep = g_time_ns; (void)keep;
        if (g_time_ns < 3000000000000000000ULL) g_time_ns += (u64)o.a;
        u64 b0 = os_mono(), b = CALL(sphgettimer)(), b1 = os_mono();
        i128 ns = (i128)(b - a) * 1000000000 / f;
        if (ns + 1 < (i128)(b0 - a1) || ns > (i128)(b1 - a0) + 1)
          fail("rate", "the timer advanced by %llu ticks of a reported %llu Hz while between %llu and %llu ns passed", (unsigned long long)(b - a), (unsigned long long)f, (unsigned long long)(b0 - a1), (unsigned long long)(b1 - a0));
        if (CALL(sphfastcpufreq)() != f) fail("rate", "the two frequency calls disagree");
        break;
      }
    }
    (void)th; (void)idx;
  }
  void finish(Prog &p) override {
    // a reboot: the timer starts anew, old stamps with their saved factors keep their time
    if (!saved.empty()) {
      for (int i = 0; i < p.nprocs; i++) proc_exit(i);
      Rng r((u64)p.cfg[2] + 5);
      u64 wall = os_real() + (u64)r.logrange(1, 1000000000000L);
      os_set_clock(r.below(60000000000ULL), wall);
      start(0); proc_switch(0);
      for (auto &s : saved) {
        struct timeval tv;
        CALL(sphtb2gtod_withfactor)(&tv, s.ts, s.factor);
        i128 v = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_usec * 1000, d = v - (i128)s.ns;
        if (d < 0) d = -d;
        if (d > (i128)s.tol) fail("saved", "after a reboot a saved stamp converts with its saved factor to a time %lld ns off", (long long)d);
        probe(3);
      }
      struct timeval tv; u64 t0 = g_time_ns;
      CALL(sphgtod)(&tv, nullptr);
      i128 v = (i128)tv.tv_sec * 1000000000 + (i128)tv.tv_usec * 1000;
      i128 lo = (i128)ps[0].rval + (i128)(t0 - ps[0].rat) - ps[0].tol, hi = (i128)ps[0].rval + (i128)(g_time_ns - ps[0].rat) + ps[0].tol;
      if (v < lo || v > hi) fail("gtod", "after a reboot sphgtod is %lld ns off", (long long)(v - lo));
    }
  }
};
Reg reg(new C23);
}
