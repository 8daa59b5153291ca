// C26: multi-producer, multi-consumer queues.
#include "common.h"

struct C26 : Check {
  enum { PUT, GET, ASK, PAUSE };
  void *q = nullptr; int stride = 0; long n = 0; u64 base = 0, blo = 0, bhi = 0;
  sphLFEntryID_t templ = 0;
  int nprod = 0, ncons = 0;
  struct Ent { int prod; long seq; u64 addr; int cat, sub; bool completing = false, completed = false, taken = false, releasing = false, released = false; };
  std::map<long, Ent> ent;           // by position in the queue's history
  std::vector<long> visits;          // allocations seen per slot
  std::vector<int> slotlive;         // handed out, not yet released
  long nalloc = 0, ngets = 0;        // calls that returned an entry
  long start = 0;
  std::map<std::pair<int, int>, long> last;   // producer, consumer -> last sequence number
  std::map<int, long> seqs;
  long abandoned = 0, received = 0, completed = 0;
  C26() : Check("C26") {
    what = "1-4 producers and 1-4 consumers in 1-3 processes exchange entries through a multi-party queue over many wrap-arounds, on clean and on reused storage, with the synchronised and the single-party variants, entries completed late or never, consumers holding entries, stalls and interrupted waits; every entry received is compared with the model.";
    opnames = {"put", "get", "ask", "pause"};
    probe_names = {"full", "empty", "wrapped", "abandoned", "two_consumers_hold"};
    real = {"sphmultipcqueue.cpp", "saslock.cpp", "sassim.cpp", "sphdirectpcqueue.h"};
    quick_runs = 24000;
  }
  void gen(Rng &r, Prog &p) override {
    p.nprocs = (int)r.range(1, 3);
    static const int strides[] = {16, 32, 48, 64, 80, 128, 24, 20, 100, 40, 256};
    int st = strides[r.below(11)];
    long slots = r.range(2, 8);
    u64 bs = 512; while (bs < 512 + (u64)slots * ((st + 31) & ~31)) bs *= 2;
    int np = (int)r.range(1, 4), nc = (int)r.range(1, 4);
    p.cfg = {st, (long)bs, (long)r.below(2), (long)r.below(2), np, nc, (long)(r.next() & 0x7fffffff), (long)r.chance(1, 4)};
    for (int t = 0; t < np + nc; t++) {
      ThreadProg tp; tp.proc = (int)r.below(p.nprocs);
      int k = (int)r.range(1, 16);
      bool single = t < np ? np == 1 && r.chance(1, 2) : nc == 1 && r.chance(1, 2);
      for (int i = 0; i < k; i++) {
        if (t < np) tp.ops.push_back({PUT, single, (long)r.below(4096), (long)r.below(256), (long)r.below(4)});
        else tp.ops.push_back({GET, single, (long)r.below(4), 0, 0});
        if (r.chance(1, 4)) tp.ops.push_back({ASK, (long)r.below(3), 0, 0, 0});
        if (r.chance(1, 6)) tp.ops.push_back({PAUSE, r.range(1, 5), 0, 0, 0});
      }
      if (t < np && r.chance(1, 20)) { tp.ops.back() = {PUT, single, 1, 1, -1}; }
      p.threads.push_back(tp);
    }
    if (r.chance(1, 3)) p.faults.push_back({F_STALL, (int)r.below(np + nc), (int)r.below(4), r.range(1, 60), r.logrange(50, 5000), 0});
    if (r.chance(1, 3)) p.faults.push_back({F_EINTR, 0, 0, r.range(1, 4), r.range(1, 3), 0});
  }
  void setup(Prog &p) override {
    for (int i = 0; i < p.nprocs; i++) join(i);
    proc_switch(0);
    long st = p.cfg[0]; u64 bs = (u64)p.cfg[1];
    nprod = (int)p.cfg[4]; ncons = (int)p.cfg[5];
    nth = p.threads.size();
    if (p.cfg[3]) { void *b = A->SASBlockAlloc(bs); memset(b, 0xff, bs); if (p.cfg[2]) A->SASBlockDealloc(b, bs); else q = b; }
    if (p.cfg[2]) q = A->SPHMPMCQCreateWithStride(bs, (unsigned short)st);
    else { if (!q) q = A->SASBlockAlloc(bs); q = A->SPHMPMCQInitWithStride(q, bs, (unsigned short)st, SPHSPCQUEUE_CIRCULAR); }
    if (!q) fail("create", "creating the queue failed");
    stride = A->SPHMPMCQGetStride(q);
    n = A->SPHMPMCQGetEntries(q);
    templ = A->SPHMPMCQGetEntryTemplate(q);
    blo = (u64)q; bhi = blo + bs;
    if (stride < st || n < 1 || n > (long)((bs - 256) / stride) || n < (long)((bs - 512) / stride)) fail("create", "stride %d for %ld, %ld entries in %llu bytes", stride, st, n, (unsigned long long)bs);
    visits.assign(n, 0); slotlive.assign(n, 0);
    if (p.cfg[6] % 5 == 0) { A->SPHMPMCQSetCachePrefetch(q, (int)(p.cfg[6] % 4)); A->SPHMPMCQPrefetch(q); }
    round_trip("new");
    long adv = p.cfg[6] % n;
    for (long i = 0; i < adv; i++) { quiet_put(); quiet_get(); }
    nowrap = true;
  }
  size_t nth = 0;
  bool nowrap = false;
  u64 quiet_put() {
    void *e = A->SPHMPMCQAllocStrideDirectSync(q);
    if (!e) fail("false-full", "allocation refused on a queue that is not full");
    if ((u64)e < blo + 64 || (u64)e + stride > bhi) fail("place", "entry %p outside the queue", e);
    if (!base || (u64)e < base) base = (u64)e;
    memset(A->SPHLFEntryDirectGetFreePtr(e), 0x5a, stride - 4);
    if (A->SPHMPMCQEntryDirectIsComplete(e)) fail("status", "an entry in preparation says it is complete");
    A->SPHLFEntryDirectComplete(e, templ, 1, 2);
    lastput = (u64)e;
    return (u64)e;
  }
  u64 lastput = 0;
  u64 quiet_get() {
    void *e = A->SPHMPMCQGetNextCompleteDirectSync(q);
    if (!e) fail("false-empty", "a completed entry is not delivered");
    if (!A->SPHMPMCQFreeEntryDirect(q, e)) fail("free", "releasing an entry failed");
    return (u64)e;
  }
  void round_trip(const char *when) {
    if (!A->SPHMPMCQIsEmpty(q)) fail("empty", "the %s queue is not empty", when);
    std::vector<u64> as;
    for (long i = 0; i < n; i++) {
      if (A->SPHMPMCQIsFull(q)) fail("full", "the %s queue is full with %ld of %ld entries", when, i, n);
      if (A->SPHMPMCQFreeSpace(q) != (u64)(n - i) * stride) fail("free-space", "%s queue with %ld of %ld entries reports %llu bytes free", when, i, n, (unsigned long long)A->SPHMPMCQFreeSpace(q));
      as.push_back(quiet_put());
    }
    if (!A->SPHMPMCQIsFull(q)) fail("full", "the %s queue with all entries used is not full", when);
    if (A->SPHMPMCQAllocStrideDirectSync(q)) fail("overwrite", "a full %s queue hands out an entry", when);
    for (long i = 0; i < n; i++) if (quiet_get() != as[i]) fail("order", "%s queue: entries are not delivered in order", when);
    if (!A->SPHMPMCQIsEmpty(q)) fail("empty", "a drained queue is not empty");
    if (A->SPHMPMCQGetNextCompleteDirectSync(q)) fail("phantom", "an empty queue delivers an entry");
    std::sort(as.begin(), as.end());
    for (long i = 1; i < n; i++) if (as[i] - as[i - 1] < (u64)stride) fail("overlap", "two entries overlap");
    base = as[0];
  }
  // position in history of a slot address handed out now
  long place(u64 e) {
    if (e < base || (e - base) % stride || (long)((e - base) / stride) >= n) fail("place", "entry %llx is not one of the queue's", (unsigned long long)e);
    return (long)((e - base) / stride);
  }
  bool released(long k) {   // slot free for position k
    if (k - n < first) return true;
    auto it = ent.find(k - n); return it != ent.end() && it->second.released;
  }
  long first = 0;
  void op(int th, int, const Op &o) override {
    switch (o.k) {
    case PUT: put(th, o); return;
    case GET: get(th, o, false); return;
    case PAUSE: for (long i = 0; i < o.a; i++) sim_yield(); return;
    case ASK:
      if (o.a == 0) {
        // the next entry to hand out is complete before and is still not handed out after
        long k0 = tail(); bool avail = ent.count(k0) && ent[k0].completed && !ent[k0].taken;
        bool quiet = !taking;
        int e = A->SPHMPMCQIsEmpty(q);
        if (!e && quiet && !taking && tail() == k0 && !(ent.count(k0) && ent[k0].completing)) fail("not-empty", "the queue reports an entry although none is complete");
        if (e && avail && !ent[k0].taken && !taking) fail("empty", "the queue reports empty although a completed entry is waiting");
      } else if (o.a == 1) {
        // judged only if nobody allocates meanwhile: the answer is about one moment
        long a0 = nalloc; bool room = !allocating && released(start + nalloc);
        int f = A->SPHMPMCQIsFull(q);
        if (f && room && nalloc == a0 && !allocating) fail("full", "the queue reports full although the next slot is free");
      } else if (A->SPHMPMCQFreeSpace(q) > (u64)n * stride) fail("free-space", "more bytes free than the queue has");
      return;
    }
  }
  long tail() { return start + ngets; }
  int allocating = 0, taking = 0;
  void put(int th, const Op &o) {
    for (;;) {
      long a0 = nalloc, al0 = allocating;
      bool room = true;
      // any position this call can refer to: other calls in progress may take some
      std::vector<bool> before;
      for (long k = 0; k < n + 8; k++) before.push_back(released(start + a0 + k));
      allocating++;
      void *ep = o.a ? A->SPHSPMCQAllocStrideDirect(q) : A->SPHMPMCQAllocStrideDirectSync(q);
      allocating--;
      note(ep != nullptr);
      if (!ep) {
        long hi = nalloc + allocating - a0;   // positions the refusal may stand for
        (void)al0;
        for (long k = 0; k <= hi && k < n + 8; k++) if (!before[k]) room = false;
        if (hi >= n + 8) room = false;
        if (room) fail("false-full", "allocation refused although the next slot was free before the call");
        probe(0);
        if (stopped()) return;
        sim_yield();
        continue;
      }
      u64 e = (u64)ep;
      long s = place(e);
      if (slotlive[s]) fail("overwrite", "entry %llx handed out while it is not released", (unsigned long long)e);
      slotlive[s] = 1;
      // position: slots are used in ring order
      long k = visits[s]++ * n + s;
      Ent x; x.prod = th; x.seq = seqs[th]++; x.addr = e; x.cat = (int)o.b; x.sub = (int)o.c;
      nalloc++;
      if (nalloc > n) probe(2);
      if (ent.count(k)) fail("overwrite", "position %ld handed out twice", k);
      ent[k] = x;
      unsigned *w = (unsigned *)A->SPHLFEntryDirectGetFreePtr(ep);
      long nw = (stride - 4) / 4;
      for (long i = 0; i < nw; i++) { ((volatile unsigned *)w)[i] = word(th, x.seq, i); if ((i & 3) == 3) sim_point_here(); }
      if (o.d < 0) { abandoned++; probe(3); return; }
      for (long i = 0; i < o.d; i++) sim_point_here();
      ent[k].completing = true;
      A->SPHLFEntryDirectComplete(ep, templ, x.cat, x.sub);
      ent[k].completed = true; completed++;
      return;
    }
  }
  static unsigned word(int th, long seq, long i) { return (unsigned)((th + 1) * 0x01000193u ^ (unsigned)(seq * 0x9e3779b1u) ^ (unsigned)(i * 0x85ebca6bu)); }
  bool stopped() {  // consumers cannot go on: an entry in front was abandoned
    if (abandoned) { bool cons = false; for (size_t t = nprod; t < nth; t++) if (!fiber_done((int)t)) cons = true;
      bool prods = false; for (int t = 0; t < nprod; t++) if (t != cur_fiber() && !fiber_done(t)) prods = true; (void)prods;
      auto it = ent.find(tail()); if (it != ent.end() && !it->second.completing && it->second.seq == seqs[it->second.prod] - 1 && fiber_done(it->second.prod)) return true; if (!cons) return true; }
    bool cons = false; for (size_t t = nprod; t < nth; t++) if (!fiber_done((int)t)) cons = true;
    return !cons;
  }
  int holders = 0;
  bool get(int th, const Op &o, bool drain) {
    long g0 = ngets;
    std::vector<bool> avail;
    for (long k = 0; k < n + 8; k++) { auto it = ent.find(start + g0 + k); avail.push_back(it != ent.end() && it->second.completed && !it->second.taken); }
    taking++;
    void *ep = o.a && ncons == 1 ? A->SPHMPSCQGetNextCompleteDirect(q) : A->SPHMPMCQGetNextCompleteDirectSync(q);
    taking--;
    note(ep != nullptr);
    if (!ep) {
      long hi = ngets + taking - g0; bool must = hi < n + 8;
      for (long k = 0; k <= hi && k < n + 8; k++) if (!avail[k]) must = false;
      if (must) fail("false-empty", "nothing delivered although the next entry was complete before the call");
      probe(1);
      return false;
    }
    u64 e = (u64)ep;
    long s = place(e);
    long k = (visits[s] - 1) * n + s;
    if (visits[s] <= 0 || !ent.count(k)) fail("phantom", "an entry was delivered that was never produced");
    ngets++;
    Ent &x = ent[k];
    if (x.taken) fail("duplicate", "entry %ld of producer %d was delivered twice", x.seq, x.prod);
    if (!x.completing) fail("incomplete", "entry %ld of producer %d was delivered before it was complete", x.seq, x.prod);
    x.taken = true;
    if (++holders > 1) probe(4);
    auto &l = last[{x.prod, th}];
    if (x.seq + 1 <= l) fail("order", "consumer %d got entry %ld of producer %d after its entry %ld", th, x.seq, x.prod, l - 1);
    l = x.seq + 1;
    for (int round = 0; round < 2; round++) {
      if (!A->SPHMPMCQEntryDirectIsComplete(ep)) fail("status", "a delivered entry says it is not complete");
      if (A->SPHLFEntryDirectCategory(ep) != x.cat || A->SPHLFEntryDirectSubcat(ep) != x.sub) fail("category", "entry %ld of producer %d has category %d/%d instead of %d/%d", x.seq, x.prod, A->SPHLFEntryDirectCategory(ep), A->SPHLFEntryDirectSubcat(ep), x.cat, x.sub);
      volatile unsigned *w = (volatile unsigned *)A->SPHLFEntryDirectGetFreePtr(ep);
      long nw = (stride - 4) / 4;
      for (long i = 0; i < nw; i++) if (w[i] != word(x.prod, x.seq, i)) fail("contents", "entry %ld of producer %d: word %ld is not what was written%s", x.seq, x.prod, i, round ? " (changed before its release)" : "");
      if (!round) for (long i = 0; i < o.b; i++) sim_yield();
    }
    x.releasing = true; slotlive[s] = 0; holders--;
    if (!A->SPHMPMCQFreeEntryDirect(q, ep)) fail("free", "releasing an entry failed");
    x.released = true;
    received++;
    return true;
  }
  void thread_end(int th) override {
    if (th < nprod) return;
    Op o{GET, 0, 0, 0, 0};
    for (;;) {
      bool over = true;
      for (int t = 0; t < nprod; t++) if (!fiber_done(t)) over = false;
      if (get(th, o, true)) { progress(); continue; }
      if (over) return;
      sim_yield();
    }
  }
  void finish(Prog &p) override {
    if (!abandoned) {
      for (auto &kv : ent) if (!kv.second.released) fail("lost", "entry %ld of producer %d was never delivered", kv.second.seq, kv.second.prod);
      if (received != completed) fail("lost", "%ld of %ld completed entries were delivered", received, completed);
      round_trip("drained");
    }
    if (abandoned || p.cfg[6] % 2) {   // left with entries in every state, then reset
      if (!abandoned) {
        long k = p.cfg[6] % (n + 1);
        for (long i = 0; i < k; i++) {
          if (i % 3 == 0) { if (!A->SPHMPMCQAllocStrideDirectSync(q)) fail("false-full", "allocation refused on a queue that is not full"); }
          else quiet_put();
        }
        if (k && k % 3 == 2) for (long i = 0; i < k % 5; i++) A->SPHMPMCQGetNextCompleteDirectSync(q);
      }
      if (A->SPHMPMCQResetAsync(q)) fail("reset", "resetting the queue failed");
      round_trip("reset");
    }
    if (p.cfg[2] && A->SPHMPMCQDestroy(q)) fail("destroy", "destroying the queue failed");
  }
};
struct C26x : C26 {
  void setup(Prog &p) override {
    C26::setup(p);
    // slots before the current head have one more visit behind them
    long adv = p.cfg[6] % n;
    start = adv; first = adv;
    for (long i = 0; i < adv; i++) visits[i] = 1;
  }
};
static C26x c; static Reg reg(&c);
