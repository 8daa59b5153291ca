// Shared pieces of the logger and portal checks.
#pragma once
#include "payload.h"
#include <deque>

// an entry of a log
struct LEnt {
  int th = -1; long seq = 0; u64 addr = 0, size = 0, want = 0; int cat = 0, sub = 0; u64 seed = 0; int items = 0; bool all = true;
  u64 t0 = 0, t1 = 0, end = 0; int pid = 0, tid = 0;
  bool completing = false, completed = false, known = true;
};
// header and contents of an entry handed to a reader
static inline void lent_check(LEnt &x, SPHLFLoggerHandle_t *h, long id) {
  if (h->total_size != x.size) fail("entry-size", "entry %ld: a reader is told %u bytes instead of %llu", id, h->total_size, (unsigned long long)x.size);
  if (h->remaining != x.size - 16 || (u64)h->next != x.addr + 16) fail("entry-size", "entry %ld: a reader is told a payload of %u bytes", id, h->remaining);
  if (!A->SPHLFLogEntryIsComplete(h) || !A->SPHLFLoggerEntryIsComplete(h)) fail("status", "entry %ld was handed to a reader but says it is not complete", id);
  if (!A->SPHLFLogEntryIsTimestamped(h) || !A->SPHLFLoggerEntryIsTimestamped(h)) fail("status", "entry %ld says it has no time stamp", id);
  if (A->SPHLFLogEntryCategory(h) != (x.cat & 0xfff) || A->SPHLFLogEntrySubcat(h) != (x.sub & 0xff)) fail("category", "entry %ld has category %d/%d instead of %d/%d", id, A->SPHLFLogEntryCategory(h), A->SPHLFLogEntrySubcat(h), x.cat, x.sub);
  if (A->SPHLFLogEntryPID(h) != (x.pid & 0xffff) || A->SPHLFLogEntryTID(h) != (x.tid & 0xffff)) fail("writer", "entry %ld names process %d thread %d instead of %d/%d", id, A->SPHLFLogEntryPID(h), A->SPHLFLogEntryTID(h), x.pid & 0xffff, x.tid & 0xffff);
  u64 t = A->SPHLFLogEntryTimeStamp(h);
  if (t < x.t0 || t > x.t1) fail("time", "entry %ld carries time %llu, it was allocated between %llu and %llu", id, (unsigned long long)t, (unsigned long long)x.t0, (unsigned long long)x.t1);
  if ((u64)A->SPHLFLogEntryHeader(h) != x.addr) fail("entry-size", "entry %ld: wrong header address", id);
  log_payload::check(h, x.seed, x.items, x.all, "entry", id);
}
