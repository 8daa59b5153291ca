// writes items until one does not fit or `max` are written; returns how many
static int write(H *h, u64 seed, int max, bool pause) {
  u64 off = (u64)h->next, end = off + h->remaining;
  for (int i = 0; i < max; i++) {
    Item it = item_of(seed, i);
    u64 a = (off + it.align - 1) & ~(u64)(it.align - 1);
    bool fit = a + it.size <= end;
    int rc = 0; char b[64];
    switch (it.type) {
    case 0: rc = A->PFX(AddChar)(h, (char)it.v); break;
    case 1: rc = A->PFX(AddShort)(h, (short)it.v); break;
    case 2: rc = A->PFX(AddInt)(h, (int)it.v); break;
    case 3: rc = A->PFX(AddLong)(h, (long)it.v); break;
    case 4: rc = A->PFX(AddPtr)(h, (void *)it.v); break;
    case 5: rc = A->PFX(AddLongLong)(h, (long long)it.v); break;
    case 6: rc = A->PFX(AddFloat)(h, (float)(int)it.v); break;
    case 7: rc = A->PFX(AddDouble)(h, (double)(int)it.v); break;
    case 8: item_str(it, b); rc = A->PFX(AddString)(h, b); break;
    case 9: {
      void *p = A->PFX(AllocStruct)(h, it.size, it.align);
      rc = p ? 0 : -1;
      if (p) { if (!fit) fail("entry-room", "a structure of %d bytes (alignment %d) was placed outside its entry", it.size, it.align);
        if ((u64)p != a) fail("entry-room", "a structure was placed at %llx instead of %llx", (unsigned long long)p, (unsigned long long)a);
        for (int k = 0; k < it.size; k++) ((volatile char *)p)[k] = (char)(it.v >> (k % 56)); }
      break; }
    }
    if (!fit != !!rc) fail("entry-room", "adding an item of %d bytes (type %d) with %llu bytes left %s", it.size, it.type, (unsigned long long)(end - off), rc ? "failed" : "succeeded");
    if (!fit) return i;
    off = a + it.size;
    if ((u64)h->next != off || h->remaining != end - off) fail("entry-room", "after an item the handle does not point behind it");
    if (pause) sim_point_here();
  }
  return max;
}
// all: item n did not fit when it was written
static void check(H *h, u64 seed, int n, bool all, const char *what, long id) {
  for (int i = 0; i < n; i++) {
    Item it = item_of(seed, i);
    bool ok = false; char b[64];
    switch (it.type) {
    case 0: ok = A->PFX(GetNextChar)(h) == (char)it.v; break;
    case 1: ok = A->PFX(GetNextShort)(h) == (short)it.v; break;
    case 2: ok = A->PFX(GetNextInt)(h) == (int)it.v; break;
    case 3: ok = A->PFX(GetNextLong)(h) == (long)it.v; break;
    case 4: ok = A->PFX(GetNextPtr)(h) == (void *)it.v; break;
    case 5: ok = A->PFX(GetNextLongLong)(h) == (long long)it.v; break;
    case 6: ok = A->PFX(GetNextFloat)(h) == (float)(int)it.v; break;
    case 7: ok = A->PFX(GetNextDouble)(h) == (double)(int)it.v; break;
    case 8: { item_str(it, b); char *s = A->PFX(GetNextString)(h); ok = s && !strcmp(s, b); break; }
    case 9: { char *p = (char *)A->PFX(GetStructPtr)(h, it.size, it.align); ok = p != nullptr;
      for (int k = 0; ok && k < it.size; k++) ok = p[k] == (char)(it.v >> (k % 56));
      break; }
    }
    if (!ok) fail("contents", "%s %ld: item %d (type %d) is not what was written", what, id, i, it.type);
  }
  if (!all) {
    Item it = item_of(seed, n);
    H was = *h; bool some = false;
    switch (it.type) {
    case 0: some = A->PFX(GetNextChar)(h); break;
    case 1: some = A->PFX(GetNextShort)(h); break;
    case 2: some = A->PFX(GetNextInt)(h); break;
    case 3: some = A->PFX(GetNextLong)(h); break;
    case 4: some = A->PFX(GetNextPtr)(h); break;
    case 5: some = A->PFX(GetNextLongLong)(h); break;
    case 6: some = A->PFX(GetNextFloat)(h) != 0; break;
    case 7: some = A->PFX(GetNextDouble)(h) != 0; break;
    case 8: return;
    case 9: some = A->PFX(GetStructPtr)(h, it.size, it.align); break;
    }
    if (some || h->next != was.next || h->remaining != was.remaining) fail("entry-room", "%s %ld: item %d (type %d) is read though it did not fit", what, id, n, it.type);
  }
}
