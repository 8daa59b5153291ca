// Simulated operating system: files, shared memory, semaphores, clocks.
// Everything the library asks the system for goes through these wrappers
// (the library copies are linked with -Wl,--wrap=<name>).
#include "internal.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <algorithm>

#define EXP extern "C" __attribute__((visibility("default")))
const char *STORE = "/store";

struct Inode {
  int mfd = -1;
  u64 size = 0;
  bool shm = false;
  int nmaps = 0;
  bool dir = false;
  std::map<u64, int> flocks;            // (process << 32 | descriptor) -> 1 shared, 2 exclusive
  std::map<u64, std::string> durable;   // page -> content (absent: zeros)
  std::string path;
};
struct Shm { int id; long key; u64 size; Inode *ino; bool removed; int nattch; };
static std::map<std::string, Inode *> files;
static std::set<std::string> dirs;
static std::map<std::string, Inode *> dir_inodes;
static std::vector<Shm *> shms;
static int shm_seq;
static u64 mono0 = 1000000000ULL * 1000, real0 = 1000000000ULL * 1700000000ULL;
static std::vector<Fault> clockjumps;
static long jump_sum;
static bool fail_blocks;
u64 os_calls_failed;
static u64 failed_by[80];
static void os_failed() { os_calls_failed++; failed_by[cur_fiber() + 1]++; }
u64 os_failed_here() { return failed_by[cur_fiber() + 1]; }
static std::map<u64, Map> real_maps;     // what is mapped in the real address space
static std::vector<Inode *> all_inodes;

static void point() { sim_point(P_SYNC, 0); }
static Proc &P() { return procs[cur_proc]; }

static Inode *new_inode(bool shm) {
  Inode *n = new Inode();
  n->mfd = (int)syscall(SYS_memfd_create, "sim", 0);
  if (n->mfd < 0) sim_error("memfd_create: %s", strerror(errno));
  n->shm = shm;
  all_inodes.push_back(n);
  return n;
}
void os_reset() {
  files.clear(); dirs.clear(); dir_inodes.clear(); shms.clear(); shm_seq = 100;
  dirs.insert(STORE); dirs.insert("/"); dirs.insert("/store2");
  jump_sum = 0; fail_blocks = false;
  memset(failed_by, 0, sizeof failed_by);
  clockjumps.clear();
  for (auto &f : g_prog->faults) if (f.kind == F_CLOCK) clockjumps.push_back(f);
}
void os_mkdir(const char *p) { dirs.insert(p); }
int os_file_count() { return (int)files.size(); }
bool os_file_exists(const char *p) { return files.count(p) != 0; }
std::vector<std::string> os_files() { std::vector<std::string> v; for (auto &f : files) v.push_back(f.first); return v; }
int os_shm_count() { int n = 0; for (auto s : shms) if (!s->removed) n++; return n; }
int proc_open_fds(int i) { return (int)procs[i].fds.size(); }
int proc_map_count(int i) { return (int)procs[i].maps.size(); }
void os_fail_blocks(bool on) { fail_blocks = on; }

// ------------------------------------------------------------------ address space
static bool same(const Map &a, const Map &b) { return a.len == b.len && a.prot == b.prot && a.ino == b.ino && a.off == b.off; }
static void real_unmap(u64 a, u64 len) {
  if (munmap((void *)a, len) != 0) sim_error("munmap: %s", strerror(errno));
}
static void real_map(u64 a, const Map &m) {
  void *r = mmap((void *)a, m.len, m.prot, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, m.ino->mfd, (off_t)m.off);
  if (r != (void *)a) sim_error("mmap %llx+%llx: %s", (unsigned long long)a, (unsigned long long)m.len, strerror(errno));
}
void os_map_proc(int i) {
  std::map<u64, Map> &want = procs[i].maps;
  if (want.size() == real_maps.size()) {
    bool eq = true;
    auto a = want.begin(); auto b = real_maps.begin();
    for (; a != want.end(); ++a, ++b)
      if (a->first != b->first || !same(a->second, b->second)) { eq = false; break; }
    if (eq) return;
  }
  for (auto it = real_maps.begin(); it != real_maps.end();) {
    auto w = want.find(it->first);
    if (w == want.end() || !same(w->second, it->second)) { real_unmap(it->first, it->second.len); it = real_maps.erase(it); }
    else ++it;
  }
  for (auto &w : want)
    if (!real_maps.count(w.first)) { real_map(w.first, w.second); real_maps[w.first] = w.second; }
}
static void shm_release(int id) {
  for (auto s : shms) if (s->id == id) s->nattch--;
  for (size_t k = 0; k < shms.size();) {
    if (shms[k]->removed && shms[k]->nattch <= 0) shms.erase(shms.begin() + k);
    else k++;
  }
}
static void drop_map(Proc &p, u64 a) {
  auto it = p.maps.find(a);
  if (it == p.maps.end()) return;
  int id = it->second.shmid;
  it->second.ino->nmaps--;
  p.maps.erase(it);
  p.mapver++;
  if (id) shm_release(id);
}
// unmap [a,b) of the process, splitting mappings as the kernel does
static void unmap_range(Proc &p, u64 a, u64 b) {
  for (;;) {
    auto it = p.maps.begin();
    for (; it != p.maps.end(); ++it)
      if (it->first < b && it->first + it->second.len > a) break;
    if (it == p.maps.end()) return;
    u64 s = it->first; Map m = it->second;
    u64 e = s + m.len;
    p.maps.erase(it);
    bool left = s < a, right = e > b;
    if (left) { Map l = m; l.len = a - s; p.maps[s] = l; }
    if (right) { Map r = m; r.off += b - s; r.len = e - b; p.maps[b] = r; if (left) m.ino->nmaps++; }
    if (!left && !right) { m.ino->nmaps--; if (m.shmid) shm_release(m.shmid); }
    p.mapver++;
  }
}
static bool overlaps(Proc &p, u64 a, u64 b) {
  for (auto &m : p.maps) if (m.first < b && m.first + m.second.len > a) return true;
  return false;
}
static void drop_flock(Inode *n, int proc, int fd) {
  if (n->flocks.erase(((u64)proc << 32) | (u32)fd)) sim_wake(n, -1);
}
void os_proc_gone(int i) {
  Proc &p = procs[i];
  for (auto &f : p.fds) drop_flock(f.second, i, f.first);
  while (!p.maps.empty()) drop_map(p, p.maps.begin()->first);
  p.fds.clear();
  p.segv = nullptr;
  if (cur_proc == i) os_map_proc(i);
}
static bool in_region(u64 a) { return a >= R_LOW && a < R_LOW + R_SIZE + R_SEG + 0x2000000; }

EXP void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  point();
  u64 a = (u64)addr;
  Proc &p = P();
  Inode *ino = nullptr;
  if (!(flags & MAP_ANONYMOUS)) {
    auto it = p.fds.find(fd);
    if (it == p.fds.end()) { errno = EBADF; return MAP_FAILED; }
    ino = it->second;
  }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  if (int e = os_fault(F_MMAP, ENOMEM)) { errno = e; os_failed(); return MAP_FAILED; }
  len = (len + 4095) & ~4095UL;
  if (!(flags & MAP_FIXED)) {
    if (!a || overlaps(p, a, a + len)) {
      // the kernel picks another place
      a = 0x300000000000ULL;
      while (overlaps(p, a, a + len)) a += 0x40000000ULL;
    }
  } else unmap_range(p, a, a + len);
  if (ino && (flags & MAP_TYPE) == MAP_PRIVATE) {   // a copy: what is stored there reaches nobody
    Inode *c = new_inode(true);
    if (ftruncate(c->mfd, (off_t)(off + len)) != 0) sim_error("ftruncate");
    char buf[4096];
    for (off_t x = off; (x = lseek(ino->mfd, x, SEEK_DATA)) >= 0 && x < (off_t)(off + len); x += 4096) {
      x &= ~4095L;
      ssize_t r = pread(ino->mfd, buf, sizeof buf, x);
      if (r > 0 && pwrite(c->mfd, buf, (size_t)r, x) != r) sim_error("pwrite");
    }
    c->size = off + len; ino = c;
  }
  if (!ino) { ino = new_inode(true); if (ftruncate(ino->mfd, (off_t)len) != 0) sim_error("ftruncate"); ino->size = len; }
  ino->nmaps++;
  p.maps[a] = Map{len, prot, ino, (u64)off, 0};
  p.mapver++;
  os_map_proc(cur_proc);
  g_res->live_calls++;
  return (void *)a;
}
EXP void *__wrap_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(addr, len, prot, flags, fd, off); }
EXP int __wrap_munmap(void *addr, size_t len) {
  point();
  if (((u64)addr & 4095) || len == 0) { errno = EINVAL; return -1; }
  unmap_range(P(), (u64)addr, (u64)addr + ((len + 4095) & ~4095UL));
  os_map_proc(cur_proc);
  return 0;
}
EXP int __wrap_mprotect(void *addr, size_t len, int prot) {
  point();
  auto it = P().maps.find((u64)addr);
  if (it == P().maps.end() || it->second.len != ((len + 4095) & ~4095UL)) { errno = ENOMEM; return -1; }
  it->second.prot = prot;
  os_map_proc(cur_proc);
  return 0;
}

// ------------------------------------------------------------------ durable state
static const u64 PG = 4096;
static void page_now(Inode *n, u64 pg, char *buf) {
  ssize_t r = pread(n->mfd, buf, PG, (off_t)(pg * PG));
  if (r < 0) r = 0;
  memset(buf + r, 0, PG - (size_t)r);
}
static void make_durable(Inode *n, u64 pg) {
  char buf[PG];
  page_now(n, pg, buf);
  n->durable[pg].assign(buf, PG);
}
EXP int __wrap_msync(void *addr, size_t len, int flags) {
  point();
  u64 a = (u64)addr, b = a + len;
  if (a & 4095) { errno = EINVAL; return -1; }
  if ((flags & MS_ASYNC) && (flags & MS_SYNC)) { errno = EINVAL; return -1; }
  b = (b + 4095) & ~4095UL;
  // the whole range must be mapped, else ENOMEM (mapped parts are written first)
  u64 covered = 0;
  struct Piece { Inode *ino; u64 off, end; };
  std::vector<Piece> pc;
  for (auto &m : P().maps) {
    u64 s = std::max(a, m.first), e = std::min(b, m.first + m.second.len);
    if (s >= e) continue;
    covered += e - s;
    if ((flags & MS_SYNC) && !m.second.ino->shm) pc.push_back({m.second.ino, s - m.first + m.second.off, e - m.first + m.second.off});
  }
  int err = os_fault(F_MSYNC, EIO);
  if (err) { os_failed(); for (auto &x : pc) x.end = x.off + (x.end - x.off) / 8192 * 4096; }   // some of it may have been written
  int n = 0;
  for (auto &x : pc)
    for (u64 off = x.off; off < x.end;) {
      off_t d = lseek(x.ino->mfd, (off_t)off, SEEK_DATA);
      if (d < 0 || (u64)d >= x.end) d = (off_t)x.end;
      // a hole: durable pages there become zeros
      for (auto it = x.ino->durable.lower_bound(off / PG); it != x.ino->durable.end() && it->first < (u64)d / PG;)
        it = x.ino->durable.erase(it);
      if ((u64)d >= x.end) break;
      make_durable(x.ino, (u64)d / PG);
      off = ((u64)d & ~4095UL) + PG;
      if ((++n & 3) == 0) point();
    }
  g_res->live_calls++;
  if (err) { errno = err; return -1; }
  if (covered < b - a) { errno = ENOMEM; return -1; }
  return 0;
}
// The machine loses power: every process is gone; each page of each file holds
// what was last synchronised or, if the kernel happened to write it back, what
// it held at the end (keep_num/keep_den).
void os_power_failure(Rng &r, int keep_num, int keep_den) {
  count_fault(F_POWER);
  for (int i = 0; i < MAXPROC; i++) if (procs[i].alive) { procs[i].alive = false; os_proc_gone(i); }
  shms.clear();
  for (auto &f : files) {
    Inode *n = f.second;
    off_t pos = 0;
    std::set<u64> pages;
    while ((pos = lseek(n->mfd, pos, SEEK_DATA)) >= 0) {
      off_t hole = lseek(n->mfd, pos, SEEK_HOLE);
      for (u64 pg = (u64)pos / PG; pg * PG < (u64)hole; pg++) pages.insert(pg);
      pos = hole;
    }
    for (auto &d : n->durable) pages.insert(d.first);
    for (u64 pg : pages) {
      char buf[PG];
      page_now(n, pg, buf);
      auto it = n->durable.find(pg);
      std::string want = it == n->durable.end() ? std::string(PG, 0) : it->second;
      if (memcmp(buf, want.data(), PG) == 0) continue;
      int q = (int)r.below(8);
      bool keep = r.below(keep_den) < (u64)keep_num;
      if (q && keep) { n->durable[pg].assign(buf, PG); continue; }
      if (!q)   // the power went while this page was being written: sector by sector
        for (u64 o = 0; o < PG; o += 512) if (r.below(2)) memcpy(&want[o], buf + o, 512);
      n->durable[pg] = want;
      if (pwrite(n->mfd, want.data(), PG, (off_t)(pg * PG)) != (ssize_t)PG) sim_error("pwrite");
    }
  }
}
EXP int __wrap_madvise(void *addr, size_t len, int adv) {
  point();
  u64 a = (u64)addr;
  if (a & 4095) { errno = EINVAL; return -1; }
  u64 b = (a + len + 4095) & ~4095UL, covered = 0;
  for (auto &m : P().maps) {
    u64 s = std::max(a, m.first), e = std::min(b, m.first + m.second.len);
    if (s < e) covered += e - s;
  }
  g_res->live_calls++;
  if (adv == MADV_REMOVE) {
    for (auto &m : P().maps) {
      u64 s = std::max(a, m.first), e = std::min(b, m.first + m.second.len);
      if (s < e) fallocate(m.second.ino->mfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, (off_t)(s - m.first + m.second.off), (off_t)(e - s));
    }
  }
  if (adv < 0 || (adv > 25 && adv < 100)) { errno = EINVAL; return -1; }
  if (covered < b - a) { errno = ENOMEM; return -1; }
  return 0;
}
EXP int __wrap_posix_madvise(void *addr, size_t len, int adv) { int r = __wrap_madvise(addr, len, adv == 4 ? 0 : adv); return r ? errno : 0; }

// ------------------------------------------------------------------ files
static std::string norm(const char *p) {
  std::string s(p), o;
  if (s.empty() || s[0] != '/') s = std::string(STORE) + "/" + s;
  for (char c : s) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c;
  while (o.size() > 2 && o.substr(o.size() - 2) == "/.") o.resize(o.size() - 2);
  if (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
static std::string parent(const std::string &s) {
  size_t k = s.rfind('/');
  return k == 0 ? "/" : s.substr(0, k);
}
static bool too_long(const char *p) {        // PATH_MAX; no name at all is no file either
  if (*p && strlen(p) < 4096) return false;
  errno = *p ? ENAMETOOLONG : ENOENT;
  return true;
}
static int alloc_fd(Inode *n) {
  int fd = 3;
  while (P().fds.count(fd)) fd++;
  P().fds[fd] = n;
  return fd;
}
EXP int __wrap_open(const char *path, int flags, ...) {
  if (!g_prog) { errno = ENOENT; return -1; }
  point();
  if (too_long(path)) return -1;
  std::string s = norm(path);
  if (s.compare(0, 6, "/proc/") == 0) { errno = ENOENT; return -1; }
  auto it = files.find(s);
  if (flags & O_CREAT) {
    if (it == files.end() && fail_blocks) { count_fault(F_NOSPACE); os_failed(); errno = ENOSPC; return -1; }
    if (int e = os_fault(F_CREATE, ENOSPC)) { errno = e; os_failed(); return -1; }
  } else if (int e = os_fault(F_OPEN, EMFILE)) { errno = e; os_failed(); return -1; }
  g_res->live_calls++;
  if (it == files.end()) {
    if (dirs.count(s) && !(flags & O_CREAT)) {
      if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
      Inode *&d = dir_inodes[s];
      if (!d) { d = new_inode(false); d->dir = true; }
      return alloc_fd(d);
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!dirs.count(parent(s))) { errno = ENOENT; return -1; }
    if (dirs.count(s)) { errno = EISDIR; return -1; }
    Inode *n = new_inode(false);
    n->path = s;
    files[s] = n;
    logf_("create %s", s.c_str());
    return alloc_fd(n);
  }
  if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) { if (ftruncate(it->second->mfd, 0) != 0) sim_error("truncate"); it->second->size = 0; }
  return alloc_fd(it->second);
}
EXP int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags); }
EXP int __wrap_creat(const char *path, mode_t) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC); }
EXP int __wrap_close(int fd) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  drop_flock(it->second, cur_proc, fd);
  P().fds.erase(it);
  if (int e = os_fault(F_CLOSE, EIO)) { errno = e; os_failed(); return -1; }
  return 0;
}
// Locks belong to the open file description, which here is one descriptor of
// one process.
EXP int __wrap_flock(int fd, int op) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  Inode *n = it->second;
  u64 me = ((u64)cur_proc << 32) | (u32)fd;
  bool nb = op & LOCK_NB;
  op &= ~LOCK_NB;
  if (op == LOCK_UN) { drop_flock(n, cur_proc, fd); return 0; }
  int want = op == LOCK_EX ? 2 : 1;
  for (;;) {
    bool clash = false;
    for (auto &l : n->flocks) if (l.first != me && (want == 2 || l.second == 2)) clash = true;
    if (!clash) { n->flocks[me] = want; g_res->live_calls++; return 0; }
    if (nb) { errno = EWOULDBLOCK; return -1; }
    if (os_fault(F_EINTR, EINTR)) { sim_yield_point(); errno = EINTR; return -1; }
    sim_block_on(n, -1);
  }
}
EXP int __wrap_ftruncate(int fd, off_t len) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  if (int e = os_fault(F_FTRUNCATE, ENOSPC)) { errno = e; os_failed(); return -1; }
  if (it->second->dir) { errno = EINVAL; return -1; }
  if (ftruncate(it->second->mfd, len) != 0) sim_error("ftruncate: %s", strerror(errno));
  it->second->size = (u64)len;
  g_res->live_calls++;
  return 0;
}
EXP int __wrap_ftruncate64(int fd, off_t len) { return __wrap_ftruncate(fd, len); }
EXP int __wrap_fallocate(int fd, int, off_t off, off_t len) { return __wrap_ftruncate(fd, off + len); }
EXP int __wrap_posix_fallocate(int fd, off_t off, off_t len) { return __wrap_ftruncate(fd, off + len) ? errno : 0; }
static int fill_stat(Inode *n, bool dir, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = dir ? (S_IFDIR | 0777) : (S_IFREG | 0666);
  st->st_nlink = 1;
  if (n) { st->st_size = (off_t)n->size; st->st_ino = (ino_t)(n->mfd + 100); }
  st->st_blksize = 4096;
  st->st_dev = 77;
  return 0;
}
EXP int __wrap_stat(const char *path, struct stat *st) {
  point();
  if (too_long(path)) return -1;
  std::string s = norm(path);
  auto it = files.find(s);
  if (it != files.end()) return fill_stat(it->second, false, st);
  if (dirs.count(s)) return fill_stat(nullptr, true, st);
  errno = ENOENT;
  return -1;
}
EXP int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
EXP int __wrap_stat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
EXP int __wrap_fstat(int fd, struct stat *st) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  return fill_stat(it->second, false, st);
}
EXP int __wrap_access(const char *path, int) { struct stat st; return __wrap_stat(path, &st); }
EXP int __wrap_remove(const char *path) {
  point();
  if (too_long(path)) return -1;
  std::string s = norm(path);
  auto it = files.find(s);
  if (it == files.end()) { errno = dirs.count(s) ? ENOTEMPTY : ENOENT; return -1; }
  if (int e = os_fault(F_REMOVE, EACCES)) { errno = e; os_failed(); return -1; }
  files.erase(it);      // open descriptors and mappings keep the inode
  logf_("remove %s", s.c_str());
  g_res->live_calls++;
  return 0;
}
EXP int __wrap_unlink(const char *path) { return __wrap_remove(path); }
EXP ssize_t __wrap_read(int fd, void *buf, size_t n) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  return read(it->second->mfd, buf, n);
}
EXP ssize_t __wrap_write(int fd, const void *buf, size_t n) {
  point();
  if (fd == 1 || fd == 2) return (ssize_t)n;
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  ssize_t r = write(it->second->mfd, buf, n);
  struct stat st;
  if (fstat(it->second->mfd, &st) == 0) it->second->size = (u64)st.st_size;
  return r;
}
EXP off_t __wrap_lseek(int fd, off_t off, int wh) {
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  return lseek(it->second->mfd, off, wh);
}
EXP int __wrap_fsync(int fd) {
  point();
  auto it = P().fds.find(fd);
  if (it == P().fds.end()) { errno = EBADF; return -1; }
  return 0;
}
EXP char *__wrap_getcwd(char *buf, size_t n) {
  if (!buf) return strdup(STORE);
  snprintf(buf, n, "%s", STORE);
  return buf;
}
void os_set_store_env(const char *v) { P().store_env = v; }
EXP char *__wrap_getenv(const char *n) { const char *v = P().store_env; return v && !strcmp(n, "SASSTOREPATH") ? (char *)v : nullptr; }
EXP char *__wrap_secure_getenv(const char *n) { return __wrap_getenv(n); }

// ------------------------------------------------------------------ System V shared memory
EXP key_t __wrap_ftok(const char *path, int id) {
  point();
  if (int e = os_fault(F_FTOK, ENOENT)) { errno = e; os_failed(); return -1; }
  if (too_long(path)) return -1;
  std::string s = norm(path);
  if (!dirs.count(s) && !files.count(s)) { errno = ENOENT; return -1; }
  u64 h = 5381;
  for (char c : s) h = h * 33 + (unsigned char)c;
  return (key_t)(((id & 0xff) << 24) | (h & 0xffffff));
}
EXP int __wrap_shmget(key_t key, size_t size, int flags) {
  point();
  if (int e = os_fault(F_SHMGET, ENOSPC)) { errno = e; os_failed(); return -1; }
  g_res->live_calls++;
  if (key != IPC_PRIVATE)
    for (auto s : shms)
      if (s->key == key && !s->removed) {
        if ((flags & IPC_CREAT) && (flags & IPC_EXCL)) { errno = EEXIST; return -1; }
        if (size > s->size) { errno = EINVAL; return -1; }
        return s->id;
      }
  if (!(flags & IPC_CREAT) && key != IPC_PRIVATE) { errno = ENOENT; return -1; }
  if (size == 0) { errno = EINVAL; return -1; }
  Shm *s = new Shm();
  s->id = ++shm_seq; s->key = key; s->size = (size + 4095) & ~4095UL; s->ino = new_inode(true); s->removed = false; s->nattch = 0;
  if (ftruncate(s->ino->mfd, (off_t)s->size) != 0) sim_error("shm truncate");
  shms.push_back(s);
  return s->id;
}
EXP void *__wrap_shmat(int id, const void *addr, int flags) {
  point();
  if (int e = os_fault(F_SHMAT, ENOMEM)) { errno = e; os_failed(); return (void *)-1; }
  for (auto s : shms)
    if (s->id == id) {
      u64 a = (u64)addr;
      if (!a) { a = 0x310000000000ULL; while (overlaps(P(), a, a + s->size)) a += 0x40000000ULL; }
      if (a & 4095) { if (flags & SHM_RND) a &= ~4095UL; else { errno = EINVAL; return (void *)-1; } }
      if (overlaps(P(), a, a + s->size)) {
        if (!(flags & SHM_REMAP)) { errno = EINVAL; return (void *)-1; }
        unmap_range(P(), a, a + s->size);
      }
      s->nattch++;
      s->ino->nmaps++;
      P().maps[a] = Map{s->size, (flags & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE, s->ino, 0, s->id};
      P().mapver++;
      os_map_proc(cur_proc);
      g_res->live_calls++;
      return (void *)a;
    }
  errno = EINVAL;
  return (void *)-1;
}
EXP int __wrap_shmdt(const void *addr) {
  point();
  auto it = P().maps.find((u64)addr);
  if (it == P().maps.end() || !it->second.shmid) { errno = EINVAL; return -1; }
  drop_map(P(), (u64)addr);
  os_map_proc(cur_proc);
  return 0;
}
EXP int __wrap_shmctl(int id, int cmd, struct shmid_ds *ds) {
  point();
  for (size_t k = 0; k < shms.size(); k++)
    if (shms[k]->id == id) {
      Shm *s = shms[k];
      if (cmd == IPC_RMID) {
        s->removed = true;
        if (s->nattch <= 0) shms.erase(shms.begin() + (long)k);
        return 0;
      }
      if (cmd == IPC_STAT && ds) { memset(ds, 0, sizeof *ds); ds->shm_segsz = s->size; ds->shm_nattch = (shmatt_t)s->nattch; }
      return 0;
    }
  errno = EINVAL;
  return -1;
}

// ------------------------------------------------------------------ semaphores
struct SimSem { u32 magic; u32 value; u32 waits; };
static const u32 MAGIC = 0x53454d21, DEADSEM = 0x44454144;
static int semproc(void *s) { return in_region((u64)s) ? -1 : cur_proc; }
static SimSem *sem(sem_t *s, const char *what) {
  SimSem *m = (SimSem *)s;
  if (m->magic != MAGIC) fail("bad-semaphore", "%s on %p, which is not an initialised semaphore%s", what, (void *)s, m->magic == DEADSEM ? " (destroyed)" : "");
  return m;
}
EXP int __wrap_sem_init(sem_t *s, int pshared, unsigned v) {
  point();
  if (v > SEM_VALUE_MAX) { errno = EINVAL; return -1; }
  SimSem *m = (SimSem *)s;
  m->magic = MAGIC; m->value = v; m->waits = 0;
  return 0;
}
EXP int __wrap_sem_destroy(sem_t *s) { point(); SimSem *m = sem(s, "sem_destroy"); m->magic = DEADSEM; return 0; }
EXP int __wrap_sem_post(sem_t *s) {
  point();
  SimSem *m = sem(s, "sem_post");
  m->value++;
  g_res->live_calls++;
  sim_wake(s, semproc(s));
  point();
  return 0;
}
EXP int __wrap_sem_wait(sem_t *s) {
  point();
  for (;;) {
    SimSem *m = sem(s, "sem_wait");
    if (m->value > 0) { m->value--; g_res->live_calls++; return 0; }
    if (int e = os_fault(F_EINTR, EINTR)) {
      // the signal arrives while we sleep
      sim_yield_point();
      errno = e == EINTR ? e : EINTR;
      return -1;
    }
    sim_block_on(s, semproc(s));
  }
}
EXP int __wrap_sem_trywait(sem_t *s) {
  point();
  SimSem *m = sem(s, "sem_trywait");
  if (m->value > 0) { m->value--; return 0; }
  errno = EAGAIN;
  return -1;
}
EXP int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) {
  point();
  for (int k = 0;; k++) {
    SimSem *m = sem(s, "sem_timedwait");
    if (m->value > 0) { m->value--; return 0; }
    if (k > 100) { errno = ETIMEDOUT; return -1; }
    g_time_ns += 1000000;
    sim_yield_point();
  }
}
EXP int __wrap_sem_getvalue(sem_t *s, int *v) { point(); *v = (int)sem(s, "sem_getvalue")->value; return 0; }
unsigned os_sem_value(void *s) { return ((SimSem *)s)->value; }

// ------------------------------------------------------------------ time, identity, the rest
void os_set_clock(u64 mono, u64 real) { mono0 = mono - g_time_ns; real0 = real - g_time_ns; }
static void jumps() {
  for (auto &f : clockjumps)
    if (f.len > 0 && g_step >= (u64)f.nth) { jump_sum += f.arg; f.len = 0; count_fault(F_CLOCK); }
}
void (*g_clock_hook)(int, u64);
u64 os_mono() { return mono0 + g_time_ns; }
u64 os_real() { jumps(); return real0 + g_time_ns + (u64)jump_sum; }
EXP int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (g_prog) point();
  u64 t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? os_real() : os_mono();
  ts->tv_sec = (time_t)(t / 1000000000ULL); ts->tv_nsec = (long)(t % 1000000000ULL);
  if (g_clock_hook) g_clock_hook(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE, t);
  return 0;
}
EXP int __wrap_gettimeofday(struct timeval *tv, void *) {
  if (g_prog) point();
  u64 t = os_real();
  tv->tv_sec = (time_t)(t / 1000000000ULL); tv->tv_usec = (long)(t % 1000000000ULL / 1000);
  if (g_clock_hook) g_clock_hook(1, t);
  return 0;
}
EXP time_t __wrap_time(time_t *p) { time_t t = (time_t)(os_real() / 1000000000ULL); if (p) *p = t; return t; }
EXP int __wrap_sched_yield(void) { sim_yield_point(); return 0; }
EXP int __wrap_pthread_yield(void) { sim_yield_point(); return 0; }
EXP int __wrap_usleep(unsigned us) { g_time_ns += us * 1000ULL; sim_yield_point(); return 0; }
EXP int __wrap_nanosleep(const struct timespec *ts, struct timespec *) { g_time_ns += (u64)ts->tv_sec * 1000000000ULL + (u64)ts->tv_nsec; sim_yield_point(); return 0; }
EXP unsigned __wrap_sleep(unsigned s) { g_time_ns += s * 1000000000ULL; sim_yield_point(); return 0; }
static int tid_now() { return cur_fiber() < 0 ? P().pid : P().pid + 1 + cur_fiber(); }
int os_tid() { return tid_now(); }
EXP pid_t __wrap_getpid(void) { return P().pid ? P().pid : 3000; }
EXP pid_t __wrap_gettid(void) { return tid_now(); }
EXP long __wrap_syscall(long n, ...) {
  if (n == SYS_gettid) return tid_now();
  if (n == SYS_getpid) return P().pid;
  if (n == SYS_sched_yield) { sim_yield_point(); return 0; }
  sim_error("syscall %ld is not simulated", n);
}
EXP int __wrap_sigaction(int sig, const struct sigaction *sa, struct sigaction *old) {
  point();
  if (sig != SIGSEGV) { if (old) memset(old, 0, sizeof *old); return 0; }
  Proc &p = P();
  if (old) *old = p.sa_segv;
  if (sa) {
    p.sa_segv = *sa;
    bool h = sa->sa_handler != SIG_DFL && sa->sa_handler != SIG_IGN;
    p.segv = h ? sa->sa_sigaction : nullptr;
  }
  return 0;
}
EXP void __wrap_exit(int rc) { sim_exited(); fail("exit", "the library ended the process with exit(%d)", rc); }
EXP void __wrap__exit(int rc) { fail("exit", "the library ended the process with _exit(%d)", rc); }
EXP void __stack_chk_fail(void) { fail("overflow", "the library wrote past a buffer of its own on the stack"); abort(); }
EXP void __wrap_abort(void) { fail("exit", "the library aborted the process"); }
EXP void __wrap_pthread_exit(void *) { sim_exited(); fail("exit", "the library ended the thread"); abort(); }
static std::string lib_out;
static void lib_log(const char *s) { if (g_verbose) fprintf(stderr, "    | %s", s); }
EXP int __wrap_printf(const char *f, ...) { if (g_verbose) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); lib_log(b); } return 1; }
EXP int __wrap___printf_chk(int, const char *f, ...) { return 1; }
EXP int __wrap_fprintf(FILE *, const char *f, ...) { if (g_verbose) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); lib_log(b); } return 1; }
EXP size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *) { if (g_verbose) lib_log(std::string((const char *)p, s * n).c_str()); return n; }
EXP int __wrap_puts(const char *s) { lib_log(s); if (g_verbose) fputc('\n', stderr); return 1; }
EXP int __wrap_fputs(const char *s, FILE *) { lib_log(s); return 1; }
EXP int __wrap_fputc(int c, FILE *) { return c; }
EXP int __wrap_putchar(int c) { return c; }
EXP int __wrap_fflush(FILE *) { return 0; }
EXP void __wrap_perror(const char *s) { lib_log(s); if (g_verbose) fputc('\n', stderr); }
EXP int __wrap_backtrace(void **, int) { return 0; }
EXP char **__wrap_backtrace_symbols(void *const *, int) { return (char **)calloc(1, sizeof(char *)); }
EXP void *__wrap_malloc(size_t n) {
  if (g_prog && os_fault(F_MALLOC, ENOMEM)) { errno = ENOMEM; os_failed(); return nullptr; }
  return malloc(n);
}
EXP void *__wrap_calloc(size_t a, size_t b) {
  if (g_prog && os_fault(F_MALLOC, ENOMEM)) { errno = ENOMEM; os_failed(); return nullptr; }
  return calloc(a, b);
}

// ------------------------------------------------------------------ bulk memory: torn copies
static void pieces(u64 d, u64 s, size_t n, int mode, int c) {
  bool dr = in_region(d), srg = in_region(s);
  if (!dr && !srg) {
    if (mode == 2) memset((void *)d, c, n); else memmove((void *)d, (void *)s, n);
    return;
  }
  size_t parts = n <= 8 ? 1 : n <= 64 ? 2 : n <= 4096 ? 3 : 4;
  bool back = mode == 1 && d > s && d < s + n;
  size_t step = ((n / parts) + 7) & ~(size_t)7;
  if (!step) step = n;
  if (back) { sim_point(dr ? P_WRITE : P_READ, dr ? d : s); memmove((void *)d, (void *)s, n); return; }
  for (size_t o = 0; o < n; o += step) {
    size_t k = std::min(step, n - o);
    sim_point(dr ? P_WRITE : P_READ, dr ? d + o : s + o);
    if (mode == 2) memset((void *)(d + o), c, k); else memmove((void *)(d + o), (void *)(s + o), k);
  }
  if (n == 0) return;
}
EXP void *__wrap_memcpy(void *d, const void *s, size_t n) { pieces((u64)d, (u64)s, n, 0, 0); return d; }
EXP void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t) { pieces((u64)d, (u64)s, n, 0, 0); return d; }
EXP void *__wrap_memmove(void *d, const void *s, size_t n) { pieces((u64)d, (u64)s, n, 1, 0); return d; }
EXP void *__wrap_memset(void *d, int c, size_t n) { pieces((u64)d, 0, n, 2, c); return d; }
EXP void *__wrap___memset_chk(void *d, int c, size_t n, size_t) { pieces((u64)d, 0, n, 2, c); return d; }
EXP char *__wrap_strcpy(char *d, const char *s) { pieces((u64)d, (u64)s, strlen(s) + 1, 0, 0); return d; }
EXP char *__wrap___strcpy_chk(char *d, const char *s, size_t) { pieces((u64)d, (u64)s, strlen(s) + 1, 0, 0); return d; }
EXP char *__wrap_strncpy(char *d, const char *s, size_t n) { if (in_region((u64)d) || in_region((u64)s)) sim_point(P_READ, 0); return strncpy(d, s, n); }
static inline void two(const void *a, const void *b) {
  if (in_region((u64)a)) sim_point(P_READ, (u64)a);
  else if (in_region((u64)b)) sim_point(P_READ, (u64)b);
}
EXP int __wrap_strcmp(const char *a, const char *b) { two(a, b); return strcmp(a, b); }
EXP int __wrap_strncmp(const char *a, const char *b, size_t n) { two(a, b); return strncmp(a, b, n); }
EXP int __wrap_memcmp(const void *a, const void *b, size_t n) { two(a, b); return memcmp(a, b, n); }
EXP size_t __wrap_strlen(const char *a) { two(a, a); return strlen(a); }
