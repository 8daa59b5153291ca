#pragma once
#include "sim.h"
#include "api.h"
#include <signal.h>
enum { MAXPROC = 4 };
enum PointKind { P_PLAIN, P_READ, P_WRITE, P_RMW, P_SYNC, P_SPIN, P_PAUSE };
struct Inode;
struct Map { u64 len; int prot; Inode *ino; u64 off; int shmid; };
struct Proc {
  bool alive = false;
  int pid = 0;
  std::map<int, Inode *> fds;
  std::map<u64, Map> maps;
  u64 mapver = 0;
  void (*segv)(int, siginfo_t *, void *) = nullptr;
  struct sigaction sa_segv = {};
  const char *store_env = nullptr;
};
extern Proc procs[MAXPROC];
extern int cur_proc;
extern Check *g_check;
extern Prog *g_prog;
void sim_point(int kind, u64 addr);
void sim_yield_point();
void yield_now_pub();
void sim_block_on(void *sem, int sproc);
void sim_wake(void *sem, int sproc);
int os_fault(int kind, int deferr);
void os_map_proc(int i);
void os_proc_gone(int i);
void load_modules(const char *dir, int n);
void capture_tls();
void run_child(Check *c, Prog &p);
