#pragma once
#include "rt.h"
#include <cstddef>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>
#include <errno.h>
namespace rt {
extern int g_off;       // 0: code under test is running and observed
extern bool g_active;   // inside a run
extern bool g_child;    // inside the real child of a simulated fork
inline bool sut() { return g_off == 0; }

inline long rawcall(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                    long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
[[noreturn]] inline void rawExit(int c) {
  for (;;)
    rawcall(SYS_exit_group, c);
}

struct VC {
  uint32_t c[MaxThreads];
};

enum State { Unused, Runnable, Blocked, Done };
struct Thr {
  int id = -1;
  std::string name;
  State st = Unused;
  const char *why = "";
  const void *on = nullptr;
  std::function<bool()> pred;
  int64_t deadline = -1;
  bool timedOut = false;
  uint32_t baton = 0;
  int savedOff = 0;
  int held = 0; // mutexes
  std::function<void *()> fn;
  void *ret = nullptr;
  bool detached = false, joined = false;
  unsigned long real = 0;
  VC vc{};
  // shadow call stack
  int depth = 0;
  void *pcs[256];
  // preemption inside straight-line code
  uint64_t acc = 0, nextPreempt = ~0ull;
};
extern Thr *T[MaxThreads];
extern Thr *Cur; // running thread (owner of the baton)
extern int nThr;

// mem
void memInit();
void memActivate();
void accessRange(const void *p, size_t n, bool w);
void acquireVC(Thr *t, const void *addr);
void releaseVC(Thr *t, const void *addr);
void joinVC(VC &a, const VC &b);
std::string stackText(Thr *t, void *pc);
std::string symText(void *pc);
size_t sutHeapUsed();
void *stackFor(int id, size_t &size);
bool ownStack(const void *p);

// sched
[[noreturn]] void die(const char *cls, const std::string &msg);
void schedule(bool curRunnable, char kind);
void blockOn(std::function<bool()> pred, const char *why, const void *on,
             int64_t deadline = -1);
void memPreempt();
void planPreempt(Thr *t);
void fatalInChild(const char *what);
extern int64_t now_;
void installSignals();

// io
void ioReset();
void ioInit();
void enableHistory();
} // namespace rt
