// Scheduler, choices, clock and the pthread interface.
#include "rt_int.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <unordered_map>
#include <exception>
#include <ucontext.h>

namespace rt {
Knobs K;
Hooks H;
FsHooks FS;
Shared *Sh = nullptr;
bool Verbose = false;
Thr *T[MaxThreads];
Thr *Cur = nullptr;
int nThr = 0;
int64_t now_ = 0;

void enableHistory();

namespace {
std::vector<std::shared_ptr<Actor>> *Actors;
const Plan *P;
uint64_t rngS[2];
bool generating = false;
std::unordered_map<uint64_t, uint32_t> *replayDevs;
std::vector<uint32_t> (*replayMem)[MaxThreads]; // preemptions, in order
uint32_t ords[MaxEnts][256]; // per entity and kind
int curActor = -1;           // entity id of a stepping actor
int lastEnt = 0;
uint64_t nsteps = 0, nswitch = 0;
uint64_t hash = 1469598103934665603ull, schedHash = 1469598103934665603ull;
// pct / starvation
int prio[MaxEnts];
int lowPrio = 0;
uint64_t pctPoints[16];
int starveEnt = -1;
uint64_t starveFrom = 0, starveTo = 0;
uint64_t accessTotal = 0;

uint64_t rnd() { // xorshift128+
  uint64_t a = rngS[0], b = rngS[1];
  rngS[0] = b;
  a ^= a << 23;
  rngS[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rngS[1] + b;
}
double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void mix(uint64_t &h, uint64_t v) {
  for (int i = 0; i < 8; ++i) {
    h ^= (v >> (i * 8)) & 0xff;
    h *= 1099511628211ull;
  }
}
void record(uint64_t key, uint32_t val) {
  if (Sh->ndevs < MaxDevs) {
    Sh->devKey[Sh->ndevs] = key;
    Sh->devVal[Sh->ndevs] = val;
    Sh->ndevs++;
  }
}
uint64_t mkKey(int ent, char kind, uint32_t ord) {
  return ((uint64_t)ent << 40) | ((uint64_t)(unsigned char)kind << 32) | ord;
}
void fillShared() {
  Sh->hash = hash;
  Sh->schedHash = schedHash;
  Sh->steps = nsteps;
  Sh->switches = nswitch;
  uint64_t acc = accessTotal;
  for (int i = 0; i < nThr; ++i)
    acc += T[i]->acc;
  Sh->accesses = acc;
  Sh->simTime = now_;
  Sh->nthreads = nThr;
  Sh->nprocs = (int)procs().size();
}
} // namespace

int curEnt() { return curActor >= 0 ? curActor : Cur ? Cur->id : 0; }
int64_t now() { return now_; }
uint64_t steps() { return nsteps; }

void logf(const char *fmt, ...) {
  if (!Verbose)
    return;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1)
    n = sizeof buf - 1;
  char line[4300];
  const char *who = curActor >= 0 ? (*Actors)[curActor - MaxThreads]->name.c_str()
                    : Cur         ? Cur->name.c_str()
                                  : "-";
  int m = snprintf(line, sizeof line, "[%10.3fms %6lu %-10s] %s\n", now_ / 1e6,
                   (unsigned long)nsteps, who, buf);
  rawcall(SYS_write, 2, (long)line, m);
}

void event(const char *what, uint64_t a, uint64_t b) {
  for (const char *p = what; *p; ++p) {
    hash ^= (unsigned char)*p;
    hash *= 1099511628211ull;
  }
  mix(hash, a);
  mix(hash, b);
  mix(hash, curEnt());
}

InRt::InRt() { ++g_off; }
InRt::~InRt() { --g_off; }
InSut::InSut() {
  saved = g_off;
  g_off = 0;
}
InSut::~InSut() { g_off = saved; }

[[noreturn]] void die(const char *cls, const std::string &msg) {
  ++g_off;
  if (g_child)
    fatalInChild(cls);
  if (Sh->done == 0) {
    snprintf(Sh->cls, sizeof Sh->cls, "%s", cls);
    snprintf(Sh->msg, sizeof Sh->msg, "%s", msg.c_str());
    fillShared();
    logf("VIOLATION %s: %s", cls, msg.c_str());
    Sh->done = 2;
  }
  rawExit(0);
}
[[noreturn]] void violate(const std::string &cls, const std::string &msg) {
  die(cls.c_str(), msg);
}
[[noreturn]] void finish() {
  ++g_off;
  fillShared();
  logf("run finished, hash %016lx", (unsigned long)hash);
  Sh->done = 1;
  rawExit(0);
}

// ---------------------------------------------------------------- choices
int choose(char kind, int n, double p) {
  if (n <= 1 || g_child)
    return 0;
  InRt _;
  int e = curEnt();
  uint32_t o = ords[e][(unsigned char)kind]++;
  int v = 0;
  if (generating) {
    if (p > 0 && rnd01() < p) {
      v = 1 + (int)(rnd() % (n - 1));
      record(mkKey(e, kind, o), v);
    }
  } else {
    auto it = replayDevs->find(mkKey(e, kind, o));
    if (it != replayDevs->end() && (int)it->second < n)
      v = it->second;
    if (v)
      record(mkKey(e, kind, o), v);
  }
  if (v)
    event("choice", (unsigned char)kind, v);
  return v;
}
void faultCount(const char *name, int n) {
  for (int i = 0; i < Sh->nfaults; ++i)
    if (!strcmp(Sh->faultName[i], name)) {
      Sh->faultCnt[i] += n;
      return;
    }
  if (Sh->nfaults < 64) {
    snprintf(Sh->faultName[Sh->nfaults], 32, "%s", name);
    Sh->faultCnt[Sh->nfaults++] = n;
  }
}
bool fault(const char *name, double p) {
  if (!choose('f', 2, p))
    return false;
  InRt _;
  faultCount(name);
  event(name);
  logf("fault %s", name);
  return true;
}
void probe(const char *name) {
  InRt _;
  for (int i = 0; i < Sh->nprobes; ++i)
    if (!strcmp(Sh->probeName[i], name)) {
      Sh->probeCnt[i]++;
      return;
    }
  if (Sh->nprobes < 96) {
    snprintf(Sh->probeName[Sh->nprobes], 40, "%s", name);
    Sh->probeCnt[Sh->nprobes++] = 1;
  }
}

// -------------------------------------------------------------- scheduling
int addActor(std::shared_ptr<Actor> A) {
  InRt _;
  A->id = MaxThreads + (int)Actors->size();
  if (A->id >= MaxEnts)
    die("simulator", "too many actors");
  Actors->push_back(A);
  return A->id;
}

static void futexWait(uint32_t *p, uint32_t v) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == v)
    rawcall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void futexWake(uint32_t *p) {
  rawcall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void handoff(Thr *to) {
  Thr *me = Cur;
  if (to == me)
    return;
  nswitch++;
  mix(schedHash, to->id);
  me->savedOff = g_off;
  Cur = to;
  __atomic_store_n(&to->baton, 1u, __ATOMIC_RELEASE);
  futexWake(&to->baton);
  if (me->st == Done)
    for (;;) { // parked for ever: no thread-local destructors run unscheduled
      uint32_t z = 0;
      rawcall(SYS_futex, (long)&z, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    }
  futexWait(&me->baton, 0);
  me->baton = 0;
  g_off = me->savedOff;
}

std::string blockedReport() {
  std::string s;
  for (int i = 0; i < nThr; ++i) {
    Thr *t = T[i];
    if (t->st == Blocked) {
      char b[200];
      snprintf(b, sizeof b, "%s%s waits for %s", s.empty() ? "" : "; ",
               t->name.c_str(), t->why);
      s += b;
      s += " at " + stackText(t, t->depth > 0 && t->depth < 256
                                     ? t->pcs[t->depth - 1]
                                     : nullptr);
    } else if (t->st == Runnable) {
      s += (s.empty() ? "" : "; ") + t->name + " runnable";
    }
  }
  return s;
}
int liveThreads() {
  int n = 0;
  for (int i = 0; i < nThr; ++i)
    n += T[i]->st != Done;
  return n;
}
bool threadDone(int id) { return T[id]->st == Done; }

// Decides who runs next; steps actors itself. Returns when a thread is to run.
static Thr *pickNext(bool curRunnable, char kind) {
  Thr *me = Cur;
  static int cand[MaxEnts];
  for (;;) {
    nsteps++;
    now_ += 1000;
    if (nsteps > H.stepCap)
      die("livelock", "step bound reached: " + blockedReport());
    if (now_ > H.timeCap) {
      if (H.onTimeCap)
        H.onTimeCap();
      die("hang", "time bound reached: " + blockedReport());
    }
    if (H.onStep)
      H.onStep();
    int n = 0;
    for (int i = 0; i < nThr; ++i) {
      Thr *t = T[i];
      if (t->st == Blocked) {
        if (t->deadline >= 0 && t->deadline <= now_) {
          t->timedOut = true;
          t->st = Runnable;
        } else if (t->pred && t->pred()) {
          t->timedOut = false;
          t->st = Runnable;
        }
      }
      if (t->st == Runnable)
        cand[n++] = i;
      // a thread made runnable stays so; it re-checks its condition itself
    }
    for (size_t i = 0; i < Actors->size(); ++i)
      if ((*Actors)[i]->ready())
        cand[n++] = MaxThreads + (int)i;
    if (n == 0) {
      int64_t w = -1;
      for (int i = 0; i < nThr; ++i)
        if (T[i]->st == Blocked && T[i]->deadline >= 0 &&
            (w < 0 || T[i]->deadline < w))
          w = T[i]->deadline;
      for (auto &a : *Actors) {
        int64_t x = a->wake();
        if (x >= 0 && (w < 0 || x < w))
          w = x;
      }
      if (w < 0) {
        if (H.onIdle)
          H.onIdle();
        die("deadlock", blockedReport());
      }
      if (w > now_)
        now_ = w;
      continue;
    }
    // default: stay, else round robin
    int cur = curRunnable && curActor < 0 && lastEnt == me->id ? me->id : -1;
    int def = -1;
    if (cur >= 0)
      def = cur;
    else {
      for (int i = 0; i < n && def < 0; ++i)
        if (cand[i] > lastEnt)
          def = cand[i];
      if (def < 0)
        def = cand[0];
    }
    int pick = def;
    int kent = me->id;
    uint32_t o = ords[kent][(unsigned char)'s']++;
    if (n > 1) {
      if (generating) {
        if (starveEnt >= 0 && nsteps >= starveFrom && nsteps < starveTo) {
          int m = 0;
          for (int i = 0; i < n; ++i)
            if (cand[i] != starveEnt)
              cand[m++] = cand[i];
          if (m && m < n) {
            n = m;
            bool in = false;
            for (int i = 0; i < n; ++i)
              in |= cand[i] == pick;
            if (!in)
              pick = cand[rnd() % n];
          }
        }
        if (K.strategy == 1) {
          for (int i = 0; i < K.pctDepth && i < 16; ++i)
            if (pctPoints[i] == nsteps)
              prio[lastEnt] = --lowPrio;
          int best = -1;
          for (int i = 0; i < n; ++i) {
            int &p = prio[cand[i]];
            if (p == 0)
              p = 1 + (int)(rnd() % 100000);
            if (best < 0 || p > prio[best])
              best = cand[i];
          }
          pick = best;
        } else {
          double p = cur >= 0 && pick == cur ? K.pswitch
                                             : std::max(K.pswitch, 0.3);
          if (kind == 'm')
            p = 1;
          if (rnd01() < p)
            pick = cand[rnd() % n];
        }
        if (pick != def)
          record(mkKey(kent, 's', o), pick);
      } else {
        auto it = replayDevs->find(mkKey(kent, 's', o));
        if (it != replayDevs->end())
          for (int i = 0; i < n; ++i)
            if (cand[i] == (int)it->second)
              pick = cand[i];
        if (pick != def)
          record(mkKey(kent, 's', o), pick);
      }
    }
    if (pick != lastEnt)
      mix(hash, pick);
    lastEnt = pick;
    if (pick >= MaxThreads) {
      mix(schedHash, pick);
      curActor = pick;
      std::shared_ptr<Actor> a = (*Actors)[pick - MaxThreads];
      a->step();
      curActor = -1;
      continue;
    }
    if (T[pick] != me)
      logf("-> %s", T[pick]->name.c_str());
    return T[pick];
  }
}

// Waiting and switching must not disturb errno between a call and its check.
struct KeepErrno {
  int e = errno;
  ~KeepErrno() { errno = e; }
};
void schedule(bool curRunnable, char kind) {
  KeepErrno ke;
  Thr *t = pickNext(curRunnable, kind);
  handoff(t);
}

// The thread is off the processor for a while (a page fault, a busy machine),
// most often where it matters: with a lock held, or in the middle of straight
// line code. Others run and time passes.
static bool stallHere(char kind) {
  double p = kind == 'm' ? 0.4 : Cur->held > 0 ? K.stall : K.stall / 20;
  if (!flip('h', p))
    return false;
  int64_t d = (50000ll + pickn('H', 50000)) << pickn('G', 12);
  faultCount("thread-stalled");
  static int n = 0; // in this run
  if (++n == 400)
    K.stall = 0;
  blockOn([] { return false; }, "the processor", nullptr, now_ + d);
  return true;
}

void yieldPoint(char kind) {
  if (!Cur || g_child)
    return;
  InRt _;
  if (K.stall > 0 && stallHere(kind))
    return;
  if (K.strategy == 1 || starveEnt >= 0) {
    schedule(true, kind);
    return;
  }
  // fast path: decide first whether anything but "go on" happens here
  uint32_t o = ords[Cur->id][(unsigned char)'y']++;
  if (generating) {
    if (kind != 'm' && rnd01() >= K.pswitch) {
      now_ += 1000;
      return;
    }
    if (kind != 'm')
      record(mkKey(Cur->id, 'y', o), 1);
  } else if (kind != 'm') {
    if (!replayDevs->count(mkKey(Cur->id, 'y', o))) {
      now_ += 1000;
      return;
    }
    record(mkKey(Cur->id, 'y', o), 1);
  }
  if (K.jump > 0 && flip('j', K.jump)) {
    // the machine was busy elsewhere: time passes while threads could run
    int64_t d = (1 + pickn('J', 4000)) * MS;
    now_ += d;
    faultCount("clock-jump");
    logf("clock jumps %ldms", (long)(d / MS));
  }
  schedule(true, kind);
}

void blockOn(std::function<bool()> pred, const char *why, const void *on,
             int64_t deadline) {
  Thr *me = Cur;
  me->pred = std::move(pred);
  me->why = why;
  me->on = on;
  me->deadline = deadline;
  me->timedOut = false;
  me->st = Blocked;
  logf("waits for %s", why);
  schedule(false, 'b');
  me->pred = nullptr;
  me->deadline = -1;
  me->why = "";
}
void waitUntil(std::function<bool()> pred, const char *why, int64_t deadline) {
  InRt _;
  while (!pred()) {
    if (deadline >= 0 && now_ >= deadline)
      return;
    blockOn(pred, why, nullptr, deadline);
  }
}

// Preemption in straight-line code.
void planPreempt(Thr *t) {
  if (generating) {
    if (K.memPreempt <= 0) {
      t->nextPreempt = t->acc + 50000000; // only to notice endless loops
      return;
    }
    double mean = 1000.0 / K.memPreempt;
    uint64_t d = 1 + (uint64_t)(mean * 2 * rnd01());
    t->nextPreempt = t->acc + d;
  } else {
    // next recorded preemption of this thread
    uint64_t best = t->acc + 50000000;
    auto &m = (*replayMem)[t->id];
    auto it = std::upper_bound(m.begin(), m.end(), (uint32_t)t->acc);
    if (it != m.end() && *it < best)
      best = *it;
    t->nextPreempt = best;
  }
}
void memPreempt() {
  KeepErrno ke;
  Thr *t = Cur;
  InRt _;
  if (t->acc > 400000000ull)
    die("livelock", t->name + " computes without end at " +
                        stackText(t, t->depth > 0 && t->depth < 256
                                         ? t->pcs[t->depth - 1]
                                         : nullptr));
  bool real = generating ? K.memPreempt > 0
                         : replayDevs->count(mkKey(t->id, 'm', t->acc)) != 0;
  if (real) {
    record(mkKey(t->id, 'm', (uint32_t)t->acc), 1);
    logf("preempted at access %lu", (unsigned long)t->acc);
    t->nextPreempt = ~0ull;
    if (K.stall <= 0 || !stallHere('m'))
      schedule(true, 'm');
  }
  planPreempt(t);
}

// ------------------------------------------------------------------ threads
static int (*realCreate)(pthread_t *, const pthread_attr_t *,
                         void *(*)(void *), void *);

static void *threadMain(void *arg) {
  Thr *t = (Thr *)arg;
  stack_t ss{};
  static char *sig = nullptr;
  futexWait(&t->baton, 0);
  t->baton = 0;
  // we own the baton
  size_t n = 64 << 10;
  long alt = rawcall(SYS_mmap, 0, n, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_sp = (void *)alt;
  ss.ss_size = n;
  rawcall(SYS_sigaltstack, (long)&ss, 0);
  (void)sig;
  g_off = 1;
  planPreempt(t);
  try {
    g_off = 0;
    t->ret = t->fn();
    g_off = 1;
  } catch (...) {
    g_off = 1;
    std::string what = "unknown";
    try {
      throw;
    } catch (std::exception &e) {
      what = e.what();
    } catch (...) {
    }
    die("crash:uncaught-exception", t->name + " threw: " + what);
  }
  event("thread-done", t->id);
  logf("thread ends");
  t->vc.c[t->id]++;
  t->st = Done;
  schedule(false, 'd');
  for (;;)
    ;
}

static Thr *newThread(const std::string &name, std::function<void *()> fn) {
  if (nThr >= MaxThreads)
    die("simulator", "too many threads");
  Thr *t = new Thr();
  t->id = nThr;
  t->name = name;
  t->fn = std::move(fn);
  t->st = Runnable;
  if (Cur) {
    joinVC(t->vc, Cur->vc);
    Cur->vc.c[Cur->id]++;
  }
  t->vc.c[t->id] = 1;
  T[nThr++] = t;
  if (!realCreate)
    realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
  pthread_attr_t a;
  pthread_attr_init(&a);
  size_t sz;
  void *stk = stackFor(t->id, sz);
  pthread_attr_setstack(&a, stk, sz);
  pthread_t pt;
  int r = realCreate(&pt, &a, threadMain, t);
  if (r != 0)
    die("simulator", "pthread_create failed");
  t->real = (unsigned long)pt;
  event("thread", t->id);
  return t;
}

int spawn(const std::string &name, std::function<void()> fn) {
  InRt _;
  return newThread(name,
                   [fn]() -> void * {
                     fn();
                     return nullptr;
                   })
      ->id;
}

void join(int id) {
  InRt _;
  Thr *t = T[id];
  while (t->st != Done)
    blockOn([t] { return t->st == Done; }, "a thread to end", t);
  joinVC(Cur->vc, t->vc);
}

// ------------------------------------------------------------------- run
static void onTerminate() {
  ++g_off;
  std::string what = "std::terminate";
  if (auto *t = abi::__cxa_current_exception_type()) {
    int st;
    char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    what = std::string("uncaught ") + (d ? d : t->name());
    try {
      std::rethrow_exception(std::current_exception());
    } catch (std::exception &e) {
      what += std::string(": ") + e.what();
    } catch (...) {
    }
  }
  die("crash:uncaught-exception",
      (Cur ? Cur->name : std::string("?")) + ": " + what + " at " +
          (Cur ? stackText(Cur, Cur->depth > 0 && Cur->depth < 256
                                    ? Cur->pcs[Cur->depth - 1]
                                    : nullptr)
               : ""));
}
static void onSignal(int sig, siginfo_t *, void *uc) {
  ++g_off;
  void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  char cls[64];
  snprintf(cls, sizeof cls, "crash:%s",
           sig == SIGSEGV   ? "SIGSEGV"
           : sig == SIGABRT ? "SIGABRT"
           : sig == SIGBUS  ? "SIGBUS"
           : sig == SIGFPE  ? "SIGFPE"
                            : "SIGILL");
  if (g_child)
    fatalInChild(cls);
  die(cls, (Cur ? Cur->name : std::string("?")) + " at " +
               (Cur ? stackText(Cur, pc) : symText(pc)));
}
void installSignals() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  static int (*realSigaction)(int, const struct sigaction *,
                              struct sigaction *) =
      (decltype(realSigaction))dlsym(RTLD_NEXT, "sigaction");
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
    realSigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
}

void initProcess() {
  g_off = 1;
  ioInit();
}

[[noreturn]] void runPlan(const Plan &plan, std::function<void()> setup) {
  P = &plan;
  generating = !plan.replay;
  g_active = true;
  g_off = 1;
  Actors = new std::vector<std::shared_ptr<Actor>>();
  replayDevs = new std::unordered_map<uint64_t, uint32_t>();
  replayMem = (decltype(replayMem)) new std::vector<uint32_t>[MaxThreads];
  for (auto &d : plan.devs) {
    (*replayDevs)[d.first] = d.second;
    if (((d.first >> 32) & 0xff) == 'm' && d.first >> 40 < MaxThreads)
      (*replayMem)[d.first >> 40].push_back((uint32_t)d.first);
  }
  for (auto &m : *replayMem)
    std::sort(m.begin(), m.end());
  uint64_t s = plan.seed ^ 0x5bd1e995;
  rngS[0] = splitmix(s);
  rngS[1] = splitmix(s);
  memActivate();
  if (Verbose && plan.replay)
    enableHistory();
  installSignals();
  ioReset();
  if (generating) {
    for (int i = 0; i < 16; ++i)
      pctPoints[i] = 1 + rnd() % (K.pctLen ? K.pctLen : 1);
    if (K.strategy == 2) {
      starveEnt = rnd() % 3 == 0 ? MaxThreads + (int)(rnd() % 4)
                                 : (int)(rnd() % 8);
      starveFrom = rnd() % 3000;
      starveTo = starveFrom + 50 + rnd() % 3000;
    }
  } else if (K.strategy == 2) {
    starveEnt = 0; // same decision points as in the recorded run
  }
  setup();
  // hand the baton to the first thread; this thread never runs again
  if (nThr == 0)
    die("simulator", "no thread");
  Cur = T[0];
  lastEnt = 0;
  __atomic_store_n(&T[0]->baton, 1u, __ATOMIC_RELEASE);
  futexWake(&T[0]->baton);
  for (;;) {
    uint32_t z = 0;
    rawcall(SYS_futex, (long)&z, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
}

// ------------------------------------------------------- mutexes and friends
namespace {
struct Mx {
  int owner = -1;
  int rec = 0;
  VC vc{};
};
struct Cv {
  std::vector<int *> waiters; // each points at the waiter's flag
};
struct Rw {
  int writer = -1;
  int readers = 0;
  VC vc{};
};
std::unordered_map<const void *, Mx *> *mxs;
std::unordered_map<const void *, Cv *> *cvs;
std::unordered_map<const void *, Rw *> *rws;
struct Fw {
  const void *addr;
  bool woken;
  uint32_t bits;
};
std::vector<Fw *> *fws;
template <class M> auto &get(M *&m, const void *k) {
  if (!m)
    m = new M();
  auto &p = (*m)[k];
  if (!p)
    p = new std::remove_reference_t<decltype(*p)>();
  return *p;
}
int kindOf(pthread_mutex_t *m) { return m->__data.__kind & 3; }

int mutexLock(pthread_mutex_t *m, bool tryOnly, int64_t deadline) {
  if (g_child) {
    if (mxs) {
      auto it = mxs->find(m);
      if (it != mxs->end() && it->second->owner >= 0 &&
          it->second->owner != Cur->id)
        fatalInChild("child-deadlock");
    }
    return 0;
  }
  if (!sut())
    return 0;
  if (!tryOnly)
    yieldPoint('y');
  InRt _;
  Mx &x = get(mxs, m);
  if (x.owner == Cur->id) {
    if (kindOf(m) == PTHREAD_MUTEX_RECURSIVE) {
      x.rec++;
      return 0;
    }
    if (tryOnly)
      return EBUSY;
    if (kindOf(m) == PTHREAD_MUTEX_ERRORCHECK)
      return EDEADLK;
    die("deadlock", Cur->name + " locks a mutex it already holds at " +
                        stackText(Cur, Cur->depth > 0 && Cur->depth < 256
                                           ? Cur->pcs[Cur->depth - 1]
                                           : nullptr));
  }
  while (x.owner >= 0) {
    if (tryOnly)
      return EBUSY;
    if (deadline >= 0 && now_ >= deadline)
      return ETIMEDOUT;
    probe("mutex-contended");
    Mx *px = &x;
    blockOn([px] { return px->owner < 0; }, "a mutex", m, deadline);
  }
  x.owner = Cur->id;
  x.rec = 1;
  Cur->held++;
  joinVC(Cur->vc, x.vc);
  return 0;
}
int mutexUnlock(pthread_mutex_t *m, bool yield = true) {
  if (!sut())
    return 0;
  {
    InRt _;
    Mx &x = get(mxs, m);
    if (x.owner != Cur->id) {
      die("bad-unlock", Cur->name + " unlocks a mutex it does not hold at " +
                            stackText(Cur, Cur->depth > 0 && Cur->depth < 256
                                               ? Cur->pcs[Cur->depth - 1]
                                               : nullptr));
    }
    if (--x.rec > 0)
      return 0;
    x.owner = -1;
    Cur->held--;
    joinVC(x.vc, Cur->vc);
    Cur->vc.c[Cur->id]++;
  }
  if (yield)
    yieldPoint('y');
  return 0;
}
int64_t absToSim(const struct timespec *ts) {
  return ts->tv_sec * SEC + ts->tv_nsec - 1700000000ll * SEC;
}
int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  if (!sut())
    return 0;
  InRt _;
  Cv &v = get(cvs, c);
  Mx &x = get(mxs, m);
  int flag = 0;
  int rec = x.rec;
  x.owner = -1;
  x.rec = 0;
  Cur->held--;
  joinVC(x.vc, Cur->vc);
  Cur->vc.c[Cur->id]++;
  v.waiters.push_back(&flag);
  bool spur = K.spurious > 0 && flip('w', K.spurious);
  if (spur) {
    faultCount("spurious-wakeup");
    flag = 1;
  }
  int *pf = &flag;
  blockOn([pf] { return *pf != 0; }, "a condition variable", c, deadline);
  bool to = flag == 0;
  auto &w = v.waiters;
  w.erase(std::remove(w.begin(), w.end(), &flag), w.end());
  Mx *px = &x;
  while (x.owner >= 0)
    blockOn([px] { return px->owner < 0; }, "a mutex", m, -1);
  x.owner = Cur->id;
  x.rec = rec;
  Cur->held++;
  joinVC(Cur->vc, x.vc);
  return to ? ETIMEDOUT : 0;
}
void condWake(pthread_cond_t *c, bool all) {
  if (!sut())
    return;
  {
    InRt _;
    Cv &v = get(cvs, c);
    while (!v.waiters.empty()) {
      int i = all ? 0 : pickn('c', (int)v.waiters.size());
      *v.waiters[i] = 1;
      v.waiters.erase(v.waiters.begin() + i);
      if (!all)
        break;
    }
  }
  yieldPoint('y');
}
} // namespace
} // namespace rt

using namespace rt;

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr,
                   void *(*fn)(void *), void *arg) {
  if (!sut()) {
    if (!realCreate)
      realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
    return realCreate(out, attr, fn, arg);
  }
  Thr *t;
  {
    InRt _;
    char nm[16];
    snprintf(nm, sizeof nm, "T%d", nThr);
    t = newThread(nm, [fn, arg] { return fn(arg); });
    *out = (pthread_t)t->real;
    int st = 0;
    if (attr && pthread_attr_getdetachstate(attr, &st) == 0 &&
        st == PTHREAD_CREATE_DETACHED)
      t->detached = true;
    logf("creates thread %s", nm);
  }
  yieldPoint('y');
  return 0;
}
static Thr *thrOf(pthread_t p) {
  for (int i = 0; i < nThr; ++i)
    if (T[i]->real == (unsigned long)p)
      return T[i];
  return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
  if (!sut())
    return 0;
  yieldPoint('y');
  InRt _;
  Thr *t = thrOf(p);
  if (!t || t->detached || t->joined)
    return EINVAL;
  if (t == Cur)
    return EDEADLK;
  while (t->st != Done)
    blockOn([t] { return t->st == Done; }, "a thread to end", t);
  t->joined = true;
  joinVC(Cur->vc, t->vc);
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!sut())
    return 0;
  InRt _;
  Thr *t = thrOf(p);
  if (!t)
    return ESRCH;
  t->detached = true;
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  int kind = 0;
  if (a)
    pthread_mutexattr_gettype(a, &kind);
  memset(m, 0, sizeof *m);
  m->__data.__kind = kind;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (sut()) {
    InRt _;
    if (mxs) {
      auto it = mxs->find(m);
      if (it != mxs->end()) {
        if (it->second->owner >= 0)
          return EBUSY;
        mxs->erase(it);
      }
    }
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (sut())
    accessRange(m, 0, false);
  return mutexLock(m, false, -1);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (sut())
    yieldPoint('y');
  return mutexLock(m, true, -1);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  return mutexLock(m, false, absToSim(ts));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t,
                            const struct timespec *ts) {
  return mutexLock(m, false, absToSim(ts));
}
int pthread_mutex_unlock(pthread_mutex_t *m) { return mutexUnlock(m); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (sut()) {
    InRt _;
    if (cvs)
      cvs->erase(c);
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const struct timespec *ts) {
  return condWait(c, m, absToSim(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t,
                           const struct timespec *ts) {
  return condWait(c, m, absToSim(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  condWake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  condWake(c, true);
  return 0;
}

static int rwLock(pthread_rwlock_t *l, bool w, bool tryOnly) {
  if (!sut())
    return 0;
  yieldPoint('y');
  InRt _;
  Rw *x = &get(rws, l);
  auto ok = [x, w] { return x->writer < 0 && (!w || x->readers == 0); };
  while (!ok()) {
    if (tryOnly)
      return EBUSY;
    blockOn(ok, w ? "a lock for writing" : "a lock for reading", l);
  }
  if (w)
    x->writer = Cur->id;
  else
    x->readers++;
  joinVC(Cur->vc, x->vc);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rwLock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rwLock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  return rwLock(l, false, true);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  return rwLock(l, true, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!sut())
    return 0;
  {
    InRt _;
    Rw &x = get(rws, l);
    if (x.writer == Cur->id)
      x.writer = -1;
    else if (x.readers > 0)
      x.readers--;
    joinVC(x.vc, Cur->vc);
    Cur->vc.c[Cur->id]++;
  }
  yieldPoint('y');
  return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!sut()) {
    if (*o == 0) {
      *o = 1;
      fn();
      *o = 2;
    }
    return 0;
  }
  {
    InRt _;
    while (*o == 1)
      blockOn([o] { return *o != 1; }, "a one-time initialisation", o);
    acquireVC(Cur, o);
    if (*o == 2)
      return 0;
    *o = 1;
  }
  try {
    fn();
  } catch (...) {
    *o = 0;
    throw;
  }
  InRt _;
  releaseVC(Cur, o);
  *o = 2;
  return 0;
}

// function-local statics
int __cxa_guard_acquire(long long *g) {
  unsigned char *b = (unsigned char *)g;
  if (!sut()) {
    if (b[0])
      return 0;
    b[1] = 1;
    return 1;
  }
  InRt _;
  while (b[1] && !b[0])
    blockOn([b] { return !b[1] || b[0]; }, "a static initialisation", g);
  acquireVC(Cur, g);
  if (b[0])
    return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long *g) {
  unsigned char *b = (unsigned char *)g;
  if (sut()) {
    InRt _;
    releaseVC(Cur, g);
  }
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(long long *g) { ((unsigned char *)g)[1] = 0; }

// semaphores
int sem_init(sem_t *s, int, unsigned v) {
  *(unsigned *)s = v;
  return 0;
}
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s) {
  if (sut()) {
    InRt _;
    releaseVC(Cur, s);
  }
  ++*(unsigned *)s;
  if (sut())
    yieldPoint('y');
  return 0;
}
static int semWait(sem_t *s, bool tryOnly, int64_t deadline) {
  unsigned *v = (unsigned *)s;
  if (!sut())
    return 0;
  yieldPoint('y');
  InRt _;
  while (*v == 0) {
    if (tryOnly) {
      errno = EAGAIN;
      return -1;
    }
    if (deadline >= 0 && now_ >= deadline) {
      errno = ETIMEDOUT;
      return -1;
    }
    blockOn([v] { return *v != 0; }, "a semaphore", s, deadline);
  }
  --*v;
  acquireVC(Cur, s);
  return 0;
}
int sem_wait(sem_t *s) { return semWait(s, false, -1); }
int sem_trywait(sem_t *s) { return semWait(s, true, -1); }
int sem_timedwait(sem_t *s, const struct timespec *ts) {
  return semWait(s, false, absToSim(ts));
}
int sem_clockwait(sem_t *s, clockid_t, const struct timespec *ts) {
  return semWait(s, false, absToSim(ts));
}

int sched_yield(void) {
  if (sut())
    yieldPoint('y');
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && (sut() || g_active)) {
    if (!sut())
      return 0;
    uint32_t *addr = (uint32_t *)a;
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      yieldPoint('y');
      InRt _;
      if (!fws)
        fws = new std::vector<Fw *>();
      if (__atomic_load_n(addr, 5) != (uint32_t)c) {
        errno = EAGAIN;
        return -1;
      }
      int64_t dl = -1;
      if (d) {
        auto *ts = (struct timespec *)d;
        dl = op == FUTEX_WAIT ? now_ + ts->tv_sec * SEC + ts->tv_nsec
                              : absToSim(ts);
      }
      if (K.eintr > 0 && fault("futex-eintr", K.eintr)) {
        errno = EINTR;
        return -1;
      }
      Fw w{addr, false, op == FUTEX_WAIT ? ~0u : (uint32_t)f};
      fws->push_back(&w);
      Fw *pw = &w;
      blockOn([pw] { return pw->woken; }, "a semaphore or atomic", addr, dl);
      fws->erase(std::remove(fws->begin(), fws->end(), &w), fws->end());
      if (!w.woken) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long cnt = 0;
      {
        InRt _;
        if (fws)
          for (auto *w : *fws)
            if (w->addr == addr && !w->woken && cnt < (int)c) {
              w->woken = true;
              cnt++;
            }
      }
      yieldPoint('y');
      return cnt;
    }
    errno = ENOSYS;
    return -1;
  }
  long r = rawcall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
} // extern C
