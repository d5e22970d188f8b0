// The simulator's runtime: scheduler, clock, choices, faults, processes,
// descriptors, memory oracle. See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- entities
constexpr int MaxThreads = 64; // entity ids 0..63 threads, 64.. actors
constexpr int MaxEnts = 256;
constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;

/// A simulated party: editor, worker, formatter, peer, file-system mutator.
struct Actor {
  int id = -1;
  std::string name;
  virtual ~Actor() = default;
  /// Can do something at the current simulated time?
  virtual bool ready() = 0;
  virtual void step() = 0;
  /// Next time at which ready() may become true by itself (-1: none).
  virtual int64_t wake() { return -1; }
};
int addActor(std::shared_ptr<Actor> A);

// ---------------------------------------------------------------- choices
/// Returns 0 (the default) with probability 1-p, else 1..n-1 uniformly.
int choose(char kind, int n, double p);
/// Uniform in 0..n-1 (0 is the default used when minimised away).
inline int pickn(char kind, int n) {
  return n <= 1 ? 0 : choose(kind, n, 1.0 - 1.0 / n);
}
inline bool flip(char kind, double p) { return choose(kind, 2, p) != 0; }
/// As flip, for a named fault; counted in the evidence when it fires.
bool fault(const char *name, double p);
void faultCount(const char *name, int n = 1);
/// Rare conditions worth knowing were reached.
void probe(const char *name);

// ---------------------------------------------------------------- pipes
struct Pipe {
  int id;
  std::string buf;
  size_t cap = 65536;
  int readers = 0, writers = 0;
  bool sock = false; // end of file shows as POLLIN, like a socket
  uint64_t total = 0;
};
struct File { // open file description
  enum Kind { R, W, Null, Sink } kind;
  Pipe *pipe = nullptr;
  int refs = 0;
  int id = 0;
  bool nonblock = false;
  std::string *sink = nullptr; // Sink: where the bytes go
};
struct FdEnt {
  File *f = nullptr;
  bool cloexec = false;
};
struct Proc {
  int pid = 0;
  std::string name;
  std::vector<FdEnt> fds;
  std::vector<std::string> argv;
  bool execed = false;
  bool alive = true;  // running
  bool zombie = false; // dead, not reaped
  bool reaped = false;
  int status = 0; // wait(2) status
  bool sigpipeIgnored = false;
  int actor = -1;
  int forkedBy = -1;
  int64_t tFork = 0;
};
Pipe *newPipe();
File *newFile(File::Kind k, Pipe *p);
void fileRef(File *f);
void fileUnref(File *f);
/// Puts f at the lowest free descriptor >= min of process p.
int fdInstall(Proc &p, File *f, int min = 0, bool cloexec = false);
Proc &self();                       // the simulated nixd process
Proc *procByPid(int pid);
std::vector<Proc *> &procs();       // children spawned so far
/// A child stops: closes its descriptors, becomes a zombie.
void procExit(Proc &p, int status);

// ---------------------------------------------------------------- the run
struct Knobs {
  int strategy = 0;     // 0 random, 1 pct, 2 starve
  double pswitch = 0.1; // random: preemption probability per yield point
  int pctDepth = 3;
  int pctLen = 2000;
  double memPreempt = 0; // expected preemptions per 1000 instrumented accesses
  double eintr = 0;      // per interruptible call
  double shortio = 0;    // per read/write: transfer fewer bytes
  double spurious = 0;   // condition variable wake-ups without a signal
  double jump = 0;       // clock jumps while threads are runnable
  double stall = 0;      // a thread stands still, most often with a lock held
  int ncpu = 4;
  bool sigchldIgnored = false; // dead children are reaped at once
  double pipefail = 0, forkfail = 0;
};
extern Knobs K;

/// One run's plan: everything needed to repeat it.
struct Plan {
  std::string scenario;
  uint64_t seed = 0;
  std::vector<std::pair<std::string, std::string>> knobs;
  std::vector<std::string> ops;
  std::vector<std::pair<uint64_t, uint32_t>> devs;
  bool replay = false;
  std::string expect; // class of the violation recorded in a replay file
  std::string get(const std::string &k, const std::string &d = "") const;
  int64_t geti(const std::string &k, int64_t d = 0) const;
  double getd(const std::string &k, double d = 0) const;
  void set(const std::string &k, const std::string &v);
  void set(const std::string &k, int64_t v) { set(k, std::to_string(v)); }
  void setd(const std::string &k, double v);
};

/// Reports a violation and ends the run.
[[noreturn]] void violate(const std::string &cls, const std::string &msg);
/// Ends the run as passed (called by the scenario's judge).
[[noreturn]] void finish();
int64_t now();
int curEnt();
uint64_t steps();
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// Mixed into the run's event hash.
void event(const char *what, uint64_t a = 0, uint64_t b = 0);
extern bool Verbose;

/// Starts a simulated thread running code under test.
int spawn(const std::string &name, std::function<void()> fn);
bool threadDone(int id);
void join(int id);
int liveThreads();
/// What the code under test has allocated and not freed; also the number of
/// blocks by size / 8 (the last one: all larger).
size_t liveHeap(std::vector<size_t> *bySize = nullptr);
std::string blockedReport();
/// The running thread and its call stack.
std::string here();
/// Called by code running in a simulated thread to let others run.
void yieldPoint(char kind = 'y');
/// Blocks the calling simulated thread until pred() holds.
void waitUntil(std::function<bool()> pred, const char *why,
               int64_t deadline = -1);

/// Code between these belongs to the simulator, not to the system under test.
struct InRt {
  InRt();
  ~InRt();
};
/// Code under test called back from simulator code.
struct InSut {
  int saved;
  InSut();
  ~InSut();
};

/// Hooks of the running scenario.
struct Hooks {
  std::function<void(Proc &)> onExec;       // child executed: create its actor
  std::function<void(Proc &)> onNoExec;     // child ended before executing
  std::function<int(Proc &)> execErrno;     // 0: exec succeeds
  std::function<void()> onIdle;             // nothing can ever happen again
  std::function<void()> onStep;             // after every scheduling step
  std::function<void(int)> onExit;          // the system called exit(code)
  std::function<bool(int)> pidAlive;        // pids that are not children
  bool pidForeign = false;                  // they belong to another user
  int64_t timeCap = 3600 * SEC;
  std::function<void()> onTimeCap;
  uint64_t stepCap = 3000000;
};
extern Hooks H;

// file system seen by stat/lstat/readlink/realpath
struct FsHooks {
  bool on = false;
  // returns errno or 0; mode gets S_IF*
  std::function<int(const std::string &, bool follow, unsigned &mode)> stat;
  std::function<int(const std::string &, std::string &target)> readlink;
};
extern FsHooks FS;

// ---------------------------------------------------------------- results
constexpr int MaxDevs = 1 << 20;
struct Shared {
  volatile int done;      // 0 running, 1 passed, 2 violation
  char cls[128];
  char msg[8192];
  uint64_t hash, schedHash, steps, switches, accesses;
  int64_t simTime;
  int nthreads, nprocs, ndevs;
  int nfaults, nprobes;
  char faultName[64][32];
  int faultCnt[64];
  char probeName[96][40];
  int probeCnt[96];
  char note[4096];
  uint64_t devKey[MaxDevs];
  uint32_t devVal[MaxDevs];
};
extern Shared *Sh;

/// Runs the plan in the calling process and never returns.
[[noreturn]] void runPlan(const Plan &P, std::function<void()> setup);
void initProcess(); // once, at driver start

} // namespace rt
