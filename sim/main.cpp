// Driver: generates plans from seeds, runs each in a forked child, replays and
// minimises.
#include "rt_int.h"
#include "scenario.h"
#include <algorithm>
#include <locale>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <poll.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace rt {
std::vector<Scenario> &scenarios() {
  static std::vector<Scenario> v;
  return v;
}
std::string Plan::get(const std::string &k, const std::string &d) const {
  for (auto &x : knobs)
    if (x.first == k)
      return x.second;
  return d;
}
int64_t Plan::geti(const std::string &k, int64_t d) const {
  std::string s = get(k);
  return s.empty() ? d : strtoll(s.c_str(), nullptr, 10);
}
double Plan::getd(const std::string &k, double d) const {
  std::string s = get(k);
  return s.empty() ? d : strtod(s.c_str(), nullptr);
}
void Plan::set(const std::string &k, const std::string &v) {
  for (auto &x : knobs)
    if (x.first == k) {
      x.second = v;
      return;
    }
  knobs.push_back({k, v});
}
void Plan::setd(const std::string &k, double v) {
  char b[40];
  snprintf(b, sizeof b, "%.6g", v);
  set(k, std::string(b));
}
std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  std::string w;
  while (is >> w)
    r.push_back(w);
  return r;
}
std::string hexEnc(const std::string &s) {
  static const char *h = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s) {
    r += h[c >> 4];
    r += h[c & 15];
  }
  return r;
}
std::string hexDec(const std::string &s) {
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2)
    r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return r;
}

void genKnobs(Plan &P, Gen &G) {
  int r = (int)G.range(0, 9);
  int strat = r < 5 ? 0 : r < 8 ? 1 : 2;
  P.set("strategy", strat);
  static const std::vector<double> ps = {0.02, 0.1, 0.3, 0.6};
  P.setd("pswitch", G.pick(ps));
  P.set("pctDepth", G.range(1, 6));
  static const std::vector<int> lens = {100, 400, 1500, 5000};
  P.set("pctLen", G.pick(lens));
  if (G.chance(0.35)) {
    static const std::vector<double> mp = {0.05, 0.3, 2};
    P.setd("memPreempt", G.pick(mp));
  }
  if (G.chance(0.35))
    P.setd("eintr", G.chance(0.5) ? 0.02 : 0.15);
  if (G.chance(0.4))
    P.setd("shortio", G.chance(0.5) ? 0.1 : 0.7);
  if (G.chance(0.25))
    P.setd("spurious", 0.1);
  if (G.chance(0.15))
    P.setd("jump", 0.005);
  if (G.chance(0.25))
    P.setd("stall", G.chance(0.5) ? 0.02 : 0.2);
  static const std::vector<int> cpus = {1, 1, 2, 4, 8};
  P.set("ncpu", G.pick(cpus));
  P.set("sigchldIgnored", G.chance(0.2));
}
static void applyKnobs(const Plan &P) {
  K = Knobs();
  K.strategy = (int)P.geti("strategy", 0);
  K.pswitch = P.getd("pswitch", 0.1);
  K.pctDepth = (int)P.geti("pctDepth", 3);
  K.pctLen = (int)P.geti("pctLen", 2000);
  K.memPreempt = P.getd("memPreempt", 0);
  K.eintr = P.getd("eintr", 0);
  K.shortio = P.getd("shortio", 0);
  K.spurious = P.getd("spurious", 0);
  K.jump = P.getd("jump", 0);
  K.stall = P.getd("stall", 0);
  K.ncpu = (int)P.geti("ncpu", 4);
  K.sigchldIgnored = P.geti("sigchldIgnored", 0);
  K.pipefail = P.getd("pipefail", 0);
  K.forkfail = P.getd("forkfail", 0);
}

static std::string planText(const Plan &P, const std::string &comment = "") {
  std::ostringstream o;
  std::istringstream c(comment);
  std::string l;
  while (std::getline(c, l))
    o << "# " << l << "\n";
  o << "scenario " << P.scenario << "\nseed " << P.seed << "\n";
  if (!P.expect.empty())
    o << "expect " << P.expect << "\n";
  for (auto &k : P.knobs)
    o << "knob " << k.first << " " << k.second << "\n";
  for (auto &s : P.ops)
    o << "op " << s << "\n";
  for (auto &d : P.devs)
    o << "dev " << (d.first >> 40) << " " << (char)((d.first >> 32) & 0xff)
      << " " << (d.first & 0xffffffff) << " " << d.second << "\n";
  return o.str();
}
static bool parsePlan(const std::string &path, Plan &P) {
  std::ifstream f(path);
  if (!f)
    return false;
  std::string l;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#')
      continue;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == l.npos ? "" : l.substr(sp + 1);
    if (k == "scenario")
      P.scenario = v;
    else if (k == "seed")
      P.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "expect")
      P.expect = v;
    else if (k == "knob") {
      size_t s = v.find(' ');
      P.set(v.substr(0, s), s == v.npos ? "" : v.substr(s + 1));
    } else if (k == "op")
      P.ops.push_back(v);
    else if (k == "dev") {
      auto w = words(v);
      if (w.size() == 4)
        P.devs.push_back({(strtoull(w[0].c_str(), nullptr, 10) << 40) |
                              ((uint64_t)(unsigned char)w[1][0] << 32) |
                              strtoull(w[2].c_str(), nullptr, 10),
                          (uint32_t)strtoul(w[3].c_str(), nullptr, 10)});
    }
  }
  P.replay = true;
  return true;
}

static const Scenario *find(const std::string &n) {
  for (auto &s : scenarios())
    if (s.name == n)
      return &s;
  return nullptr;
}

struct Result {
  bool ok = false; // run completed (passed or violation)
  bool violation = false;
  std::string cls, msg;
  uint64_t hash = 0, schedHash = 0;
};
static double wall() {
  struct timespec ts;
  rawcall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Blob {
  uint64_t n;
  char d[(64 << 20) - 8];
};
static Blob *TheBlob;
void setBlob(const std::string &s) {
  if (s.size() > sizeof TheBlob->d)
    violate("simulator", "blob too large");
  memcpy(TheBlob->d, s.data(), s.size());
  TheBlob->n = s.size();
}
static Result runOnce(const Plan &P, double limit = 120) {
  Result R;
  const Scenario *S = find(P.scenario);
  if (!S) {
    R.cls = "simulator";
    R.msg = "unknown scenario " + P.scenario;
    return R;
  }
  if (S->prepare &&
      !S->prepare(P, [&](const Plan &Q, std::string &out) {
        bool v = Verbose;
        Verbose = Q.geti("verbose");
        TheBlob->n = 0;
        R = runOnce(Q, limit);
        Verbose = v;
        out.assign(TheBlob->d, TheBlob->n);
        return R.ok && !R.violation;
      })) {
    if (R.cls.empty()) {
      R.cls = "simulator";
      R.msg = "preparing the run failed";
    } else
      R.msg = "while preparing (" + P.scenario + "): " + R.msg;
    return R;
  }
  R = Result();
  // only the small leading part needs clearing
  memset((void *)Sh, 0, offsetof(Shared, devKey));
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    applyKnobs(P);
    runPlan(P, [S, &P] { S->setup(P); });
  }
  int pfd = (int)rawcall(434 /*pidfd_open*/, pid, 0);
  int st = 0;
  bool hung = false;
  if (pfd >= 0) {
    struct pollfd p = {pfd, POLLIN, 0};
    double end = wall() + limit;
    int r;
    do {
      int left = (int)((end - wall()) * 1000);
      r = left <= 0 ? 0 : poll(&p, 1, left);
    } while (r < 0);
    if (r == 0)
      hung = true;
    close(pfd);
  }
  if (hung)
    kill(-pid, SIGKILL), kill(pid, SIGKILL);
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  R.hash = Sh->hash;
  R.schedHash = Sh->schedHash;
  if (hung) {
    R.ok = R.violation = true;
    R.cls = "hang:real";
    R.msg = "the run did not end in real time";
  } else if (Sh->done == 1) {
    R.ok = true;
  } else if (Sh->done == 2) {
    R.ok = R.violation = true;
    R.cls = Sh->cls;
    R.msg = Sh->msg;
  } else {
    R.ok = R.violation = true;
    R.cls = "crash:killed";
    R.msg = "the run's process ended with wait status " + std::to_string(st);
  }
  if (R.cls.rfind("simulator", 0) == 0)
    R.ok = false;
  return R;
}
static void takeDevs(Plan &P) {
  P.devs.clear();
  for (int i = 0; i < Sh->ndevs; ++i)
    P.devs.push_back({Sh->devKey[i], Sh->devVal[i]});
}

static Plan generate(const std::string &sc, uint64_t seed,
                     const std::vector<std::pair<std::string, std::string>> &o) {
  Plan P;
  P.scenario = sc;
  P.seed = seed;
  for (auto &x : o)
    P.set(x.first, x.second);
  Gen G(seed);
  const Scenario *S = find(sc);
  if (S)
    S->gen(P, G);
  for (auto &x : o)
    P.set(x.first, x.second);
  return P;
}

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

template <class V, class F>
static void ddmin(V &items, F test, double end) {
  size_t n = 2;
  // try dropping everything first
  if (!items.empty()) {
    V none;
    if (test(none)) {
      items = none;
      return;
    }
  }
  while (items.size() >= 1 && wall() < end) {
    size_t chunk = std::max<size_t>(1, items.size() / n);
    bool reduced = false;
    for (size_t i = 0; i < items.size() && wall() < end;) {
      V t(items.begin(), items.begin() + i);
      size_t j = std::min(items.size(), i + chunk);
      t.insert(t.end(), items.begin() + j, items.end());
      if (test(t)) {
        items = t;
        reduced = true;
      } else
        i = j;
    }
    if (chunk == 1 && !reduced)
      break;
    n = reduced ? std::max<size_t>(2, n) : std::min(items.size(), n * 2);
    if (n < 2)
      n = 2;
  }
}

/// The hash of the execution which another process replays from a file.
static bool otherProcess(const std::string &path, uint64_t &hash) {
  int p[2];
  if (pipe(p))
    return false;
  pid_t pid = fork();
  if (pid == 0) {
    const char *args[] = {"sim", "replay", path.c_str(), nullptr};
    rawcall(SYS_dup2, p[1], 1);
    rawcall(SYS_execve, (long)"/proc/self/exe", (long)args, (long)environ);
    rawExit(127);
  }
  close(p[1]);
  std::string s;
  char b[4096];
  for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;)
    s.append(b, n);
  close(p[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  size_t at = s.find("\"hash\":\"");
  if (at == s.npos)
    return false;
  hash = strtoull(s.c_str() + at + 8, nullptr, 16);
  return true;
}

static bool shrink(Plan &P, double secs, std::string &msg) {
  std::string want = P.expect;
  double end = wall() + secs;
  auto check = [&](const Plan &Q) {
    Result r = runOnce(Q, 30);
    return r.ok && r.violation && r.cls == want;
  };
  P.replay = true;
  if (!check(P))
    return false;
  for (int round = 0; round < 4 && wall() < end; ++round) {
    size_t before = P.ops.size() + P.devs.size();
    ddmin(P.ops,
          [&](const std::vector<std::string> &o) {
            Plan Q = P;
            Q.ops = o;
            return check(Q);
          },
          end);
    ddmin(P.devs,
          [&](const std::vector<std::pair<uint64_t, uint32_t>> &d) {
            Plan Q = P;
            Q.devs = d;
            return check(Q);
          },
          end);
    if (P.ops.size() + P.devs.size() == before)
      break;
  }
  // keep only the deviations that really happen
  Result r = runOnce(P, 60);
  if (!(r.ok && r.violation && r.cls == want))
    return false;
  msg = r.msg;
  return true;
}
} // namespace rt

using namespace rt;

static int usage() {
  fprintf(stderr, "usage: list | batch SCENARIO SEED0 STRIDE MAX SECS OUT "
                  "REPLAYDIR [k=v...] | replay FILE [-v] | shrink IN OUT SECS "
                  "| plan SCENARIO SEED [k=v..] | run SCENARIO SEED [-v] [k=v]\n");
  return 64;
}

int main(int argc, char **argv) {
  { // tables libstdc++ fills when they are first used: not in one run only
    auto &c = std::use_facet<std::ctype<char>>(std::locale());
    char from[2] = {'a', 'b'}, to[2];
    c.widen('a');
    c.widen(from, from + 2, to);
    c.narrow('a', '?');
    c.narrow(from, from + 2, '?', to);
    std::ostringstream o;
    o << 1 << ' ' << 1.5 << std::endl;
    std::istringstream n("1 1.5\n");
    int a;
    double b;
    std::string l;
    n >> a >> b;
    std::getline(n, l);
  }
  g_off = 1;
  if (!getenv("SIM_NOASLR")) {
    personality(ADDR_NO_RANDOMIZE);
    clearenv();
    setenv("SIM_NOASLR", "1", 1);
    setenv("PATH", "/usr/bin:/bin", 1);
    execv("/proc/self/exe", argv);
  }
  unsetenv("SIM_NOASLR");
  Sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  TheBlob = (Blob *)mmap(nullptr, sizeof(Blob), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  initProcess();
  if (argc < 2)
    return usage();
  std::string mode = argv[1];
  auto opts = [&](int from) {
    std::vector<std::pair<std::string, std::string>> o;
    for (int i = from; i < argc; ++i)
      if (char *e = strchr(argv[i], '='))
        o.push_back({std::string(argv[i], e - argv[i]), e + 1});
    return o;
  };
  if (mode == "list") {
    for (auto &s : scenarios())
      printf("%s\n", s.name.c_str());
    return 0;
  }
  if (mode == "plan" && argc >= 4) {
    Plan P = generate(argv[2], strtoull(argv[3], nullptr, 10), opts(4));
    printf("%s", planText(P).c_str());
    return 0;
  }
  if (mode == "run" && argc >= 4) {
    Plan P = generate(argv[2], strtoull(argv[3], nullptr, 10), opts(4));
    for (int i = 4; i < argc; ++i)
      Verbose |= !strcmp(argv[i], "-v");
    Result r = runOnce(P);
    printf("ok=%d violation=%d cls=%s hash=%016" PRIx64 " sched=%016" PRIx64
           " steps=%" PRIu64 " sw=%" PRIu64 " acc=%" PRIu64
           " sim=%.3fs threads=%d procs=%d\n%s\n",
           r.ok, r.violation, r.cls.c_str(), r.hash, r.schedHash, Sh->steps,
           Sh->switches, Sh->accesses, Sh->simTime / 1e9, Sh->nthreads,
           Sh->nprocs, r.msg.c_str());
    for (int i = 0; i < Sh->nfaults; ++i)
      printf("fault %s %d\n", Sh->faultName[i], Sh->faultCnt[i]);
    for (int i = 0; i < Sh->nprobes; ++i)
      printf("probe %s %d\n", Sh->probeName[i], Sh->probeCnt[i]);
    return r.violation;
  }
  if (mode == "replay" && argc >= 3) {
    Plan P;
    if (!parsePlan(argv[2], P))
      return usage();
    for (int i = 3; i < argc; ++i)
      Verbose |= !strcmp(argv[i], "-v");
    Result r = runOnce(P);
    printf("{\"ok\":%s,\"violation\":%s,\"class\":%s,\"expect\":%s,"
           "\"hash\":\"%016" PRIx64 "\",\"message\":%s}\n",
           r.ok ? "true" : "false", r.violation ? "true" : "false",
           js(r.cls).c_str(), js(P.expect).c_str(), r.hash, js(r.msg).c_str());
    return r.ok && r.violation && (P.expect.empty() || r.cls == P.expect) ? 1
                                                                         : 0;
  }
  if (mode == "shrink" && argc >= 5) {
    Plan P;
    if (!parsePlan(argv[2], P))
      return usage();
    std::string msg;
    if (!shrink(P, atof(argv[4]), msg)) {
      fprintf(stderr, "does not reproduce\n");
      return 3;
    }
    std::ofstream(argv[3]) << planText(P, P.expect + "\n" + msg);
    return 0;
  }
  if (mode == "batch" && argc >= 9) {
    std::string sc = argv[2];
    uint64_t seed0 = strtoull(argv[3], nullptr, 10),
             stride = strtoull(argv[4], nullptr, 10);
    uint64_t max = strtoull(argv[5], nullptr, 10);
    double secs = atof(argv[6]);
    std::string out = argv[7], dir = argv[8];
    auto o = opts(9);
    if (!find(sc))
      return usage();
    double t0 = wall();
    uint64_t runs = 0, steps = 0, sw = 0, acc = 0, nontrivial = 0;
    double sim = 0;
    std::map<std::string, uint64_t> faults, probes, runsWithFault;
    std::set<uint64_t> hashes, scheds;
    std::vector<std::string> viol, samples;
    std::map<std::string, int> seen;
    uint64_t nviol = 0;
    std::string err;
    int detChecks = 0, detBad = 0;
    std::string detNote;
    for (uint64_t i = 0; i < max && wall() - t0 < secs; ++i) {
      uint64_t seed = seed0 + i * stride;
      Plan P = generate(sc, seed, o);
      Result r = runOnce(P);
      runs++;
      steps += Sh->steps;
      sw += Sh->switches;
      acc += Sh->accesses;
      sim += Sh->simTime / 1e9;
      int nf = 0;
      for (int k = 0; k < Sh->nfaults; ++k) {
        faults[Sh->faultName[k]] += Sh->faultCnt[k];
        runsWithFault[Sh->faultName[k]]++;
        nf += Sh->faultCnt[k];
      }
      for (int k = 0; k < Sh->nprobes; ++k)
        probes[Sh->probeName[k]] += Sh->probeCnt[k];
      scheds.insert(r.schedHash);
      if (hashes.insert(r.hash).second && (Sh->switches > 2 || nf))
        nontrivial++;
      if (samples.size() < 3 && i % 7 == 2) {
        char b[300];
        snprintf(b, sizeof b,
                 "seed %" PRIu64 ": %zu operations, %" PRIu64
                 " scheduling steps, %" PRIu64
                 " thread switches, %d injected faults, %.3f simulated s, "
                 "event hash %016" PRIx64 "; first operations: ",
                 seed, P.ops.size(), Sh->steps, Sh->switches, nf,
                 Sh->simTime / 1e9, r.hash);
        std::string s = b;
        for (size_t k = 0; k < P.ops.size() && k < 6; ++k)
          s += (k ? " | " : "") + P.ops[k].substr(0, 60);
        samples.push_back(s);
      }
      if (!r.ok) {
        err = r.cls + ": " + r.msg + " (seed " + std::to_string(seed) + ")";
        break;
      }
      if (r.violation) {
        nviol++;
        if (seen[r.cls]++ < 1 && viol.size() < 6) {
          Plan Q = P;
          Q.expect = r.cls;
          takeDevs(Q);
          std::string path =
              dir + "/" + sc + "-" + std::to_string(seed) + ".plan";
          std::ofstream(path) << planText(Q, r.cls + "\n" + r.msg);
          char b[64];
          snprintf(b, sizeof b, "%016" PRIx64, r.hash);
          viol.push_back("{\"seed\":" + std::to_string(seed) +
                         ",\"class\":" + js(r.cls) + ",\"message\":" +
                         js(r.msg) + ",\"plan\":" + js(path) +
                         ",\"steps\":" + std::to_string(Sh->steps) +
                         ",\"hash\":\"" + b + "\"}");
          if (viol.size() >= 4)
            break;
        }
        if (nviol >= 20)
          break;
      } else if (i % 64 == 5) { // determinism: same seed again
        Result q = runOnce(P);
        detChecks++;
        if (q.hash != r.hash || q.schedHash != r.schedHash ||
            q.violation != r.violation) {
          detBad++;
          detNote = "the same seed gave two different executions (seed " +
                    std::to_string(seed) + ")";
          if (detBad > 2) {
            err = detNote;
            break;
          }
          continue;
        }
        // and the recorded choices in a process of their own
        Plan Q = P;
        takeDevs(Q);
        std::string path = dir + "/det-" + std::to_string(seed) + ".plan";
        std::ofstream(path) << planText(Q);
        uint64_t h = 0;
        if (!otherProcess(path, h)) {
          err = "cannot replay in another process";
          break;
        }
        if (h != r.hash) {
          detBad++;
          detNote = "a replay gave another execution (seed " +
                    std::to_string(seed) + ")";
          if (detBad > 2) {
            err = detNote;
            break;
          }
          continue;
        }
        unlink(path.c_str());
      }
    }
    std::ofstream f(out);
    f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << sw
      << ",\"accesses\":" << acc << ",\"simTime\":" << sim
      << ",\"wall\":" << wall() - t0 << ",\"nontrivial\":" << nontrivial
      << ",\"violationRuns\":" << nviol << ",\"detChecks\":" << detChecks
      << ",\"detBad\":" << detBad << ",\"detNote\":" << js(detNote) << ",\"error\":" << js(err)
      << ",\"faults\":{";
    bool first = true;
    for (auto &x : faults)
      f << (first ? "" : ",") << js(x.first) << ":" << x.second, first = false;
    f << "},\"runsWithFault\":{";
    first = true;
    for (auto &x : runsWithFault)
      f << (first ? "" : ",") << js(x.first) << ":" << x.second, first = false;
    f << "},\"probes\":{";
    first = true;
    for (auto &x : probes)
      f << (first ? "" : ",") << js(x.first) << ":" << x.second, first = false;
    f << "},\"violations\":[";
    for (size_t i = 0; i < viol.size(); ++i)
      f << (i ? "," : "") << viol[i];
    f << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
      f << (i ? "," : "") << js(samples[i]);
    f << "],\"hashes\":[";
    first = true;
    char b[32];
    for (auto h : hashes) {
      snprintf(b, sizeof b, "\"%" PRIx64 "\"", h);
      f << (first ? "" : ",") << b, first = false;
    }
    f << "],\"scheds\":[";
    first = true;
    for (auto h : scheds) {
      snprintf(b, sizeof b, "\"%" PRIx64 "\"", h);
      f << (first ? "" : ",") << b, first = false;
    }
    f << "]}\n";
    return 0;
  }
  return usage();
}
