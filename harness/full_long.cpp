// C31: long sessions. The same round of work again and again; what is held
// after a round must not grow.
#include "full_mix.h"
#include <algorithm>
#include <array>

using namespace fw;
using namespace rt;

namespace {
struct Mark {
  size_t bytes;
  std::vector<size_t> bySize;
  int fds, threads, procs;
};
struct C31 {
  std::vector<Mark> marks;
};
C31 *S31;
constexpr int Warm = 8; // rounds in which caches fill

void genC31(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("wdelay", G.range(0, 1));
  P.set("capConfig", 1);
  // each thread of the pool keeps some blocks for reuse; these fill slowly
  P.set("ncpu", G.range(1, 2));
  int rounds = 40, fresh = G.chance(0.4);
  int nd = (int)G.range(1, 2);
  P.set("docs", fresh ? nd * rounds : nd);
  P.set("rounds", rounds);
  // a round: open, work, close
  std::vector<std::string> body; // D0 D1 stand for the round's documents
  int64_t ver = 1;
  std::vector<bool> open(nd, false);
  auto spec = [&] {
    static const char *k = "gwum";
    return std::string(1, k[G.range(0, 2)]) + n2s(G.range(1, 99999));
  };
  int n = (int)G.range(2, 7);
  for (int i = 0; i < n; ++i) {
    int d = (int)G.range(0, nd - 1);
    std::string D = "D" + n2s(d);
    if (!open[d]) {
      open[d] = true;
      body.push_back("open " + D + " " + spec() + " " + n2s(ver++));
    }
    double x = G.unit();
    if (x < 0.2)
      body.push_back("change " + D + " " + spec() + " " + n2s(ver++) + " " +
                     n2s(G.range(0, 9999)));
    else if (x < 0.25) {
      body.push_back("bad " + D + " " + n2s(ver++) + " " +
                     n2s(G.range(0, 9999)));
      body.push_back("close " + D);
      open[d] = false;
    } else if (x < 0.35)
      body.push_back("conf " + genHow(G, 0.3) + " fmt=" + genFmt(G) +
                     (G.chance(0.5) ? " opt=nixos:e" + n2s(i) : "") +
                     (G.chance(0.5) ? " pkgs=p" + n2s(i) : "") +
                     (G.chance(0.3) ? " sup=sema-extra-with" : ""));
    else if (x < 0.45)
      body.push_back("req format " + D + " 0");
    else if (x < 0.5)
      body.push_back("badreq " + n2s(G.range(0, 9999)));
    else if (x < 0.8)
      body.push_back("req " + G.pick(evalKinds()) + " " + D + " " +
                     n2s(G.range(0, 99999)));
    else
      body.push_back("req " + G.pick(localKinds()) + " " + D + " " +
                     n2s(G.range(0, 99999)));
    if (G.chance(0.1))
      body.push_back("sync");
  }
  for (int d = 0; d < nd; ++d)
    if (open[d])
      body.push_back("close D" + n2s(d));
  P.ops = {"init"};
  if (G.chance(0.2)) // a worker that is missing from then on
    P.ops.push_back("wkill " + n2s(G.range(0, 1)));
  for (int r = 0; r < rounds; ++r) {
    for (auto o : body) {
      size_t p = o.find(" D");
      if (p != o.npos && isdigit((unsigned char)o[p + 2])) {
        size_t e = o.find(' ', p + 1);
        if (e == o.npos)
          e = o.size();
        int d = atoi(o.c_str() + p + 2) + (fresh ? r * nd : 0);
        o = o.substr(0, p + 1) + n2s(d) + o.substr(e);
      }
      P.ops.push_back(o);
    }
    P.ops.push_back("rest");
  }
  static const std::vector<std::string> e = {"end shutdown", "end eof"};
  P.ops.push_back(G.pick(e));
}
void judge() {
  auto &m = S31->marks;
  size_t n = m.size();
  if ((int)n < Warm + 8)
    return;
  struct Q {
    size_t lo = SIZE_MAX, hi = 0;
  };
  // the rounds after the warm-up in quarters
  auto quarters = [&](auto f) {
    std::array<Q, 4> q;
    for (size_t i = Warm; i < n; ++i) {
      Q &x = q[(i - Warm) * 4 / (n - Warm)];
      x.lo = std::min(x.lo, (size_t)f(m[i]));
      x.hi = std::max(x.hi, (size_t)f(m[i]));
    }
    return q;
  };
  auto text = [](const std::array<Q, 4> &q) {
    std::string s;
    for (auto &x : q)
      s += (s.empty() ? "" : ", ") + n2s((int64_t)x.lo) + ".." +
           n2s((int64_t)x.hi);
    return s;
  };
  auto q = quarters([](Mark &x) { return x.bytes; });
  logf("bytes held after the rounds of each quarter: %s", text(q).c_str());
  // steady growth, not a cache that still fills
  if (q[1].lo > q[0].hi + 128 && q[2].lo > q[1].hi + 128 &&
      q[3].lo > q[2].hi + 128 && q[3].lo > q[0].hi + 1536) {
    std::string s;
    const Mark &x = m[Warm], &y = m[n - 1];
    for (size_t i = 0; i < x.bySize.size(); ++i)
      if (x.bySize[i] != y.bySize[i])
        s += " " + n2s((int64_t)y.bySize[i] - (int64_t)x.bySize[i]) + "x" +
             (i == 512 ? "large" : n2s((int64_t)i * 8));
    violate("memory-grows",
            "the same work again and again, all documents closed after each "
            "round, and more and more memory is held; bytes after the rounds "
            "of each quarter: " +
                text(q) + "; more or less blocks:" + s);
  }
  auto same = [&](const char *what, auto f) {
    auto q = quarters(f);
    if (q[1].lo > q[0].hi && q[2].lo > q[1].hi && q[3].lo > q[2].hi)
      violate("accumulates",
              std::string("more and more ") + what + ": " + text(q));
  };
  same("descriptors", [](Mark &x) { return x.fds; });
  same("threads", [](Mark &x) { return x.threads; });
  same("child processes", [](Mark &x) { return x.procs; });
  probe("held-the-same");
}
void setupC31(const Plan &P) {
  S31 = new C31();
  setupMix(P);
  W->onSettled = [] {
    Mark k;
    k.bytes = liveHeap(&k.bySize);
    k.fds = k.procs = 0;
    for (auto &f : self().fds)
      k.fds += f.f != nullptr;
    for (auto *p : procs())
      k.procs += p->alive || !p->reaped;
    k.threads = liveThreads();
    S31->marks.push_back(std::move(k));
    if ((int)S31->marks.size() == W->P.geti("rounds"))
      judge();
  };
}
Register rC31("C31", genC31, setupC31);
} // namespace
