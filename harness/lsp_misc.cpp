// C02: outgoing frames. C06: document store. C07: logging. C08: children.
#include "common.h"
#include "lsp_if.h"
#include <cmath>
#include <unordered_set>

using namespace hs;
namespace {
int64_t num(const std::vector<std::string> &w, size_t i) {
  return i < w.size() ? atoll(w[i].c_str()) : 0;
}
using Script = std::map<int, std::vector<std::vector<std::string>>>;
Script script(const Plan &P) {
  Script s;
  for (auto &op : P.ops) {
    auto w = words(op);
    s[(int)num(w, 1)].push_back(w);
  }
  return s;
}
/// Runs one simulated thread per script and then the judge, all from "main".
void runThreads(Script *sc,
                std::function<void(int, const std::vector<std::string> &)> op,
                std::function<void()> before, std::function<void()> after) {
  spawn("main", [=] {
    before();
    std::vector<int> ids;
    {
      InRt _;
      for (auto &[k, v] : *sc) {
        int kk = k;
        ids.push_back(spawn("t" + std::to_string(k), [=] {
          for (size_t i = 0;; ++i) {
            const std::vector<std::string> *w;
            {
              InRt _;
              auto &l = (*sc)[kk];
              if (i >= l.size())
                break;
              w = &l[i];
              if ((*w)[0] == "wait") {
                int64_t t = now() + num(*w, 2) * MS;
                waitUntil([t] { return now() >= t; }, "its next step", t);
                continue;
              }
            }
            op(kk, *w);
          }
        }));
      }
    }
    for (int i : ids)
      join(i);
    after();
    finish();
  });
}
void common(const Plan &P) {
  setFd(self(), 1, newFile(File::Sink, nullptr));
  setFd(self(), 2, newFile(File::Sink, nullptr));
  self().sigpipeIgnored = true;
  H.stepCap = 600000;
  H.timeCap = 3600 * SEC;
  H.onExit = [](int c) {
    violate("crash:exit", "exit(" + std::to_string(c) + ")");
  };
  H.onIdle = [] {
    violate("stuck", "nothing can happen any more: " + blockedReport());
  };
}
std::string n2s(int64_t v) { return std::to_string(v); }

// ---------------------------------------------------------------- a reader
struct Drain {
  Receiver in;
  std::string got;
  int64_t until = 0;
  std::function<void()> onData;
  void start(int fd, const Plan &P) {
    Pipe *p = serverWrites(fd);
    p->cap = P.geti("cap", 65536);
    in.open(p);
    in.chop = P.getd("chop", 0.5);
    auto a = std::make_shared<FnActor>();
    a->name = "reader";
    a->readyFn = [this] { return in.canRead() && now() >= until; };
    a->wakeFn = [this]() -> int64_t { return in.canRead() ? until : -1; };
    a->stepFn = [this] {
      got += in.readSome();
      if (onData)
        onData();
      if (in.chop > 0 && flip('t', 0.05)) {
        until = now() + (1 + pickn('T', 5)) * 700 * MS;
        faultCount("stalled-reader");
      }
    };
    addActor(a);
  }
  void drained() {
    waitUntil([this] { return !in.canRead(); }, "the reader", -1);
  }
};

// ------------------------------------------------------------------- C02
struct C02 {
  struct Port {
    Drain d;
    FrameParser fp;
    size_t seen = 0, total = 0;
    std::map<int, std::vector<int>> order; // by thread
    std::map<int, size_t> next;
    int same = 0, sameBegun = 0;
  };
  int nports = 1;
  Port port[2];
  bool pretty = false;
  Script sc;
  std::map<std::pair<int, int>, std::pair<int, std::string>> sent; // kind, json
  std::set<std::pair<int, int>> begun;
};
C02 *S2;
void c02Frame(C02::Port &port, const std::string &body) {
  bool bad;
  auto v = parseJson(body, &bad);
  auto *o = v.getAsObject();
  if (bad || !o || o->getString("jsonrpc") != llvm::StringRef("2.0"))
    violate("bad-frame", "a frame is not a JSON-RPC message: " +
                             body.substr(0, 300));
  if (o->getString("method") == llvm::StringRef("m/same")) {
    if (o->size() != 3 || dump(*o->get("params")) != "{\"same\":true}")
      violate("wrong-frame", "wrong repeated message: " + body.substr(0, 300));
    if (++port.same > port.sameBegun)
      violate("wrong-frame", "a frame never sent: " + body.substr(0, 300));
    return;
  }
  std::string name;
  int kind;
  json::Value *p = nullptr;
  if (auto m = o->getString("method")) {
    name = m->str();
    kind = o->get("id") ? 1 : 0;
    p = o->get("params");
    if (kind == 1 && o->getString("id") != llvm::StringRef(name))
      violate("wrong-frame", "wrong id: " + body.substr(0, 300));
  } else {
    name = o->getString("id").value_or("").str();
    kind = o->get("error") ? 3 : 2;
    p = kind == 3 ? o->get("error") : o->get("result");
  }
  int t = -1, n = -1;
  sscanf(name.c_str(), "m/%d/%d", &t, &n);
  auto it = S2->sent.find({t, n});
  if (it == S2->sent.end() || !S2->begun.count({t, n}))
    violate("wrong-frame", "a frame never sent: " + body.substr(0, 300));
  auto &ord = port.order[t];
  size_t &next = port.next[t];
  if (next >= ord.size() || ord[next] != n)
    violate("frame-order",
            "thread " + n2s(t) + " sent message " +
                (next < ord.size() ? n2s(ord[next]) : std::string("none")) +
                " next, but message " + n2s(n) + " arrived");
  next++;
  json::Value want = nullptr;
  if (kind == 3)
    want = json::Object{{"code", -32603}, {"message", "oops " + name}};
  else
    want =
        json::Object{{"t", t}, {"n", n}, {"p", parseJson(it->second.second)}};
  if (it->second.first != kind || !p || dump(*p) != dump(want))
    violate("wrong-frame", "message " + name + " arrived as " +
                               body.substr(0, 500) + " instead of " +
                               dump(want).substr(0, 500));
  event("frame", t, n);
}
/// What the parameters of a message carry. Sizes from -1 down ask for a whole
/// frame body of about that many KiB, give or take a byte.
std::string c02Body(int kind, int t, int n, uint64_t seed, int fill) {
  if (fill >= 0)
    return dump(genValue(seed, fill));
  size_t want = (size_t)-fill * 1024 + seed % 3 - 1;
  std::string name = "m/" + n2s(t) + "/" + n2s(n);
  json::Object o{{"jsonrpc", "2.0"}};
  json::Value p = json::Object{{"t", t}, {"n", n}, {"p", ""}};
  if (kind == 2) {
    o["id"] = name;
    o["result"] = std::move(p);
  } else {
    o["method"] = name;
    o["params"] = std::move(p);
    if (kind == 1)
      o["id"] = name;
  }
  size_t have = dump(std::move(o)).size();
  return dump(json::Value(std::string(want > have ? want - have : 0, 'z')));
}
void c02Setup(const Plan &P) {
  S2 = new C02();
  common(P);
  S2->sc = script(P);
  S2->nports = P.geti("ports", 1) == 2 ? 2 : 1;
  for (auto &[k, l] : S2->sc) {
    int n = 0;
    for (auto &w : l)
      if (w[0] == "send") {
        S2->sent[{k, n}] = {(int)num(w, 2),
                            c02Body((int)num(w, 2), k, n, num(w, 3),
                                    (int)num(w, 4))};
        int pt = (int)num(w, 5) % S2->nports;
        w.resize(5);
        w.push_back(n2s(pt));
        w.push_back(n2s(n));
        S2->port[pt].order[k].push_back(n++);
        S2->port[pt].total++;
      } else if (w[0] == "same") {
        S2->port[num(w, 2) % S2->nports].total++;
      }
  }
  for (int i = 0; i < S2->nports; ++i) {
    C02::Port *p = &S2->port[i];
    p->d.start(4 + i, P);
    p->d.onData = [p] {
      p->fp.feed(p->d.got);
      p->d.got.clear();
      if (p->fp.bad)
        violate("bad-frame", p->fp.why);
      while (p->seen < p->fp.bodies.size())
        c02Frame(*p, p->fp.bodies[p->seen++]);
    };
  }
  bool pretty = P.geti("pretty");
  int nports = S2->nports;
  runThreads(
      &S2->sc,
      [](int k, const std::vector<std::string> &w) {
        int kind, n, pt;
        std::string body;
        {
          InRt _;
          if (w[0] == "same") {
            pt = (int)num(w, 2) % S2->nports;
            S2->port[pt].sameBegun++;
            kind = 4;
            n = 0;
          } else {
            kind = (int)num(w, 2);
            pt = (int)num(w, 5);
            n = (int)num(w, 6);
            body = S2->sent[{k, n}].second;
            S2->begun.insert({k, n});
          }
        }
        sut::send(pt, kind, k, n, body);
      },
      [pretty, nports] {
        for (int i = 0; i < nports; ++i)
          sut::mkPort(i, 4 + i, pretty);
      },
      [nports] {
        for (int i = 0; i < nports; ++i) {
          S2->port[i].d.drained();
          InRt _;
          if (S2->port[i].seen != S2->port[i].total)
            violate("lost-frame",
                    n2s(S2->port[i].total - S2->port[i].seen) +
                        " messages were not written when their sending "
                        "returned");
        }
        for (int i = 0; i < nports; ++i) {
          sut::destroyPort(i);
          S2->port[i].d.drained();
          InRt _;
          if (S2->port[i].fp.rest())
            violate("bad-frame", "an incomplete frame was left: " +
                                     S2->port[i].fp.buf.substr(0, 200));
          if (S2->port[i].seen != S2->port[i].total)
            violate("lost-frame",
                    "frames were lost or added after the senders had ended");
        }
        InRt _;
        probe("all-arrived");
      });
}
void peerKnobs(Plan &P, Gen &G) {
  static const std::vector<int> caps = {16, 512, 4096, 65536};
  P.set("cap", G.chance(0.4) ? G.pick(caps) : 65536);
  static const std::vector<double> chops = {0, 0.3, 0.8};
  P.setd("chop", G.pick(chops));
}
void c02Gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  peerKnobs(P, G);
  P.set("pretty", G.chance(0.2));
  int t = (int)G.range(1, 4);
  int ports = G.chance(0.3) ? 2 : 1;
  P.set("ports", ports);
  bool same = G.chance(0.2);
  for (int k = 0; k < t; ++k) {
    int n = (int)G.range(1, 6);
    for (int i = 0; i < n; ++i) {
      if (G.chance(0.1))
        P.ops.push_back("wait " + n2s(k) + " " + n2s(G.range(1, 500)));
      if (same && G.chance(0.4)) {
        P.ops.push_back("same " + n2s(k) + " " + n2s(G.range(0, ports - 1)));
        continue;
      }
      static const std::vector<int> round = {-1, -2, -4, -8, -16, -32, -64};
      int fill = G.chance(0.6) ? (int)G.range(0, 40)
                 : G.chance(0.6) ? (int)G.range(40, 2000)
                 : G.chance(0.5) ? G.pick(round)
                                 : (int)G.range(4000, 70000);
      P.ops.push_back("send " + n2s(k) + " " + n2s(G.range(0, 3)) + " " +
                      n2s(G.range(1, 1000000)) + " " + n2s(fill) + " " +
                      n2s(G.range(0, ports - 1)));
    }
  }
}
Register r2("C02", c02Gen, c02Setup);

// ------------------------------------------------------------------- C07
struct C07 {
  Drain d;
  Script sc;
  int min = 0;
  std::map<int, std::vector<std::pair<int, std::string>>> lines;
  std::map<int, size_t> next, begun;
};
C07 *S7;
void c07Judge() {
  std::string s = S7->d.got;
  size_t p = 0;
  while (p < s.size()) {
    std::string near = s.substr(p, 120);
    // L[hh:mm:ss.mmm] pid: message\n
    char lv = s[p];
    size_t e = s.find(": T", p);
    int h = -1, m = -1, sec = -1, ms = -1, pid = -1, t = -1, n = -1;
    int used = 0;
    if (e == s.npos || sscanf(s.c_str() + p, "%*c[%d:%d:%d.%d] %d: T%d#%d %n",
                              &h, &m, &sec, &ms, &pid, &t, &n, &used) != 7)
      violate("bad-line", "not a whole log line at: " + near);
    size_t msg = e + 2;
    auto it = S7->lines.find(t);
    if (it == S7->lines.end() || n < 0 || n >= (int)it->second.size() ||
        n >= (int)S7->begun[t])
      violate("bad-line", "a line never logged: " + near);
    const auto &[level, text] = it->second[n];
    if (s.compare(msg, text.size() + 1, text + "\n") != 0)
      violate("bad-line", "a line is not what was logged: " +
                              s.substr(msg, text.size() + 20) +
                              " instead of " + text);
    if (level < S7->min)
      violate("level", "a line below the level was written: " + near);
    if (lv != "DVIE"[level])
      violate("level", "wrong level tag: " + near);
    while (S7->next[t] < it->second.size() &&
           it->second[S7->next[t]].first < S7->min)
      S7->next[t]++;
    if ((int)S7->next[t] != n)
      violate("line-order", "thread " + n2s(t) + ": line " + n2s(n) +
                                " appears where line " + n2s(S7->next[t]) +
                                " belongs");
    S7->next[t]++;
    p = msg + text.size() + 1;
  }
  for (auto &[t, l] : S7->lines)
    for (size_t i = S7->next[t]; i < l.size(); ++i)
      if (l[i].first >= S7->min)
        violate("lost-line", "thread " + n2s(t) + ": line " + n2s(i) +
                                 " was never written");
  probe("all-lines");
}
void c07Setup(const Plan &P) {
  S7 = new C07();
  common(P);
  S7->sc = script(P);
  for (auto &[k, l] : S7->sc) {
    int n = 0;
    for (auto &w : l)
      if (w[0] == "log") {
        S7->lines[k].push_back(
            {(int)num(w, 2), "T" + n2s(k) + "#" + n2s(n) + " " +
                                 genText(num(w, 3), (int)num(w, 4))});
        w.push_back(n2s(n++));
      }
  }
  S7->min = (int)P.geti("min", 0);
  S7->d.start(2, P);
  bool buffered = P.geti("buffered");
  runThreads(
      &S7->sc,
      [](int k, const std::vector<std::string> &w) {
        int level, n;
        std::string text;
        {
          InRt _;
          level = (int)num(w, 2);
          n = (int)num(w, w.size() - 1);
          text = S7->lines[k][n].second;
          S7->begun[k] = n + 1;
        }
        sut::logLine(level, text);
      },
      [buffered] { sut::mkLogger(2, S7->min, buffered); },
      [] {
        // a line is there when logging it returned
        S7->d.drained();
        size_t n;
        {
          InRt _;
          c07Judge();
          n = S7->d.got.size();
        }
        sut::destroyLogger();
        S7->d.drained();
        InRt _;
        if (S7->d.got.size() != n)
          violate("bad-line", "something was written although nothing was "
                              "logged: " +
                                  S7->d.got.substr(n, 120));
      });
}
void c07Gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  peerKnobs(P, G);
  P.set("min", G.range(0, 3));
  P.set("buffered", G.chance(0.3));
  int t = (int)G.range(1, 5);
  for (int k = 0; k < t; ++k) {
    int n = (int)G.range(1, 8);
    for (int i = 0; i < n; ++i)
      P.ops.push_back("log " + n2s(k) + " " + n2s(G.range(0, 3)) + " " +
                      n2s(G.range(1, 100000)) + " " +
                      n2s(G.chance(0.1)    ? G.range(500, 6000)
                          : G.chance(0.03) ? G.range(6000, 70000)
                                           : G.range(0, 40)));
  }
}
Register r7("C07", c07Gen, c07Setup);

// ------------------------------------------------------------------- C06
struct Op {
  std::string kind, file, version, contents; // inputs
  std::string out;                           // output
  uint64_t start = 0, end = 0;
  int thread = 0;
};
struct C06 {
  Script sc;
  std::vector<Op> hist;
  uint64_t clock = 0;
  int keep = 0;
  std::map<int, std::string> kept, keptVfs;
};
C06 *S6;
const std::vector<std::string> files = {"/d/a.nix", "/d/b.nix", "/d/sub/c.nix",
                                        "/d/A.nix"};
const std::string allFiles = "/d/a.nix /d/b.nix /d/sub/c.nix /d/A.nix";

std::string incr(const std::string &s) {
  std::string r = s;
  int i = (int)r.size() - 1;
  while (i >= 0 && r[i] == '9')
    r[i--] = '0';
  if (i < 0 || !isdigit((unsigned char)r[i]))
    return r.substr(0, i + 1) + "1" + r.substr(i + 1);
  r[i]++;
  return r;
}
bool isNum(const std::string &s) {
  return !s.empty() && s.find_first_not_of("0123456789") == s.npos;
}
using Model = std::map<std::string, std::pair<std::string, std::string>>;
/// Applies op; false if the observed output is impossible.
bool apply(Model &m, const Op &o) {
  if (o.kind == "add") {
    auto it = m.find(o.file);
    std::string v = o.version;
    if (v.empty()) {
      if (it == m.end() || it->second.first.empty()) {
        if (!isNum(o.out))
          return false;
        v = o.out;
      } else
        v = incr(it->second.first);
    }
    if (o.out != v)
      return false;
    m[o.file] = {v, o.contents};
    return true;
  }
  if (o.kind == "get") {
    auto it = m.find(o.file);
    if (it == m.end())
      return o.out == "-";
    return o.out == it->second.first + ":" + it->second.second;
  }
  if (o.kind == "del") {
    m.erase(o.file);
    return true;
  }
  if (o.kind == "list") {
    std::string s;
    for (auto &[f, v] : m)
      s += f + " ";
    return s == o.out;
  }
  if (o.kind == "vfs") {
    json::Object j;
    for (auto &[f, v] : m)
      j[f] = v.second;
    return dump(std::move(j)) == o.out;
  }
  return true;
}
std::string key(const Model &m) {
  std::string s;
  for (auto &[f, v] : m)
    s += f + "=" + v.first + ":" + v.second + ";";
  return s;
}
bool linearizable(const std::vector<Op> &h, uint64_t mask, Model &m,
                  std::unordered_set<std::string> &dead) {
  if (mask == (1ull << h.size()) - 1)
    return true;
  std::string k = n2s((int64_t)mask) + "|" + key(m);
  if (dead.count(k))
    return false;
  uint64_t firstEnd = ~0ull;
  for (size_t i = 0; i < h.size(); ++i)
    if (!(mask >> i & 1))
      firstEnd = std::min(firstEnd, h[i].end);
  for (size_t i = 0; i < h.size(); ++i) {
    if (mask >> i & 1 || h[i].start > firstEnd)
      continue;
    Model n = m;
    if (apply(n, h[i]) && linearizable(h, mask | 1ull << i, n, dead))
      return true;
  }
  dead.insert(k);
  return false;
}
void c06Op(int k, const std::vector<std::string> &w) {
  Op o;
  int keep = 0;
  size_t slot;
  {
    InRt _;
    o.kind = w[0];
    o.thread = k;
    o.file = files[num(w, 2) % files.size()];
    if (o.kind == "add") {
      o.version = w[3] == "-" ? "" : w[3];
      o.contents = genText(num(w, 4), (int)num(w, 5));
    }
    o.start = ++S6->clock;
    o.end = ~0ull;
    keep = ++S6->keep;
    slot = S6->hist.size();
    S6->hist.push_back(o);
  }
  std::string out;
  if (o.kind == "add")
    out = sut::draftAdd(o.file, o.version, o.contents);
  else if (o.kind == "get") {
    auto d = sut::draftGet(o.file, keep);
    out = d.present ? d.version + ":" + d.contents : "-";
  } else if (o.kind == "del")
    sut::draftRemove(o.file);
  else if (o.kind == "list")
    out = sut::draftList();
  else if (o.kind == "vfs")
    out = sut::draftVfs(keep, allFiles);
  else if (o.kind == "recheck") {
    // earlier snapshots are still what they were
    std::vector<int> ks, vs;
    {
      InRt _;
      for (auto &[i, s] : S6->kept)
        ks.push_back(i);
      for (auto &[i, s] : S6->keptVfs)
        vs.push_back(i);
    }
    for (int i : ks) {
      std::string s = sut::draftKept(i);
      InRt _;
      if (s != S6->kept[i])
        violate("snapshot-changed", "a snapshot changed from " +
                                        S6->kept[i].substr(0, 200) + " to " +
                                        s.substr(0, 200));
    }
    for (int i : vs) {
      std::string s = sut::draftVfsKept(i, allFiles);
      InRt _;
      if (s != S6->keptVfs[i])
        violate("snapshot-changed", "a file system snapshot changed from " +
                                        S6->keptVfs[i].substr(0, 200) + " to " +
                                        s.substr(0, 200));
    }
  }
  InRt _;
  S6->hist[slot].out = out;
  S6->hist[slot].end = ++S6->clock;
  if (o.kind == "get")
    S6->kept[keep] = out;
  if (o.kind == "vfs")
    S6->keptVfs[keep] = out;
  event("op", slot);
  logf("%s %s -> %s", o.kind.c_str(), o.file.c_str(),
       out.substr(0, 100).c_str());
}
void c06Setup(const Plan &P) {
  S6 = new C06();
  common(P);
  S6->sc = script(P);
  runThreads(&S6->sc, c06Op, [] { sut::mkStore(); },
             [] {
               // the store may go before its snapshots do
               sut::destroyStore();
               c06Op(0, {"recheck"});
               InRt _;
               std::vector<Op> h;
               for (auto &o : S6->hist)
                 if (o.kind != "recheck")
                   h.push_back(o);
               Model m;
               std::unordered_set<std::string> dead;
               if (!linearizable(h, 0, m, dead)) {
                 std::string s;
                 for (auto &o : h)
                   s += "\n  [" + n2s(o.start) + "," + n2s(o.end) + "] t" +
                        n2s(o.thread) + " " + o.kind + " " + o.file + " v=" +
                        o.version + " c=" + o.contents.substr(0, 30) + " -> " +
                        o.out.substr(0, 200);
                 violate("not-linearizable",
                         "no order of the operations explains:" + s);
               }
               probe("linearizable");
             });
}
void c06Gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  int t = (int)G.range(1, 4);
  int total = (int)G.range(3, 14);
  int nf = G.chance(0.4) ? 1 : 4;
  bool alike = G.chance(0.4); // the same contents again and again
  std::vector<int> ver(8, 0);
  for (int i = 0; i < total; ++i) {
    int k = (int)G.range(0, t - 1);
    int q = (int)G.range(0, 19);
    std::string f = n2s(G.range(0, nf - 1));
    if (q < 8) {
      std::string v = "-";
      if (G.chance(0.5)) {
        static const std::vector<std::string> vs = {
            "1",  "2",   "7",  "9",    "19",     "99",
            "999", "42", "v9", "r1.9", "2026-99", "9223372036854775807"};
        v = G.pick(vs);
      }
      P.ops.push_back("add " + n2s(k) + " " + f + " " + v + " " +
                      (alike ? n2s(G.range(1, 2)) + " 7"
                             : n2s(G.range(1, 100000)) + " " +
                                   n2s(G.chance(0.1) ? 3000 : G.range(0, 12))));
    } else if (q < 12)
      P.ops.push_back("get " + n2s(k) + " " + f);
    else if (q < 14)
      P.ops.push_back("del " + n2s(k) + " " + f);
    else if (q < 16)
      P.ops.push_back("list " + n2s(k) + " 0");
    else if (q < 18)
      P.ops.push_back("vfs " + n2s(k) + " 0");
    else
      P.ops.push_back("recheck " + n2s(k) + " 0");
  }
}
Register r6("C06", c06Gen, c06Setup);

// ------------------------------------------------------------------- C08
struct Child : Actor {
  Proc *p = nullptr;
  std::string prog;
  Receiver in;
  Sender out, err;
  bool gone = false, sawEof = false;
  uint64_t got = 0;
  bool ready() override {
    if (gone)
      return false;
    return in.canRead() || in.eof() || out.canSend() || err.canSend() ||
           prog == "crash";
  }
  void exitNow(int status) {
    gone = true;
    in.close();
    out.close();
    err.close();
    logf("child %d ends", p->pid);
    procExit(*p, status);
  }
  void step() override {
    if (prog == "crash")
      return exitNow(11);
    if (out.canSend())
      return out.sendSome();
    if (err.canSend())
      return err.sendSome();
    if (in.canRead()) {
      got += in.readSome().size();
      return;
    }
    if (in.eof()) {
      sawEof = true;
      exitNow(0);
    }
  }
};
struct C08 {
  Script sc;
  struct Slot {
    sut::Spawned s;
    File *in = nullptr, *out = nullptr, *err = nullptr;
    bool live = false;
  };
  std::map<int, Slot> slots;
  std::vector<std::shared_ptr<Child>> kids;
  int fdsAtStart = 0;
  std::set<int> startFds;
  int spawned = 0, failed = 0;
};
C08 *S8;
File *fileAt(int fd) {
  auto &f = self().fds;
  return fd >= 0 && fd < (int)f.size() ? f[fd].f : nullptr;
}
std::set<int> openFds() {
  std::set<int> s;
  for (size_t i = 0; i < self().fds.size(); ++i)
    if (self().fds[i].f)
      s.insert((int)i);
  return s;
}
void checkSlot(int k) {
  C08::Slot &s = S8->slots[k];
  if (!s.live)
    return;
  if (fileAt(s.s.in) != s.in || fileAt(s.s.out) != s.out ||
      fileAt(s.s.err) != s.err)
    violate("descriptor-stolen",
            "a descriptor of a live child object (pid " + n2s(s.s.pid) +
                ") was closed by someone else");
}
void c08Exec(Proc &p) {
  // what the child holds when its program starts
  auto c = std::make_shared<Child>();
  c->p = &p;
  c->name = "child" + n2s(p.pid);
  c->prog = p.name.find("crash") != std::string::npos   ? "crash"
            : p.name.find("chatty") != std::string::npos ? "chatty"
                                                          : "cat";
  File *f[3];
  for (int i = 0; i < 3; ++i) {
    f[i] = i < (int)p.fds.size() ? p.fds[i].f : nullptr;
    if (!f[i] || f[i]->kind != (i == 0 ? File::R : File::W))
      violate("bad-stream", "stream " + n2s(i) + " of a child is not the " +
                                (i == 0 ? "reading" : "writing") +
                                " end of a pipe");
  }
  if (f[0]->pipe == f[1]->pipe || f[0]->pipe == f[2]->pipe ||
      f[1]->pipe == f[2]->pipe)
    violate("bad-stream", "two streams of a child are the same pipe");
  for (size_t i = 3; i < p.fds.size(); ++i)
    if (p.fds[i].f && !S8->startFds.count((int)i))
      violate("leaked-to-child", "the program of a child starts with "
                                 "descriptor " + n2s(i) + " open");
  c->in.open(f[0]->pipe);
  c->out.open(f[1]->pipe);
  c->err.open(f[2]->pipe);
  // the actor now holds the ends itself
  for (size_t i = 0; i < p.fds.size(); ++i)
    if (p.fds[i].f) {
      fileUnref(p.fds[i].f);
      p.fds[i].f = nullptr;
    }
  if (c->prog == "chatty") {
    c->out.q = std::string(100, 'o');
    c->err.q = std::string(100, 'e');
  }
  S8->kids.push_back(c);
  addActor(c);
  event("exec", p.pid);
}
void c08Setup(const Plan &P) {
  S8 = new C08();
  common(P);
  setFd(self(), 0, newFile(File::Null, nullptr));
  S8->sc = script(P);
  S8->startFds = openFds();
  H.onExec = c08Exec;
  bool noprog = P.geti("noprog");
  H.execErrno = [noprog](Proc &p) {
    if (noprog) {
      faultCount("exec-enoent");
      return ENOENT;
    }
    return 0;
  };
  H.onStep = [] {
    for (auto &[k, s] : S8->slots)
      checkSlot(k);
  };
  runThreads(
      &S8->sc,
      [](int k, const std::vector<std::string> &w) {
        std::string what, prog;
        int slot, how;
        {
          InRt _;
          what = w[0];
          slot = k * 100 + (int)num(w, 2);
          how = (int)num(w, 3);
          static const char *progs[] = {"cat", "crash", "chatty"};
          prog = progs[num(w, 4) % 3];
          if (what != "spawn" && !S8->slots[slot].live)
            return;
          if (what == "drop")
            S8->slots[slot].live = false;
        }
        if (what == "spawn") {
          sut::Spawned s = sut::spawnChild(slot, how, prog);
          InRt _;
          C08::Slot &x = S8->slots[slot];
          x.s = s;
          if (!s.ok) {
            S8->failed++;
            probe("spawn-failed");
            if (s.error.empty())
              violate("no-error", "a failed spawn reported no error");
            return;
          }
          S8->spawned++;
          x.in = fileAt(s.in);
          x.out = fileAt(s.out);
          x.err = fileAt(s.err);
          if (!x.in || x.in->kind != File::W)
            violate("bad-stream", "the parent's stdin descriptor is not the "
                                  "writing end of a pipe");
          if (!x.out || x.out->kind != File::R || !x.err ||
              x.err->kind != File::R)
            violate("bad-stream", "the parent's stdout or stderr descriptor is "
                                  "not the reading end of a pipe");
          if (x.out->pipe == x.err->pipe || x.in->pipe == x.out->pipe ||
              x.in->pipe == x.err->pipe)
            violate("bad-stream", "the parent got two ends of the same pipe");
          for (auto &[o, y] : S8->slots)
            if (o != slot && y.live &&
                (y.in == x.in || y.out == x.out || y.err == x.err))
              violate("bad-stream", "two children share a descriptor");
          x.live = true;
        } else if (what == "write")
          sut::writeChild(slot, "hello\n");
        else if (what == "move")
          sut::moveChild(slot);
        else if (what == "drop")
          sut::dropChild(slot);
      },
      [] {},
      [] {
        // everything still alive: who holds which end?
        waitUntil(
            [] {
              for (auto *p : procs())
                if (p->alive && !p->execed)
                  return false;
              return true;
            },
            "the children to start");
        std::vector<int> live;
        {
          InRt _;
          for (auto &[k, s] : S8->slots)
            if (s.live) {
              live.push_back(k);
              if (s.in->pipe->writers != 1 || s.out->pipe->readers != 1 ||
                  s.err->pipe->readers != 1)
                violate("leaked-end", "somebody else holds the parent's end "
                                      "of a pipe of child " + n2s(s.s.pid));
              Child *c = nullptr;
              for (auto &x : S8->kids)
                if (x->p->pid == s.s.pid)
                  c = x.get();
              if (c && !c->gone &&
                  (c->in.f->pipe != s.in->pipe ||
                   c->out.f->pipe != s.out->pipe ||
                   c->err.f->pipe != s.err->pipe))
                violate("crossed-streams",
                        "parent and child " + n2s(s.s.pid) +
                            " do not hold the two ends of the same pipes");
              if (c && c->gone &&
                  (s.out->pipe->writers || s.err->pipe->writers ||
                   s.in->pipe->readers))
                violate("no-eof", "child " + n2s(s.s.pid) +
                                      " is gone, but its streams do not end");
            }
        }
        for (int k : live) {
          {
            InRt _;
            S8->slots[k].live = false;
          }
          sut::dropChild(k);
        }
        int64_t limit = now() + 5 * SEC;
        waitUntil(
            [] {
              for (auto *p : procs())
                if (p->alive)
                  return false;
              return true;
            },
            "the children to see the end of their input", limit);
        InRt _;
        for (auto *p : procs())
          if (p->alive)
            violate("no-eof", "child " + n2s(p->pid) +
                                  " never sees the end of its input");
        auto f = openFds();
        for (int i : f)
          if (!S8->startFds.count(i))
            violate("leaked", "descriptor " + n2s(i) +
                                  " is still open at the end");
        for (int i : S8->startFds)
          if (!f.count(i))
            violate("closed", "descriptor " + n2s(i) + " was closed");
        if (S8->spawned)
          probe("spawned");
      });
}
void c08Gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  if (G.chance(0.3))
    P.setd("pipefail", 0.15);
  if (G.chance(0.2))
    P.setd("forkfail", 0.2);
  P.set("noprog", G.chance(0.1));
  int t = (int)G.range(1, 3);
  for (int k = 0; k < t; ++k) {
    int n = (int)G.range(1, 3);
    for (int i = 0; i < n; ++i) {
      P.ops.push_back("spawn " + n2s(k) + " " + n2s(i) + " " +
                      n2s(G.range(0, 1)) + " " +
                      n2s(G.chance(0.6) ? 0 : G.range(1, 2)));
      if (G.chance(0.3))
        P.ops.push_back("wait " + n2s(k) + " " + n2s(G.range(1, 50)));
      if (G.chance(0.3))
        P.ops.push_back("write " + n2s(k) + " " + n2s(G.range(0, i)));
      if (G.chance(0.3))
        P.ops.push_back("move " + n2s(k) + " " + n2s(G.range(0, i)));
      if (G.chance(0.4))
        P.ops.push_back("drop " + n2s(k) + " " + n2s(G.range(0, i)));
    }
  }
}
Register r8("C08", c08Gen, c08Setup);
} // namespace
