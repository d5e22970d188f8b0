// Documents: the server's text (C09), diagnostics (C10), answers (C11).
#include "full_world.h"
#include <algorithm>
#include <sys/stat.h>

using namespace fw;
namespace fw {
// ---------------------------------------------------------------- text pools
static std::map<int, TextPool> Pools;
TextPool &pool(int n) {
  TextPool &p = Pools[n];
  if (!p.texts.empty())
    return p;
  Gen g((uint64_t)n * 7919 + 11);
  p.texts.push_back(genNix(g.next(), (int)g.range(12, 60)));
  while (p.texts.size() < PoolSize) {
    uint64_t s = g.next();
    if (g.chance(0.1))
      p.texts.push_back(genNix(s, 30));
    else if (g.chance(0.5))
      p.texts.push_back(mutateNix(p.texts[0], s));
    else
      p.texts.push_back(mutateNix(g.pick(p.texts), s));
  }
  for (int i = 0; i < PoolPos; ++i) {
    const std::string &t = p.texts[0];
    size_t o = (size_t)g.range(0, (int64_t)t.size());
    // prefer names
    for (int k = 0; k < 30 && o < t.size() && !isalpha((unsigned char)t[o]); ++k)
      o++;
    while (o < t.size() && ((unsigned char)t[o] & 0xc0) == 0x80)
      o++;
    p.pos.push_back(lspPos(t, o));
  }
  return p;
}
const std::vector<std::string> &plainKinds() {
  static const std::vector<std::string> v = {"symbols", "folding", "tokens",
                                             "links"};
  return v;
}
const std::vector<std::string> &posKinds() {
  static const std::vector<std::string> v = {
      "refs", "highlight", "rename", "prepareRename", "definition",
      "codeAction"};
  return v;
}
static void sortArrays(json::Value &v) {
  if (auto *a = v.getAsArray()) {
    for (auto &x : *a)
      sortArrays(x);
    std::vector<std::pair<std::string, json::Value>> s;
    for (auto &x : *a)
      s.push_back({dump(x), std::move(x)});
    std::sort(s.begin(), s.end(),
              [](auto &x, auto &y) { return x.first < y.first; });
    json::Array r;
    for (auto &x : s)
      r.push_back(std::move(x.second));
    v = std::move(r);
  } else if (auto *o = v.getAsObject())
    for (auto &[k, x] : *o)
      sortArrays(x);
}
static std::string anonymous(std::string s) {
  for (size_t i = 0; (i = s.find("/w/doc", i)) != s.npos; i += 6)
    if (i + 6 < s.size() && isdigit((unsigned char)s[i + 6]))
      s[i + 6] = 'N';
  return s;
}
std::string normal(const std::string &kind, bool err, const json::Value &v) {
  if (err)
    return "error";
  json::Value c = v;
  if (kind != "tokens")
    sortArrays(c);
  return anonymous(dump(c));
}
bool emptyish(const json::Value &v) {
  if (v.getAsNull())
    return true;
  if (auto s = v.getAsString())
    return s->empty();
  if (auto *a = v.getAsArray())
    return a->empty();
  if (auto *o = v.getAsObject()) {
    for (auto &[k, x] : *o)
      if (!emptyish(x))
        return false;
    return true;
  }
  return false;
}
std::string kindKey(const std::string &kind, int p) {
  for (auto &k : plainKinds())
    if (k == kind)
      return kind;
  return kind + "@" + n2s(p);
}

// The table of answers: computed by the real server, one document and one
// request at a time, without faults.
static void oracleGen(Plan &P, Gen &G) {
  P.ops = {"init"};
  for (int t = 0; t < PoolSize; ++t) {
    std::string d = n2s(t % 3);
    P.ops.push_back("open " + d + " " + n2s(t) + " 1");
    for (auto &k : plainKinds())
      P.ops.push_back("q " + k + " " + d + " 0");
    for (auto &k : posKinds())
      for (int i = 0; i < PoolPos; ++i)
        P.ops.push_back("q " + k + " " + d + " " + n2s(i));
    P.ops.push_back("sync");
    P.ops.push_back("close " + d);
  }
  P.ops.push_back("sync");
  P.ops.push_back("end exit");
}
static json::Object *Table;
static void oracleSetup(const Plan &P) {
  start(P, 3, {"--log=error", "--semantic-tokens=true"});
  Table = new json::Object();
  for (auto &k : plainKinds())
    (*Table)[k] = json::Array();
  W->wdelay = 0;
  W->onAsk = [](Ask &a, Worker &) { a.err = true; };
  W->onOp = [](const std::vector<std::string> &w) {
    TextPool &p = pool((int)W->P.geti("pool"));
    int d = (int)num(w, w[0] == "q" ? 2 : 1);
    if (w[0] == "open")
      W->open(d, p.texts[num(w, 2)], num(w, 3), (int)num(w, 2));
    else if (w[0] == "close")
      W->close(d);
    else if (w[0] == "q") {
      auto [l, c] = p.pos[num(w, 3)];
      W->ask(w[1], d, l, c, w);
    } else
      return false;
    return true;
  };
  W->onReply = [](Req &r) {
    if (r.doc < 0)
      return;
    int tid = -1;
    for (auto *s : W->docs[r.doc].window(r.at, r.at))
      tid = s->tid;
    (*Table)[n2s(tid) + " " + kindKey(r.kind, (int)num(r.op, 3))] =
        normal(r.kind, r.err, r.result);
  };
  W->onPublish = [](Publish &p) {
    if (p.version)
      (*Table)[n2s(W->docs[p.doc].cur().tid) + " diags"] = p.diags;
  };
  W->atEnd = [] { setBlob(dump(json::Value(std::move(*Table)))); };
}
static Register rOracle("oracle", oracleGen, oracleSetup);

bool preparePool(const Plan &P,
                 const std::function<bool(const Plan &, std::string &)> &sub) {
  int n = (int)P.geti("pool");
  TextPool &p = pool(n);
  if (p.ready)
    return true;
  Plan Q;
  Q.scenario = "oracle";
  Q.seed = (uint64_t)n;
  Q.set("pool", n);
  Q.set("ncpu", 1);
  Q.setd("pswitch", 0);
  Q.setd("chop", 0);
  Gen G(1);
  oracleGen(Q, G);
  std::string out;
  if (!sub(Q, out))
    return false;
  json::Value v = parseJson(out);
  for (auto &[k, x] : *v.getAsObject()) {
    std::string key = k.str();
    size_t sp = key.find(' ');
    if (sp == key.npos)
      continue;
    int tid = (int)strtol(key.c_str(), nullptr, 10);
    if (key.substr(sp + 1) == "diags")
      p.diags.insert_or_assign(tid, x);
    else
      p.answers[key] = x.getAsString()->str();
  }
  p.ready = true;
  return true;
}

// ----------------------------------------------------------- document traffic
const std::vector<std::string> &suppressible() {
  static const std::vector<std::string> v = {
      "sema-undefined-variable", "sema-unused-def-let", "sema-extra-with",
      "sema-unused-def-lambda-noarg-formal", "parse-expected",
      "parse-unexpected", "sema-extra-rec", "parse-redundant-paren",
      "sema-unused-def-lambda-witharg-formal", "sema-duplicated-attrname",
      "sema-primop-needs-prefix", "or-identifier"};
  return v;
}
Conf suppressConf(uint64_t k) {
  Conf c;
  Gen g(k * 31 + 5);
  double p = k % 5 == 0 ? 0 : k % 5 == 1 ? 0.8 : 0.35;
  for (auto &s : suppressible())
    if (g.chance(p))
      c.suppress.push_back(s);
  if (g.chance(0.15))
    c.suppress.insert(c.suppress.begin() +
                          (long)g.range(0, (int64_t)c.suppress.size()),
                      "no-such-diagnostic");
  return c;
}
// Runs are handed out in 8 batches, seed modulo 8; each goes on with one pool
// for a while because the oracle for it takes as long as some ten runs.
int pickPool(uint64_t seed) {
  return (int)(1 + (seed / 480) * 8 % 100000 + seed % 8);
}
struct DocTraffic { // what the generator knows about the documents
  std::vector<bool> open;
  std::vector<int64_t> version;
};
/// One operation on one of the documents.
static std::string docOp(Gen &G, DocTraffic &T, int ntexts) {
  int d = (int)G.range(0, (int64_t)T.open.size() - 1);
  std::string D = n2s(d), X = n2s(G.range(0, ntexts - 1));
  std::string S = n2s(G.range(0, 9999));
  auto v = [&] { return n2s(T.version[d] += G.chance(0.85) ? 1 : G.range(1, 5)); };
  if (!T.open[d]) {
    if (G.chance(0.1))
      return "change " + D + " " + X + " " + v() + " " + S; // ignored
    if (G.chance(0.07))
      return "close " + D;
    T.open[d] = true;
    if (G.chance(0.5))
      T.version[d] = G.range(0, 4); // starts over
    return "open " + D + " " + X + " " + v();
  }
  if (G.chance(0.1)) {
    T.open[d] = false;
    return "close " + D;
  }
  if (G.chance(0.06)) {
    T.open[d] = false;
    return "bad " + D + " " + v() + " " + S;
  }
  if (G.chance(0.03)) // opened again without closing
    return "open " + D + " " + X + " " + v();
  return "change " + D + " " + X + " " + v() + " " + S;
}
static bool runDocOp(const std::vector<std::string> &w,
                     const std::function<std::string(int)> &text) {
  int d = (int)num(w, 1);
  if (w[0] == "open")
    W->open(d, text((int)num(w, 2)), num(w, 3), (int)num(w, 2));
  else if (w[0] == "change")
    W->change(d, text((int)num(w, 2)), num(w, 3), (uint64_t)num(w, 4),
              (int)num(w, 2));
  else if (w[0] == "bad")
    W->badChange(d, num(w, 2), (uint64_t)num(w, 3));
  else if (w[0] == "close")
    W->close(d);
  else
    return false;
  return true;
}
static std::string confOp(Gen &G) {
  static const std::vector<std::string> how = {
      "valid", "valid", "valid", "valid", "error", "null", "notarray", "empty",
      "nothing", "badtype", "badtype2",
      "badtype3"};
  return "conf " + n2s(G.range(0, 30)) + " " + G.pick(how) + " " +
         n2s(G.chance(0.5) ? 0 : G.range(0, 60));
}
void genBase(Plan &P, Gen &G) {
  genKnobs(P, G);
  P.set("wdelay", G.range(0, 2));
  P.set("capConfig", G.chance(0.9));
  P.set("capProgress", G.chance(0.7));
  P.set("smallpipes", G.chance(0.15));
  P.set("loud", G.chance(0.3));
}
std::vector<std::string> baseArgs(const Plan &P) {
  std::vector<std::string> a{"--semantic-tokens=true"};
  if (!P.geti("loud"))
    a.push_back("--log=error");
  return a;
}
static void maybeWait(Plan &P, Gen &G, double p) {
  if (G.chance(p))
    P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 30) : G.range(30, 1500)));
}

// ------------------------------------------------------------------- C10, C11
static void genC10(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("pool", pickPool(P.seed));
  P.set("capConfig", 1);
  int nd = (int)G.range(1, 3);
  P.set("docs", nd);
  DocTraffic T;
  T.open.assign(nd, false);
  T.version.assign(nd, 0);
  P.ops = {"init"};
  int n = (int)G.range(3, 30);
  double pc = G.chance(0.5) ? 0.15 : 0.4;
  for (int i = 0; i < n; ++i) {
    if (G.chance(pc))
      P.ops.push_back(confOp(G));
    else
      P.ops.push_back(docOp(G, T, PoolSize));
    maybeWait(P, G, 0.15);
    if (G.chance(0.06))
      P.ops.push_back("settle");
  }
  genEnd(P, G, true);
}
struct DiagGroup {
  std::string code, text;
};
static bool isNote(const json::Value &d) {
  auto *o = d.getAsObject();
  auto *ri = o ? o->getArray("relatedInformation") : nullptr;
  if (!ri || ri->size() != 1)
    return false;
  return str((*ri)[0].getAsObject(), "message") == "original diagnostic";
}
static std::vector<DiagGroup> groups(const json::Value &v) {
  std::vector<DiagGroup> r;
  if (auto *a = v.getAsArray())
    for (auto &d : *a) {
      if (!isNote(d) || r.empty())
        r.push_back({str(d.getAsObject(), "code"), ""});
      r.back().text += anonymous(dump(d)) + "\n";
    }
  return r;
}
/// Are `got` the diagnostics of text tid, with only kinds in `may` left out
/// and only kinds not in `must` present?
static bool diagsMatch(const json::Value &got, int tid,
                       const std::set<std::string> &may,
                       const std::set<std::string> &must) {
  auto a = groups(got), b = groups(pool((int)W->P.geti("pool")).diags.at(tid));
  size_t i = 0;
  for (auto &x : b) {
    if (i < a.size() && a[i].text == x.text && !must.count(x.code)) {
      i++;
      continue;
    }
    if (!may.count(x.code))
      return false;
  }
  return i == a.size();
}
static std::string showGroups(const json::Value &v) {
  std::string s = "[";
  for (auto &g : groups(v))
    s += g.code + " ";
  return s + "]";
}
struct DiagJudge {
  std::vector<size_t> idx; // per document: state the last versioned matched
  std::set<std::string> every;
  void versioned(Publish &p) {
    Doc &d = W->docs[p.doc];
    size_t &i = idx[p.doc];
    bool seen = false;
    for (size_t k = i; k < d.st.size(); ++k) {
      const DocState &s = d.st[k];
      if (!s.open || s.version != *p.version || s.at > p.at)
        continue;
      seen = true;
      if (diagsMatch(p.diags, s.tid, every, {})) {
        i = k;
        return;
      }
    }
    if (seen)
      violate("wrong-diagnostics",
              "document " + n2s(p.doc) + ": the diagnostics published for "
              "version " + n2s(*p.version) + " are not those of its text: " +
                  showGroups(p.diags));
    violate("version-backwards",
            "document " + n2s(p.doc) + ": diagnostics for version " +
                n2s(*p.version) + " after those of version " +
                n2s(d.st[i].version) + " (or for a version it never had)");
  }
  void any(Publish &p) {
    if (groups(p.diags).empty())
      return;
    for (auto &s : W->docs[p.doc].st)
      if (s.open && s.at <= p.at && diagsMatch(p.diags, s.tid, every, {}))
        return;
    violate("wrong-diagnostics",
            "document " + n2s(p.doc) + ": published diagnostics belong to "
            "none of its texts: " + showGroups(p.diags));
  }
  void settled() {
    std::set<std::string> sup;
    if (!W->validAnswers.empty())
      for (auto &s : W->validAnswers.back().suppress)
        sup.insert(s);
    for (size_t i = 0; i < W->docs.size(); ++i) {
      Doc &d = W->docs[i];
      const Publish *last = nullptr;
      for (auto &p : W->pubs)
        if (p.doc == (int)i)
          last = &p;
      if (!last) {
        if (d.cur().open)
          violate("no-diagnostics", "document " + n2s(i) + " is open, but "
                                    "nothing was ever published for it");
        continue;
      }
      if (!d.cur().open) {
        if (d.st.size() > 1 && !groups(last->diags).empty())
          violate("stale-diagnostics", "document " + n2s(i) + " is not open, "
                                       "but its diagnostics stay: " +
                                           showGroups(last->diags));
        continue;
      }
      if (!diagsMatch(last->diags, d.cur().tid, sup, sup))
        violate("stale-diagnostics",
                "document " + n2s(i) + ": the last diagnostics published " +
                    showGroups(last->diags) +
                    " are not those of its latest text and suppression, " +
                    showGroups(pool((int)W->P.geti("pool")).diags.at(d.cur().tid)) +
                    " minus " + pathStr({sup.begin(), sup.end()}));
    }
  }
};
static DiagJudge *DJ;
static void setupC10(const Plan &P) {
  int nd = (int)P.geti("docs", 1);
  start(P, nd, baseArgs(P));
  DJ = new DiagJudge();
  DJ->idx.assign(nd, 0);
  for (auto &s : suppressible())
    DJ->every.insert(s);
  W->onAsk = [](Ask &a, Worker &) { a.err = true; };
  W->onOp = [](const std::vector<std::string> &w) {
    if (w[0] == "conf") {
      W->changeConf(suppressConf((uint64_t)num(w, 1)), {w[2], w[3]});
      return true;
    }
    return runDocOp(w, [](int t) { return pool((int)W->P.geti("pool")).texts[t]; });
  };
  W->onPublish = [](Publish &p) {
    if (p.doc < 0)
      violate("wrong-diagnostics", "diagnostics for a document that never was");
    if (p.version)
      DJ->versioned(p);
    else
      DJ->any(p);
  };
  W->onSettled = [] { DJ->settled(); };
}
static Register rC10("C10", genC10, setupC10, preparePool);

static void genC11(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("pool", pickPool(P.seed));
  int nd = (int)G.range(1, 3);
  P.set("docs", nd);
  DocTraffic T;
  T.open.assign(nd, false);
  T.version.assign(nd, 0);
  P.ops = {"init"};
  int n = (int)G.range(4, 40);
  std::vector<std::string> ks = plainKinds();
  for (auto &k : posKinds())
    ks.push_back(k);
  if (G.chance(0.4)) // few kinds
    ks = {G.pick(ks), G.pick(ks)};
  double pq = G.chance(0.5) ? 0.5 : 0.75;
  if (G.chance(0.3)) { // one document, edited while questions pile up
    pq = G.chance(0.5) ? 0.5 : 0.7;
    P.set("docs", nd = 1);
    T.open.assign(1, false);
    n *= 2;
  }
  for (int i = 0; i < n; ++i) {
    if (i > 1 && G.chance(pq))
      P.ops.push_back("q " + G.pick(ks) + " " + n2s(G.range(0, nd - 1)) + " " +
                      n2s(G.range(0, PoolPos - 1)));
    else if (G.chance(0.06))
      P.ops.push_back(confOp(G));
    else
      P.ops.push_back(docOp(G, T, PoolSize));
    maybeWait(P, G, 0.1);
    if (G.chance(0.04))
      P.ops.push_back("sync");
  }
  genEnd(P, G, true);
}
static void setupC11(const Plan &P) {
  start(P, (int)P.geti("docs", 1), baseArgs(P));
  W->onAsk = [](Ask &a, Worker &) { a.err = true; };
  W->onOp = [](const std::vector<std::string> &w) {
    TextPool &p = pool((int)W->P.geti("pool"));
    if (w[0] == "conf") {
      W->changeConf(suppressConf((uint64_t)num(w, 1)), {w[2], w[3]});
      return true;
    }
    if (w[0] == "q") {
      auto [l, c] = p.pos[num(w, 3)];
      W->ask(w[1], (int)num(w, 2), l, c, w);
      return true;
    }
    return runDocOp(w, [&](int t) { return p.texts[t]; });
  };
  W->onReply = [](Req &r) {
    if (r.doc < 0)
      return;
    TextPool &p = pool((int)W->P.geti("pool"));
    std::string key = kindKey(r.kind, (int)num(r.op, 3)), tried;
    std::string got = normal(r.kind, r.err, r.result);
    auto win = W->docs[r.doc].window(r.at, r.repliedAt);
    if (win.size() > 1)
      probe("reply-while-editing");
    for (auto *s : win) {
      if (!s->open) {
        if (r.err || emptyish(r.result))
          return;
        tried += " not-open";
        continue;
      }
      if (p.answers[n2s(s->tid) + " " + key] == got)
        return;
      tried += " version " + n2s(s->version) + " (text " + n2s(s->tid) + ")";
    }
    std::string of;
    for (int t = 0; t < PoolSize; ++t)
      if (p.answers[n2s(t) + " " + key] == got)
        of += " " + n2s(t);
    violate("inconsistent-reply",
            "the answer to request " + n2s(r.id) + " (" + key + " of document " +
                n2s(r.doc) + ") is that of none of the versions it may be "
                "about:" + tried + "; it is the answer for texts:" + of +
                "; got " + got.substr(0, 600));
  };
}
static Register rC11("C11", genC11, setupC11, preparePool);

// ------------------------------------------------------------------------ C09
// Texts are made from (document, number); the formatter echoes what it got.
static std::string plainText(int n) {
  Gen g((uint64_t)n * 77 + 3);
  std::string s = genUnicode(g.next(), (int)g.range(0, 60));
  size_t p = (size_t)g.range(0, (int64_t)s.size());
  while (p < s.size() && ((unsigned char)s[p] & 0xc0) == 0x80)
    p++;
  if (p > 0 && p < s.size() && s[p - 1] == '\r' && s[p] == '\n')
    p--;
  if (g.chance(0.1))
    return ""; // may be empty
  return s.substr(0, p) + "<" + n2s(n) + ">" + s.substr(p);
}
static void genC09(Plan &P, Gen &G) {
  genBase(P, G);
  int nd = (int)G.range(1, 3);
  P.set("docs", nd);
  DocTraffic T;
  T.open.assign(nd, false);
  T.version.assign(nd, 0);
  P.ops = {"init"};
  int n = (int)G.range(4, 40);
  double pq = G.chance(0.5) ? 0.1 : 0.35;
  for (int i = 0; i < n; ++i) {
    if (i > 1 && G.chance(pq))
      P.ops.push_back("q format " + n2s(G.range(0, nd - 1)) + " 0");
    else if (G.chance(0.12)) {
      static const std::vector<std::string> ks = {"symbols", "tokens",
                                                  "completion", "hover"};
      P.ops.push_back("q " + G.pick(ks) + " " + n2s(G.range(0, nd - 1)) + " " +
                      n2s(G.range(0, 40)));
    } else if (G.chance(0.05))
      P.ops.push_back(confOp(G));
    else
      P.ops.push_back(docOp(G, T, 4000));
    maybeWait(P, G, 0.1);
    if (G.chance(0.1)) {
      P.ops.push_back("sync");
      for (int d = 0; d < nd; ++d)
        P.ops.push_back("q format " + n2s(d) + " 0");
    }
  }
  P.ops.push_back("settle");
  for (int d = 0; d < nd; ++d)
    P.ops.push_back("q format " + n2s(d) + " 0");
  genEnd(P, G, true);
}
static std::string Cmd; // the formatter on the command line
static void setupC09(const Plan &P) {
  auto args = baseArgs(P);
  args.push_back("--config={\"formatting\":{\"command\":[\"simfmt\",\"stamp\"]}}");
  start(P, (int)P.geti("docs", 1), args);
  W->conf.hasFmt = true;
  W->conf.fmt = {"simfmt", "stamp"};
  W->onAsk = [](Ask &a, Worker &) { a.err = true; };
  W->onOp = [](const std::vector<std::string> &w) {
    if (w[0] == "conf") {
      Conf c = suppressConf((uint64_t)num(w, 1));
      c.hasFmt = true;
      c.fmt = {"simfmt", "stamp"};
      W->changeConf(c, {w[2], w[3]});
      return true;
    }
    if (w[0] == "q") {
      int d = (int)num(w, 2);
      const std::string &t = W->docs[d].cur().text;
      size_t o = t.empty() ? 0 : (size_t)num(w, 3) % t.size();
      auto [l, c] = lspPos(t, o);
      W->ask(w[1], d, l, c, w);
      return true;
    }
    return runDocOp(w, plainText);
  };
  W->onReply = [](Req &r) {
    if (r.kind != "format")
      return;
    auto win = W->docs[r.doc].window(r.at, r.repliedAt);
    bool closed = false;
    std::string may;
    for (auto *s : win)
      if (!s->open)
        closed = true;
      else
        may += " version " + n2s(s->version) + " (text " + n2s(s->tid) + ")";
    if (r.err) {
      if (!closed)
        violate("wrong-text", "document " + n2s(r.doc) + " is open, but could "
                              "not be formatted: " + r.errMsg);
      return;
    }
    std::string text;
    if (auto *a = r.result.getAsArray(); a && a->size() == 1)
      text = str((*a)[0].getAsObject(), "newText");
    size_t nl = text.find('\n');
    if (text.rfind("# ", 0) != 0 || nl == text.npos)
      violate("wrong-text", "document " + n2s(r.doc) +
                                (closed ? " is not open" : "") +
                                ": unexpected answer " + dump(r.result));
    text.erase(0, nl + 1);
    for (auto *s : win)
      if (s->open && s->text == text)
        return;
    violate("wrong-text",
            "document " + n2s(r.doc) + ": the server's text is " +
                dump(json::Value(text)) + " but the editor's is that of" + may +
                (closed ? " or closed" : "") + ", " +
                dump(json::Value(win.empty() ? "" : win.back()->text)));
  };
}
static Register rC09("C09", genC09, setupC09);
} // namespace fw
