// C13: failing workers. C15: the effective configuration. C17: progress.
#include "full_eval.h"
#include <algorithm>
#include <cstring>

using namespace fw;

// ------------------------------------------------------------------- C13
namespace {
/// Workers that answer after minutes, and requests that do not need them.
void genSlow(Plan &P, Gen &G) {
  P.set("wdelay", 4);
  P.setd("jump", 0);
  P.setd("stall", 0);
  P.set("ncpu", G.range(2, 4)); // the pool has twice as many threads
  EvalOpts O;
  O.minOps = 5;
  O.maxOps = 18;
  bool conf = G.chance(0.6);
  O.pConf = conf ? 0.15 : 0;
  O.pFormat = 0;
  O.pLocal = 1;
  O.pResolve = 0;
  O.pDoc = 0.3;
  O.pWait = 0.4;
  genEval(P, G, O);
  // requests that wait for workers: fewer than there are threads
  Layout L = genLayout((uint64_t)P.geti("layout"));
  // (a change of the option sets waits for them as well)
  int n = (int)G.range(1, conf && P.geti("ncpu") == 2 ? 2 : 3), done = 0;
  for (auto &o : P.ops)
    if (o.compare(0, 5, "conf ") == 0) {
      size_t f = o.find(" fmt=");
      if (f != o.npos)
        o.erase(f, o.find(' ', f + 1) == o.npos ? o.npos
                                                : o.find(' ', f + 1) - f);
      if (G.chance(0.5))
        o += " fmt=stamp:7";
      else if (G.chance(0.5))
        o += " opt=nixos:nixos_e1 fmt=stamp:8";
    } else if (o[0] == 'l' && G.chance(0.25))
      o = "l format 0 0";
  for (size_t i = 1; i < P.ops.size() && done < n; ++i)
    if (P.ops[i][0] == 'l' && G.chance(0.3)) {
      static const std::vector<std::string> ks = {"hover", "completion"};
      size_t s = (size_t)G.range(0, (int64_t)L.slots.size() - 1);
      const std::string &sk = L.slots[s].kind;
      bool hole = sk == "dot" || sk == "optdot" || sk == "optempty";
      P.ops.insert(P.ops.begin() + (long)i,
                   "q " + (hole ? std::string("completion") : G.pick(ks)) +
                       " 0 " + n2s((int64_t)s));
      done++;
      i++;
    }
}
void genC13(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capSnippet", 1);
  P.set("errs", G.chance(0.4) ? "0.2" : "0");
  bool slow = G.chance(0.3);
  P.set("slow", slow);
  if (slow)
    genSlow(P, G);
  else {
    EvalOpts O;
    O.maxOps = 20;
    O.pConf = G.chance(0.5) ? 0.12 : 0.04;
    O.pDoc = 0.15;
    O.pLocal = 0.25;
    O.pFormat = 0.04;
    O.pKill = G.chance(0.5) ? 0.08 : 0.02;
    O.pBurst = 0.3;
    genEval(P, G, O);
    if (G.chance(0.1))
      P.set("noworker", 1);
    else if (G.chance(0.2))
      P.set("wexec", "0.4");
    if (G.chance(0.15))
      P.set("forks", "0.3");
  }
  static const std::vector<std::string> f = {
      "crash", "exit", "diesoon", "eofout", "eofin", "garbage", "badjson",
      "notobject", "badid", "unsolicited", "stall", "noread", "silent", "deaf",
      "err", "wrongtype", "badpos", "half", "dup"};
  if (G.chance(slow ? 0.5 : 0.85))
    for (int n = (int)G.range(1, 5); n > 0; --n)
      P.ops.insert(P.ops.begin() + 1,
                   "wfault " + n2s(G.range(0, 3)) + " " +
                       n2s(G.chance(0.1) ? 0 : G.range(1, 5)) + " " +
                       G.pick(f) + " " + n2s(G.range(0, 9999)));
  genEnd(P, G, G.chance(0.85));
}
std::string idOf(int64_t id) {
  std::string s = n2s(id);
  while (s.size() < 6)
    s = "0" + s;
  return s;
}
void judgeLocal(Req &r) {
  if (r.op.empty() || r.op[0] != "l")
    return;
  if (W->P.geti("slow")) {
    probe("local-while-slow");
    if (r.tReply - r.tSent > 20 * SEC)
      violate("late-local", r.kind + " needs no worker, but took " +
                                n2s((r.tReply - r.tSent) / SEC) +
                                " s while workers were slow");
  }
  if (r.kind == "symbols") { // computed, whatever the workers do
    std::string s = dump(r.result);
    bool ok = false, any = false;
    for (auto *x : W->docs[(size_t)r.doc].window(r.at, r.repliedAt)) {
      if (!x->open)
        ok = true;
      else
        any = true, ok |= s.find(idOf(x->tid)) != s.npos;
    }
    if (!ok || (any && !ok))
      violate("lost-local", "the symbols of an open document are not given: " +
                                (r.err ? r.errMsg : s.substr(0, 300)));
    probe("symbols-given");
  }
}
void setupC13(const Plan &P) {
  setupEval(P);
  if (P.geti("slow")) {
    W->patience = 900 * SEC;
    H.timeCap = 40000 * SEC;
  }
  K.forkfail = P.getd("forks", 0);
  W->onReply = [](Req &r) {
    judgeEval(r);
    judgeLocal(r);
  };
  double we = P.getd("wexec", 0);
  if (we > 0) {
    auto old = H.execErrno;
    H.execErrno = [old, we](Proc &p) {
      if (p.name.find("attrset-eval") != std::string::npos && !W->calm &&
          fault("worker-exec-eacces", we))
        return EACCES;
      return old(p);
    };
  }
}
Register rC13("C13", genC13, setupC13);

// ------------------------------------------------------------------- C15
const char *Doc15 = "let unused = 1; in\nwith { a = 1; }; [ 2 ]\n";
struct St15 {
  bool probing = false;
  std::vector<std::string> attempts; // "cmd arg..." of formatters since
  std::vector<int> probes;
};
St15 *S15;
std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v)
    s += (s.empty() ? "" : " ") + x;
  return s;
}
std::vector<std::string> wantFmt() {
  if (!W->validAnswers.empty()) {
    auto &c = W->validAnswers.back();
    return c.hasFmt ? c.fmt : std::vector<std::string>{"nixfmt"};
  }
  if (W->P.geti("cli"))
    return {"simfmt", "stamp", "77"};
  return {"nixfmt"};
}
void judge15() {
  // 1. the workers
  std::string pk = "import <nixpkgs> { }";
  std::map<std::string, std::string> sets;
  for (auto &c : W->validAnswers) {
    if (!c.nixpkgs.empty())
      pk = c.nixpkgs;
    for (auto &[n, e] : c.options)
      sets[n] = e;
  }
  std::map<std::string, std::vector<Worker *>> by;
  bool trouble = W->P.geti("noworker") || W->P.getd("wexec", 0) > 0 ||
                 W->P.getd("forks", 0) > 0;
  for (auto &w : W->workers) {
    std::string n = setName(*w);
    if (w->hadFault || w->gone)
      trouble = true;
    for (auto &e : w->exprs) {
      Worker t;
      t.exprs = {e};
      std::string m = setName(t);
      if (m != n)
        violate("wrong-expression", w->name + " serves " + n +
                                        ", but was sent the expression " + e);
    }
    if (!n.empty())
      by[n].push_back(w.get());
  }
  auto check = [&](const std::string &n, const std::string &e) {
    auto &v = by[n];
    if (v.empty()) {
      if (!trouble)
        violate("missing-worker", "no worker was sent the expression " + e);
      return;
    }
    if (v.size() > 1 && !trouble)
      violate("wrong-expression", "two workers serve " + n);
    Worker *w = v.back();
    if (w->gone || w->hadFault)
      return;
    if (w->exprs.back() != e)
      violate("stale-expression", "the configured expression of " + n + " is " +
                                      e + ", but its worker was last sent " +
                                      w->exprs.back());
    probe("worker-checked");
  };
  check("@pkgs", pk);
  for (auto &[n, e] : sets)
    check(n, e);
  // 2. suppression
  std::set<std::string> sup, want;
  if (!W->validAnswers.empty())
    for (auto &s : W->validAnswers.back().suppress)
      sup.insert(s);
  for (const char *c : {"sema-unused-def-let", "sema-extra-with"})
    if (!sup.count(c))
      want.insert(c);
  for (size_t d = 0; d < W->docs.size(); ++d) {
    if (!W->docs[d].cur().open)
      continue;
    const Publish *last = nullptr;
    for (auto &p : W->pubs)
      if (p.doc == (int)d)
        last = &p;
    std::set<std::string> got;
    if (last)
      for (auto &x : *last->diags.getAsArray())
        got.insert(str(x.getAsObject(), "code"));
    if (got != want)
      violate("wrong-suppression",
              "the diagnostics shown are" + [&] {
                std::string s;
                for (auto &g : got)
                  s += " " + g;
                return s + ", but the suppression list asks for";
              }() + [&] {
                std::string s;
                for (auto &g : want)
                  s += " " + g;
                return s;
              }());
    probe("suppression-checked");
  }
}
/// After a probe: one formatting request with nothing else going on.
void judgeProbe(Req &r) {
  std::vector<std::string> want = wantFmt();
  std::string w = join(want);
  bool forks = W->P.getd("forks", 0) > 0;
  if (want.empty()) {
    if (!r.err || !S15->attempts.empty())
      violate("wrong-formatter", "no formatter is configured, but " +
                                     join(S15->attempts) + " was run");
    return;
  }
  if (S15->attempts.size() != 1) {
    if (forks && S15->attempts.empty() && r.err)
      return;
    violate("wrong-formatter", "formatting ran " +
                                   n2s((int64_t)S15->attempts.size()) +
                                   " commands: " + join(S15->attempts));
  }
  if (S15->attempts[0] != w)
    violate("wrong-formatter", "the configured formatter is \"" + w +
                                   "\", but \"" + S15->attempts[0] +
                                   "\" was run");
  probe("formatter-checked");
}
void genC15(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capConfig", G.chance(0.92));
  P.set("cli", G.chance(0.25));
  P.set("docs", G.range(1, 2));
  if (G.chance(0.05))
    P.set("noworker", 1);
  else if (G.chance(0.08))
    P.set("wexec", "0.4");
  if (G.chance(0.08))
    P.set("forks", "0.2");
  P.ops.push_back("init");
  if (G.chance(0.7))
    P.ops.push_back("initialized");
  auto conf = [&](double bad) {
    std::string s = "conf " + genHow(G, bad);
    if (G.chance(0.75)) {
      s += genEvalConf(G);
      double x = G.unit();
      if (x < 0.4)
        s += " fmt=stamp:" + n2s(G.range(0, 9999));
      else if (x < 0.5)
        s += " fmt=none" + n2s(G.range(0, 99));
      else if (x < 0.57)
        s += " fmt=-";
      if (G.chance(0.3))
        s += " sup=sema-extra-with";
      if (G.chance(0.1))
        s += " sup=nonsense-name";
    }
    return s;
  };
  int rounds = (int)G.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    int n = (int)G.range(1, 9);
    double bad = G.chance(0.5) ? 0.4 : 0.1, pw = G.chance(0.5) ? 0.1 : 0.6;
    for (int i = 0; i < n; ++i) {
      double x = G.unit();
      int d = (int)G.range(0, P.geti("docs") - 1);
      if (x < 0.6)
        P.ops.push_back(conf(bad));
      else if (x < 0.85)
        P.ops.push_back("doc " + n2s(d) + " " + n2s(G.range(0, 9999)));
      else if (x < 0.95)
        P.ops.push_back("fmt " + n2s(d));
      else if (x < 0.97)
        P.ops.push_back("wkill " + n2s(G.range(0, 3)));
      else
        P.ops.push_back("closedoc " + n2s(d));
      if (G.chance(pw))
        P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 40)
                                                    : G.range(40, 4000)));
    }
    if (r + 1 < rounds && G.chance(0.4))
      continue;
    P.ops.push_back("settle");
    P.ops.push_back("doc 0 1");
    P.ops.push_back("settle");
    P.ops.push_back("probe 0");
    P.ops.push_back("settle");
  }
  if (G.chance(0.2))
    P.ops.insert(P.ops.begin() + 1,
                 "wfault " + n2s(G.range(0, 3)) + " " + n2s(G.range(1, 3)) +
                     (G.chance(0.5) ? " stall " : " err ") +
                     n2s(G.range(0, 9999)));
  genEnd(P, G, true);
}
void setupC15(const Plan &P) {
  S15 = new St15();
  auto args = baseArgs(P);
  if (P.geti("cli"))
    args.push_back("--config={\"formatting\":{\"command\":[\"simfmt\",\"stamp\","
                   "\"77\"]}}");
  start(P, (int)P.geti("docs", 1), args);
  K.forkfail = P.getd("forks", 0);
  double we = P.getd("wexec", 0);
  auto old = H.execErrno;
  H.execErrno = [old, we](Proc &p) {
    bool wk = p.name.find("attrset-eval") != std::string::npos;
    if (wk && !W->calm && we > 0 && fault("worker-exec-eacces", we))
      return EACCES;
    return old(p);
  };
  auto seen = [](Proc &p) {
    if (S15->probing && p.name.find("attrset-eval") == std::string::npos)
      S15->attempts.push_back(join(p.argv));
  };
  H.onNoExec = seen;
  auto olde = H.onExec;
  H.onExec = [olde, seen](Proc &p) {
    seen(p);
    olde(p);
  };
  W->onOp = [](const std::vector<std::string> &w) {
    int d = (int)num(w, 1);
    if (w[0] == "conf")
      W->changeConf(parseConf(w, 3), {w[1], w[2]});
    else if (w[0] == "doc") {
      int64_t v = W->docs[d].cur().version + 1;
      std::string t = Doc15;
      for (int64_t i = num(w, 2) % 4; i > 0; --i)
        t += "# " + n2s(i) + "\n";
      if (!W->docs[d].cur().open)
        W->open(d, t, v);
      else
        W->change(d, t, v, (uint64_t)num(w, 2));
    } else if (w[0] == "closedoc") {
      if (W->docs[d].cur().open)
        W->close(d);
    } else if (w[0] == "fmt")
      W->ask("format", d, 0, 0, {"fmt"});
    else if (w[0] == "probe") {
      if (!W->docs[d].cur().open)
        return true;
      S15->probing = true;
      S15->attempts.clear();
      W->ask("format", d, 0, 0, {"probe"});
    } else
      return false;
    return true;
  };
  W->onReply = [](Req &r) {
    if (!r.op.empty() && r.op[0] == "probe")
      judgeProbe(r);
  };
  W->onSettled = [] {
    S15->probing = false;
    if (W->capConfig && W->confStale)
      violate("not-asked-again", "the editor announced a changed configuration "
                                 "and was not asked for it since");
    judge15();
  };
}
Register rC15("C15", genC15, setupC15);

// ------------------------------------------------------------------- C17
struct Tok {
  std::string name;
  int order = -1; // among those with the same title
  bool created = false, begun = false, ended = false;
};
struct St17 {
  std::map<std::string, Tok> toks; // running or finished, by token
  std::map<std::string, int> begun;
};
St17 *S17;
std::string nameOfTitle(const std::string &t) {
  std::string n = t.rfind("evaluating ", 0) == 0 ? t.substr(11) : t;
  return n == "nixpkgs entries" ? "@pkgs" : n == "nixos options" ? "nixos" : n;
}
void onProgress17(const std::string &what, const json::Object &o) {
  if (!W->capProgress)
    violate("progress-unsupported",
            "the editor did not declare support for progress, but got " + what);
  const json::Object *p = o.getObject("params");
  const json::Value *tk = p ? p->get("token") : nullptr;
  if (!tk || (!tk->getAsInteger() && !tk->getAsString()))
    violate("progress-order", "progress traffic without a token");
  std::string k = dump(*tk);
  Tok &t = S17->toks[k];
  if (what == "create") {
    if (t.created && !t.ended)
      violate("progress-order", "token " + k + " is created while in use");
    t = Tok();
    t.created = true;
    return;
  }
  const json::Object *v = p->getObject("value");
  std::string kind = str(v, "kind");
  if (kind == "begin") {
    if (!t.created && W->ended) // the server does not ask any more
      t.created = true;
    if (!t.created || t.begun)
      violate("progress-order", "token " + k + " begins " +
                                    (t.begun ? "twice" : "before its creation"));
    t.begun = true;
    t.name = nameOfTitle(str(v, "title"));
    t.order = S17->begun[t.name]++;
    probe("progress-begun");
    return;
  }
  if (kind != "end")
    violate("progress-order", "unknown progress " + dump(json::Value(json::Object(o))));
  if (!t.begun || t.ended)
    violate("progress-order", "token " + k + " ends " +
                                  (t.ended ? "twice" : "before it begins"));
  t.ended = true;
  // its evaluation has to be over
  int n = 0, open = 0;
  // The server gives up its workers when it ends; nobody has seen the
  // questions to programs that could not be executed.
  bool doubt = W->ended || W->P.geti("noworker") || W->P.getd("wexec", 0) > 0;
  for (auto &w : W->workers) {
    std::string s = setName(*w);
    if (s.empty() || s == t.name)
      doubt |= w->gone || w->hadFault;
  }
  for (auto &a : W->asks)
    if (a.method == "attrset/evalExpr" &&
        setName(*W->workers[(size_t)a.worker]) == t.name) {
      if (n == t.order)
        open = !a.answered && !a.lost;
      n++;
    }
  if (!doubt && (n <= t.order || open))
    violate("progress-early", "the report on " + t.name + " number " +
                                  n2s(t.order) +
                                  " ends although the worker has not answered");
}
void judge17(bool final) {
  for (auto &[k, t] : S17->toks) {
    if (!t.created || !t.begun || !t.ended)
      violate("progress-unfinished",
              "token " + k + " (" + t.name + ") was " +
                  (t.created ? "created" : "not created") +
                  (t.begun ? ", begun" : ", not begun") +
                  (t.ended ? ", ended" : ", not ended") +
                  (final ? " when the server ended" : " when all was quiet"));
  }
}
void genC17(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capProgress", G.chance(0.85));
  P.set("capConfig", 1);
  P.set("docs", 1);
  if (G.chance(0.05))
    P.set("noworker", 1);
  else if (G.chance(0.1))
    P.set("wexec", "0.4");
  if (G.chance(0.3))
    P.set("wdelay", 3);
  P.ops.push_back("init");
  int n = (int)G.range(0, 14);
  double pw = G.chance(0.5) ? 0.1 : 0.6;
  for (int i = 0; i < n; ++i) {
    double x = G.unit();
    if (x < 0.75)
      P.ops.push_back("conf " + genHow(G, 0.1) + genEvalConf(G));
    else if (x < 0.9)
      P.ops.push_back("wkill " + n2s(G.range(0, 4)));
    else
      P.ops.push_back("settle");
    if (G.chance(pw))
      P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 40)
                                                  : G.range(40, 4000)));
  }
  static const std::vector<std::string> f = {
      "crash", "exit", "diesoon", "eofout", "eofin", "garbage", "badjson",
      "notobject", "badid", "unsolicited", "stall", "noread", "silent", "deaf",
      "err", "wrongtype", "half", "dup"};
  if (G.chance(0.6))
    for (int k = (int)G.range(1, 4); k > 0; --k)
      P.ops.insert(P.ops.begin() + 1,
                   "wfault " + n2s(G.range(0, 4)) + " " +
                       n2s(G.chance(0.1) ? 0 : G.range(1, 4)) + " " +
                       G.pick(f) + " " + n2s(G.range(0, 9999)));
  genEnd(P, G, G.chance(0.8));
}
void setupC17(const Plan &P) {
  S17 = new St17();
  setupEval(P);
  W->onProgress = onProgress17;
  W->onSettled = [] { judge17(false); };
  W->atEnd = [] {
    if (W->endMode != "die")
      judge17(true);
  };
  double we = P.getd("wexec", 0);
  if (we > 0) {
    auto old = H.execErrno;
    H.execErrno = [old, we](Proc &p) {
      if (p.name.find("attrset-eval") != std::string::npos && !W->calm &&
          fault("worker-exec-eacces", we))
        return EACCES;
      return old(p);
    };
  }
}
Register rC17("C17", genC17, setupC17);
} // namespace
