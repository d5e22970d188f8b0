// C16: formatting. C18: the end of the server.
#include "full_eval.h"
#include <algorithm>
#include <climits>
#include <deque>
#include <map>
#include <set>

using namespace fw;

// ------------------------------------------------------------------- C16
namespace {
struct Attempt {
  int64_t t;
  std::string argv;
};
struct St16 {
  std::deque<Attempt> noExec;
  // Every reply goes with a process of its own. Several may fit: a matching.
  std::vector<std::vector<const void *>> fits; // per reply
  std::map<const void *, size_t> goesWith;     // process -> reply
  bool place(size_t reply, std::set<const void *> &seen) {
    for (auto *x : fits[reply]) {
      if (!seen.insert(x).second)
        continue;
      auto it = goesWith.find(x);
      if (it == goesWith.end() || place(it->second, seen)) {
        goesWith[x] = reply;
        return true;
      }
    }
    return false;
  }
  bool add(std::vector<const void *> f) {
    fits.push_back(std::move(f));
    std::set<const void *> seen;
    return place(fits.size() - 1, seen);
  }
};
St16 *S16;
std::string join(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v)
    s += (s.empty() ? "" : " ") + x;
  return s;
}
/// "SIZE:SEED[:KIND]"
std::string fmtText(const std::string &spec) {
  size_t c = spec.find(':');
  size_t size = (size_t)strtoll(spec.c_str(), nullptr, 10);
  Gen g(strtoull(spec.c_str() + c + 1, nullptr, 10));
  if (!size)
    return "";
  std::string s = "# id" + spec.substr(c + 1) + "\n";
  bool crlf = g.chance(0.1), uni = g.chance(0.2);
  if (g.chance(0.3))
    s += "{ pkgs }: with pkgs; [ hello 1 ]" + std::string(crlf ? "\r\n" : "\n");
  else if (g.chance(0.2))
    s += "{ a = ; ]" + std::string(crlf ? "\r\n" : "\n");
  while (s.size() < size) {
    s += "# " + n2s((int64_t)s.size());
    s += std::string((size_t)g.range(0, g.chance(0.1) ? 3000 : 70),
                     (char)('a' + g.range(0, 25)));
    if (uni)
      s += "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80";
    s += crlf ? "\r\n" : "\n";
  }
  if (g.chance(0.3))
    s.pop_back();
  return s;
}
std::string genSize(Gen &G) {
  double x = G.unit();
  int64_t n = x < 0.08   ? 0
              : x < 0.5  ? G.range(1, 400)
              : x < 0.75 ? G.range(400, 9000)
              : x < 0.9  ? G.range(60000, 70000)
                         : G.range(70000, 160000);
  return n2s(n);
}
std::set<std::string> commands(bool &mayBeEmpty) {
  std::set<std::string> r;
  r.insert("nixfmt");
  for (auto &c : W->validAnswers)
    if (c.hasFmt) {
      r.insert(join(c.fmt));
      mayBeEmpty |= c.fmt.empty();
    }
  return r;
}
std::string show(const std::string &s) {
  return n2s((int64_t)s.size()) + " bytes \"" + s.substr(0, 60) + "\"";
}
void judge16(Req &r) {
  if (r.kind != "format")
    return;
  auto win = W->docs[(size_t)r.doc].window(r.at, r.repliedAt);
  bool closed = false, noCmd = false;
  std::vector<const std::string *> texts;
  for (auto *x : win)
    if (x->open)
      texts.push_back(&x->text);
    else
      closed = true;
  auto cmds = commands(noCmd);
  std::vector<Formatter *> cand;
  for (auto &f : W->fmts)
    if (f->gone && f->p->tFork >= r.tSent && f->tEnd <= r.tReply)
      cand.push_back(f.get());
  std::sort(cand.begin(), cand.end(), [](Formatter *a, Formatter *b) {
    return a->p->tFork < b->p->tFork;
  });
  auto fed = [&](Formatter &f) { // a text it may have been given
    for (auto *t : texts)
      if (f.readAll && f.mode != "early" && f.mode != "closefirst" ? f.got == *t : t->starts_with(f.got))
        return true;
    return false;
  };
  std::string what = "formatting document " + n2s(r.doc);
  if (r.err) {
    probe("format-error");
    if (closed || noCmd)
      return;
    Formatter *odd = nullptr;
    std::vector<const void *> fits;
    for (auto *f : cand)
      if (f->status != 0 && cmds.count(join(f->args))) {
        if (!fed(*f))
          odd = f;
        else
          fits.push_back(f);
      }
    for (auto &a : S16->noExec)
      if (a.t >= r.tSent && a.t <= r.tReply)
        fits.push_back(&a);
    if (S16->add(std::move(fits)))
      return;
    if (W->P.getd("forks", 0) > 0 || W->P.getd("pipes", 0) > 0) {
      probe("format-no-process");
      return;
    }
    if (odd)
      violate("wrong-input", what + ": " + odd->name + " was given " +
                                 show(odd->got) +
                                 ", which the document was not");
    violate("wrong-error", what + " is answered by an error, but no formatter "
                                  "failed: " + r.errMsg);
  }
  const json::Array *ed = r.result.getAsArray();
  if (!ed || ed->size() > 1)
    violate("wrong-edit", what + ": the reply is not one edit or none: " +
                              dump(r.result).substr(0, 300));
  const json::Object *e = ed->empty() ? nullptr : (*ed)[0].getAsObject();
  std::string neu;
  if (e) {
    neu = str(e, "newText");
    const json::Object *rg = e->getObject("range");
    const json::Object *a = rg ? rg->getObject("start") : nullptr,
                       *b = rg ? rg->getObject("end") : nullptr;
    if (!a || !b || a->getInteger("line") != 0 ||
        a->getInteger("character") != 0)
      violate("wrong-edit", what + ": the edit does not begin at the start");
    for (auto *t : texts) {
      auto [l, c] = lspPos(*t, t->size());
      int64_t bl = b->getInteger("line").value_or(-1),
              bc = b->getInteger("character").value_or(-1);
      if (bl < l || (bl == l && bc < c))
        violate("wrong-edit", what + ": the edit ends before the document: " +
                                  dump((*ed)[0]).substr(0, 200));
    }
    probe("format-edit");
  } else
    probe("format-no-edit");
  std::vector<const void *> fits;
  std::string why;
  for (auto *f : cand) {
    std::string y;
    if (!cmds.count(join(f->args)))
      y = "is not configured";
    else if (f->status != 0)
      y = "failed with status " + n2s(f->status);
    else if (!fed(*f))
      y = "was given " + show(f->got) + ", which the document was not";
    else if (e && neu != f->produced)
      y = "printed " + show(f->produced) + ", not " + show(neu);
    else if (!e) {
      bool same = false;
      for (auto *t : texts)
        same |= *t == f->produced;
      if (!same)
        y = "printed " + show(f->produced) +
            ", which the document was not, but there is no edit";
    } else { // an edit that changes nothing in any version
      bool diff = false;
      for (auto *t : texts)
        diff |= *t != f->produced;
      if (!diff)
        y = "printed the text of the document, but there is an edit";
    }
    if (y.empty())
      fits.push_back(f);
    else
      why += "; " + f->name + " (" + join(f->args) + ") " + y;
  }
  bool some = !fits.empty();
  if (S16->add(std::move(fits)))
    return;
  if (some)
    why += "; those that fit belong to other replies";
  violate("wrong-edit", what + " (" + n2s((int64_t)cand.size()) +
                            " formatters come into question) is answered by " +
                            (e ? "an edit: " + show(neu) : "no edit") + why);
}
void settled16() {
  size_t fds = 0;
  for (size_t i = 3; i < self().fds.size(); ++i)
    fds += self().fds[i].f != nullptr;
  size_t max = 3 * W->workers.size();
  if (!W->P.geti("noworker") && W->P.getd("forks", 0) == 0 && fds > max)
    violate("leaked-fd", n2s((int64_t)fds) + " descriptors are open with " +
                             n2s((int64_t)W->workers.size()) + " workers");
  for (auto *p : procs())
    if (p->zombie && p->name.find("attrset-eval") == std::string::npos)
      violate("zombie", "the formatter " + n2s(p->pid) +
                            " ended, but was not waited for");
  probe("descriptors-checked");
}
std::string genFmt16(Gen &G) {
  static const std::vector<std::string> m = {
      "cat",   "cat",  "buffer", "buffer",     "stamp", "stamp",
      "slow",  "noisy", "big",   "upper",  "flip", "flip", "empty", "noread",
      "noreadfail", "early", "crash", "fail",  "crashend", "closeout",
      "closefirst", "lateread"};
  std::string k = G.pick(m);
  if (G.chance(0.05))
    return "nosuchfmt";
  if (G.chance(0.03))
    return "-";
  int64_t a = k == "big" || k == "noread" ? G.range(0, 150000)
              : G.chance(0.3)             ? G.range(0, 100000)
                                          : G.range(0, 3000);
  return k + ":" + n2s(a);
}
void genC16(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capConfig", 1);
  P.set("wdelay", 1);
  P.set("memPreempt", "0");
  int nd = (int)G.range(1, 3);
  P.set("docs", nd);
  P.set("fcap", G.chance(0.3) ? G.range(512, 8192) : 65536);
  if (G.chance(0.1))
    P.set("forks", "0.3");
  if (G.chance(0.1))
    P.set("pipes", "0.2");
  P.set("noworker", G.chance(0.3));
  P.set("noerr", G.chance(0.04));
  std::vector<bool> open((size_t)nd, false);
  P.ops.push_back("init");
  P.ops.push_back("conf valid 0 fmt=" + genFmt16(G));
  P.ops.push_back("sync");
  int n = (int)G.range(3, G.chance(0.2) ? 40 : 14);
  int64_t seed = G.range(1, 1000000);
  double pw = G.chance(0.5) ? 0.1 : 0.5, pf = G.chance(0.5) ? 0.4 : 0.7;
  for (int i = 0; i < n; ++i) {
    size_t d = (size_t)G.range(0, nd - 1);
    std::string D = n2s((int64_t)d);
    if (!open[d] && G.chance(0.9)) {
      P.ops.push_back("text " + D + " " + genSize(G) + ":" + n2s(seed++));
      open[d] = true;
      if (G.chance(0.5))
        continue;
    }
    double x = G.unit();
    if (x < pf) {
      int k = G.chance(0.15) ? (int)G.range(2, 12) : 1;
      while (k--)
        P.ops.push_back("fmt " + n2s(G.range(0, nd - 1)));
    } else if (x < pf + 0.12)
      P.ops.push_back("conf " + genHow(G, 0.1) + " fmt=" + genFmt16(G));
    else if (x < pf + 0.15) {
      P.ops.push_back("closedoc " + D);
      open[d] = false;
    } else if (x < pf + 0.18)
      P.ops.push_back("settle");
    else if (open[d])
      P.ops.push_back("text " + D + " " + genSize(G) + ":" + n2s(seed++));
    if (G.chance(pw))
      P.ops.push_back("wait " + n2s(G.chance(0.8) ? G.range(1, 40)
                                                  : G.range(40, 4000)));
  }
  genEnd(P, G, G.chance(0.8));
}
void setupC16(const Plan &P) {
  S16 = new St16();
  setupEval(P);
  K.forkfail = P.getd("forks", 0);
  K.pipefail = P.getd("pipes", 0);
  int64_t cap = P.geti("fcap", 65536);
  H.onNoExec = [](Proc &p) {
    if (p.name.find("attrset-eval") == std::string::npos)
      S16->noExec.push_back({now(), join(p.argv)});
  };
  auto olde = H.onExec;
  H.onExec = [olde, cap](Proc &p) {
    if (p.name.find("attrset-eval") == std::string::npos)
      for (int i = 0; i < 2; ++i)
        if (i < (int)p.fds.size() && p.fds[i].f && p.fds[i].f->pipe)
          p.fds[i].f->pipe->cap = (size_t)cap;
    olde(p);
  };
  W->onReply = judge16;
  W->onSettled = settled16;
  W->onOp = [](const std::vector<std::string> &w) {
    int d = (int)num(w, 1);
    if (w[0] == "conf")
      W->changeConf(parseConf(w, 3), {w[1], w[2]});
    else if (w[0] == "text") {
      int64_t v = W->docs[(size_t)d].cur().version + 1;
      std::string t = fmtText(w[2]);
      if (!W->docs[(size_t)d].cur().open)
        W->open(d, t, v);
      else
        W->change(d, t, v, (uint64_t)v);
    } else if (w[0] == "closedoc") {
      if (W->docs[(size_t)d].cur().open)
        W->close(d);
    } else if (w[0] == "fmt")
      W->ask("format", d, 0, 0, {"fmt"});
    else
      return false;
    return true;
  };
}
Register rC16("C16", genC16, setupC16);

// ------------------------------------------------------------------- C18
void genC18(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("noworker", G.chance(0.05));
  P.set("noerr", G.chance(0.04));
  P.set("linger", G.chance(0.3) ? "0.5" : "0");
  P.set("wdelay", G.range(0, 3));
  MixOpts O;
  O.minOps = 1;
  O.maxOps = G.chance(0.2) ? 50 : 16;
  O.pFaults = G.chance(0.5) ? 0 : 0.6;
  O.pConf = G.chance(0.5) ? 0.15 : 0.03;
  O.pEval = 0.6;
  O.pFormat = 0.12;
  O.pWait = G.chance(0.5) ? 0.05 : 0.3;
  genMix(P, G, O);
  // cut at any point, before or in the middle of what goes on
  if (G.chance(0.5))
    P.ops.resize((size_t)G.range(1, (int64_t)P.ops.size()));
  if (G.chance(0.4))
    P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 30)
                                                : G.range(30, 3000)));
  static const std::vector<std::string> e = {"end shutdown", "end exit",
                                             "end eof", "end die"};
  P.ops.push_back(G.pick(e));
}
void judgeEnd() {
  for (auto &w : W->workers) {
    if (w->hadFault)
      continue;
    // what is still in its pipe
    if (w->in.f && w->in.f->pipe->writers > 0)
      violate("worker-left", w->name + "'s input is still open when the "
                                       "server has ended");
    // it was writing when the server went, or was killed by somebody
    bool sigpipe = w->gone && w->p->status == 13;
    if (w->gone && w->p->status && !sigpipe)
      continue;
    if (!w->told) {
      w->fp.feed(w->in.f ? w->in.f->pipe->buf : w->unread);
      if (w->fp.bad || (w->fp.rest() && !sigpipe))
        violate("bad-output", "the last message to " + w->name +
                                  " is incomplete");
      for (auto &b : w->fp.bodies) {
        bool bad;
        json::Value v = parseJson(b, &bad);
        if (v.getAsObject() && str(v.getAsObject(), "method") == "exit")
          w->told = true;
      }
    }
    if (!w->told)
      violate("worker-left", w->name + " was not told to exit");
    probe("worker-told");
  }
  for (auto &f : W->fmts)
    if (!f->gone)
      violate("formatter-left", f->name + " is still running when the server "
                                          "has ended");
  probe(("ended-" + W->endMode).c_str());
}
void setupC18(const Plan &P) {
  setupMix(P);
  W->atEnd = judgeEnd;
}
Register rC18("C18", genC18, setupC18);
} // namespace
