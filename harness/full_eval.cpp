// Evaluated information: what is asked, and what is made of the answers.
#include "full_eval.h"
#include <algorithm>
#include <cstring>

using namespace fw;
namespace fw {
static const char *ID = "IDIDID";
std::string fillId(std::string s, const std::string &id) {
  for (size_t i = 0; (i = s.find(ID, i)) != s.npos;)
    s.replace(i, 6, id);
  return s;
}
// ------------------------------------------------------------------ layout
Layout genLayout(uint64_t seed) {
  Gen g(seed);
  Layout L;
  std::string &t = L.text;
  std::vector<std::string> nest; // path of the enclosing attribute sets
  std::string ind = "  ";
  int n = 0;
  auto line = [&](const std::string &s) {
    t += ind;
    if (g.chance(0.15))
      t += "/* \xf0\x9f\x98\x80\xc3\xa9 */ ";
    t += s + "\n";
  };
  auto full = [&](std::vector<std::string> p) {
    std::vector<std::string> r = nest;
    r.insert(r.end(), p.begin(), p.end());
    if (!r.empty() && r[0] == "config")
      r.erase(r.begin());
    return r;
  };
  auto add = [&](const std::string &kind, const std::string &mark, int cur,
                 int a, int b, std::vector<std::string> path) {
    Slot s;
    s.kind = kind;
    s.mark = mark;
    s.cur = cur;
    s.a = a;
    s.b = b;
    s.ha = a;
    s.hb = b;
    s.path = std::move(path);
    L.slots.push_back(s);
  };
  t = "{ pkgs, lib, config, ... }:\n{\n";
  int items = (int)g.range(4, 12);
  bool any[8] = {};
  for (int i = 0; i < items; ++i) {
    std::string k = n2s(n++);
    int what = (int)g.range(0, 9);
    if (i < 3)
      what = i * 2;
    if (what < 8)
      any[what] = true;
    switch (what) {
    case 0:
    case 1: { // an option
      std::vector<std::string> p;
      if (what == 1 && nest.empty() && g.chance(0.5))
        p.push_back("config");
      p.push_back("o" + k + "_" + ID);
      for (int j = (int)g.range(0, 2); j > 0; --j)
        p.push_back("s" + k + n2s(j));
      if (g.chance(0.25))
        p.push_back("services");
      std::string s = pathStr(p);
      line(s + " = " + k + ";");
      // every component is a place
      size_t at = 0;
      for (size_t j = 0; j < p.size(); ++j) {
        if (p[j] != "config") {
          std::vector<std::string> q(p.begin(), p.begin() + j + 1);
          int e = (int)(at + p[j].size());
          add("opt", s, g.chance(0.5) ? e : (int)at + 1, (int)at, e, full(q));
        }
        at += p[j].size() + 1;
      }
      break;
    }
    case 2: { // a selection
      std::string base = g.chance(0.6) ? "pkgs" : "lib";
      std::vector<std::string> p = {base, "p" + k + "_" + ID};
      for (int j = (int)g.range(0, 2); j > 0; --j)
        p.push_back("c" + k + n2s(j));
      std::string s = pathStr(p);
      line("v" + k + " = " + s + ";");
      std::vector<std::string> q = p;
      if (base == "pkgs")
        q.erase(q.begin());
      int e = (int)s.size(), b = e - (int)p.back().size();
      add("sel", s, g.chance(0.5) ? e : b + 1, b, e, q);
      L.slots.back().ha = 0;
      L.slots.back().hb = e;
      break;
    }
    case 3:
    case 4: { // packages in scope
      int m = (int)g.range(1, 4);
      std::string s = "with pkgs; [";
      std::vector<std::string> vs;
      for (int j = 0; j < m; ++j) {
        vs.push_back("w" + k + n2s(j) + "_" + ID);
        s += " " + vs.back();
      }
      s += " ]";
      line("v" + k + " = " + s + ";");
      for (auto &v : vs) {
        int a = (int)s.find(v);
        add("var", s, a + (g.chance(0.5) ? (int)v.size() : 1), a,
            a + (int)v.size(), {v});
        L.inlay.push_back(v);
      }
      break;
    }
    case 5: { // with another scope
      std::string w = g.chance(0.5) ? "lib" : "pkgs.sub_" + std::string(ID);
      std::string v = "k" + k + "_" + ID;
      std::string s = "with " + w + "; " + v;
      line("v" + k + " = " + s + ";");
      int a = (int)(s.size() - v.size());
      std::vector<std::string> q = {w == "lib" ? w : w.substr(5), v};
      add("var", s, (int)s.size(), a, (int)s.size(), q);
      break;
    }
    case 6: { // a local variable
      std::string v = "loc" + k + "_" + ID;
      std::string s = "let " + v + " = 1; in " + v;
      line("v" + k + " = " + s + ";");
      int a = (int)(s.size() - v.size());
      add("local", s, (int)s.size(), a, (int)s.size(), {v});
      L.slots.back().ha = 4;
      L.slots.back().hb = 4 + (int)v.size();
      break;
    }
    case 7: { // nothing there yet
      std::string v = "e" + k + "_" + ID;
      std::string s = v + " = {  };";
      line(s);
      int c = (int)s.find("{") + 2;
      add("optempty", s, c, c, c, full({v}));
      break;
    }
    case 8: { // quoted
      std::string v = "q " + k + " " + ID;
      std::string s = "\"" + v + "\".z = 1;";
      line(s);
      int z = (int)s.find("z");
      add("opt", s, z + 1, z, z + 1, full({v, "z"}));
      break;
    }
    case 9: // nesting
      if (nest.size() < 2) {
        bool cfg = nest.empty() && !any[1] && g.chance(0.3);
        std::string v = cfg ? "config" : "n" + k + "_" + ID;
        line(v + " = {");
        nest.push_back(v);
        ind += "  ";
      } else if (!nest.empty()) {
        nest.pop_back();
        ind = ind.substr(2);
        line("};");
      }
      break;
    }
    while (!nest.empty() && g.chance(0.1)) {
      nest.pop_back();
      ind = ind.substr(2);
      line("};");
    }
  }
  // an unfinished selection: at most one, at the end
  if (g.chance(0.35)) {
    std::string p = "d_" + std::string(ID);
    std::string s = "pkgs." + p + ". ;";
    line("vd = " + s);
    int c = (int)s.find(". ;") + 1;
    add("dot", s, c, c, c, {p});
  } else if (g.chance(0.3)) {
    std::string p = "od_" + std::string(ID);
    std::string s = p + ".x. = 1;";
    line(s);
    int c = (int)s.find(". =") + 1;
    add("optdot", s, c, c, c, full({p, "x"}));
  }
  while (!nest.empty()) {
    nest.pop_back();
    ind = ind.substr(2);
    line("};");
  }
  t += "}\n";
  return L;
}
static Layout &layout() {
  static Layout *L = nullptr;
  if (!L)
    L = new Layout(genLayout((uint64_t)W->P.geti("layout")));
  return *L;
}
static std::string idText(int64_t id) {
  std::string s = n2s(id);
  while (s.size() < 6)
    s = "0" + s;
  return s;
}
/// The place of a slot in a version's text.
static std::pair<int, int> slotPos(const Slot &s, const std::string &text,
                                   const std::string &id, int off) {
  size_t at = text.find(fillId(s.mark, id));
  if (at == text.npos)
    violate("simulator", "slot not found: " + s.mark);
  return lspPos(text, at + (size_t)off);
}
static json::Value rangeOf(const Slot &s, const std::string &text,
                           const std::string &id, int a, int b) {
  auto p = slotPos(s, text, id, a), q = slotPos(s, text, id, b);
  return json::Object{
      {"start", json::Object{{"line", p.first}, {"character", p.second}}},
      {"end", json::Object{{"line", q.first}, {"character", q.second}}}};
}

// ------------------------------------------------------------------ workers
std::string setName(const Worker &w) {
  for (auto &e : w.exprs) {
    if (e == "import <nixpkgs> { }" || e.rfind("pkgs_", 0) == 0)
      return "@pkgs";
    if (e.rfind("(let pkgs", 0) == 0)
      return "nixos";
    size_t p = e.find("_e");
    if (p != e.npos)
      return e.substr(0, p);
  }
  return "";
}
static json::Value maybe(Gen &g, double p, const std::string &s) {
  return g.chance(p) ? json::Value(s) : json::Value(nullptr);
}
static json::Value optDesc(const std::string &tok, Gen &g) {
  json::Object o;
  json::Array decl;
  for (int i = g.chance(0.7) ? 1 : (int)g.range(0, 3); i > 0; --i)
    decl.push_back(location("/opt/" + tok + "_" + n2s(i) + ".nix", i));
  o["Description"] = maybe(g, 0.85, "odesc-" + tok);
  o["Declarations"] = std::move(decl);
  o["Definitions"] = json::Array{};
  o["Example"] = maybe(g, 0.5, g.chance(0.3) ? "{ a = \"${" + tok + "}\\\"; }"
                                             : "ex-" + tok);
  o["Default"] = maybe(g, 0.5, "def-" + tok);
  if (g.chance(0.1))
    o["Default"] = o["Example"];
  o["Type"] = g.chance(0.85)
                  ? json::Value(json::Object{
                        {"Description", maybe(g, 0.9, "td-" + tok)},
                        {"Name", maybe(g, 0.9, "tn-" + tok)}})
                  : json::Value(nullptr);
  return std::move(o);
}
static std::string pkgMarkdown(const json::Value &res);
static std::string optMarkdown(const json::Value &res);
void evalAnswer(Ask &a, Worker &w) {
  std::string tok = "w" + n2s(w.idx) + "s" + n2s(a.serial) + "x";
  Gen g((uint64_t)a.serial * 7919 + (uint64_t)W->P.geti("answers"));
  if (g.chance(W->P.getd("errs", 0))) {
    a.err = true;
    return;
  }
  if (a.method == "attrset/attrpathInfo") {
    json::Object d{{"Name", maybe(g, 0.9, "name-" + tok)},
                   {"PName", maybe(g, 0.9, "pname-" + tok)},
                   {"Version", maybe(g, 0.8, "v-" + tok)},
                   {"Description", maybe(g, 0.8, "desc-" + tok)},
                   {"LongDescription", maybe(g, 0.5, "long-" + tok)},
                   {"Position", maybe(g, 0.7, "/nix/" + tok + ".nix:" +
                                                  n2s(g.range(1, 500)))},
                   {"Homepage", maybe(g, 0.6, "http://" + tok)}};
    json::Object r{{"Meta", json::Object{{"Type", 6}, {"Location", nullptr}}},
                   {"PackageDesc", std::move(d)}};
    if (g.chance(0.4))
      r["Meta"] = json::Object{
          {"Type", 6},
          {"Location", location("/loc/" + tok + ".nix", (int)g.range(0, 99))}};
    if (g.chance(0.4))
      r["ValueDesc"] = json::Object{
          {"doc", g.chance(0.8) ? "vdoc-" + tok : ""},
          {"arity", g.range(0, 3)},
          {"args", g.chance(0.5) ? json::Value(json::Array{"a" + tok, "b"})
                                 : json::Value(json::Array{})}};
    a.result = std::move(r);
    // every text says where it comes from
    std::string md = pkgMarkdown(a.result);
    if (!md.empty() && md.find(tok) == md.npos)
      (*(*a.result.getAsObject())["PackageDesc"].getAsObject())["Name"] =
          "name-" + tok;
  } else if (a.method == "attrset/optionInfo") {
    a.result = optDesc(tok, g);
    if (optMarkdown(a.result).find(tok) == std::string::npos)
      (*a.result.getAsObject())["Description"] = "odesc-" + tok;
  } else if (a.method == "attrset/attrpathComplete") {
    json::Array r;
    int n = (int)(g.chance(0.7) ? g.range(0, 5) : g.range(25, 70));
    for (int i = 0; i < n; ++i)
      r.push_back((g.chance(0.85) ? a.prefix : std::string("zz")) + "i" +
                  n2s(i) + tok);
    a.result = std::move(r);
  } else if (a.method == "attrset/optionComplete") {
    json::Array r;
    int n = (int)(g.chance(0.75) ? g.range(0, 4) : g.range(10, 40));
    for (int i = 0; i < n; ++i) {
      json::Object f{{"Name", a.prefix + "i" + n2s(i) + tok},
                     {"Description", nullptr}};
      if (g.chance(0.6))
        f["Description"] = optDesc(tok, g);
      r.push_back(std::move(f));
    }
    a.result = std::move(r);
  }
}

// ------------------------------------------------------------------ operations
std::string genEvalConf(Gen &G) {
  std::string s;
  for (const char *n : {"nixos", "hm", "darwin", "A", "zz"})
    if (G.chance(0.3))
      s += std::string(" opt=") + n + ":" + n + "_e" + n2s(G.range(0, 999));
  if (G.chance(0.4))
    s += " pkgs=pkgs_" + n2s(G.range(0, 999));
  if (G.chance(0.2))
    s += " fmt=" + genFmt(G);
  if (G.chance(0.2))
    s += " sup=sema-unused-def-let";
  return s;
}
void genEval(Plan &P, Gen &G, const EvalOpts &O) {
  int nd = (int)G.range(1, O.maxDocs);
  int lay = (int)G.range(1, 1000000);
  Layout L = genLayout((uint64_t)lay);
  P.set("docs", nd);
  P.set("layout", lay);
  P.set("answers", G.range(0, 1000000));
  P.ops.push_back("init");
  if (G.chance(0.7))
    P.ops.push_back("initialized");
  if (G.chance(0.5) && O.pConf > 0)
    P.ops.push_back("conf " + genHow(G, 0.1) + genEvalConf(G));
  std::vector<int> ver(nd, 0);
  std::vector<bool> open(nd, false);
  auto req = [&](int d) -> std::string {
    double x = G.unit();
    if (x < O.pLocal)
      return "l " + G.pick(localKinds()) + " " + n2s(d) + " " +
             n2s(G.range(0, 9999));
    x = G.unit();
    if (x < O.pFormat)
      return "l format " + n2s(d) + " 0";
    if (x < O.pFormat + O.pResolve)
      return "resolve " + n2s(G.range(0, 9999));
    if (G.chance(0.12))
      return "q inlay " + n2s(d) + " " +
             n2s(G.chance(0.5) ? 0 : G.range(1, 99999));
    int s = (int)G.range(0, (int64_t)L.slots.size() - 1);
    static const std::vector<std::string> ks = {"hover", "definition",
                                                "completion", "completion"};
    const std::string &sk = L.slots[s].kind;
    std::string k = G.pick(ks);
    if (sk == "dot" || sk == "optdot" || sk == "optempty")
      k = "completion";
    else if (!L.slots[s].completes && k == "completion")
      k = "hover";
    return "q " + k + " " + n2s(d) + " " + n2s(s);
  };
  int n = (int)G.range(O.minOps, O.maxOps);
  for (int i = 0; i < n; ++i) {
    int d = (int)G.range(0, nd - 1);
    double x = G.unit();
    if (!open[d]) {
      P.ops.push_back("eopen " + n2s(d) + " " + n2s(++ver[d]));
      open[d] = true;
    } else if (x < O.pDoc) {
      if (G.chance(0.1)) {
        P.ops.push_back("close " + n2s(d));
        open[d] = false;
      } else
        P.ops.push_back("echange " + n2s(d) + " " + n2s(++ver[d]) + " " +
                        n2s(G.range(0, 9999)));
    } else if (x < O.pDoc + O.pConf) {
      P.ops.push_back("conf " + genHow(G, 0.2) + genEvalConf(G));
    } else if (x < O.pDoc + O.pConf + O.pKill) {
      P.ops.push_back("wkill " + n2s(G.range(0, 3)));
    } else {
      int burst = G.chance(O.pBurst) ? (int)G.range(2, 10) : 1;
      bool same = G.chance(0.3);
      std::string r = req(d);
      for (int k = 0; k < burst; ++k)
        P.ops.push_back(same ? r : req(d));
    }
    if (G.chance(O.pWait))
      P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 40)
                                                  : G.range(40, 4000)));
  }
}
struct SeenItem {
  json::Value item;
  std::vector<std::string> path;
};
static std::vector<SeenItem> &items() {
  static auto *v = new std::vector<SeenItem>();
  return *v;
}
/// The range a request for hints names: 0 means all of the document.
using Pos2 = std::pair<int, int>;
static std::pair<Pos2, Pos2> inlayRange(uint64_t seed) {
  if (seed == 0)
    return {{0, 0}, {10000, 0}};
  std::string t = fillId(layout().text, "000000"); // all versions look alike
  Gen g(seed);
  auto some = [&] {
    size_t o = (size_t)g.range(0, (int64_t)t.size());
    while (o < t.size() && ((unsigned char)t[o] & 0xc0) == 0x80)
      o++;
    Pos2 p = lspPos(t, o);
    if (g.chance(0.3))
      p.second = 0;
    return p;
  };
  Pos2 a = some(), b = some();
  return {std::min(a, b), std::max(a, b)};
}
/// Whether a name lies in the range: 1, outside of it: -1, or across its ends.
static int inRange(const std::pair<Pos2, Pos2> &r, const std::string &text,
                   const std::string &name) {
  size_t o = text.find(name);
  Pos2 a = lspPos(text, o), b = lspPos(text, o + name.size());
  if (r.first <= a && b <= r.second)
    return 1;
  return b <= r.first || r.second <= a ? -1 : 0;
}
bool runEvalOp(const std::vector<std::string> &w) {
  if (w[0] == "conf") {
    W->changeConf(parseConf(w, 3), {w[1], w[2]});
    return true;
  }
  if (w[0] == "resolve") {
    if (items().empty())
      return true;
    size_t i = (size_t)num(w, 1) % items().size();
    W->request("resolve", "completionItem/resolve", items()[i].item, -1,
               {"resolve", n2s((int64_t)i)});
    return true;
  }
  if (w[0] == "close") {
    W->close((int)num(w, 1));
    return true;
  }
  if (w[0] == "eopen" || w[0] == "echange") {
    int d = (int)num(w, 1);
    int64_t v = num(w, 2), id = d * 100000 + v;
    std::string t = fillId(layout().text, idText(id));
    if (w[0] == "eopen")
      W->open(d, t, v, (int)id);
    else
      W->change(d, t, v, (uint64_t)num(w, 3), (int)id);
    return true;
  }
  if (w[0] == "q") {
    int d = (int)num(w, 2);
    int l = 0, c = 0;
    Pos2 end;
    if (w[1] == "inlay") {
      auto rg = inlayRange((uint64_t)num(w, 3));
      std::tie(l, c) = rg.first;
      end = rg.second;
    } else {
      const Slot &s = layout().slots[(size_t)num(w, 3)];
      std::string id = "000000"; // the same place in every version
      std::tie(l, c) = slotPos(s, fillId(layout().text, id), id, s.cur);
    }
    W->ask(w[1], d, l, c, w, end);
    return true;
  }
  if (w[0] == "l") {
    int d = (int)num(w, 2);
    auto [l, c] = somePos(W->docs[d].cur().text, (uint64_t)num(w, 3));
    W->ask(w[1], d, l, c, w);
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ judging
static std::vector<std::string> fillPath(const std::vector<std::string> &p,
                                         const std::string &id) {
  std::vector<std::string> r;
  for (auto &x : p)
    r.push_back(fillId(x, id));
  return r;
}
/// Serial of the ask a text was made of, or -1; violates if there are two.
static int tokenIn(const std::string &s) {
  int found = -1;
  for (size_t i = 0; i + 3 < s.size(); ++i) {
    if (s[i] != 'w' || !isdigit((unsigned char)s[i + 1]))
      continue;
    size_t j = i + 1;
    while (j < s.size() && isdigit((unsigned char)s[j]))
      j++;
    if (j >= s.size() || s[j] != 's')
      continue;
    size_t k = j + 1;
    while (k < s.size() && isdigit((unsigned char)s[k]))
      k++;
    if (k == j + 1 || k >= s.size() || s[k] != 'x')
      continue;
    int n = atoi(s.c_str() + j + 1);
    if (found >= 0 && found != n)
      violate("misattributed", "one answer mixes those to two queries: " +
                                   s.substr(0, 400));
    found = n;
    i = k;
  }
  return found;
}
struct Judge {
  Req &r;
  std::vector<const DocState *> win;
  bool mayBeClosed = false;
  std::string what() const {
    std::string s = r.kind + " request " + n2s(r.id);
    if (r.kind != "resolve" && r.kind != "inlay")
      s += " at " + n2s(r.line) + ":" + n2s(r.ch) + " (" +
           layout().slots[(size_t)num(r.op, 3)].kind + ")";
    return s;
  }
  [[noreturn]] void bad(const char *c, const std::string &m) {
    violate(c, what() + ": " + m + "; reply " +
                   (r.err ? "error " + r.errMsg : dump(r.result).substr(0, 700)));
  }
  bool during(const Ask &a) const {
    return a.t >= r.tSent && a.t <= r.tReply && a.at >= r.at;
  }
  bool failed(const Ask &a) const {
    return a.err || a.lost || !a.answered || !a.fault.empty();
  }
  /// Did a worker answer such a question with something malformed? What is
  /// made of that carries no token.
  bool malformed(const std::string &method) {
    for (auto &a : W->asks)
      if (a.method == method && during(a) && !a.fault.empty())
        return true;
    return false;
  }
  /// The ask a token in the reply refers to, checked.
  Ask &claim(int serial, const std::string &method,
             const std::vector<std::vector<std::string>> &paths,
             const std::string &prefix, bool pkgs, bool again = false) {
    if (serial < 0 || serial >= (int)W->asks.size())
      bad("misattributed", "an answer nobody gave");
    Ask &a = W->asks[(size_t)serial];
    std::string q = "answer #" + n2s(serial) + " to " + a.method + " " +
                    pathStr(a.path) + "|" + a.prefix;
    if (a.claimed && !again)
      bad("misattributed", q + " belongs to another request");
    if (a.method != method)
      bad("misattributed", q + " does not answer a " + method);
    if (std::find(paths.begin(), paths.end(), a.path) == paths.end() ||
        a.prefix != prefix)
      bad("misattributed", q + " is used, but the attribute path is " +
                               pathStr(paths.empty()
                                           ? std::vector<std::string>{"(none)"}
                                           : paths.back()) +
                               "|" + prefix);
    if (!during(a))
      bad("misattributed", q + " was asked for at another time");
    bool isPkgs = setName(*W->workers[(size_t)a.worker]) == "@pkgs";
    if (isPkgs != pkgs)
      bad("misattributed", q + " comes from the wrong worker");
    if (a.err || a.lost)
      bad("misattributed", q + " was never given");
    a.claimed = true;
    return a;
  }
  /// Workers that have to be taken into account.
  std::vector<Worker *> must(bool pkgs) {
    std::vector<std::pair<std::string, Worker *>> v;
    if (W->ended)
      return {};
    for (auto &w : W->workers) {
      if (w->gone || w->hadFault || w->doomed())
        continue;
      std::string n = setName(*w);
      if (n.empty() || (n == "@pkgs") != pkgs)
        continue;
      bool early = false;
      for (auto &a : W->asks)
        if (a.worker == w->idx && a.method == "attrset/evalExpr" &&
            a.t < r.tSent)
          early = true;
      if (early)
        v.push_back({n, w.get()});
    }
    std::sort(v.begin(), v.end());
    std::vector<Worker *> res;
    for (auto &[n, w] : v)
      res.push_back(w);
    return res;
  }
  /// Did this worker fail to answer the question (or answer nothing)?
  bool excused(Worker &w, const std::string &method,
               const std::vector<std::vector<std::string>> &paths,
               const std::vector<std::string> &prefixes,
               const std::function<bool(Ask &)> &nothing) {
    bool asked = false;
    for (auto &a : W->asks) {
      if (a.worker != w.idx || a.method != method || !during(a) || a.claimed)
        continue;
      bool here = false; // with the path (and prefix) in one of the versions
      for (size_t k = 0; k < paths.size(); ++k)
        here |= paths[k] == a.path &&
                a.prefix == (prefixes.empty() ? "" : prefixes[k]);
      if (!here)
        continue;
      asked = true;
      if (failed(a) || nothing(a))
        return true; // not claimed: it may be that of a similar request

    }
    if (asked)
      bad("lost-information", w.name + " (" + setName(w) +
                                  ") was asked and answered, but that is not "
                                  "in the reply");
    bad("lost-information", w.name + " (" + setName(w) + ") was not asked");
  }
  void run();
  void hover(const Slot &s);
  void definition(const Slot &s);
  void completion(const Slot &s);
  void inlay();
  void resolve();
  std::vector<std::vector<std::string>> paths(const Slot &s) {
    std::vector<std::vector<std::string>> v;
    for (auto *x : win)
      if (x->open)
        v.push_back(fillPath(s.path, idText(x->tid)));
    return v;
  }
  /// The version whose path was asked for.
  const DocState *stateOf(const Slot &s, const std::vector<std::string> &p) {
    for (auto *x : win)
      if (x->open && fillPath(s.path, idText(x->tid)) == p)
        return x;
    return nullptr;
  }
};
static std::string sget(const json::Object *o, const char *k) {
  return str(o, k);
}
static std::string pkgMarkdown(const json::Value &res) {
  const json::Object *o = res.getAsObject();
  const json::Object *d = o->getObject("PackageDesc");
  auto has = [&](const char *k) { return d && d->getString(k).has_value(); };
  std::string s;
  if (has("Name"))
    s += "`" + sget(d, "Name") + "`\n";
  if (has("Homepage"))
    s += "[homepage](" + sget(d, "Homepage") + ")\n";
  if (has("Description")) {
    s += "## Description\n\n" + sget(d, "Description") + "\n\n";
    if (has("LongDescription"))
      s += "\n\n" + sget(d, "LongDescription") + "\n\n";
  }
  if (const json::Object *v = o->getObject("ValueDesc")) {
    if (!s.empty())
      s += "\n";
    if (!sget(v, "doc").empty())
      s += sget(v, "doc") + "\n\n";
    if (int64_t n = v->getInteger("arity").value_or(0))
      s += "**Arity:** " + n2s(n) + "\n";
    const json::Array *a = v->getArray("args");
    if (a && !a->empty()) {
      s += "**Args:** ";
      for (size_t i = 0; i < a->size(); ++i)
        s += (i ? ", `" : "`") + (*a)[i].getAsString()->str() + "`";
      s += "\n";
    }
  }
  return s;
}
static std::string typeText(const json::Object *o) {
  const json::Object *t = o->getObject("Type");
  if (!t)
    return "? (missing type)";
  return sget(t, "Name") + " (" + sget(t, "Description") + ")";
}
static std::string optMarkdown(const json::Value &res) {
  const json::Object *o = res.getAsObject();
  std::string s = typeText(o);
  if (o->getString("Description"))
    s += "\n\n" + sget(o, "Description");
  return s;
}
static bool isOpt(const Slot &s) {
  return s.kind.rfind("opt", 0) == 0;
}
void Judge::hover(const Slot &s) {
  bool opt = isOpt(s);
  std::string m = opt ? "attrset/optionInfo" : "attrset/attrpathInfo";
  auto ps = paths(s);
  const json::Object *o = r.err ? nullptr : obj(r.result);
  if (s.kind == "local") {
    if (o)
      bad("misattributed", "information about a local variable");
    return;
  }
  if (!o) {
    if (mayBeClosed)
      return;
    for (Worker *w : must(!opt))
      excused(*w, m, ps, {}, [&](Ask &a) {
        return !opt && pkgMarkdown(a.result).empty();
      });
    return;
  }
  const json::Object *c = o->getObject("contents");
  std::string v = sget(c, "value");
  int t = tokenIn(v);
  if (t < 0 && malformed(m))
    return;
  if (t < 0)
    bad("misattributed", "text of no answer");
  Ask &a = claim(t, m, ps, "", !opt);
  std::string want = opt ? optMarkdown(a.result) : pkgMarkdown(a.result);
  if (v != want)
    bad("wrong-content", "expected " + want);
  const DocState *st = stateOf(s, a.path);
  const json::Value *rg = o->get("range");
  json::Value wr = rangeOf(s, st->text, idText(st->tid), s.ha, s.hb);
  if (!rg || *rg != wr)
    bad("wrong-content", "expected the range " + dump(wr));
  if (opt) { // the first set in order that has an answer
    std::string mine = setName(*W->workers[(size_t)a.worker]);
    for (Worker *w : must(false))
      if (setName(*w) < mine)
        excused(*w, m, ps, {}, [](Ask &) { return false; });
  }
}
static std::vector<json::Value> asList(const json::Value &v) {
  std::vector<json::Value> r;
  if (auto *a = v.getAsArray())
    for (auto &x : *a)
      r.push_back(x);
  else if (v.getAsObject())
    r.push_back(v);
  return r;
}
void Judge::definition(const Slot &s) {
  bool opt = isOpt(s);
  std::string m = opt ? "attrset/optionInfo" : "attrset/attrpathInfo";
  auto ps = paths(s);
  std::vector<json::Value> locs;
  if (!r.err)
    locs = asList(r.result);
  size_t i = 0;
  if (s.kind == "var" || s.kind == "local") {
    if (locs.empty()) {
      if (!mayBeClosed)
        bad("lost-information", "no static definition");
      return;
    }
    // the binding, or the `with` that may provide the variable
    bool ok = false;
    json::Value last = nullptr;
    for (auto *x : win) {
      if (!x->open)
        continue;
      int a = s.kind == "var" ? 0 : s.ha, b = s.kind == "var" ? 4 : s.hb;
      last = json::Object{
          {"uri", W->docs[(size_t)r.doc].uri},
          {"range", rangeOf(s, x->text, idText(x->tid), a, b)}};
      ok |= last == locs[0];
    }
    if (!ok)
      bad("wrong-content", "expected first " + dump(last));
    i = 1;
    if (s.kind == "local") {
      if (locs.size() != 1)
        bad("misattributed", "more than one definition of a local variable");
      return;
    }
  } else if (locs.empty() && mayBeClosed)
    return;
  if (!opt) {
    if (i == locs.size()) {
      for (Worker *w : must(true))
        excused(*w, m, ps, {}, [](Ask &a) {
          const json::Object *o = a.result.getAsObject();
          const json::Object *d = o->getObject("PackageDesc");
          const json::Object *me = o->getObject("Meta");
          return !(d && d->getString("Position")) &&
                 !(me && me->getObject("Location"));
        });
      return;
    }
    int t = tokenIn(dump(locs[i]));
    if (t < 0 && malformed(m))
      return;
    Ask &a = claim(t, m, ps, "", true);
    if (!a.fault.empty())
      return;
    const json::Object *ro = a.result.getAsObject();
    const json::Object *d = ro->getObject("PackageDesc");
    json::Value want = nullptr;
    if (d && d->getString("Position")) {
      std::string p = sget(d, "Position");
      size_t c = p.find(':');
      int line = atoi(p.c_str() + c + 1);
      json::Object at{{"line", line}, {"character", 0}};
      want = json::Object{{"uri", "file://" + p.substr(0, c)},
                          {"range", json::Object{{"start", json::Value(json::Object(at))},
                                                 {"end", json::Value(json::Object(at))}}}};
    } else
      want = *ro->getObject("Meta")->get("Location");
    if (locs[i] != want || locs.size() != i + 1)
      bad("wrong-content", "expected " + dump(want));
    return;
  }
  // options: the declarations of every set, in order
  std::vector<std::string> seen;
  while (i < locs.size()) {
    int t = tokenIn(dump(locs[i]));
    if (t < 0 && malformed(m))
      return;
    if (t < 0)
      bad("misattributed", "a location nobody gave");
    Ask &a = claim(t, m, ps, "", false);
    const json::Array *d = a.result.getAsObject()->getArray("Declarations");
    for (size_t k = 0; k < d->size(); ++k, ++i)
      if (i >= locs.size() || locs[i] != (*d)[k])
        bad("wrong-content", "expected " + dump((*d)[k]));
    std::string n = setName(*W->workers[(size_t)a.worker]);
    if (!seen.empty() && seen.back() >= n)
      bad("wrong-content", "option sets out of order or repeated");
    seen.push_back(n);
  }
  if (mayBeClosed && seen.empty())
    return;
  for (Worker *w : must(false))
    if (std::find(seen.begin(), seen.end(), setName(*w)) == seen.end())
      excused(*w, m, ps, {}, [](Ask &a) {
        return a.result.getAsObject()->getArray("Declarations")->empty();
      });
}
static std::string escapeSnippet(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '\\' || c == '$' || c == '}')
      r += '\\';
    r += c;
  }
  return r;
}
/// The items one option set's answer has to become.
static std::vector<json::Object> optionItems(Ask &a, const std::string &set,
                                             const json::Value *range) {
  std::vector<json::Object> v;
  for (auto &f : *a.result.getAsArray()) {
    const json::Object *o = f.getAsObject();
    std::string name = sget(o, "Name");
    const json::Object *d = o->getObject("Description");
    auto edit = [&](json::Object &it, const std::string &t) {
      if (range)
        it["textEdit"] = json::Object{{"range", *range}, {"newText", t}};
    };
    if (!d) {
      json::Object it{{"label", name}, {"detail", set}};
      edit(it, name);
      v.push_back(std::move(it));
      continue;
    }
    bool ex = d->getString("Example").has_value();
    bool df = d->getString("Default").has_value() &&
              !(ex && sget(d, "Default") == sget(d, "Example"));
    auto emit = [&](const std::string &val, const char *src, bool both) {
      std::string ins =
          W->capSnippet ? name + " = ${1:" + escapeSnippet(val) + "};"
                        : name + " = " + val + ";";
      json::Object it{{"label", both ? name + " (" + src + ")" : name},
                      {"detail", set + " | " + typeText(d)},
                      {"documentation",
                       sget(d, "Description").empty()
                           ? json::Value(nullptr)
                           : json::Value(json::Object{
                                 {"kind", "markdown"},
                                 {"value", sget(d, "Description")}})},
                      {"insertText", ins},
                      {"insertTextFormat", W->capSnippet ? 2 : 1}};
      edit(it, ins);
      v.push_back(std::move(it));
    };
    if (ex)
      emit(sget(d, "Example"), "example", df);
    if (df)
      emit(sget(d, "Default"), "default", ex);
    if (!ex && !df)
      emit("", "", false);
  }
  return v;
}
void Judge::completion(const Slot &s) {
  bool opt = isOpt(s);
  std::string m = opt ? "attrset/optionComplete" : "attrset/attrpathComplete";
  const json::Object *o = r.err ? nullptr : obj(r.result);
  const json::Array *its = o ? o->getArray("items") : nullptr;
  bool inc = o && o->getBoolean("isIncomplete").value_or(false);
  std::vector<const json::Object *> v;
  if (its)
    for (auto &x : *its)
      v.push_back(x.getAsObject());
  // scope and prefix in every version
  bool hole = s.kind == "dot" || s.kind == "optdot" || s.kind == "optempty";
  std::vector<std::vector<std::string>> scopes;
  std::vector<std::string> prefixes;
  for (auto &p : paths(s)) {
    auto q = p;
    prefixes.push_back(hole ? "" : q.back());
    if (!hole)
      q.pop_back();
    scopes.push_back(q);
  }
  auto stateFor = [&](const Ask &a) -> const DocState * {
    size_t k = 0;
    for (auto *x : win)
      if (x->open) {
        if (scopes[k] == a.path && prefixes[k] == a.prefix)
          return x;
        k++;
      }
    return nullptr;
  };
  if (v.size() > 30)
    bad("wrong-content", "more items than promised");
  if (s.kind == "local") {
    bool found = false;
    for (auto *it : v)
      for (auto *x : win)
        if (x->open && sget(it, "label") == fillPath(s.path, idText(x->tid))[0])
          found = true;
    if (!found && !mayBeClosed)
      bad("lost-information", "the local variable is not offered");
    return;
  }
  size_t i = 0;
  std::vector<std::string> seen;
  int askedState = -1;
  while (i < v.size()) {
    int t = tokenIn(dump(json::Value(json::Object(*v[i]))));
    if (t < 0 && malformed(m))
      return;
    if (t < 0 || t >= (int)W->asks.size())
      bad("misattributed", "an item of no answer: " +
                               dump(json::Value(json::Object(*v[i]))));
    Ask &a0 = W->asks[(size_t)t];
    const DocState *st = stateFor(a0);
    Ask &a = claim(t, m, st ? std::vector<std::vector<std::string>>{a0.path}
                            : scopes,
                   st ? a0.prefix : prefixes.empty() ? "" : prefixes[0], !opt);
    if (askedState >= 0 && st->tid != askedState)
      bad("misattributed", "items for two versions of the document");
    askedState = st->tid;
    std::string set = setName(*W->workers[(size_t)a.worker]);
    json::Value rg = rangeOf(s, st->text, idText(st->tid), s.a, s.b);
    std::vector<json::Object> want;
    if (opt)
      want = optionItems(a, set, hole ? nullptr : &rg);
    else
      for (auto &n : *a.result.getAsArray()) {
        std::string nm = n.getAsString()->str();
        if (nm.rfind(a.prefix, 0) == 0)
          want.push_back(json::Object{
              {"label", nm},
              {"textEdit", json::Object{{"range", rg}, {"newText", nm}}}});
      }
    for (auto &wi : want) {
      if (i >= v.size()) {
        if (v.size() != 30 || !inc)
          bad("lost-information", "the item " +
                                      dump(json::Value(json::Object(wi))) +
                                      " is missing");
        break;
      }
      for (auto &[k, x] : wi) {
        if (s.kind == "dot" && k == "textEdit" &&
            sget(v[i]->getObject(k), "newText") ==
                sget(x.getAsObject(), "newText"))
          continue;
        const json::Value *g = v[i]->get(k);
        if (!g || *g != x)
          bad("wrong-content", "item " + n2s((int64_t)i) + ": expected " +
                                   dump(json::Value(json::Object(wi))) +
                                   ", got " +
                                   dump(json::Value(json::Object(*v[i]))));
      }
      if (!opt) {
        bool pb;
        json::Value d = parseJson(sget(v[i], "data"), &pb);
        json::Array sc;
        for (auto &x : a.path)
          sc.push_back(x);
        json::Value wd = json::Object{{"Scope", std::move(sc)},
                                      {"Prefix", a.prefix}};
        if (pb || d != wd)
          bad("wrong-content", "data of item " + n2s((int64_t)i) +
                                   " should be " + dump(wd));
        std::vector<std::string> p = a.path;
        p.push_back(sget(v[i], "label"));
        if (items().size() < 300)
          items().push_back({json::Value(json::Object(*v[i])), p});
      } else if (items().size() < 300 && i % 5 == 0)
        items().push_back({json::Value(json::Object(*v[i])), {}});
      i++;
    }
    if (!seen.empty() && seen.back() >= set)
      bad("wrong-content", "option sets out of order or repeated");
    seen.push_back(set);
  }
  if (inc) {
    if (v.size() != 30)
      bad("lost-information", "called incomplete with " +
                                  n2s((int64_t)v.size()) + " items");
    return;
  }
  if (mayBeClosed && v.empty())
    return;
  for (Worker *w : must(!opt))
    if (std::find(seen.begin(), seen.end(), setName(*w)) == seen.end()) {
      excused(*w, m, scopes, prefixes, [&](Ask &a) {
          if (a.result.getAsArray()->empty())
            return true;
          for (auto &x : *a.result.getAsArray())
            if (opt || x.getAsString()->starts_with(a.prefix))
              return false;
          return true;
        });
    }
}
void Judge::inlay() {
  auto range = inlayRange((uint64_t)num(r.op, 3));
  auto hints = r.err ? std::vector<json::Value>() : asList(r.result);
  const DocState *st = nullptr;
  std::set<std::string> got;
  for (auto &h : hints) {
    const json::Object *o = h.getAsObject();
    std::string label = sget(o, "label");
    int t = tokenIn(label);
    if (t < 0 && malformed("attrset/attrpathInfo"))
      return;
    if (t < 0)
      bad("misattributed", "a hint of no answer");
    std::vector<std::vector<std::string>> ps;
    for (auto *x : win)
      if (x->open && (!st || st == x))
        for (auto &n : layout().inlay)
          ps.push_back({fillId(n, idText(x->tid))});
    Ask &a = claim(t, "attrset/attrpathInfo", ps, "", true);
    for (auto *x : win)
      if (x->open)
        for (auto &n : layout().inlay)
          if (fillId(n, idText(x->tid)) == a.path[0])
            st = x;
    const json::Object *d = a.result.getAsObject()->getObject("PackageDesc");
    if (label != ": " + sget(d, "Version"))
      bad("wrong-content", "expected the version " + sget(d, "Version"));
    if (!got.insert(a.path[0]).second)
      bad("wrong-content", "two hints for " + a.path[0]);
    size_t e = st->text.find(a.path[0]) + a.path[0].size();
    auto [l, c] = lspPos(st->text, e);
    json::Value pos = json::Object{{"line", l}, {"character", c}};
    if (!o->get("position") || *o->get("position") != pos)
      bad("wrong-content", "the hint for " + a.path[0] + " is not at " +
                               dump(pos));
    if (inRange(range, st->text, a.path[0]) < 0)
      bad("wrong-content", "a hint for " + a.path[0] +
                               ", which is outside of the range asked for");
  }
  if (mayBeClosed && hints.empty())
    return;
  for (Worker *w : must(true))
    for (auto &n : layout().inlay) {
      if (inRange(range, fillId(layout().text, "000000"),
                  fillId(n, "000000")) < 1)
        continue;
      std::vector<std::vector<std::string>> ps;
      for (auto *x : win)
        if (x->open && (!st || st == x))
          ps.push_back({fillId(n, idText(x->tid))});
      bool have = false;
      for (auto &p : ps)
        have |= got.count(p[0]) > 0;
      if (!have)
        excused(*w, "attrset/attrpathInfo", ps, {}, [](Ask &a) {
          const json::Object *d =
              a.result.getAsObject()->getObject("PackageDesc");
          return !d || !d->getString("Version");
        });
    }
}
void Judge::resolve() {
  SeenItem &it = items()[(size_t)num(r.op, 1)];
  const json::Object *o = r.err ? nullptr : obj(r.result);
  if (!o)
    bad("lost-information", "an item this server made cannot be resolved");
  const json::Object *was = it.item.getAsObject();
  for (const char *k : {"label", "kind", "textEdit", "insertText", "sortText",
                        "filterText", "data", "insertTextFormat"}) {
    const json::Value *x = was->get(k), *y = o->get(k);
    if (!!x != !!y || (x && *x != *y))
      bad("wrong-content", std::string("the item's ") + k + " changed");
  }
  if (it.path.empty()) {
    for (const char *k : {"detail", "documentation"}) {
      const json::Value *x = was->get(k), *y = o->get(k);
      json::Value a = x ? *x : nullptr, b = y ? *y : nullptr;
      if (a != b)
        bad("wrong-content", std::string("the item's ") + k + " changed");
    }
    return;
  }
  std::string det = sget(o, "detail"),
              doc = sget(o->getObject("documentation"), "value");
  int t = tokenIn(det + " " + doc);
  if (t < 0) {
    if (malformed("attrset/attrpathInfo"))
      return;
    if (!det.empty() && det != "?")
      bad("misattributed", "detail of no answer");
    for (Worker *w : must(true))
      excused(*w, "attrset/attrpathInfo", {it.path}, {}, [](Ask &a) {
        const json::Object *d = a.result.getAsObject()->getObject("PackageDesc");
        return !d || (!d->getString("Version") && !d->getString("Description") &&
                      !d->getString("LongDescription"));
      });
    return;
  }
  Ask &a = claim(t, "attrset/attrpathInfo", {it.path}, "", true);
  const json::Object *d = a.result.getAsObject()->getObject("PackageDesc");
  std::string wdet = d->getString("Version") ? sget(d, "Version") : "?";
  std::string wdoc = sget(d, "Description") + "\n\n" + sget(d, "LongDescription");
  if (det != wdet || doc != wdoc)
    bad("wrong-content", "expected " + wdet + " / " + wdoc);
}
void Judge::run() {
  if (r.kind == "resolve")
    return resolve();
  win = W->docs[(size_t)r.doc].window(r.at, r.repliedAt);
  for (auto *x : win)
    mayBeClosed |= !x->open;
  if (r.kind == "inlay")
    return inlay();
  const Slot &s = layout().slots[(size_t)num(r.op, 3)];
  if (r.kind == "hover")
    hover(s);
  else if (r.kind == "definition")
    definition(s);
  else
    completion(s);
  probe((r.kind + "-" + s.kind).c_str());
}
void judgeEval(Req &r) {
  if (r.op.empty() || (r.op[0] != "q" && r.op[0] != "resolve"))
    return;
  Judge j{r, {}};
  j.run();
}
void setupEval(const Plan &P) {
  start(P, (int)P.geti("docs", 1), baseArgs(P));
  W->onAsk = evalAnswer;
  W->onOp = runEvalOp;
  W->onReply = judgeEval;
}
} // namespace fw

// ------------------------------------------------------------------- C14
static void genC14(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capSnippet", G.chance(0.5));
  P.set("errs", G.chance(0.4) ? "0.15" : "0");
  EvalOpts O;
  O.maxDocs = G.chance(0.3) ? 3 : 1;
  O.pBurst = G.chance(0.5) ? 0.5 : 0.15;
  O.pWait = G.chance(0.5) ? 0.3 : 0.1;
  genEval(P, G, O);
  if (G.chance(0.3)) {
    static const std::vector<std::string> f = {
        "err", "wrongtype", "dup", "half", "badid", "crash", "stall",
        "unsolicited", "badjson", "eofout"};
    for (int n = (int)G.range(1, 4); n > 0; --n)
      P.ops.insert(P.ops.begin() + 1,
                   "wfault " + n2s(G.range(0, 2)) + " " + n2s(G.range(1, 8)) +
                       " " + G.pick(f) + " " + n2s(G.range(0, 9999)));
  }
  genEnd(P, G, G.chance(0.8));
}
static Register rC14("C14", genC14, setupEval);
