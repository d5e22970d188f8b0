// C19: path links and definitions over a changing, failing file system.
#include "full_world.h"
#include <algorithm>
#include <cerrno>
#include <sys/stat.h>

using namespace fw;

namespace {
struct Node {
  char kind = 'f'; // file, dir, link, odd (a device)
  std::string to;  // of a link
  int err = 0;     // examining it fails
};
using Tree = std::map<std::string, Node>;
struct Version {
  int64_t t = 0; // since when
  Tree tree;
};
struct Literal {
  size_t a = 0, b = 0; // in the text
  std::string path;    // empty: interpolated
};
struct FsState {
  std::vector<Version> v;
  std::vector<uint64_t> pending; // mutations to come
  double pmut = 0, pfault = 0;
  std::vector<int64_t> faults;
  std::map<std::string, std::vector<Literal>> lits; // by text
  Tree &now() { return v.back().tree; }
};
FsState *F;
const std::vector<std::string> &names() {
  static const std::vector<std::string> v = {
      "a.nix", "b.nix", "sub", "x.nix", "deep", "ln", "lf", "dang", "loop",
      "up",    "dev",   "dd",  "locked", "bad", "o",  "f.nix", "w",
      "default.nix", "nosuch", "A.nix", "c+1_d-2.nix", "dk"};
  return v;
}
Tree baseTree(uint64_t seed) {
  Gen g(seed);
  Tree t;
  auto dir = [&](const char *p) { t[p] = {'d', "", 0}; };
  auto file = [&](const char *p, double c = 0.85) {
    if (g.chance(c))
      t[p] = {'f', "", 0};
  };
  auto link = [&](const char *p, const char *to) {
    if (g.chance(0.9))
      t[p] = {'l', to, 0};
  };
  dir("/w");
  dir("/w/sub");
  dir("/w/sub/deep");
  dir("/o");
  file("/w/a.nix");
  file("/w/b.nix");
  file("/w/c+1_d-2.nix");
  file("/w/default.nix", 0.5);
  file("/w/sub/default.nix", 0.6);
  file("/w/sub/x.nix");
  file("/w/sub/deep/default.nix", 0.6);
  file("/o/f.nix");
  file("/o/default.nix", 0.6);
  link("/w/ln", "sub");
  link("/w/lf", g.chance(0.5) ? "a.nix" : "/w/sub/x.nix");
  link("/w/dang", "nowhere/at/all");
  link("/w/loop", "loop");
  link("/w/up", "..");
  link("/w/sub/ln", "/o");
  t["/w/dev"] = {'o', "", 0};
  if (g.chance(0.5)) {
    dir("/w/dd");
    dir("/w/dd/default.nix");
  }
  if (g.chance(0.6)) { // a default.nix that is a link
    static const std::vector<std::string> to = {
        "nowhere.nix", "../a.nix", "default.nix", "/o", "x.nix", "../dang"};
    dir("/w/dk");
    t["/w/dk/default.nix"] = {'l', g.pick(to), 0};
  }
  dir("/w/locked");
  file("/w/locked/default.nix");
  if (g.chance(0.7))
    t["/w/locked"].err = -1; // what is below cannot be looked at
  t["/w/bad"] = {'f', "", g.chance(0.8) ? EIO : 0};
  return t;
}
void mutate(Tree &t, uint64_t seed) {
  Gen g(seed);
  auto any = [&] {
    auto it = t.begin();
    std::advance(it, g.range(0, (int64_t)t.size() - 1));
    return it->first;
  };
  auto drop = [&](const std::string &p) {
    for (auto it = t.begin(); it != t.end();)
      if (it->first == p || it->first.rfind(p + "/", 0) == 0)
        it = t.erase(it);
      else
        ++it;
  };
  if (t.empty()) {
    t = baseTree(seed);
    return;
  }
  std::string p = any();
  switch (g.range(0, 7)) {
  case 0:
  case 1:
    drop(p);
    break;
  case 2: { // another kind
    Node n;
    static const std::vector<std::string> to = {"a.nix", "sub", "/o", "..",
                                                "/w/sub/deep", "gone", "."};
    char k = "fdlo"[g.range(0, 3)];
    n.kind = k;
    if (k == 'l')
      n.to = g.pick(to);
    drop(p);
    t[p] = n;
    break;
  }
  case 3: { // an error, or the end of it
    static const std::vector<int> es = {EIO, EACCES, ELOOP, ENAMETOOLONG, -1,
                                        EPERM, ESTALE, ENOMEM};
    t[p].err = t[p].err ? 0 : g.pick(es);
    break;
  }
  case 4:
    for (auto &[k, n] : t)
      n.err = 0;
    break;
  default: { // something new
    std::vector<std::string> ds = {""};
    for (auto &[k, n] : t)
      if (n.kind == 'd')
        ds.push_back(k);
    std::string q = g.pick(ds) + "/" + g.pick(names());
    if (!t.count(q))
      t[q] = {g.chance(0.7) ? 'f' : 'd', "", 0};
  }
  }
}
/// Examining one component, its directory being known to exist.
int look(const Tree &t, const std::string &p, unsigned &mode) {
  size_t s = p.rfind('/');
  auto d = t.find(p.substr(0, s));
  if (d != t.end() && d->second.err == -1)
    return EACCES;
  auto it = t.find(p);
  if (it == t.end())
    return ENOENT;
  if (it->second.err > 0)
    return it->second.err;
  char k = it->second.kind;
  mode = k == 'f' ? S_IFREG : k == 'd' ? S_IFDIR : k == 'l' ? S_IFLNK : S_IFCHR;
  return 0;
}
/// The file a path denotes in a tree; errno or 0.
int resolve(const Tree &t, const std::string &path, std::string &out,
            unsigned &mode) {
  std::vector<std::string> todo;
  auto push = [&](const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i <= s.size()) {
      size_t j = s.find('/', i);
      if (j == s.npos)
        j = s.size();
      if (j > i)
        v.push_back(s.substr(i, j - i));
      i = j + 1;
    }
    todo.insert(todo.end(), v.rbegin(), v.rend());
  };
  push(path);
  out = "";
  mode = S_IFDIR;
  int links = 0;
  while (!todo.empty()) {
    std::string c = todo.back();
    todo.pop_back();
    if (mode != S_IFDIR)
      return ENOTDIR;
    if (c == ".")
      continue;
    if (c == "..") {
      size_t s = out.rfind('/');
      out = s == out.npos ? "" : out.substr(0, s);
      continue;
    }
    if (c.size() > 255)
      return ENAMETOOLONG;
    std::string nx = out + "/" + c;
    if (nx.size() > 4096)
      return ENAMETOOLONG;
    if (int e = look(t, nx, mode))
      return e;
    if (mode == S_IFLNK) {
      if (++links > 40)
        return ELOOP;
      const std::string &to = t.at(nx).to;
      if (!to.empty() && to[0] == '/')
        out = "";
      push(to);
      mode = S_IFDIR;
      continue;
    }
    out = nx;
  }
  if (out.empty())
    out = "/";
  return 0;
}
std::string lexical(const std::string &p) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i <= p.size()) {
    size_t j = p.find('/', i);
    if (j == p.npos)
      j = p.size();
    std::string c = p.substr(i, j - i);
    if (c == "..") {
      if (!v.empty())
        v.pop_back();
    } else if (!c.empty() && c != ".")
      v.push_back(c);
    i = j + 1;
  }
  std::string s;
  for (auto &c : v)
    s += "/" + c;
  return s.empty() ? "/" : s;
}
/// What a literal in a document at `doc` denotes: "" nothing. Like Nix, "."
/// and ".." are removed without looking at the file system; the directory is
/// taken as written or without links.
std::string denotes(const Tree &t, const std::string &doc,
                    const std::string &lit, bool real, bool &broken) {
  std::string dir = doc.substr(0, doc.rfind('/')), base, out;
  unsigned m;
  if (resolve(t, dir, base, m)) {
    broken = true;
    return "";
  }
  std::string p = lit[0] == '/' ? lit : (real ? base : dir) + "/" + lit;
  p = lexical(p);
  if (resolve(t, p, out, m))
    return "";
  if (m != S_IFDIR)
    return out;
  std::string d = (out == "/" ? "" : out) + "/default.nix", r;
  if (resolve(t, d, r, m))
    return "";
  return r;
}

std::string docText(uint64_t seed, std::vector<Literal> &lits) {
  Gen g(seed);
  std::string s = "# " + n2s((int64_t)seed) + "\n{ x, y, ... }:\n{\n";
  int n = (int)g.range(1, 9);
  auto lit = [&] {
    std::string p;
    double r = g.unit();
    p = r < 0.6 ? "./" : r < 0.8 ? "../" : "/";
    int k = (int)g.range(1, g.chance(0.2) ? 5 : 2);
    if (p == "/")
      p += g.chance(0.7) ? "w/" : g.chance(0.5) ? "o/" : "";
    for (int i = 0; i < k; ++i) {
      double z = g.unit();
      if (z < 0.12)
        p += "..";
      else if (z < 0.2)
        p += ".";
      else if (z < 0.22)
        p += std::string((size_t)g.range(250, 260), 'n');
      else
        p += g.pick(names());
      if (i + 1 < k)
        p += "/";
    }
    if (g.chance(0.01))
      while (p.size() < 4090)
        p += "/" + std::string((size_t)g.range(1, 200), 'q');
    Literal l;
    l.a = s.size();
    s += p;
    l.b = s.size();
    l.path = p;
    lits.push_back(l);
  };
  for (int i = 0; i < n; ++i) {
    s += "  v" + n2s(i) + " = ";
    switch (g.range(0, 6)) {
    case 0:
      s += "import ";
      lit();
      s += " { }";
      break;
    case 1:
      s += "[ ";
      for (int64_t k = g.range(1, 3); k > 0; --k) {
        lit();
        s += " ";
      }
      s += "]";
      break;
    case 2:
      s += "f { path = ";
      lit();
      s += "; }";
      break;
    case 3: { // not a literal
      Literal l;
      l.a = s.size();
      s += "./${x}/a.nix";
      l.b = s.size();
      lits.push_back(l);
      break;
    }
    case 4:
      s += "\"\xc3\xa9\xf0\x9f\x98\x80\" + ";
      lit();
      break;
    default:
      lit();
    }
    s += ";\n";
  }
  return s + "}\n";
}

struct Verdict {
  bool ok = true;
  std::string why;
};
/// Is `target` ("" nothing) right for this literal?
Verdict judgeTarget(const Req &r, const Literal &l, const std::string &target) {
  const std::string &doc = W->docs[(size_t)r.doc].path;
  if (l.path.empty()) {
    if (target.empty())
      return {};
    return {false, "an interpolated path is resolved to " + target};
  }
  std::vector<const Tree *> trees;
  for (size_t i = 0; i < F->v.size(); ++i)
    if (F->v[i].t <= r.tReply &&
        (i + 1 == F->v.size() || F->v[i + 1].t >= r.tSent))
      trees.push_back(&F->v[i].tree);
  bool faulty = false;
  for (int64_t t : F->faults)
    faulty |= t >= r.tSent && t <= r.tReply;
  if (target.empty()) {
    if (faulty || trees.size() != 1)
      return {};
    bool broken = false;
    std::string a = denotes(*trees[0], doc, l.path, false, broken),
                b = denotes(*trees[0], doc, l.path, true, broken);
    if (broken || a.empty() || b.empty() || l.path.size() > 4000)
      return {};
    return {false, "nothing is given for " + l.path + ", which denotes " + a};
  }
  // it has to exist at some time
  bool exists = false, same = false;
  std::string want;
  for (auto *t : trees) {
    std::string there;
    unsigned m;
    if (resolve(*t, target, there, m))
      continue;
    exists = true;
    bool broken = false;
    for (bool real : {false, true}) {
      std::string d = denotes(*t, doc, l.path, real, broken);
      want = d;
      same |= d == there;
    }
  }
  if (!exists)
    return {false, l.path + " is resolved to " + target +
                       ", which does not exist"};
  if (trees.size() == 1 && !same)
    return {false, l.path + " is resolved to " + target + ", but denotes " +
                       (want.empty() ? "nothing" : want)};
  probe(trees.size() == 1 ? "target-exact" : "target-while-changing");
  return {};
}
std::string uriPath(const std::string &u) {
  if (u.rfind("file://", 0) != 0)
    violate("wrong-target", "the target " + u + " is no file");
  std::string s = u.substr(7), r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += s[i];
  return r;
}
json::Value rangeAt(const std::string &t, size_t a, size_t b) {
  auto [l1, c1] = lspPos(t, a);
  auto [l2, c2] = lspPos(t, b);
  return json::Object{{"start", json::Object{{"line", l1}, {"character", c1}}},
                      {"end", json::Object{{"line", l2}, {"character", c2}}}};
}
/// Does the reply fit this version of the document?
Verdict fits(const Req &r, const DocState &st) {
  auto &lits = F->lits[st.text];
  if (r.kind == "links") {
    std::map<std::string, std::string> got;
    if (!r.err)
      if (auto *a = r.result.getAsArray())
        for (auto &x : *a) {
          const json::Object *o = x.getAsObject();
          std::string rg = dump(*o->get("range"));
          if (got.count(rg))
            return {false, "two links at " + rg};
          got[rg] = uriPath(str(o, "target"));
        }
    for (auto &l : lits) {
      std::string rg = dump(rangeAt(st.text, l.a, l.b)), target;
      auto it = got.find(rg);
      if (it != got.end()) {
        target = it->second;
        got.erase(it);
      }
      Verdict v = judgeTarget(r, l, target);
      if (!v.ok)
        return v;
    }
    if (!got.empty())
      return {false, "a link where there is no path, at " + got.begin()->first};
    return {};
  }
  // definition
  std::vector<json::Value> locs;
  if (!r.err) {
    if (auto *a = r.result.getAsArray())
      for (auto &x : *a)
        locs.push_back(x);
    else if (r.result.getAsObject())
      locs.push_back(r.result);
  }
  if (locs.size() > 1)
    return {false, "more than one definition"};
  for (auto &l : lits)
    if (std::pair(r.line, r.ch) >= lspPos(st.text, l.a) &&
        std::pair(r.line, r.ch) < lspPos(st.text, l.b)) {
      if (l.path.empty())
        return {};
      return judgeTarget(
          r, l, locs.empty() ? "" : uriPath(str(locs[0].getAsObject(), "uri")));
    }
  return {};
}
void judge19(Req &r) {
  if (r.kind != "links" && r.kind != "definition")
    return;
  Verdict v;
  bool any = false;
  for (auto *st : W->docs[(size_t)r.doc].window(r.at, r.repliedAt)) {
    if (!st->open)
      return;
    v = fits(r, *st);
    any |= v.ok;
    if (any)
      break;
  }
  if (!any)
    violate("wrong-target", r.kind + " in " + W->docs[(size_t)r.doc].path + ": " +
                                v.why + "; reply " +
                                (r.err ? "error " + r.errMsg
                                       : dump(r.result).substr(0, 500)));
  probe(r.kind == "links" ? "links-checked" : "definition-checked");
}
void genC19(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("capConfig", 0);
  P.set("noworker", G.chance(0.8));
  P.set("tree", G.range(1, 1000000));
  int nd = (int)G.range(1, 3);
  P.set("docs", nd);
  P.set("pmut", G.chance(0.5) ? "0.05" : "0.4");
  P.set("pfault", G.chance(0.3) ? "0.1" : G.chance(0.2) ? "0.01" : "0");
  std::vector<bool> open((size_t)nd, false);
  P.ops.push_back("init");
  int n = (int)G.range(3, 22);
  double pm = G.chance(0.3) ? 0 : G.chance(0.5) ? 0.15 : 0.4;
  for (int i = 0; i < n; ++i) {
    size_t d = (size_t)G.range(0, nd - 1);
    std::string D = n2s((int64_t)d);
    if (!open[d] || G.chance(0.12)) {
      P.ops.push_back("text " + D + " " + n2s(G.range(1, 1000000)));
      open[d] = true;
    } else if (G.chance(0.03)) {
      P.ops.push_back("closedoc " + D);
      open[d] = false;
    } else if (G.chance(0.5))
      P.ops.push_back("links " + D);
    else
      P.ops.push_back("def " + D + " " + n2s(G.range(0, 99999)));
    if (G.chance(pm)) {
      std::string s = "mut";
      for (int64_t k = G.range(1, 4); k > 0; --k)
        s += " " + n2s(G.range(1, 1000000));
      P.ops.insert(P.ops.end() - (G.chance(0.5) ? 1 : 0), s);
    }
    if (G.chance(0.2))
      P.ops.push_back("sync");
  }
  genEnd(P, G, G.chance(0.6));
}
void setupC19(const Plan &P) {
  F = new FsState();
  F->v.push_back({0, baseTree((uint64_t)P.geti("tree"))});
  F->pmut = P.getd("pmut", 0);
  F->pfault = P.getd("pfault", 0);
  auto before = [] {
    if (!F->pending.empty() && flip('F', F->pmut)) {
      Version v{now(), F->now()};
      mutate(v.tree, F->pending[0]);
      F->pending.erase(F->pending.begin());
      F->v.push_back(std::move(v));
      faultCount("fs-changes");
      logf("the file system changes");
    }
    if (W->calm || !F->pfault)
      return 0;
    if (!fault("fs-error", F->pfault))
      return 0;
    static const std::vector<int> es = {EIO, EACCES, ELOOP, ENAMETOOLONG,
                                        ENOMEM, ESTALE, EPERM};
    F->faults.push_back(now());
    return es[(size_t)pickn('E', (int)es.size())];
  };
  FS.stat = [before](const std::string &p, bool, unsigned &mode) {
    if (int e = before())
      return e;
    int e = look(F->now(), p, mode);
    return e;
  };
  FS.readlink = [](const std::string &p, std::string &to) {
    auto it = F->now().find(p);
    if (it == F->now().end())
      return ENOENT;
    if (it->second.kind != 'l')
      return EINVAL;
    to = it->second.to;
    return 0;
  };
  start(P, (int)P.geti("docs"), baseArgs(P));
  static const std::vector<std::string> places = {
      "/w/doc0.nix", "/w/sub/doc1.nix", "/w/ln/doc2.nix"};
  for (size_t i = 0; i < W->docs.size(); ++i) {
    W->docs[i].path = places[i];
    W->docs[i].uri = "file://" + places[i];
  }
  W->onReply = judge19;
  W->onOp = [](const std::vector<std::string> &w) {
    int d = (int)num(w, 1);
    if (w[0] == "mut") {
      for (size_t i = 1; i < w.size(); ++i)
        F->pending.push_back((uint64_t)num(w, i));
      return true;
    }
    if (d >= (int)W->docs.size())
      return false;
    const DocState &st = W->docs[(size_t)d].cur();
    if (w[0] == "text") {
      std::vector<Literal> l;
      std::string t = docText((uint64_t)num(w, 2), l);
      F->lits[t] = l;
      int64_t v = st.version + 1;
      if (!st.open)
        W->open(d, t, v);
      else
        W->change(d, t, v, (uint64_t)v);
    } else if (w[0] == "closedoc") {
      if (st.open)
        W->close(d);
    } else if (w[0] == "links")
      W->ask("links", d, 0, 0, {"links"});
    else if (w[0] == "def") {
      auto &l = F->lits[st.text];
      if (!st.open || l.empty())
        return true;
      Gen g((uint64_t)num(w, 2));
      const Literal &x = g.pick(l);
      size_t off = (size_t)g.range((int64_t)x.a, (int64_t)x.b - 1);
      auto [ln, ch] = lspPos(st.text, off);
      W->ask("definition", d, ln, ch, {"def"});
    } else
      return false;
    return true;
  };
}
Register rC19("C19", genC19, setupC19);
} // namespace
