// Everything at once: documents, requests, configuration, workers, formatters.
#include "full_mix.h"
#include <algorithm>

using namespace fw;
namespace fw {
// ------------------------------------------------------------------ texts
static const std::vector<std::string> &weird() {
  static const std::vector<std::string> v = {
      "", " ", "\n", "{", "}", "{}", "{ }:", "{ a, b ? }: a", "rec", "rec {",
      "{ inherit; }", "{ inherit \"a\" b; }", "{ inherit ${x} a; }",
      "{ inherit (foo) \"a\" ${b} c; }", "let inherit \"a\"; in a",
      "let inherit (builtins) map map; in map", "{ a.b = 1; a.b = 2; }",
      "{ a = { b = 1; }; a.c = 2; }", "rec { a.b = a; a.c = b; }",
      "{ ${ { a = 1; } } = 2; }", "{ ${ { a.b = { c = 1; }; } }.x = 2; }",
      "{ \"${ { a = 1; } }\" = { z = 3; }; }",
      "{ a.${b}.c = 1; x.\"y z\".w = 2; }", "{ a..b = 1; }", "{ .a = 1; }",
      "{ a. = 1; }", "a.", "a.b.", "pkgs.", "with pkgs; [ a. ]", "with ;",
      "with pkgs;", "with lib; with pkgs; [ hello ]", "with (x: x); y",
      "let in", "let in 1", "let a = 1; in", "let a = ; in a",
      "let { body = 1; }", "let { a = b; b = a; body = a; }", "(", ")", "((1)",
      "[", "[ 1 2", "x:", "x: x", "{ x }@x: x", "a@{ a, ... }: a",
      "{ a, a }: a", "{ ... }@args: args.x", "{ a ? a, b ? { c = a; } }: b",
      "\"", "\"a", "\"${", "\"${a", "\"${a}", "''", "''a", "''${a", "'' ''${ '' ",
      "''$''\\n'''''", "\"\\", "''\\", "\"a\\\"", "$", "${", "${a}", "@", "?",
      "a ? b", "a ? b.${c}.\"d\"", "a or b", "a.b or", "a.b or c", "!", "-", "- 1",
      "1.", ".5", "1.e", "9999999999999999999999", "1e999", "1.5e", "/", "/a",
      "./", "./a", "./.", "~/x", "<", "<a>", "<nixpkgs/x>", "./${a}/b", "./a/${",
      "http://a", "http:", "a:b", "if", "if a", "if a then", "if a then b else",
      "assert", "assert a", "assert a;", "a b c d", "a ++ b", "a // ", "-> a",
      "a -> b -> c", "a == b == c", "a < b < c", "1 + + 2", "#", "# c", "/*",
      "/* a", "/**/", "/***/ 1", "or", "or or or", "{ or = 1; }.or", "null.a",
      "__curPos", "builtins.map", "builtins.nosuch", "true.b", "throw \"x\"",
      "\xef\xbb\xbf{ }", "{ a = \"\xf0\x9f\x98\x80\"; }",
      "\xe6\xbc\xa2\xe5\xad\x97", "a\r\nb\r\n", "\t\t{\t}", "{ a = 1 }",
      "{ a = 1; b }", "{ a b = 1; }", "{ 1 = 2; }", "{ a: b }", "let x: x",
      "{ config, lib, ... }: { config = { a.b = lib.mkIf true 1; }; }",
      "{ a = { }; b = [ ]; c = a: b: c; d = { e }: e; }",
      "[{\"a\": 1, \"b\": [true, null, 1.5]}]",
      "{\"a\": {\"b\": \"c\\n${d}\"}}", "rec { inherit a; a = 1; }",
      "let a = a; in rec { inherit (a) a; }", "{ a = b: { inherit b; }; }",
      "(let a = 1; in with a; b)", "with a; with b; c", "with with a; b; c",
      "{ inherit (with pkgs; x) y; }", "map (x: x.y) [ ]", "toString 1",
      "let toString = 1; in toString", "rec { toString = 1; x = toString; }",
      "import ./a.nix", "import ./sub { }", "x: { inherit x; y = x.y.z or 0; }",
      "let f = { x, y ? x }: x; in f { x = 1; }", "a.${\"b\"}", "{ \"a\" = 1; }.a",
      "{ \"a.b\".c = 1; }", "{ \"\" = 1; }", "{ ${\"a\"} = 1; a = 2; }",
      "let ${\"a\"} = 1; in a", "let ${a} = 1; in a", "{ ${null} = 1; }",
      "a.\"b\".c", "a.\"${b}\".c", "(a.b).c", "{ a = 1; }.a.b", "f.a.b c.d",
      "with pkgs; hello.overrideAttrs (o: { inherit (o) src; })"};
  return v;
}
std::string specText(const std::string &spec, const std::string &cur) {
  Gen g(strtoull(spec.c_str() + 1, nullptr, 10));
  std::string s;
  switch (spec[0]) {
  case 'g':
    return genNix(g.next(), (int)g.range(5, 50));
  case 'm': {
    s = cur;
    int n = (int)g.range(1, 3);
    for (int i = 0; i < n; ++i)
      s = mutateNix(s, g.next());
    return s;
  }
  case 'w':
    s = g.pick(weird());
    if (g.chance(0.3))
      s = "{ x = " + s + "; y = 1; }";
    if (g.chance(0.2))
      s = "let z = 1; in\n" + s + "\n";
    if (g.chance(0.2))
      s = mutateNix(s, g.next());
    return s;
  case 'u':
    return genUnicode(g.next(), (int)g.range(0, 60));
  case 'd': { // deep
    int n = (int)g.range(5, 60);
    static const std::vector<std::pair<std::string, std::string>> w = {
        {"{ a = ", "; }"}, {"(", ")"}, {"[ ", " ]"}, {"let a = 1; in ", ""},
        {"with pkgs; ", ""}, {"x: ", ""}, {"\"${", "}\""}, {"rec { b.c = ", "; }"}};
    std::string tail;
    for (int i = 0; i < n; ++i) {
      auto &p = g.pick(w);
      s += p.first;
      tail = p.second + tail;
    }
    return s + "a" + (g.chance(0.8) ? tail : tail.substr(0, tail.size() / 2));
  }
  case 'o': { // option paths
    static const std::vector<std::string> v = {
        "{ foo.bar = 1; }", "{ config, ... }: { config.foo.bar = 1; }",
        "{ foo = { bar = 1; baz.q = 2; }; }", "{ services.x = { y. = 1; }; }",
        "{ a = 1; }"};
    return g.pick(v);
  }
  case 'b': { // big
    int n = (int)g.range(50, 400);
    s = "{ pkgs, lib, ... }:\n{\n";
    for (int i = 0; i < n; ++i)
      s += "  a" + n2s(i) + " = pkgs.hello" + n2s(i) + "; # " +
           std::string((size_t)g.range(0, 60), 'c') + "\n";
    return s + "}\n";
  }
  }
  return "{ }";
}
static std::string genSpec(Gen &G, bool fresh) {
  const char *k = fresh ? "gggwwwud" : "mmmmgwwud";
  std::string s(1, k[G.next() % strlen(k)]);
  if (G.chance(0.02))
    s = "b";
  return s + n2s(G.range(1, 99999));
}
std::pair<int, int> somePos(const std::string &t, uint64_t seed) {
  Gen g(seed);
  if (g.chance(0.06)) {
    static const std::vector<std::pair<int, int>> odd = {
        {0, 100000}, {100000, 0}, {100000, 100000}, {-1, 0}, {0, -1}, {-5, -5},
        {2147483647, 2147483647}, {0, 0}, {1, 0}, {0, 2147483647}};
    return g.pick(odd);
  }
  size_t o = (size_t)g.range(0, (int64_t)t.size());
  if (g.chance(0.6))
    for (int k = 0; k < 30 && o < t.size() && !isalpha((unsigned char)t[o]); ++k)
      o++;
  while (o < t.size() && ((unsigned char)t[o] & 0xc0) == 0x80)
    o++;
  auto p = lspPos(t, o);
  if (g.chance(0.03))
    p.second += 1; // inside a surrogate pair, or past the end of the line
  return p;
}

// ------------------------------------------------------------------ workers
json::Value pkgInfo(const std::string &tok, int variant) {
  json::Object d{{"Name", "name-" + tok},
                 {"PName", "pname-" + tok},
                 {"Version", "v-" + tok},
                 {"Description", "desc-" + tok},
                 {"LongDescription", "long-" + tok},
                 {"Position", "/nix/" + tok + ".nix:" + n2s(variant % 90 + 3)},
                 {"Homepage", "http://" + tok}};
  if (variant % 5 == 0)
    d["LongDescription"] = nullptr;
  if (variant % 7 == 0)
    d["Homepage"] = nullptr;
  json::Object r{{"Meta", json::Object{{"Type", 6}, {"Location", nullptr}}},
                 {"PackageDesc", std::move(d)},
                 {"ValueDesc", nullptr}};
  return std::move(r);
}
json::Value location(const std::string &file, int line) {
  return json::Object{
      {"uri", "file://" + file},
      {"range",
       json::Object{{"start", json::Object{{"line", line}, {"character", 2}}},
                    {"end", json::Object{{"line", line}, {"character", 2}}}}}};
}
json::Value optInfo(const std::string &tok, int variant) {
  json::Object o{
      {"Description", "odesc-" + tok},
      {"Declarations", json::Array{location("/opt/" + tok + ".nix", variant % 9)}},
      {"Definitions", json::Array{}},
      {"Example", "ex-" + tok},
      {"Default", "def-" + tok},
      {"Type", json::Object{{"Description", "tdesc-" + tok},
                            {"Name", "tname-" + tok}}}};
  return std::move(o);
}
void plausible(Ask &a, Worker &w) {
  std::string tok = "w" + n2s(w.idx) + "s" + n2s(a.serial);
  if (a.method == "attrset/attrpathInfo")
    a.result = pkgInfo(tok, a.serial);
  else if (a.method == "attrset/optionInfo")
    a.result = optInfo(tok, a.serial);
  else if (a.method == "attrset/attrpathComplete") {
    json::Array r;
    int n = a.serial % 6 == 0 ? 60 : 3;
    for (int i = 0; i < n; ++i)
      r.push_back(a.prefix + "x" + n2s(i) + tok);
    r.push_back("other" + tok);
    a.result = std::move(r);
  } else if (a.method == "attrset/optionComplete") {
    json::Array r;
    int n = a.serial % 7 == 0 ? 50 : 2;
    for (int i = 0; i < n; ++i) {
      json::Object f{{"Name", a.prefix + "o" + n2s(i) + tok},
                     {"Description", nullptr}};
      if (i % 2)
        f["Description"] = optInfo(tok, i);
      r.push_back(std::move(f));
    }
    a.result = std::move(r);
  }
}

// ------------------------------------------------------------------ operations
const std::vector<std::string> &localKinds() {
  static const std::vector<std::string> v = {
      "symbols", "folding", "tokens", "links", "refs", "highlight", "rename",
      "prepareRename", "codeAction"};
  return v;
}
const std::vector<std::string> &evalKinds() {
  static const std::vector<std::string> v = {"definition", "hover",
                                             "completion", "inlay"};
  return v;
}
static const std::vector<std::string> &faultKinds() {
  static const std::vector<std::string> v = {
      "crash", "exit", "diesoon", "eofout", "eofin", "garbage", "badjson",
      "notobject", "badid", "unsolicited", "stall", "noread", "silent", "deaf",
      "err", "err", "wrongtype", "wrongtype", "badpos", "half", "dup"};
  return v;
}
static const std::vector<std::string> &fmtModes() {
  static const std::vector<std::string> v = {
      "cat", "buffer", "stamp", "slow", "noisy", "big", "upper", "flip", "empty",
      "noread", "noreadfail", "early", "crash", "fail", "crashend", "closeout"};
  return v;
}
std::string genFmt(Gen &G) {
  std::string m = G.pick(fmtModes());
  std::string arg = n2s(m == "big" || m == "noread" ? G.range(0, 200000)
                                                    : G.range(0, 3000));
  if (G.chance(0.08))
    return "nosuchfmt";
  return m + ":" + arg;
}
/// "fmt=MODE:ARG opt=NAME:EXPR pkgs=EXPR sup=KIND" words of a configuration.
std::string genConfWords(Gen &G) {
  std::string s;
  if (G.chance(0.6))
    s += " fmt=" + genFmt(G);
  for (const char *n : {"nixos", "hm", "darwin"})
    if (G.chance(0.35))
      s += std::string(" opt=") + n + ":e" + n2s(G.range(0, 999));
  if (G.chance(0.4))
    s += " pkgs=p" + n2s(G.range(0, 999));
  if (G.chance(0.3))
    s += " sup=sema-unused-def-let";
  if (G.chance(0.2))
    s += " sup=sema-extra-with";
  return s;
}
Conf parseConf(const std::vector<std::string> &w, size_t from) {
  Conf c;
  for (size_t i = from; i < w.size(); ++i) {
    size_t e = w[i].find('=');
    if (e == w[i].npos)
      continue;
    std::string k = w[i].substr(0, e), v = w[i].substr(e + 1);
    if (k == "fmt") {
      c.hasFmt = true;
      size_t p = v.find(':');
      if (v == "-")
        c.fmt = {};
      else if (p == v.npos)
        c.fmt = {v};
      else
        c.fmt = {"simfmt", v.substr(0, p), v.substr(p + 1)};
    } else if (k == "sup")
      c.suppress.push_back(v);
    else if (k == "pkgs")
      c.nixpkgs = v;
    else if (k == "opt") {
      size_t p = v.find(':');
      c.options[v.substr(0, p)] = v.substr(p + 1);
    }
  }
  return c;
}
std::string genHow(Gen &G, double bad) {
  static const std::vector<std::string> b = {
      "error", "null", "notarray", "empty", "nothing", "badtype", "badtype2",
      "badtype3"};
  return (G.chance(bad) ? G.pick(b) : std::string("valid")) + " " +
         n2s(G.chance(0.6) ? 0 : G.range(0, 120));
}
struct Mixer {
  Plan &P;
  Gen &G;
  MixOpts O;
  std::vector<bool> open;
  std::vector<int64_t> ver;
  std::string v(int d) { return n2s(ver[d] += 1); }
  std::string docOp() {
    int d = (int)G.range(0, (int64_t)open.size() - 1);
    std::string D = n2s(d);
    if (!open[d] || G.chance(0.02)) {
      if (G.chance(0.05))
        return "change " + D + " " + genSpec(G, false) + " " + v(d) + " " +
               n2s(G.range(0, 9999));
      open[d] = true;
      return "open " + D + " " + genSpec(G, true) + " " + v(d);
    }
    if (G.chance(0.08)) {
      open[d] = false;
      return "close " + D;
    }
    if (G.chance(0.04)) {
      open[d] = false;
      return "bad " + D + " " + v(d) + " " + n2s(G.range(0, 9999));
    }
    return "change " + D + " " + genSpec(G, false) + " " + v(d) + " " +
           n2s(G.range(0, 9999));
  }
  std::string reqOp() {
    int d = (int)G.range(0, (int64_t)open.size() - 1);
    double x = G.unit();
    if (x < O.pFormat)
      return "req format " + n2s(d) + " 0";
    if (x < O.pFormat + 0.04)
      return "badreq " + n2s(G.range(0, 9999));
    if (x < O.pFormat + 0.09)
      return "resolve " + n2s(G.range(0, 9999));
    const auto &k = G.chance(O.pEval) ? evalKinds() : localKinds();
    return "req " + G.pick(k) + " " + n2s(d) + " " + n2s(G.range(0, 99999));
  }
  void run() {
    int nd = (int)G.range(1, 3);
    P.set("docs", nd + (G.chance(0.2) ? 1 : 0));
    open.assign(nd, false);
    ver.assign(nd, 0);
    P.ops.push_back("init");
    int n = (int)G.range(O.minOps, O.maxOps);
    for (int i = 0; i < n; ++i) {
      double x = G.unit();
      if (x < O.pConf)
        P.ops.push_back("conf " + genHow(G, 0.3) + genConfWords(G));
      else if (x < O.pConf + O.pKill)
        P.ops.push_back("wkill " + n2s(G.range(0, 4)));
      else if (x < O.pConf + O.pKill + O.pDoc || i < 1)
        P.ops.push_back(docOp());
      else {
        int burst = G.chance(0.1) ? (int)G.range(2, 12) : 1;
        for (int k = 0; k < burst; ++k)
          P.ops.push_back(reqOp());
      }
      if (G.chance(O.pWait))
        P.ops.push_back("wait " + n2s(G.chance(0.7) ? G.range(1, 40)
                                                    : G.range(40, 4000)));
      if (G.chance(0.02))
        P.ops.push_back("settle");
    }
    int nf = G.chance(O.pFaults) ? (int)G.range(1, 5) : 0;
    for (int i = 0; i < nf; ++i)
      P.ops.insert(P.ops.begin() + 1,
                   "wfault " + n2s(G.range(0, 3)) + " " +
                       n2s(G.chance(0.1) ? 0 : G.range(1, 6)) + " " +
                       G.pick(faultKinds()) + " " + n2s(G.range(0, 9999)));
  }
};
void genMix(Plan &P, Gen &G, const MixOpts &O) {
  Mixer m{P, G, O, {}, {}};
  m.run();
}
static std::vector<json::Value> &seenItems() {
  static auto *v = new std::vector<json::Value>();
  return *v;
}
void mixReply(Req &r) {
  if (r.kind != "completion" || r.err)
    return;
  if (auto *o = r.result.getAsObject())
    if (auto *a = o->getArray("items"))
      for (auto &x : *a)
        if (seenItems().size() < 200)
          seenItems().push_back(x);
}
static void badRequest(uint64_t seed) {
  Gen g(seed);
  static const std::vector<std::string> ms = {
      "textDocument/definition", "textDocument/documentSymbol",
      "textDocument/foldingRange", "textDocument/semanticTokens/full",
      "textDocument/inlayHint", "textDocument/completion",
      "completionItem/resolve", "textDocument/references",
      "textDocument/documentHighlight", "textDocument/documentLink",
      "textDocument/codeAction", "codeAction/resolve", "textDocument/hover",
      "textDocument/formatting", "textDocument/rename",
      "textDocument/prepareRename", "no/such/method", "shutdownx",
      "textDocument/signatureHelp"};
  static const std::vector<json::Value> ps = {
      nullptr, 7, "text", json::Array{}, json::Array{1, 2}, json::Object{},
      json::Object{{"textDocument", 3}},
      json::Object{{"textDocument", json::Object{{"uri", "nonsense"}}}},
      json::Object{{"textDocument", json::Object{{"uri", "http://a/b"}}},
                   {"position", json::Object{{"line", 0}, {"character", 0}}}},
      json::Object{{"textDocument", json::Object{{"uri", "file:///w/doc0.nix"}}},
                   {"position", "x"}},
      json::Object{{"textDocument", json::Object{{"uri", "file:///w/doc0.nix"}}},
                   {"position", json::Object{{"line", 1.5}, {"character", "a"}}}},
      json::Object{{"label", "x"}, {"data", "{broken"}},
      json::Object{{"label", ""}, {"data", ""}},
      json::Object{{"label", "x"}, {"data", "[1]"}},
      json::Object{{"title", "t"}, {"data", json::Object{{"noogleUrl", 3}}}},
      json::Object{{"title", "t"},
                   {"data", json::Object{{"noogleUrl", "https://x/y"}}}}};
  W->request("bad", g.pick(ms), g.pick(ps));
}
bool runMixOp(const std::vector<std::string> &w) {
  if (w[0] == "conf") {
    W->changeConf(parseConf(w, 3), {w[1], w[2]});
    return true;
  }
  if (w[0] == "badreq") {
    badRequest((uint64_t)num(w, 1));
    return true;
  }
  if (w[0] == "resolve") {
    Gen g((uint64_t)num(w, 1));
    json::Value item = json::Object{{"label", "hello"}};
    if (!seenItems().empty() && g.chance(0.8))
      item = g.pick(seenItems());
    else if (g.chance(0.5))
      item = json::Object{
          {"label", "hello"},
          {"kind", 5},
          {"data", "{\"Prefix\":\"he\",\"Scope\":[\"lib\"]}"}};
    W->request("resolve", "completionItem/resolve", std::move(item));
    return true;
  }
  int d = (int)num(w, w[0] == "req" ? 2 : 1);
  if (w[0] == "req") {
    auto [l, c] = somePos(W->docs[d].cur().text, (uint64_t)num(w, 3));
    uint64_t seed = (uint64_t)num(w, 3);
    if (w[1] == "inlay" && seed % 3 < 2)
      l = c = 0;
    if (seed % 2)
      W->ask(w[1], d, l, c);
    else // a range of any kind
      W->ask(w[1], d, l, c, {}, somePos(W->docs[d].cur().text, seed + 1));
    return true;
  }
  const std::string cur = W->docs[d].cur().text;
  if (w[0] == "open")
    W->open(d, specText(w[2], cur), num(w, 3));
  else if (w[0] == "change")
    W->change(d, specText(w[2], cur), num(w, 3), (uint64_t)num(w, 4));
  else if (w[0] == "bad")
    W->badChange(d, num(w, 2), (uint64_t)num(w, 3));
  else if (w[0] == "close")
    W->close(d);
  else
    return false;
  return true;
}
void setupMix(const Plan &P) {
  start(P, (int)P.geti("docs", 1), baseArgs(P));
  W->onAsk = plausible;
  W->onReply = mixReply;
  W->onOp = runMixOp;
}
} // namespace fw

// ------------------------------------------------------------------- C12
static void genC12(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("noworker", G.chance(0.06));
  P.set("noerr", G.chance(0.04));
  MixOpts O;
  O.maxOps = G.chance(0.2) ? 70 : 30;
  O.pFaults = 0.5;
  genMix(P, G, O);
  genEnd(P, G, G.chance(0.7));
}
static Register rC12("C12", genC12, setupMix);

// ------------------------------------------------------------------- C20
/// Operations of two or three kinds only, close together: what they touch is
/// locked by nothing else, so that a missing or misplaced lock is met.
static void genNarrow(Plan &P, Gen &G) {
  int what = (int)G.range(0, 3);
  P.set("docs", G.range(1, 2));
  int nd = (int)P.geti("docs");
  std::vector<int64_t> ver(nd, 1);
  P.ops.push_back("init");
  auto conf = [&](const std::string &w) {
    P.ops.push_back("conf valid " + n2s(G.chance(0.7) ? 0 : G.range(0, 20)) + w);
  };
  auto spec = [&] { return (what == 0 ? "o" : "g") + n2s(G.range(1, 99999)); };
  if (G.chance(0.5))
    conf(what == 0 ? " opt=nixos:e1" : what == 2 ? " fmt=cat:0" : "");
  for (int d = 0; d < nd; ++d)
    P.ops.push_back("open " + n2s(d) + " " + spec() + " 1");
  if (G.chance(0.7))
    P.ops.push_back("settle");
  static const std::vector<std::string> sets = {"nixos", "hm", "darwin", "x", "y"};
  static const std::vector<std::string> kinds = {"hover", "hover", "completion",
                                                 "definition"};
  int n = (int)G.range(4, 24);
  double pWait = G.chance(0.3) ? 0.05 : 0.5;
  for (int i = 0; i < n; ++i) {
    int d = (int)G.range(0, nd - 1);
    bool c = G.chance(0.35);
    switch (what) {
    case 0: // option sets come while they are asked
      if (c) {
        std::string w;
        for (auto &s : sets)
          if (G.chance(0.4))
            w += " opt=" + s + ":e" + n2s(G.range(0, 99));
        conf(w);
      } else
        P.ops.push_back("req " + G.pick(kinds) + " " + n2s(d) + " " +
                        n2s(G.range(0, 99999)));
      break;
    case 1: // suppressed kinds change while documents do
      if (c)
        conf(G.chance(0.5) ? " sup=sema-unused-def-let" : " sup=sema-extra-with");
      else
        P.ops.push_back("change " + n2s(d) + " " + spec() + " " +
                        n2s(ver[d] += 1) + " " + n2s(G.range(0, 9999)));
      break;
    case 2: // commands change while they run
      if (c)
        conf(" fmt=" + genFmt(G) + (G.chance(0.4) ? " opt=nixos:e2" : ""));
      else
        P.ops.push_back("req format " + n2s(d) + " 0");
      break;
    default: // everything a configuration change touches, and everything else
      if (c)
        conf(genConfWords(G));
      else if (G.chance(0.4))
        P.ops.push_back("change " + n2s(d) + " " + spec() + " " +
                        n2s(ver[d] += 1) + " " + n2s(G.range(0, 9999)));
      else
        P.ops.push_back("req " + G.pick(G.chance(0.6) ? kinds : localKinds()) +
                        " " + n2s(d) + " " + n2s(G.range(0, 99999)));
    }
    if (G.chance(pWait))
      P.ops.push_back("wait " + n2s(G.range(1, 12)));
  }
}
static void genC20(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("memPreempt", G.chance(0.5) ? "0.5" : "5");
  P.set("stall", G.chance(0.3) ? "0" : G.chance(0.5) ? "0.02" : "0.2");
  if (G.chance(0.45)) {
    genNarrow(P, G);
    genEnd(P, G, G.chance(0.4));
    return;
  }
  MixOpts O;
  O.maxOps = 40;
  O.pConf = 0.12;
  O.pDoc = G.chance(0.5) ? 0.5 : 0.25;
  O.pWait = 0.08;
  O.pFaults = 0.3;
  genMix(P, G, O);
  genEnd(P, G, G.chance(0.4));
}
static Register rC20("C20", genC20, setupMix);
