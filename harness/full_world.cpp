#include "full_world.h"
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <signal.h>
#include <sys/stat.h>

int nixd_main(int argc, char *argv[]);

namespace fw {
World *W;
std::string n2s(int64_t v) { return std::to_string(v); }
int64_t num(const std::vector<std::string> &w, size_t i, int64_t d) {
  return i < w.size() ? strtoll(w[i].c_str(), nullptr, 10) : d;
}
const json::Object *obj(const json::Value &v) { return v.getAsObject(); }
std::string str(const json::Object *o, const char *k) {
  if (!o)
    return "";
  auto s = o->getString(k);
  return s ? s->str() : "";
}
std::string pathStr(const std::vector<std::string> &p) {
  std::string s;
  for (auto &x : p)
    s += (s.empty() ? "" : ".") + x;
  return s;
}
static json::Array arr(const std::vector<std::string> &v) {
  json::Array a;
  for (auto &s : v)
    a.push_back(s);
  return a;
}
json::Value Conf::toJson() const {
  json::Object o;
  if (hasFmt)
    o["formatting"] = json::Object{{"command", arr(fmt)}};
  if (!options.empty()) {
    json::Object x;
    for (auto &[k, v] : options)
      x[k] = json::Object{{"expr", v}};
    o["options"] = std::move(x);
  }
  if (!nixpkgs.empty())
    o["nixpkgs"] = json::Object{{"expr", nixpkgs}};
  o["diagnostic"] = json::Object{{"suppress", arr(suppress)}};
  return std::move(o);
}
std::vector<const DocState *> Doc::window(uint64_t from, uint64_t to) const {
  std::vector<const DocState *> r;
  for (size_t i = 0; i < st.size(); ++i) {
    bool last = i + 1 == st.size() || st[i + 1].at > from;
    if (last && st[i].at <= to)
      r.push_back(&st[i]);
  }
  return r;
}
int docOf(const std::string &uri) {
  for (size_t i = 0; i < W->docs.size(); ++i)
    if (W->docs[i].uri == uri)
      return (int)i;
  return -1;
}

// ------------------------------------------------------------------ texts
static size_t cpLen(unsigned char c) {
  return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
}
std::pair<int, int> lspPos(const std::string &s, size_t off) {
  int line = 0, col = 0;
  for (size_t i = 0; i < off && i < s.size();) {
    if (s[i] == '\n') {
      line++;
      col = 0;
      i++;
      continue;
    }
    size_t l = cpLen((unsigned char)s[i]);
    col += l == 4 ? 2 : 1;
    i += l;
  }
  return {line, col};
}
static int u16(const std::string &s) {
  int n = 0;
  for (size_t i = 0; i < s.size();) {
    size_t l = cpLen((unsigned char)s[i]);
    n += l == 4 ? 2 : 1;
    i += l;
  }
  return n;
}
static json::Value pos(const std::string &s, size_t off) {
  auto [l, c] = lspPos(s, off);
  return json::Object{{"line", l}, {"character", c}};
}
static json::Value edit(std::string &s, size_t a, size_t b,
                        const std::string &t, bool len, bool nl = false) {
  // the line below a last line without newline: some editors mean the end
  nl &= b == s.size() && (s.empty() || s.back() != '\n');
  json::Value end = pos(s, b);
  if (nl)
    end = json::Object{{"line", lspPos(s, b).first + 1}, {"character", 0}};
  json::Object o{
      {"range", json::Object{{"start", pos(s, a)}, {"end", std::move(end)}}},
      {"text", t}};
  if (len)
    o["rangeLength"] = u16(s.substr(a, b - a)) + nl;
  s = s.substr(0, a) + t + s.substr(b);
  return std::move(o);
}
static bool boundary(const std::string &s, size_t i) {
  if (i < s.size() && ((unsigned char)s[i] & 0xc0) == 0x80)
    return false;
  if (i > 0 && i < s.size() && s[i - 1] == '\r' && s[i] == '\n')
    return false;
  return true;
}
json::Array mkChanges(const std::string &from, const std::string &to,
                      uint64_t style) {
  Gen g(style * 7 + 5);
  json::Array a;
  std::string cur = from;
  int kind = (int)g.range(0, 9);
  if (kind == 0) {
    a.push_back(json::Object{{"text", to}});
    return a;
  }
  if (kind == 1 && from == to)
    return a;
  // noise: edits that the final replacement removes again
  int noise = kind >= 6 ? (int)g.range(1, 3) : 0;
  for (int i = 0; i < noise; ++i) {
    size_t x = (size_t)g.range(0, (int64_t)cur.size()),
           y = (size_t)g.range(0, (int64_t)cur.size());
    if (x > y)
      std::swap(x, y);
    while (!boundary(cur, x))
      x--;
    while (!boundary(cur, y))
      y--;
    if (y - x > 20)
      y = x;
    a.push_back(edit(cur, x, y, genUnicode(g.next(), (int)g.range(0, 6)),
                     g.chance(0.3)));
  }
  if (kind == 9 && g.chance(0.3)) { // a whole-text change in the middle
    cur = genUnicode(g.next(), 12);
    a.push_back(json::Object{{"text", cur}});
  }
  size_t p = 0;
  while (p < cur.size() && p < to.size() && cur[p] == to[p])
    p++;
  while (!boundary(cur, p) || !boundary(to, p))
    p--;
  size_t q = 0;
  while (q < cur.size() - p && q < to.size() - p &&
         cur[cur.size() - 1 - q] == to[to.size() - 1 - q])
    q++;
  while (q > 0 && (!boundary(cur, cur.size() - q) ||
                   !boundary(to, to.size() - q)))
    q--;
  std::string mid = to.substr(p, to.size() - q - p);
  if (kind % 3 == 2) { // delete, then insert in pieces
    if (cur.size() - q > p)
      a.push_back(edit(cur, p, cur.size() - q, "", g.chance(0.3)));
    size_t at = 0;
    while (at < mid.size()) {
      size_t e = at + 1 + (size_t)g.range(0, (int64_t)(mid.size() - at));
      e = std::min(e, mid.size());
      while (e < mid.size() && !boundary(mid, e))
        e++;
      a.push_back(edit(cur, p + at, p + at, mid.substr(at, e - at),
                       g.chance(0.2)));
      at = e;
    }
  } else
    a.push_back(edit(cur, p, cur.size() - q, mid, g.chance(0.3),
                     g.chance(0.2)));
  if (cur != to)
    violate("simulator", "mkChanges is wrong");
  return a;
}
std::string genUnicode(uint64_t seed, int len) {
  Gen g(seed ^ 0x51ca);
  static const std::vector<std::string> odd = {
      "\n", "\n", "\r\n", "é", "漢", "😀", "\t", "\"", "\\", "${", "''",
      "e\xcc\x81", "𝕏", " ", "{", "}", "\xef\xbb\xbf", "\xe2\x80\xa8"};
  std::string s;
  for (int i = 0; i < len; ++i)
    s += g.chance(0.35) ? g.pick(odd) : std::string(1, (char)g.range(97, 122));
  return s;
}

// ------------------------------------------------------------------ editor
void World::send(json::Object m) {
  m["jsonrpc"] = "2.0";
  queued++;
  if (!in.closed())
    in.q += frame(dump(json::Value(std::move(m))), 0);
}
void World::notify(const std::string &method, json::Value params) {
  logf("editor: %s", method.c_str());
  send(json::Object{{"method", method}, {"params", std::move(params)}});
}
int World::request(const std::string &kind, const std::string &method,
                   json::Value params, int doc, std::vector<std::string> op,
                   int line, int ch) {
  int id = nextId++;
  logf("editor: request %d %s", id, method.c_str());
  send(json::Object{
      {"id", id}, {"method", method}, {"params", std::move(params)}});
  Req &r = reqs[id];
  r.id = id;
  r.kind = kind;
  r.method = method;
  r.doc = doc;
  r.op = std::move(op);
  r.line = line;
  r.ch = ch;
  r.at = queued;
  r.tSent = now();
  r.stepSent = steps();
  outstanding++;
  return id;
}
static json::Object docId(int d, int64_t v) {
  return json::Object{{"uri", W->docs[d].uri}, {"version", v}};
}
void World::open(int d, const std::string &text, int64_t v, int tid) {
  notify("textDocument/didOpen",
         json::Object{{"textDocument",
                       json::Object{{"uri", docs[d].uri},
                                    {"languageId", "nix"},
                                    {"version", v},
                                    {"text", text}}}});
  docs[d].st.push_back({queued, true, v, text, tid, false});
}
void World::change(int d, const std::string &text, int64_t v, uint64_t style,
                   int tid) {
  const DocState &c = docs[d].cur();
  json::Array a = mkChanges(c.text, text, style);
  notify("textDocument/didChange",
         json::Object{{"textDocument", docId(d, v)},
                      {"contentChanges", std::move(a)}});
  if (c.open)
    docs[d].st.push_back({queued, true, v, text, tid, false});
}
void World::badChange(int d, int64_t v, uint64_t style) {
  const DocState &c = docs[d].cur();
  Gen g(style);
  json::Array a;
  std::string s = c.text;
  if (g.chance(0.4) && c.open) {
    std::string t = s + "x";
    for (auto &x : mkChanges(s, t, 1 + style * 10))
      a.push_back(std::move(x));
    s = t;
  }
  int lines = 0;
  for (char ch : s)
    lines += ch == '\n';
  json::Object rg;
  auto P = [](int l, int c) {
    return json::Value(json::Object{{"line", l}, {"character", c}});
  };
  std::optional<int64_t> len;
  std::vector<size_t> pairs; // of surrogates
  for (size_t i = 0; i < s.size(); ++i)
    if ((unsigned char)s[i] >= 0xf0)
      pairs.push_back(i);
  int how = (int)g.range(0, 9);
  if (how >= 8 && pairs.empty())
    how -= 4;
  switch (how) {
  case 4: // an end beyond the end of its line
    rg = json::Object{{"start", P(0, 0)}, {"end", P(lines, 100000)}};
    break;
  case 5: // an end on a line that does not exist
    rg = json::Object{
        {"start", P(0, 0)},
        {"end", P(lines + 1, s.size() && s.back() == '\n' ? 0 : 3)}};
    break;
  case 6: // the editor thinks of another length
  case 7:
    rg = json::Object{{"start", P(0, 0)}, {"end", pos(s, s.size())}};
    len = u16(s) + (g.chance(0.5) ? 1 : -1) * g.range(1, 3);
    if ((size_t)u16(s) != s.size() && g.chance(0.5))
      len = (int64_t)s.size();
    break;
  case 8: // inside a character
  case 9: {
    auto [l, c] = lspPos(s, g.pick(pairs));
    rg = json::Object{{"start", how == 8 ? P(l, c + 1) : P(0, 0)},
                      {"end", P(l, c + 1)}};
    break;
  }
  case 0: // a line that does not exist
    rg = json::Object{{"start", json::Object{{"line", lines + 5}, {"character", 0}}},
                      {"end", json::Object{{"line", lines + 6}, {"character", 0}}}};
    break;
  case 1: // beyond the end of a line
    rg = json::Object{
        {"start", json::Object{{"line", 0}, {"character", 100000}}},
        {"end", json::Object{{"line", 0}, {"character", 100001}}}};
    break;
  case 2: // negative
    rg = json::Object{{"start", json::Object{{"line", 0}, {"character", -1}}},
                      {"end", json::Object{{"line", 0}, {"character", 0}}}};
    break;
  default: // end before start
    if (s.empty())
      rg = json::Object{
          {"start", json::Object{{"line", 3}, {"character", 0}}},
          {"end", json::Object{{"line", 0}, {"character", 0}}}};
    else
      rg = json::Object{{"start", pos(s, s.size())},
                        {"end", json::Object{{"line", 0}, {"character", 0}}}};
    if (s.size() && lspPos(s, s.size()) == std::pair<int, int>{0, 0})
      rg["end"] = json::Object{{"line", 0}, {"character", -3}};
  }
  json::Object e{{"range", std::move(rg)}, {"text", "zz"}};
  if (len)
    e["rangeLength"] = *len;
  a.push_back(std::move(e));
  if (g.chance(0.3))
    a.push_back(json::Object{{"text", "after a bad change"}});
  notify("textDocument/didChange",
         json::Object{{"textDocument", docId(d, v)},
                      {"contentChanges", std::move(a)}});
  if (c.open)
    docs[d].st.push_back({queued, false, 0, "", -1, true});
}
void World::close(int d) {
  notify("textDocument/didClose",
         json::Object{{"textDocument", json::Object{{"uri", docs[d].uri}}}});
  if (docs[d].cur().open)
    docs[d].st.push_back({queued, false, 0, "", -1, false});
}
int World::ask(const std::string &kind, int d, int line, int ch,
               std::vector<std::string> op, std::pair<int, int> end) {
  json::Object p{{"textDocument", json::Object{{"uri", docs[d].uri}}}};
  auto position = [&] { return json::Object{{"line", line}, {"character", ch}}; };
  static const std::map<std::string, std::string> methods = {
      {"symbols", "textDocument/documentSymbol"},
      {"folding", "textDocument/foldingRange"},
      {"tokens", "textDocument/semanticTokens/full"},
      {"links", "textDocument/documentLink"},
      {"refs", "textDocument/references"},
      {"highlight", "textDocument/documentHighlight"},
      {"rename", "textDocument/rename"},
      {"prepareRename", "textDocument/prepareRename"},
      {"definition", "textDocument/definition"},
      {"hover", "textDocument/hover"},
      {"completion", "textDocument/completion"},
      {"inlay", "textDocument/inlayHint"},
      {"codeAction", "textDocument/codeAction"},
      {"format", "textDocument/formatting"}};
  auto m = methods.find(kind);
  if (m == methods.end())
    violate("simulator", "unknown request kind " + kind);
  if (kind == "format")
    p["options"] = json::Object{{"tabSize", 2}, {"insertSpaces", true}};
  else if (kind == "inlay")
    p["range"] = json::Object{{"start", position()},
                              {"end", json::Object{{"line", end.first},
                                                   {"character", end.second}}}};
  else if (kind == "codeAction") {
    p["range"] = json::Object{{"start", position()}, {"end", position()}};
    p["context"] = json::Object{{"diagnostics", json::Array{}}};
  } else if (kind != "symbols" && kind != "folding" && kind != "tokens" &&
             kind != "links")
    p["position"] = position();
  if (kind == "rename")
    p["newName"] = "renamed";
  if (kind == "refs")
    p["context"] = json::Object{{"includeDeclaration", true}};
  return request(kind, m->second, std::move(p), d, std::move(op), line, ch);
}
void World::changeConf(const Conf &c, std::vector<std::string> how) {
  conf = c;
  confStale = true;
  confPlan.push_back(std::move(how));
  notify("workspace/didChangeConfiguration",
         json::Object{{"settings", json::Object{}}});
}
void World::finishEditor(const std::string &mode) {
  endMode = mode;
  ended = true;
  endAt = now();
  stopFaults();
  if (mode == "shutdown") {
    request("shutdown", "shutdown", nullptr);
    notify("exit", nullptr);
  } else if (mode == "exit")
    notify("exit", nullptr);
  else if (mode == "die") {
    faultCount("editor-dies");
    in.close();
    out.close();
    editorGone = true;
  }
}
void World::stopFaults() {
  calm = true;
  K.eintr = 0;
  K.jump = K.stall = 0;
  K.pipefail = K.forkfail = 0;
  for (auto &w : workers)
    if (!w->gone && (w->deaf || w->readAfter > now() + 5 * SEC))
      w->dieAt = now() + 200 * MS;
}
bool World::quiet() {
  if (outstanding || !due.empty() || !in.q.empty() || out.canRead() ||
      confAsks != confAnswers)
    return false;
  for (auto &w : workers)
    if (!w->gone && !w->deaf &&
        (!w->pending.empty() || !w->out.q.empty() || w->in.canRead() ||
         w->dieAt >= 0))
      return false;
  for (auto &f : fmts)
    if (!f->gone)
      return false;
  for (auto *p : procs())
    if (p->alive && !p->execed)
      return false;
  return true;
}
std::string World::unanswered() {
  std::string s;
  for (auto &[id, r] : reqs)
    if (!r.answered)
      s += " " + n2s(id) + ":" + r.kind;
  return s;
}
static std::string stuckText() {
  std::string s = "unanswered requests:" + W->unanswered() + "\n";
  for (auto &w : W->workers)
    s += w->name + (w->gone ? " is gone" : w->deaf ? " is deaf" : "") +
         ", pending " + n2s(w->pending.size()) + "\n";
  return s + blockedReport();
}
bool World::opReady() {
  if (ended || pc >= ops.size())
    return false;
  if (!waiting.empty()) {
    bool q = quiet();
    if (waiting == "settle") {
      if (!q)
        quietSince = now();
      return q && now() - quietSince >= 3 * SEC;
    }
    return q;
  }
  if (wakeAt > now())
    return false;
  // the answer to initialize has to come first
  if (initSent && !initialized && ops[pc] != "end die" && ops[pc] != "end eof")
    return false;
  return true;
}
void World::runOp() {
  std::vector<std::string> w = words(ops[pc]);
  if (!waiting.empty()) {
    bool settle = waiting == "settle";
    waiting.clear();
    pc++;
    if (settle && onSettled)
      onSettled();
    return;
  }
  if (w.empty()) {
    pc++;
    return;
  }
  event("op", pc);
  logf("op %s", ops[pc].c_str());
  if (w[0] == "sync" || w[0] == "settle" || w[0] == "rest") {
    waiting = w[0] == "rest" ? "settle" : w[0]; // (faults go on)
    waitSince = lastProgress = quietSince = now();
    if (w[0] == "settle")
      stopFaults();
    return;
  }
  pc++;
  if (w[0] == "wait") {
    wakeAt = now() + num(w, 1) * MS;
    return;
  }
  if (w[0] == "end") {
    finishEditor(w.size() > 1 ? w[1] : "exit");
    return;
  }
  if (w[0] == "init") {
    json::Object caps;
    caps["workspace"] = json::Object{{"configuration", capConfig}};
    caps["window"] = json::Object{{"workDoneProgress", capProgress}};
    caps["textDocument"] = json::Object{
        {"completion",
         json::Object{{"completionItem",
                       json::Object{{"snippetSupport", capSnippet}}}}}};
    request("initialize", "initialize",
            json::Object{{"processId", 1000},
                         {"rootUri", "file:///w"},
                         {"capabilities", std::move(caps)}});
    initSent = true;
    return;
  }
  if (w[0] == "initialized") {
    notify("initialized", json::Object{});
    return;
  }
  if (w[0] == "wkill") {
    int k = (int)num(w, 1);
    if (k < (int)workers.size() && !workers[k]->gone) {
      faultCount("worker-killed");
      workers[k]->hadFault = true;
      workers[k]->exitNow(9);
    }
    return;
  }
  if (w[0] == "wfault") // wfault WORKER NTH KIND [ARG]: read at start
    return;
  if (onOp && onOp(w))
    return;
  violate("simulator", "unknown operation " + ops[pc - 1]);
}
bool World::editorReady() {
  if (editorGone)
    return false;
  if (out.canRead() || in.canSend() || opReady())
    return true;
  for (auto &d : due)
    if (d.at <= now())
      return true;
  if (ended && endMode == "eof" && !in.closed() && in.q.empty())
    return true;
  if (ended && !in.closed() && in.q.empty() && endMode != "die" && out.eof())
    return true;
  return false;
}
int64_t World::editorWake() {
  if (editorGone)
    return -1;
  int64_t t = -1;
  auto add = [&](int64_t x) {
    if (x > now() && (t < 0 || x < t))
      t = x;
  };
  for (auto &d : due)
    add(d.at);
  if (!ended) {
    if (wakeAt > now())
      add(wakeAt);
    if (waiting == "settle")
      add(quietSince + 3 * SEC);
    if (!waiting.empty())
      add(lastProgress + patience);
  } else
    add(std::max(endAt, lastSlow) + patience);
  return t;
}
void World::editorStep() {
  std::vector<int> can;
  if (out.canRead())
    can.push_back(0);
  if (in.canSend())
    can.push_back(1);
  if (opReady())
    can.push_back(2);
  for (auto &d : due)
    if (d.at <= now()) {
      can.push_back(3);
      break;
    }
  if (can.empty()) {
    if (ended && !in.closed())
      in.close();
    return;
  }
  switch (can[pickn('a', (int)can.size())]) {
  case 0: {
    fp.feed(out.readSome());
    if (fp.bad)
      violate("bad-output", "the editor cannot read the server's output: " +
                                fp.why);
    while (!fp.bodies.empty()) {
      std::string b = std::move(fp.bodies.front());
      fp.bodies.erase(fp.bodies.begin());
      onBody(b);
    }
    break;
  }
  case 1:
    in.sendSome();
    lastProgress = now();
    break;
  case 2:
    runOp();
    break;
  case 3:
    for (size_t i = 0; i < due.size(); ++i)
      if (due[i].at <= now()) {
        Due d = std::move(due[i]);
        due.erase(due.begin() + i);
        queued++;
        if (!in.closed())
          in.q += frame(d.body);
        if (d.conf) {
          confAnswers++;
          if (d.valid)
            validAnswers.push_back(d.c);
          logf("editor answers the configuration request%s",
               d.valid ? "" : " badly");
        }
        break;
      }
  }
}
void World::onBody(const std::string &b) {
  bool bad;
  json::Value v = parseJson(b, &bad);
  const json::Object *o = v.getAsObject();
  if (bad || !o)
    violate("bad-output", "the editor got a message that is no JSON object: " +
                              b.substr(0, 200));
  if (onEditorMsg)
    onEditorMsg(*o);
  lastProgress = now();
  auto method = o->getString("method");
  const json::Value *id = o->get("id");
  if (method && id) { // request
    std::string m = method->str();
    event("srv-request");
    if (m == "workspace/configuration") {
      if (!capConfig)
        violate("asked-unsupported", "the editor does not support "
                                     "configuration, but was asked for it");
      std::vector<std::string> how = {"valid", "0"};
      if (confAsks < (int)confPlan.size())
        how = confPlan[confAsks];
      confAsks++;
      confStale = false;
      Due d;
      d.conf = true;
      d.at = now() + num(how, 1) * MS;
      d.c = conf;
      json::Object r{{"jsonrpc", "2.0"}, {"id", *id}};
      if (how[0] != "valid")
        faultCount("bad-config-answer");
      if (how[0] == "error")
        r["error"] = json::Object{{"code", -32000}, {"message", "no config"}};
      else if (how[0] == "null")
        r["result"] = json::Array{nullptr};
      else if (how[0] == "notarray")
        r["result"] = conf.toJson();
      else if (how[0] == "empty")
        r["result"] = json::Array{};
      else if (how[0] == "nothing")
        r["result"] = nullptr;
      else if (how[0] == "badtype")
        r["result"] = json::Array{
            json::Object{{"formatting", json::Object{{"command", 7}}},
                         {"diagnostic", json::Object{{"suppress", "x"}}}}};
      else if (how[0] == "badtype3") // partly right
        r["result"] = json::Array{json::Object{
            {"diagnostic", json::Object{{"suppress", json::Array{}}}},
            {"nixpkgs", json::Object{{"expr", "wrong"}}},
            {"options", json::Object{{"x", json::Object{{"expr", 3}}}}},
            {"formatting",
             json::Object{{"command", json::Array{"simfmt", "upper", "0"}}}}}};
      else if (how[0] == "badtype2")
        r["result"] = json::Array{
            json::Object{{"formatting", json::Object{{"command", json::Array{"no"}}}},
                         {"options", json::Array{1, 2}}}};
      else {
        r["result"] = json::Array{conf.toJson()};
        d.valid = true;
      }
      d.body = dump(std::move(r));
      due.push_back(std::move(d));
      return;
    }
    json::Object r{{"jsonrpc", "2.0"}, {"id", *id}};
    if (m == "window/workDoneProgress/create") {
      if (onProgress)
        onProgress("create", *o);
      if (flip('c', 0.1)) {
        faultCount("progress-refused");
        r["error"] = json::Object{{"code", -32603}, {"message", "no"}};
      } else
        r["result"] = nullptr;
    } else
      r["error"] = json::Object{{"code", -32601}, {"message", "unknown"}};
    Due d;
    d.at = now() + (flip('d', 0.3) ? pickn('D', 50) * MS : 0);
    d.body = dump(std::move(r));
    due.push_back(std::move(d));
    return;
  }
  if (method) {
    std::string m = method->str();
    const json::Object *p = o->getObject("params");
    if (m == "textDocument/publishDiagnostics") {
      Publish pb;
      pb.doc = docOf(str(p, "uri"));
      if (p)
        if (auto ver = p->getInteger("version"))
          pb.version = *ver;
      if (p && p->get("diagnostics"))
        pb.diags = *p->get("diagnostics");
      pb.at = queued;
      pb.t = now();
      event("publish", pb.doc, pb.version.value_or(-1));
      logf("editor: diagnostics of doc %d version %lld, %zu entries", pb.doc,
           (long long)pb.version.value_or(-1),
           pb.diags.getAsArray() ? pb.diags.getAsArray()->size() : 0);
      pubs.push_back(std::move(pb));
      if (onPublish)
        onPublish(pubs.back());
      return;
    }
    if (m == "$/progress") {
      if (onProgress)
        onProgress("progress", *o);
      return;
    }
    return;
  }
  // response
  std::optional<int64_t> n;
  if (id)
    n = id->getAsInteger();
  if (!n || !reqs.count((int)*n))
    violate("bogus-reply", "a response to no request: " + b.substr(0, 300));
  Req &r = reqs[(int)*n];
  if (r.answered)
    violate("double-reply", "a second response to request " + n2s(*n) + " (" +
                                r.kind + "): " + b.substr(0, 300));
  r.answered = true;
  outstanding--;
  r.repliedAt = queued;
  r.tReply = now();
  r.stepReply = steps();
  if (const json::Value *e = o->get("error")) {
    r.err = true;
    r.errMsg = e->getAsObject() ? str(e->getAsObject(), "message") : "?";
  } else if (const json::Value *x = o->get("result"))
    r.result = *x;
  else
    violate("bad-output", "a response with neither result nor error: " +
                              b.substr(0, 300));
  event("reply", r.id, r.err);
  logf("editor: response to %d %s: %s", r.id, r.kind.c_str(),
       r.err ? ("error " + r.errMsg).c_str()
             : dump(r.result).substr(0, 160).c_str());
  if (r.kind == "initialize")
    initialized = true;
  else if (onReply)
    onReply(r);
}

// ------------------------------------------------------------------ workers
static int64_t delay(int mode) {
  switch (mode) {
  case 0:
    return 0;
  case 1:
    return flip('w', 0.5) ? pickn('W', 20) * MS : 0;
  case 2:
    switch (pickn('w', 3)) {
    case 0:
      return 0;
    case 1:
      return pickn('W', 50) * MS;
    default:
      return pickn('W', 3000) * MS;
    }
  case 4:
    return (20 + pickn('W', 180)) * SEC;
  default:
    return (500 + pickn('W', 4000)) * MS;
  }
}
void Worker::exitNow(int st) {
  if (gone)
    return;
  gone = true;
  if (in.f)
    unread = in.f->pipe->buf;
  in.close();
  out.close();
  for (int s : pending)
    W->asks[s].lost = true;
  pending.clear();
  procExit(*p, st);
}
bool Worker::ready() {
  if (gone || (linger && (told || sawEof)))
    return false;
  if (!p->alive)
    return true;
  if (dieAt >= 0 && dieAt <= now())
    return true;
  if (stallUntil > now())
    return false;
  if (out.canSend() || (dieWhenSent && out.q.empty()))
    return true;
  if (readAfter <= now() && (in.canRead() || in.eof()))
    return true;
  if (out.f && out.f->pipe->readers == 0)
    return true;
  for (int s : pending)
    if (W->asks[s].due <= now() && !deaf)
      return true;
  return false;
}
int64_t Worker::wake() {
  if (gone || (linger && (told || sawEof)))
    return -1;
  int64_t t = -1;
  auto add = [&](int64_t x) {
    if (x > now() && (t < 0 || x < t))
      t = x;
  };
  if (dieAt >= 0)
    add(dieAt);
  if (stallUntil > now()) {
    add(stallUntil);
    return t;
  }
  add(readAfter);
  if (!deaf)
    for (int s : pending)
      add(W->asks[s].due);
  return t;
}
void Worker::step() {
  if (!p->alive) { // killed by the server
    gone = true;
    in.close();
    out.close();
    return;
  }
  if (dieAt >= 0 && dieAt <= now())
    return exitNow(dieStatus);
  std::vector<int> can;
  if (out.f && out.f->pipe->readers == 0)
    return exitNow(13); // SIGPIPE
  if (out.canSend())
    can.push_back(0);
  if (dieWhenSent && out.q.empty())
    return exitNow(dieStatus);
  if (readAfter <= now() && (in.canRead() || in.eof()))
    can.push_back(1);
  for (int s : pending)
    if (W->asks[s].due <= now() && !deaf) {
      can.push_back(2);
      break;
    }
  if (can.empty())
    return;
  switch (can[pickn('k', (int)can.size())]) {
  case 0:
    out.sendSome();
    break;
  case 1:
    if (in.eof()) {
      sawEof = true;
      if (linger) {
        faultCount("worker-lingers");
        return;
      }
      in.close();
      in.f = nullptr;
      readAfter = INT64_MAX / 2;
      exitNow(0);
      return;
    }
    fp.feed(in.readSome());
    if (fp.bad)
      violate("bad-output", name + " cannot read what the server sends: " +
                                fp.why);
    while (!fp.bodies.empty() && !gone) {
      std::string b = std::move(fp.bodies.front());
      fp.bodies.erase(fp.bodies.begin());
      onBody(b);
    }
    break;
  case 2: {
    std::vector<size_t> rdy;
    for (size_t i = 0; i < pending.size(); ++i)
      if (W->asks[pending[i]].due <= now())
        rdy.push_back(i);
    size_t i = rdy[pickn('q', (int)rdy.size())];
    if (i)
      probe("worker-answers-out-of-order");
    int s = pending[i];
    pending.erase(pending.begin() + i);
    answer(W->asks[s]);
  }
  }
}
void Worker::answer(Ask &a) {
  json::Object r{{"jsonrpc", "2.0"}, {"id", a.id}};
  if (a.err)
    r["error"] = json::Object{{"code", -32000}, {"message", "worker error"}};
  else
    r["result"] = a.result;
  a.answered = true;
  a.tReply = now();
  if (W->wdelay == 4) // minutes each, one after the other: the server waits
    W->lastProgress = W->lastSlow = now();
  std::string f = frame(dump(std::move(r)));
  event("worker-answer", idx, a.serial);
  logf("%s answers %s %s#%d%s", name.c_str(), a.method.c_str(),
       pathStr(a.path).c_str(), a.serial, a.err ? " with an error" : "");
  if (a.fault == "half") {
    out.q += f.substr(0, f.size() / 2);
    dieWhenSent = true;
    a.lost = true;
    return;
  }
  if (a.fault == "dup")
    f += f;
  if (out.f)
    out.q += f;
  else
    a.lost = true;
}
void Worker::fault(const std::vector<std::string> &f, Ask *a) {
  const std::string &k = f[0];
  int64_t arg = num(f, 1, 100);
  faultCount(("worker-" + k).c_str());
  hadFault = true;
  logf("%s: fault %s", name.c_str(), k.c_str());
  auto raw = [&](const std::string &s) {
    if (out.f)
      out.q += s;
  };
  if (k == "crash")
    exitNow(11);
  else if (k == "exit")
    exitNow(0);
  else if (k == "diesoon")
    dieAt = now() + arg * MS;
  else if (k == "eofout") {
    out.close();
    deaf = true;
    for (int s : pending)
      W->asks[s].lost = true;
  } else if (k == "eofin") {
    in.close();
    in.f = nullptr;
    dieAt = now() + (arg % 3000) * MS;
  } else if (k == "garbage") {
    Gen g((uint64_t)arg);
    std::string s;
    switch (g.range(0, 4)) {
    case 0:
      s = genText((uint64_t)arg, 60);
      break;
    case 1:
      s = "Content-Length: 99999999\r\n\r\n{";
      break;
    case 2:
      s = "Content-Length: 10\r\n\r\n";
      break;
    case 3:
      s = "trace: evaluating...\nwarning: x\n" + genText((uint64_t)arg, 300);
      break;
    default:
      s = std::string(300, '\n') + "Content-Length: -5\r\n\r\n";
    }
    raw(s);
    deaf = true;
    dieAt = now() + (arg % 2000) * MS;
  } else if (k == "badjson") {
    raw(frame("{\"jsonrpc\": \"2.0\", \"id\": ["));
  } else if (k == "notobject")
    raw(frame("[1,2,3]"));
  else if (k == "badid") {
    raw(frame("{\"jsonrpc\":\"2.0\",\"id\":987654,\"result\":null}"));
    raw(frame("{\"jsonrpc\":\"2.0\",\"id\":\"abc\",\"result\":null}"));
    raw(frame("{\"jsonrpc\":\"2.0\",\"id\":null,\"error\":{\"code\":1,"
              "\"message\":\"m\"}}"));
  } else if (k == "unsolicited") {
    raw(frame("{\"jsonrpc\":\"2.0\",\"method\":\"nosuch/notification\","
              "\"params\":{\"a\":1}}"));
    raw(frame("{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"nosuch/call\","
              "\"params\":[]}"));
  } else if (k == "stall") {
    stallUntil = now() + (arg % 8000) * MS;
  } else if (k == "noread") {
    readAfter = now() + (arg % 8000) * MS;
  } else if (k == "silent") {
    deaf = true;
    dieAt = now() + (1000 + arg % 9000) * MS;
  } else if (k == "deaf")
    deaf = true; // until the faults stop
  else if (a) {
    if (k == "err")
      a->err = true;
    else if (k == "wrongtype") {
      static const std::vector<json::Value> vs = {
          json::Value(7), json::Value("text"), json::Value(json::Array{1, "x"}),
          json::Value(json::Object{{"Meta", 3}}), json::Value(true),
          json::Value(json::Object{{"Type", json::Array{}}}),
          json::Value(nullptr)};
      a->result = vs[arg % vs.size()];
      a->fault = "wrongtype";
    } else if (k == "badpos") {
      static const std::vector<std::string> ps = {
          "relative/path.nix:3", "/abs/file.nix:notanumber", "/abs/file.nix:",
          "", ":", "/abs/file.nix:99999999999999999999", "/a:b:c",
          "/abs/x.nix:-4", "nowhere"};
      a->result = json::Object{
          {"Meta", json::Object{{"Type", 6}}},
          {"PackageDesc", json::Object{{"Position", ps[arg % ps.size()]}}}};
      a->fault = "badpos";
    } else if (k == "half" || k == "dup")
      a->fault = k;
  }
}
void Worker::onBody(const std::string &b) {
  bool bad;
  json::Value v = parseJson(b, &bad);
  const json::Object *o = v.getAsObject();
  if (bad || !o)
    violate("bad-output", name + " got a message that is no JSON object: " +
                              b.substr(0, 200));
  if (W->onWorkerMsg)
    W->onWorkerMsg(*this, *o);
  auto m = o->getString("method");
  const json::Value *id = o->get("id");
  if (!m)
    return; // an answer to an unsolicited call
  if (!id) {
    if (*m == "exit") {
      told = true;
      if (linger) {
        faultCount("worker-lingers");
        return;
      }
      dieAt = now() + delay(1);
      dieStatus = 0;
      if (W->calm == false && flip('x', 0.2)) {
        faultCount("worker-ignores-exit");
        dieAt = -1; // leaves when its input ends
      }
    }
    return;
  }
  W->asks.push_back({});
  Ask &a = W->asks.back();
  a.serial = (int)W->asks.size() - 1;
  a.worker = idx;
  a.method = m->str();
  a.id = *id;
  a.at = W->queued;
  a.t = now();
  if (o->get("params"))
    a.params = *o->get("params");
  if (const json::Array *ar = a.params.getAsArray())
    for (auto &x : *ar)
      if (auto s = x.getAsString())
        a.path.push_back(s->str());
  if (const json::Object *po = a.params.getAsObject()) {
    if (const json::Array *ar = po->getArray("Scope"))
      for (auto &x : *ar)
        if (auto s = x.getAsString())
          a.path.push_back(s->str());
    a.prefix = str(po, "Prefix");
  }
  event("worker-ask", idx, a.serial);
  logf("%s is asked %s %s|%s (#%d)", name.c_str(), a.method.c_str(),
       pathStr(a.path).c_str(), a.prefix.c_str(), a.serial);
  if (a.method == "attrset/evalExpr") {
    if (auto s = a.params.getAsString())
      exprs.push_back(s->str());
    else
      violate("bad-output", name + " got an evaluation request without text");
  } else if (W->onAsk)
    W->onAsk(a, *this);
  a.due = now() + delay(W->wdelay);
  auto f = faults.find(++nreq);
  int serial = a.serial;
  pending.push_back(serial);
  if (f != faults.end() && !W->calm)
    fault(f->second, &W->asks[serial]);
}

// --------------------------------------------------------------- formatters
// simfmt MODE [ARG...]: what it does with its input
void Formatter::finishUp(int st) {
  if (gone)
    return;
  gone = true;
  status = st;
  tEnd = now();
  atEnd = W->queued;
  in.close();
  out.close();
  err.close();
  procExit(*p, st);
  logf("%s ends with status 0x%x", name.c_str(), st);
}
bool Formatter::ready() {
  if (gone)
    return false;
  if (!p->alive || now() < startAt)
    return !p->alive;
  if (linger())
    return now() >= lingerUntil;
  if ((out.f && out.canSend()) || (err.f && err.canSend()))
    return true;
  if (inOpen && now() >= readAfter && (in.canRead() || in.eof()) &&
      !(mode == "cat" && out.q.size() > 4096) && mode != "noread" &&
      mode != "noreadfail")
    return true;
  if (out.f && out.q.empty() && err.q.empty() && (wrote || mode == "noread" ||
                                  mode == "noreadfail"))
    return true;
  if (!out.f && wrote)
    return true;
  if (out.f && out.f->pipe->readers == 0 && !out.q.empty())
    return true;
  return false;
}
int64_t Formatter::wake() {
  if (gone)
    return -1;
  for (int64_t t : {startAt, readAfter, lingerUntil})
    if (t > now())
      return t;
  return -1;
}
void Formatter::step() {
  if (!p->alive) {
    gone = true;
    tEnd = now();
    atEnd = W->queued;
    status = p->status;
    in.close();
    out.close();
    err.close();
    return;
  }
  int64_t arg = args.size() > 2 ? strtoll(args[2].c_str(), nullptr, 10) : 0;
  auto put = [&](const std::string &s) {
    produced += s;
    if (out.f)
      out.q += s;
  };
  if (!t0) {
    t0 = now();
    if (mode == "noisy")
      err.q = std::string(200000, 'n');
    if (mode == "lateread")
      readAfter = now() + arg % 4000 * MS;
    if (mode == "closefirst") {
      out.close();
      err.close();
    }
    if (mode == "noread" || mode == "noreadfail") {
      put("fixed " + args.back() + "\n" + std::string((size_t)arg, 'f'));
      wrote = true;
    }
  }
  if (out.f && out.f->pipe->readers == 0 && !out.q.empty()) {
    out.q.clear();
    return finishUp(13);
  }
  std::vector<int> can;
  if (out.f && out.canSend())
    can.push_back(0);
  if (err.f && err.canSend())
    can.push_back(1);
  // a writer that does not get rid of its output does not read on
  bool full = mode == "cat" && out.q.size() > 4096;
  if (inOpen && now() >= readAfter && !full && (in.canRead() || in.eof()) && mode != "noread" &&
      mode != "noreadfail")
    can.push_back(2);
  if (can.empty()) {
    if (wrote && out.q.empty() && err.q.empty()) {
      int st = 0;
      if (mode == "fail" || mode == "noreadfail")
        st = (int)(1 + arg % 255) << 8;
      if (mode == "crashend")
        st = 6;
      if (mode == "closeout" && arg % 3)
        st = (int)(arg % 3) << 8;
      if (mode == "closeout" && !linger()) {
        lingerUntil = now() + arg % 2000 * MS;
        out.close();
        err.close();
        return;
      }
      return finishUp(st);
    }
    return;
  }
  switch (can[pickn('f', (int)can.size())]) {
  case 0:
    out.sendSome();
    break;
  case 1:
    err.sendSome();
    break;
  case 2:
    if (in.eof()) {
      sawEof = true;
      inOpen = false;
      in.close();
      readAll = true;
      if (mode == "stamp" || mode == "slow" || mode == "noisy")
        put("# " + n2s(p->pid) + "\n" + got);
      else if (mode == "buffer" || mode == "fail" || mode == "crashend" ||
               mode == "lateread")
        put(got);
      else if (mode == "big")
        put(got + std::string((size_t)arg, 'b') + n2s(p->pid));
      else if (mode == "upper") {
        std::string u = got;
        for (char &c : u)
          if (c >= 'a' && c <= 'z')
            c -= 32;
        put(u);
      } else if (mode == "flip") { // one byte differs
        std::string u = got;
        for (size_t i = 0; i < u.size(); ++i) {
          size_t k = (i + (size_t)arg) % u.size();
          if (u[k] == ' ' || isalnum((unsigned char)u[k])) {
            u[k] = u[k] == '_' ? 'x' : '_';
            break;
          }
        }
        put(u);
      } else if (mode == "empty")
        ;
      wrote = true;
      if (mode == "closeout") {
        put("closed " + n2s(p->pid));
      }
      break;
    }
    std::string s = in.readSome();
    got += s;
    if (mode == "cat")
      put(s);
    if (mode == "early" && (int64_t)got.size() >= arg) {
      put("early " + n2s(p->pid) + "\n");
      wrote = true;
      inOpen = false;
      in.close();
    }
    if (mode == "crash" && (int64_t)got.size() >= arg)
      return finishUp(11);
    break;
  }
}

// ------------------------------------------------------------------ start
static void onExec(Proc &p) {
  File *f[3];
  for (int i = 0; i < 3; ++i) {
    f[i] = i < (int)p.fds.size() ? p.fds[i].f : nullptr;
  }
  if (!f[0] || f[0]->kind != File::R || !f[1] || f[1]->kind != File::W)
    violate("bad-stream", "the standard streams of a child process are not "
                          "the two ends of pipes");
  bool worker = p.name.find("attrset-eval") != std::string::npos;
  if (!f[2] || (!worker && (f[2]->kind != File::W || f[2]->pipe == f[1]->pipe)))
    violate("bad-stream", "the standard error stream of a child process is " +
                              std::string(f[2] ? "not its own" : "closed"));
  if (worker) {
    auto w = std::make_shared<Worker>();
    w->idx = (int)W->workers.size();
    w->p = &p;
    w->name = "worker" + n2s(w->idx);
    w->linger = W->P.getd("linger", 0) > 0 && flip('L', W->P.getd("linger", 0));
    w->in.open(f[0]->pipe);
    w->out.open(f[1]->pipe);
    for (auto &op : W->ops) {
      auto x = words(op);
      if (x.size() >= 4 && x[0] == "wfault" && num(x, 1) == w->idx)
        w->faults[(int)num(x, 2)] = {x.begin() + 3, x.end()};
    }
    W->workers.push_back(w);
    addActor(w);
    for (size_t i = 0; i < p.fds.size(); ++i)
      if (p.fds[i].f) {
        fileUnref(p.fds[i].f);
        p.fds[i].f = nullptr;
      }
    auto it = w->faults.find(0);
    if (it != w->faults.end() && !W->calm)
      w->fault(it->second, nullptr);
    return;
  }
  auto m = std::make_shared<Formatter>();
  m->p = &p;
  m->args = p.argv;
  m->mode = p.argv.size() > 1 ? p.argv[1] : "cat";
  m->name = "formatter" + n2s(p.pid);
  m->in.open(f[0]->pipe);
  m->out.open(f[1]->pipe);
  if (f[2] && f[2]->kind == File::W)
    m->err.open(f[2]->pipe);
  for (size_t i = 0; i < p.fds.size(); ++i)
    if (p.fds[i].f) {
      fileUnref(p.fds[i].f);
      p.fds[i].f = nullptr;
    }
  m->atStart = W->queued;
  m->stepStart = steps();
  m->startAt = now() + (m->mode == "slow" ? (500 + pickn('S', 3000)) * MS
                        : flip('s', 0.3)  ? pickn('S', 30) * MS
                                          : 0);
  W->fmts.push_back(m);
  addActor(m);
  if (W->onFormatter)
    W->onFormatter(*m);
}

static void deadlines() {
  World &w = *W;
  if (w.mainDone)
    return;
  if (!w.waiting.empty() && now() - w.lastProgress > w.patience)
    violate("unanswered", "nothing happens any more, but " + stuckText());
  if (w.ended && now() - std::max(w.endAt, w.lastSlow) > w.patience)
    violate("no-exit", "the server does not end: " + stuckText());
}

void start(const Plan &P, int ndocs, std::vector<std::string> args) {
  W = new World();
  World &w = *W;
  w.P = P;
  w.ops = P.ops;
  bool hasEnd = false;
  for (auto &o : w.ops)
    hasEnd |= o.rfind("end", 0) == 0;
  if (!hasEnd)
    w.ops.push_back("end exit");
  if (w.ops.empty() || w.ops[0] != "init")
    w.ops.insert(w.ops.begin(), "init");
  w.capConfig = P.geti("capConfig", 1);
  w.capProgress = P.geti("capProgress", 1);
  w.capSnippet = P.geti("capSnippet", 1);
  w.wdelay = (int)P.geti("wdelay", 1);
  for (int i = 0; i < ndocs; ++i) {
    Doc d;
    d.path = "/w/doc" + n2s(i) + ".nix";
    d.uri = "file://" + d.path;
    d.st.push_back({});
    w.docs.push_back(d);
  }
  double chop = P.getd("chop", 0.3);
  Pipe *a = serverReads(0), *b = serverWrites(1);
  if (P.geti("smallpipes"))
    a->cap = b->cap = 600;
  w.in.open(a);
  w.in.chop = chop;
  w.out.open(b);
  w.out.chop = chop;
  File *e = newFile(File::Sink, nullptr);
  e->sink = &w.err;
  if (P.geti("noerr")) {
    faultCount("stderr-closed"); // started as "nixd 2>&-"
    setFd(self(), 2, nullptr);
  } else
    setFd(self(), 2, e);
  for (int i = 0; i < 3; ++i)
    w.startFds.insert(i);
  FS.on = true;
  if (!FS.stat)
    FS.stat = [](const std::string &p, bool, unsigned &mode) {
      static const std::set<std::string> dirs = {"/", "/w", "/w/sub", "/w/d",
                                                 "/w/d/e"},
                                         files = {"/w/a.nix", "/w/doc0.nix",
                                                  "/w/sub/default.nix",
                                                  "/w/sub/x.nix",
                                                  "/w/d/f.nix"};
      if (dirs.count(p))
        mode = S_IFDIR | 0755;
      else if (files.count(p))
        mode = S_IFREG | 0644;
      else
        return ENOENT;
      return 0;
    };
  if (!FS.readlink)
    FS.readlink = [](const std::string &p, std::string &) {
      unsigned m;
      int e = FS.stat(p, false, m);
      return e ? e : EINVAL;
    };
  auto ed = std::make_shared<FnActor>();
  ed->name = "editor";
  ed->readyFn = [] { return W->editorReady(); };
  ed->stepFn = [] { W->editorStep(); };
  ed->wakeFn = [] { return W->editorWake(); };
  addActor(ed);
  H.onExec = onExec;
  int noworker = (int)P.geti("noworker", 0), nofmt = 0;
  (void)nofmt;
  H.execErrno = [noworker](Proc &p) {
    if (p.name.find("attrset-eval") != std::string::npos) {
      if (noworker) {
        faultCount("worker-exec-enoent");
        return ENOENT;
      }
      return 0;
    }
    if (p.name != "simfmt") {
      faultCount("formatter-exec-enoent");
      return ENOENT;
    }
    return 0;
  };
  H.pidAlive = [](int pid) { return pid == 1000 && !W->editorGone; };
  H.onStep = [] {
    static unsigned n = 0;
    if ((++n & 31) == 0)
      deadlines();
  };
  H.onIdle = [] {
    violate("stuck", "nothing can ever happen again, but the server has not "
                     "ended: " + stuckText());
  };
  H.timeCap = 3600 * SEC;
  H.onTimeCap = [] {
    violate("livelock", "no end in sight after an hour: " + stuckText());
  };
  H.onExit = [](int c) {
    violate("crash:exit", "the server called exit(" + n2s(c) +
                              ") while serving: " + rt::here());
  };
  static std::vector<std::string> av;
  av = args;
  av.insert(av.begin(), "nixd");
  spawn("main", [] {
    static std::vector<char *> v;
    for (auto &s : av)
      v.push_back(const_cast<char *>(s.c_str()));
    int n = (int)v.size();
    v.push_back(nullptr);
    int rc = nixd_main(n, v.data());
    InRt _;
    World &w = *W;
    w.mainDone = true;
    logf("main returns %d", rc);
    if (rc != 0 && !w.crashOk)
      violate("crash:exit", "main returned " + n2s(rc));
    if (!w.ended)
      violate("early-exit", "the server ended although the editor is there "
                            "and did not ask for it");
    // what the destructors of the standard streams would do
    llvm::outs().flush();
    llvm::errs().flush();
    if (llvm::outs().has_error() || llvm::errs().has_error())
      violate("crash:exit", "a standard stream is destroyed with an error "
                            "pending: the process ends with an IO failure");
    // the process is gone: its descriptors close
    std::set<int> left;
    for (size_t i = 3; i < self().fds.size(); ++i)
      if (self().fds[i].f)
        left.insert((int)i);
    if (!left.empty())
      violate("leaked-fd", "descriptor " + n2s(*left.begin()) +
                               " is still open when main returns");
    if (w.out.f) {
      while (!w.out.f->pipe->buf.empty()) {
        w.fp.feed(w.out.f->pipe->buf);
        w.out.f->pipe->buf.clear();
      }
      if (w.fp.bad || w.fp.rest())
        violate("bad-output", "the server's output ends in the middle of a "
                              "message");
      while (!w.fp.bodies.empty()) {
        std::string b = std::move(w.fp.bodies.front());
        w.fp.bodies.erase(w.fp.bodies.begin());
        w.onBody(b);
      }
      // everything sent before the end is answered, if all of it was read
      if (w.endMode != "die" && w.in.q.empty() && w.outstanding)
        violate("unanswered", "the server ended without answering:" +
                                  w.unanswered());
    }
    if (w.atEnd)
      w.atEnd();
    finish();
  });
}
void genEnd(Plan &P, Gen &G, bool settle) {
  if (settle)
    P.ops.push_back("settle");
  static const std::vector<std::string> e = {"end shutdown", "end exit",
                                             "end eof"};
  P.ops.push_back(G.pick(e));
}
} // namespace fw
