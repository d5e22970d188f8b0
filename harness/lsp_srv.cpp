// C04: outgoing calls complete exactly once. C05: incoming requests are
// answered exactly once.
#include "common.h"
#include "lsp_if.h"

using namespace hs;
namespace {
struct CallSt {
  bool started = false, nested = false, raw = false;
  int kids = 0;
  char action = 'r'; // r reply, e error, d duplicate, u undecodable, n never,
                     // q neither result nor error
  int64_t delay = 0, repliedAt = -1;
  int len = 0;
  int caller = 0;
  int id = -1;
  int done = 0;
  bool ok = false;
  std::string result;
  int outAtStart = 0;
  int maxOut = 0;
  uint64_t replyEnd = 0; // stream offset at which the reply is complete
  uint64_t order = 0;    // of the completion
  bool afterEnd = false; // started after the connection had ended
  bool anyReplySent = false;
  uint64_t startSeq = 0, seenSeq = 0;
  int olderWaiting = -1; // incomplete calls with a smaller id at completion
};
struct Req {
  std::string id; // dumped
  int kind = 0;   // 0 valid, 1 bad params, 2 unknown method
  int how = 0, who = 0;
  int tag = 0;
  std::string text;
  int answers = 0;
  bool sent = false;
};
struct St {
  bool c05 = false;
  bool steady = true; // no pauses but those of the peer
  Sender out;
  Receiver in;
  FrameParser fp;
  size_t parsed = 0;
  std::map<int, CallSt> calls;
  std::vector<int> order; // tags by start
  int outstanding = 0;
  uint64_t seq = 0;
  int ncallers = 0, callersDone = 0, workers = 0;
  bool runDone = false, lossy = false, ended = false, pidDead = false;
  bool closeReq = false, closing = false;
  int64_t endedAt = -1;
  bool stopWorkers = false;
  bool anyReply = false;
  struct Ev {
    int64_t at;
    std::string bytes;
    int tag = -1;
    std::string what;
    int req = -1;
  };
  std::multimap<int64_t, Ev> evs;
  std::map<int, std::vector<std::vector<std::string>>> script;
  std::vector<Req> reqs;
  std::map<std::string, int> byId;
  std::map<int, int> byTag;
  std::map<int, int> notesSent, notesGot;
  bool exitSent = false;
  uint64_t exitOff = 0; // stream offset of the exit notification
  std::string endKind;
  int64_t endAt = 0;
};
St *S;

int64_t num(const std::vector<std::string> &w, size_t i) {
  return i < w.size() ? atoll(w[i].c_str()) : 0;
}
std::string callText(int tag, int len) { return genText(tag, len); }

// ---------------------------------------------------------------- C04
void onCallStart(int tag) {
  CallSt &c = S->calls[tag];
  if (tag >= 1000000) { // made by a callback
    c.nested = true;
    c.action = tag % 5 == 4 ? 'n' : tag % 5 == 3 ? 'e' : 'r';
    c.delay = (tag % 7) * 50 * MS;
  }
  c.started = true;
  c.startSeq = ++S->seq;
  c.afterEnd = S->runDone;
  S->outstanding++;
  for (auto &[t, o] : S->calls)
    if (o.started && !o.done)
      o.maxOut = std::max(o.maxOut, S->outstanding);
  S->order.push_back(tag);
}
void onResult(int tag, bool ok, const std::string &r) {
  CallSt &c = S->calls[tag];
  logf("callback of call %d: %s %s", tag, ok ? "ok" : "error",
       r.substr(0, 80).c_str());
  event("callback", tag, ok);
  if (!c.started)
    violate("callback-unknown", "a callback ran for a call never made");
  if (++c.done > 1)
    violate("callback-twice", "the callback of call " + std::to_string(tag) +
                                  " ran twice: first " + c.result.substr(0, 200) +
                                  ", then " + r.substr(0, 200));
  c.ok = ok;
  c.result = r;
  c.order = ++S->seq;
  c.anyReplySent = S->anyReply;
  // the peer knows their ids, or knew theirs before this call was made
  c.olderWaiting = 0;
  for (auto &[t, o] : S->calls)
    if (o.started && !o.done && o.id >= 0 &&
        (c.id >= 0 ? o.id < c.id : o.seenSeq < c.startSeq))
      c.olderWaiting++;
  S->outstanding--;
  // what the peer said about this very call
  bool replied = c.replyEnd && S->out.sent >= c.replyEnd;
  std::string text = c.nested ? "nested" : callText(tag, c.len);
  if (ok) {
    if (!replied)
      violate("callback-early", "call " + std::to_string(tag) +
                                    " succeeded before its reply was sent");
    std::string want;
    if (c.action == 'u')
      want = c.raw ? "\"garbage\"" : "";
    else if (c.action == 'q')
      want = c.raw ? "null" : "";
    else
      want = dump(json::Object{{"tag", tag}, {"text", text}});
    if (c.action == 'e' || dump(parseJson(r)) != dump(parseJson(want)))
      violate("callback-wrong", "call " + std::to_string(tag) + " (action " +
                                    std::string(1, c.action) + ") got " +
                                    r.substr(0, 300) + " instead of " +
                                    want.substr(0, 300));
    return;
  }
  bool own = r.find("no-" + std::to_string(tag) + "-end") != r.npos;
  if (own && c.action != 'e')
    violate("callback-wrong", "call " + std::to_string(tag) +
                                  " got an error never sent for it: " + r);
  if (!own && r.find("no-") != r.npos && r.find("-end") != r.npos)
    violate("callback-wrong", "call " + std::to_string(tag) +
                                  " got another call's error: " + r);
  if (own)
    return;
  if (replied && (c.action == 'q' || (c.action == 'u' && !c.raw)))
    return; // could not be decoded
  // neither its reply nor its error: only the limit or the end explain this
  bool mayEnd = S->ended || S->closing;
  if (c.maxOut > 100) {
    if (!mayEnd) {
      probe("evicted");
      int tol = S->ncallers - 1 + (c.anyReplySent ? 1 : 0);
      if (c.olderWaiting > tol)
        violate("evicted-not-oldest",
                "call " + std::to_string(tag) + " (id " + std::to_string(c.id) +
                    ") was given up although " +
                    std::to_string(c.olderWaiting) +
                    " older calls were still outstanding");
    }
    return;
  }
  if (!mayEnd)
    violate("callback-error", "call " + std::to_string(tag) +
                                  " failed for no reason (at most " +
                                  std::to_string(c.maxOut) +
                                  " calls outstanding): " + r);
}
void judgeCalls() {
  size_t n = 0;
  for (auto &[tag, c] : S->calls) {
    if (!c.started)
      continue;
    n++;
    if (!c.done)
      violate("callback-missing",
              "the callback of call " + std::to_string(tag) + " (id " +
                  std::to_string(c.id) + ") never ran although the connection "
                                         "has ended: " + S->endKind);
    bool replied = c.replyEnd && S->out.sent >= c.replyEnd &&
                   (!S->exitOff || c.replyEnd < S->exitOff);
    if (!c.ok && replied && !S->lossy && c.maxOut <= 100 && !c.afterEnd &&
        (c.action == 'r' || c.action == 'd'))
      violate("reply-lost", "call " + std::to_string(tag) +
                                " failed although its reply had been sent "
                                "before the connection ended: " + c.result);
    if (!c.ok && replied && !S->lossy && c.maxOut <= 100 && !c.afterEnd &&
        c.action == 'e' &&
        c.result.find("no-" + std::to_string(tag) + "-end") == c.result.npos)
      violate("reply-lost", "call " + std::to_string(tag) +
                                " did not get the error sent for it: " +
                                c.result);
    if (c.ok)
      probe("replied");
    else
      probe("failed");
  }
  if (n > 100)
    probe("more-than-100");
}
void checkLimit() {
  // at most 100 plus those being made or completed right now
  if (S->outstanding > 100 + S->ncallers + 2)
    violate("too-many-outstanding",
            std::to_string(S->outstanding) + " calls are outstanding");
}

void handleFrame(const std::string &body) {
  bool bad = false;
  json::Value v = parseJson(body, &bad);
  auto *o = v.getAsObject();
  if (bad || !o)
    violate("bad-frame", "the server sent a frame that is not a JSON object: " +
                             body.substr(0, 200));
  if (auto m = o->getString("method")) {
    auto *p = o->getObject("params");
    if (!o->get("id"))
      return;
    auto id = o->getInteger("id");
    if (!p || !id || !p->getInteger("tag"))
      violate("bad-call", "malformed call: " + body.substr(0, 200));
    int tag = (int)*p->getInteger("tag");
    CallSt &c = S->calls[tag];
    if (!c.started || c.id >= 0)
      violate("bad-call", "unexpected call: " + body.substr(0, 200));
    std::string text = c.nested ? "nested" : callText(tag, c.len);
    if (p->getString("text") != llvm::StringRef(text))
      violate("bad-call", "the parameters of call " + std::to_string(tag) +
                              " changed: " + body.substr(0, 300));
    for (auto &[t, x] : S->calls)
      if (x.id == *id)
        violate("id-reused", "calls " + std::to_string(t) + " and " +
                                 std::to_string(tag) + " share id " +
                                 std::to_string(*id));
    c.id = (int)*id;
    c.seenSeq = ++S->seq;
    c.raw = *m == "peer/raw";
    event("call-seen", tag, c.id);
    logf("call %d arrived with id %d", tag, c.id);
    if (c.action == 'n')
      return;
    json::Object r{{"jsonrpc", "2.0"}, {"id", *id}};
    if (c.action == 'e')
      r["error"] = json::Object{
          {"code", tag % 3 ? -32000 : 0},
          {"message", "no-" + std::to_string(tag) + "-end"}};
    else if (c.action == 'u')
      r["result"] = "garbage";
    else if (c.action != 'q')
      r["result"] = json::Object{{"tag", tag}, {"text", text}};
    St::Ev e;
    e.at = now() + c.delay;
    e.bytes = frame(dump(std::move(r)), tag % 4);
    e.tag = tag;
    S->evs.emplace(e.at, e);
    if (c.action == 'd') {
      e.at += 300 * MS;
      e.tag = -1;
      S->evs.emplace(e.at, e);
      faultCount("duplicate-reply");
    }
    return;
  }
  // a response
  auto *id = o->get("id");
  if (!id || !!o->get("result") == !!o->get("error"))
    violate("bad-response", "malformed response: " + body.substr(0, 300));
  if (o->getString("jsonrpc") != llvm::StringRef("2.0"))
    violate("bad-response", "not JSON-RPC 2.0: " + body.substr(0, 300));
  auto it = S->byId.find(dump(*id));
  if (it == S->byId.end() || !S->reqs[it->second].sent)
    violate("stray-response", "a response to no request: " + body.substr(0, 300));
  Req &r = S->reqs[it->second];
  if (++r.answers > 1)
    violate("answered-twice", "a second response to " + r.id + ": " +
                                  body.substr(0, 300));
  event("response", it->second);
  logf("response to %s", r.id.c_str());
  auto *err = o->getObject("error");
  std::string want;
  if (r.kind == 0 && r.how <= 1) {
    json::Value w = json::Object{{"tag", r.tag}, {"text", r.text}};
    auto *res = o->get("result");
    if (!res || *res != w)
      violate("wrong-response", "request " + r.id + " expected result " +
                                    dump(w).substr(0, 200) + ", got " +
                                    body.substr(0, 300));
    return;
  }
  if (!err)
    violate("wrong-response", "request " + r.id +
                                  " expected an error, got " +
                                  body.substr(0, 300));
  auto code = err->getInteger("code");
  auto msg = err->getString("message");
  if (!code || !msg)
    violate("wrong-response", "malformed error: " + body.substr(0, 300));
  if (r.kind == 1 && *code != -32602)
    violate("wrong-response", "request " + r.id +
                                  " with undecodable parameters got code " +
                                  std::to_string(*code));
  if (r.kind == 0 && r.how == 2 &&
      (*code != -32600 || *msg != "refused " + r.text))
    violate("wrong-response", "request " + r.id + " got " + body.substr(0, 300));
  if (r.kind == 0 && r.how == 3 && *msg != "failed " + r.text)
    violate("wrong-response", "request " + r.id + " got " + body.substr(0, 300));
}
void readServer() {
  S->fp.feed(S->in.readSome());
  if (S->fp.bad)
    violate("bad-frame", S->fp.why);
  while (S->parsed < S->fp.bodies.size())
    handleFrame(S->fp.bodies[S->parsed++]);
}
void end(const std::string &why) {
  bool steady = K.jump == 0 && S->steady;
  K.eintr = K.jump = K.stall = 0;
  if (S->endedAt < 0) {
    for (auto &[t, c] : S->calls)
      if (steady && c.started && !c.done && c.repliedAt >= 0 && !S->lossy &&
          now() > c.repliedAt + 30 * SEC)
        violate("callback-late", "the callback of call " + std::to_string(t) +
                                     " has not run 30 s after its reply");
    S->endedAt = now();
    S->ended = true;
    S->endKind = why;
  }
}
bool callersQuiet() {
  return S->callersDone == S->ncallers;
}

std::string strayBytes(int kind, int n) {
  static const char *ids[] = {"\"abc\"",  "null",       "1.5",
                              "999999",   "-3",         "4294967297",
                              "99999999999", "[1]",     "{\"a\":1}",
                              "-4294967291", "true",    "0"};
  std::string id = ids[kind % 12];
  if (kind >= 12) // an id congruent to a live one modulo 2^32
    id = std::to_string(4294967296ll * (kind - 11) + n % 50);
  std::string b = "{\"jsonrpc\":\"2.0\",\"id\":" + id + "," +
                  (n % 2 ? "\"result\":{\"tag\":1,\"text\":\"stray\"}}"
                         : "\"error\":{\"code\":1,\"message\":\"stray\"}}");
  return frame(b);
}
std::string junkBytes(int k) {
  static const char *junk[] = {"{not json", "[]", "42", "{\"id\":1}",
                               "{\"jsonrpc\":\"2.0\"}",
                               "{\"jsonrpc\":\"1.0\",\"method\":\"x\"}", "",
                               "{\"jsonrpc\":\"2.0\",\"method\":7}",
                               "{\"jsonrpc\":\"2.0\",\"id\":null}"};
  return frame(junk[k % 9]);
}

void setup(const Plan &P) {
  S = new St();
  S->c05 = P.scenario == "C05";
  S->steady = P.getd("stall") == 0;
  S->workers = (int)P.geti("workers", 0);
  int maxCaller = -1;
  int64_t t = 0;
  for (auto &op : P.ops) {
    auto w = words(op);
    if (w[0] == "call") {
      int k = (int)num(w, 1), tag = (int)num(w, 2);
      maxCaller = std::max(maxCaller, k);
      CallSt &c = S->calls[tag];
      c.len = (int)num(w, 3);
      c.kids = (int)num(w, 4);
      c.action = w[6][0];
      c.delay = num(w, 7) * MS;
      c.caller = k;
      S->script[k].push_back(w);
    } else if (w[0] == "cwait" || w[0] == "cnote") {
      maxCaller = std::max(maxCaller, (int)num(w, 1));
      S->script[(int)num(w, 1)].push_back(w);
    } else if (w[0] == "wait") {
      t += num(w, 1) * MS;
    } else {
      St::Ev e;
      e.at = t;
      e.what = w[0];
      if (w[0] == "stray")
        e.bytes = strayBytes((int)num(w, 1), (int)num(w, 2));
      else if (w[0] == "junk")
        e.bytes = junkBytes((int)num(w, 1));
      else if (w[0] == "note") {
        int tag = (int)num(w, 1);
        static const char *un[] = {"unknown/note", "$/cancelRequest", "$/x", "",
                                   "textDocument/nothing", "shutdown"};
        std::string m = num(w, 2) ? un[tag % 6] : "test/note";
        json::Value p = json::Object{{"tag", tag}, {"text", genText(tag, 9)}};
        if (num(w, 3))
          p = json::Object{{"tag", "x"}};
        else if (!num(w, 2))
          S->notesSent[tag]++;
        e.bytes = frame(dump(json::Object{
            {"jsonrpc", "2.0"}, {"method", m}, {"params", std::move(p)}}));
      } else if (w[0] == "req") {
        Req r;
        int tag = (int)num(w, 1);
        r.tag = tag;
        r.kind = (int)num(w, 2);
        r.how = (int)num(w, 3);
        r.who = (int)num(w, 4);
        if (r.who > S->workers)
          r.who = 0;
        r.text = genText(tag, (int)num(w, 5));
        json::Value id = nullptr;
        switch (num(w, 6)) {
        case 0:
          id = tag;
          break;
        case 1:
          id = "s" + genText(tag, 8) + std::to_string(tag);
          break;
        case 2:
          id = -tag;
          break;
        case 3:
          id = (int64_t)tag + ((int64_t)1 << 40);
          break;
        case 4:
          id = tag + 0.5;
          break;
        case 5:
          id = std::to_string(tag);
          break;
        case 6:
          id = json::Array{tag};
          break;
        case 7:
          id = json::Object{{"id", tag}};
          break;
        default: // any JSON value may be an id, if it is not in use
          static const char *odd[] = {"null", "true", "\"\"", "0", "{}"};
          id = parseJson(odd[tag % 5]);
          if (S->byId.count(dump(id)))
            id = tag;
        }
        r.id = dump(id);
        json::Object o{{"jsonrpc", "2.0"}, {"id", id}};
        static const char *un[] = {"no/such", "$/no/such", "exit", "",
                                   "textDocument/nothing", "test/dO"};
        o["method"] = r.kind == 2 ? un[tag % 6] : "test/do";
        json::Value p = json::Object{{"tag", tag}, {"text", r.text}};
        if (r.kind == 1)
          switch (tag % 4) {
          case 0:
            p = nullptr;
            break;
          case 1:
            p = json::Object{{"tag", tag}};
            break;
          case 2:
            p = json::Array{};
            break;
          default:
            p = json::Object{{"tag", "no"}, {"text", 4}};
          }
        if (!(r.kind == 1 && tag % 8 == 0) && !(r.kind == 2 && tag / 6 % 3 == 0))
          o["params"] = std::move(p);
        e.bytes = frame(dump(std::move(o)), tag % 4);
        e.req = (int)S->reqs.size();
        S->byId[r.id] = e.req;
        S->byTag[tag] = e.req;
        S->reqs.push_back(r);
      } else if (w[0] == "exit") {
        e.bytes = frame("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}");
      } else if (w[0] == "end") {
        S->endKind = w[1];
        S->endAt = t;
        continue;
      }
      S->evs.emplace(e.at, e);
    }
  }
  if (S->endKind.empty())
    S->endKind = "close";
  for (int k = 0; k <= maxCaller; ++k)
    if (S->script.count(k))
      S->ncallers++;
  Pipe *in = serverReads(3), *out = serverWrites(4);
  in->sock = P.geti("sock");
  in->cap = P.geti("cap", 65536);
  out->cap = P.geti("cap", 65536);
  setFd(self(), 1, newFile(File::Sink, nullptr));
  setFd(self(), 2, newFile(File::Sink, nullptr));
  self().sigpipeIgnored = true;
  S->out.open(in);
  S->in.open(out);
  S->out.chop = S->in.chop = P.getd("chop", 0.5);
  H.pidAlive = [](int pid) { return pid == 1000 && !S->pidDead; };
  H.stepCap = 600000;
  H.timeCap = 2000 * SEC;
  H.onExit = [](int c) {
    violate("crash:exit", "exit(" + std::to_string(c) + ")");
  };
  H.onIdle = [] {
    violate("stuck", "nothing can happen any more: " + blockedReport());
  };
  H.onStep = [] {
    checkLimit();
    if (S->endedAt >= 0 && now() > S->endedAt + 30 * SEC)
      violate("stuck", "still busy 30 s after the end (" + S->endKind +
                           "): " + blockedReport());
  };
  sut::onCallStart = onCallStart;
  sut::onResult = onResult;
  sut::onRequest = [](const sut::Request &q) {
    sut::Todo d;
    auto v = parseJson(q.params);
    int tag = (int)v.getAsObject()->getInteger("tag").value_or(0);
    if (q.method == "test/note") {
      S->notesGot[tag]++;
      return d;
    }
    auto it = S->byTag.find(tag);
    if (it == S->byTag.end())
      violate("bad-request", "a request never sent was handled");
    Req &r = S->reqs[it->second];
    if (r.kind != 0)
      violate("bad-request", "undecodable parameters reached a handler");
    d.how = r.how;
    d.who = r.who;
    return d;
  };

  auto peer = std::make_shared<FnActor>();
  peer->name = "peer";
  peer->readyFn = [] {
    if (S->in.canRead())
      return true;
    if (S->out.closed())
      return false;
    if (S->out.canSend())
      return true;
    if (!S->evs.empty() && now() >= S->evs.begin()->first)
      return true;
    if (S->endedAt >= 0 || S->closeReq || !callersQuiet() || !S->out.q.empty())
      return false;
    // the end: at its time, whether or not everything was sent
    return now() >= S->endAt && (S->endKind != "close" || S->evs.empty());
  };
  peer->wakeFn = []() -> int64_t {
    if (S->out.closed())
      return -1;
    int64_t w = -1;
    if (!S->evs.empty())
      w = S->evs.begin()->first;
    if (S->endedAt < 0 && S->endAt > now() && (w < 0 || S->endAt < w))
      w = S->endAt;
    return w;
  };
  peer->stepFn = [] {
    bool r = S->in.canRead(), w = !S->out.closed() && S->out.canSend();
    if (r && (!w || pickn('d', 2) == 0))
      return readServer();
    if (S->out.closed())
      return;
    if (!S->evs.empty() && now() >= S->evs.begin()->first) {
      St::Ev e = S->evs.begin()->second;
      S->evs.erase(S->evs.begin());
      S->out.q += e.bytes;
      if (e.tag >= 0) {
        S->calls[e.tag].replyEnd = S->out.sent + S->out.q.size();
        S->anyReply = true;
      }
      if (e.req >= 0 && !S->exitSent)
        S->reqs[e.req].sent = true;
      if (e.what == "exit") {
        S->exitSent = true;
        S->exitOff = S->out.sent + S->out.q.size();
        end("exit");
      }
      if (e.what == "stray")
        faultCount("stray-reply");
      if (e.what == "junk")
        faultCount("junk-frame");
      return;
    }
    if (w) {
      S->out.sendSome();
      for (auto &[t, c] : S->calls)
        if (c.replyEnd && c.repliedAt < 0 && S->out.sent >= c.replyEnd)
          c.repliedAt = now();
      return;
    }
    if (S->endedAt >= 0 || S->closeReq)
      return;
    if (S->endKind == "die") {
      S->pidDead = true;
      S->lossy = true;
      faultCount("editor-death");
      end("the editor process is gone");
    } else if (S->endKind == "portclose") {
      S->lossy = true;
      S->closeReq = true;
      faultCount("port-close");
    } else if (S->c05 && !S->exitSent && S->endKind == "exit") {
      S->exitSent = true;
      S->out.q = frame("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}");
      S->exitOff = S->out.sent + S->out.q.size();
      end("exit");
    } else {
      S->out.close();
      faultCount("peer-close");
      end("the peer closed its end");
    }
  };
  addActor(peer);

  spawn("main", [] {
    sut::mkServer(3, 4);
    std::vector<int> ids;
    {
      InRt _;
      ids.push_back(spawn("reader", [] {
        sut::runServer();
        InRt _;
        if (!S->ended && !S->closing)
          violate("loop-ended", "the server stopped reading on its own");
        S->runDone = true;
        logf("the message loop returned");
      }));
      for (auto &[k, v] : S->script) {
        int kk = k;
        ids.push_back(spawn("caller" + std::to_string(k), [kk] {
          std::vector<std::vector<std::string>> *sc;
          {
            InRt _;
            sc = &S->script[kk];
          }
          for (size_t i = 0; i < sc->size(); ++i) {
            int tag, kids, raw, len;
            std::string text;
            {
              InRt _;
              auto &w = (*sc)[i];
              tag = (int)num(w, 2);
              if (w[0] == "cwait") {
                int64_t t = now() + num(w, 2) * MS;
                waitUntil([t] { return now() >= t; }, "its next call", t);
                continue;
              }
              len = (int)num(w, 3);
              kids = (int)num(w, 4);
              raw = (int)num(w, 5);
              text = w[0] == "cnote" ? "note" : callText(tag, len);
            }
            if (len < 0)
              sut::notifyOut(tag, text);
            else
              sut::call(tag, text, kids, raw);
          }
          InRt _;
          S->callersDone++;
        }));
      }
      for (int k = 1; k <= S->workers; ++k)
        ids.push_back(spawn("worker" + std::to_string(k), [k] {
          for (;;) {
            bool stop;
            waitUntil([k] { return S->stopWorkers || sut::haveWork(k); },
                      "work");
            {
              InRt _;
              stop = !sut::haveWork(k);
            }
            if (stop)
              return;
            sut::answerOne(k);
          }
        }));
      if (S->endKind == "portclose")
        ids.push_back(spawn("owner", [] {
          waitUntil([] { return S->closeReq; }, "the owner's decision");
          {
            InRt _;
            S->closing = true;
          }
          sut::closeServer();
          InRt _;
          end("the owner closed the port");
        }));
    }
    waitUntil([] { return S->runDone && S->callersDone == S->ncallers; },
              "the loop and the callers");
    {
      InRt _;
      S->stopWorkers = true;
    }
    for (int i : ids)
      join(i);
    waitUntil([] { return !S->in.canRead() && S->in.f->pipe->buf.empty(); },
              "the peer to read everything");
    {
      InRt _;
      judgeCalls();
      if (S->fp.rest())
        violate("bad-frame", "an incomplete frame was left: " +
                                 S->fp.buf.substr(0, 100));
      for (auto &r : S->reqs) {
        if (r.sent && !r.answers && !S->lossy)
          violate("unanswered", "request " + r.id + " was never answered (" +
                                    (r.kind == 1   ? "undecodable parameters"
                                     : r.kind == 2 ? "unknown method"
                                                   : "valid") +
                                    ")");
        if (r.answers)
          probe(r.kind == 0   ? "answered"
                : r.kind == 1 ? "bad-params"
                              : "unknown-method");
      }
      if (!S->lossy && !S->exitSent)
        for (auto &[t, n] : S->notesSent)
          if (S->notesGot[t] != n)
            violate("notification-lost", "a notification was handled " +
                                             std::to_string(S->notesGot[t]) +
                                             " times");
    }
    sut::destroyServer();
    finish();
  });
}

void gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  bool c05 = P.scenario == "C05";
  P.set("sock", G.chance(0.3));
  static const std::vector<int> caps = {16, 256, 4096, 65536};
  P.set("cap", G.chance(0.3) ? G.pick(caps) : 65536);
  static const std::vector<double> chops = {0, 0.3, 0.8};
  P.setd("chop", G.pick(chops));
  int tag = 1000 + (int)G.range(0, 500);
  auto o = [&](const std::string &s) { P.ops.push_back(s); };
  auto n2s = [](int64_t v) { return std::to_string(v); };
  int end = (int)G.range(0, 9);
  if (!c05) {
    int callers = (int)G.range(1, 4);
    bool burst = G.chance(0.25);
    static const std::vector<std::string> acts = {
        "r", "r", "r", "r", "r", "r", "r", "e", "e", "d", "d", "u", "u", "n",
        "n", "q"};
    for (int k = 0; k < callers; ++k) {
      int n = (int)G.range(1, 6);
      if (burst && (k == 0 || G.chance(0.4)))
        n = (int)G.range(callers > 1 ? 50 : 100, 130);
      for (int i = 0; i < n; ++i) {
        if (n < 20 && G.chance(0.2))
          o("cwait " + n2s(k) + " " + n2s(G.range(1, 2500)));
        if (G.chance(0.05))
          o("cnote " + n2s(k) + " 5 -1");
        std::string a = G.pick(acts);
        if (burst && G.chance(0.85))
          a = "n";
        ++tag;
        o("call " + n2s(k) + " " + n2s(tag) + " " + n2s(G.range(0, 30)) + " " +
          n2s(G.chance(0.1) ? G.range(1, 2) : 0) + " " +
          n2s(G.chance(0.2)) + " " + a + " " +
          n2s(G.chance(0.5) ? 0 : G.range(1, 3000)));
      }
    }
    int m = (int)G.range(0, 5);
    for (int i = 0; i < m; ++i) {
      if (G.chance(0.5))
        o("wait " + n2s(G.range(1, 900)));
      int q = (int)G.range(0, 5);
      if (q < 4)
        o("stray " + n2s(G.range(0, 13)) + " " + n2s(G.range(0, 60)));
      else if (q == 4)
        o("junk " + n2s(G.range(0, 8)));
      else
        o("note " + n2s(++tag) + " " + n2s(G.chance(0.5)) + " " +
          n2s(G.chance(0.3)));
    }
    o("wait " + n2s(G.chance(0.2)   ? 60000
                    : G.chance(0.5) ? G.range(1, 300)
                                    : G.range(300, 5000)));
    o(end < 7 ? "end close" : end < 8 ? "end portclose" : "end die");
    return;
  }
  P.set("workers", G.range(0, 3));
  int n = (int)G.range(1, 14);
  for (int i = 0; i < n; ++i) {
    if (G.chance(0.2))
      o("wait " + n2s(G.range(1, 1500)));
    ++tag;
    int q = (int)G.range(0, 19);
    if (q < 2)
      o("junk " + n2s(G.range(0, 8)));
    else if (q < 4)
      o("stray " + n2s(G.range(0, 13)) + " " + n2s(G.range(0, 60)));
    else if (q < 6)
      o("note " + n2s(tag) + " " + n2s(G.chance(0.4)) + " " +
        n2s(G.chance(0.4)));
    else
      o("req " + n2s(tag) + " " +
        n2s(G.chance(0.6) ? 0 : G.range(1, 2)) + " " +
        n2s(G.chance(0.6) ? 0 : G.range(2, 3)) + " " + n2s(G.range(0, 3)) +
        " " + n2s(G.chance(0.05) ? G.range(5000, 30000) : G.range(0, 40)) +
        " " + n2s(G.range(0, 8)));
  }
  if (G.chance(0.3))
    o("cwait 0 " + n2s(G.range(0, 200)));
  if (G.chance(0.3))
    o("call 0 " + n2s(++tag) + " 5 0 0 r 10");
  if (G.chance(0.5))
    o("wait " + n2s(G.range(1, 3000)));
  o(end < 5 ? "end exit" : end < 8 ? "end close"
        : end < 9 ? "end portclose" : "end die");
}
Register r4("C04", gen, setup), r5("C05", gen, setup);
} // namespace
