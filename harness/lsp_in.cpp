// C01: incoming framing. C03: the loop ends exactly when it should.
#include "common.h"
#include "lsp_if.h"

using namespace hs;
namespace {
struct Expect {
  int kind;
  std::string method, id, payload;
};
struct St {
  bool lit = false, c03 = false;
  std::vector<Expect> expect; // complete messages, in order
  std::vector<size_t> endAt;  // stream offset at which each is complete
  size_t got = 0;
  Sender out;
  struct Op {
    std::string what;
    std::string bytes;
    int64_t ms = 0;
  };
  std::vector<Op> ops;
  size_t at = 0;
  int64_t until = 0;
  int64_t endSince = -1; // when the reason to end arose
  std::string reason;
  bool peerGone = false, pidDead = false, owner = false, lossy = false;
  bool done = false;
  bool closeReq = false, closing = false;
  int64_t chat = 0; // the other end keeps sending, this often
  int chatted = 0;
};
St *S;

json::Value message(int kind, uint64_t id, int fill, Expect &e) {
  json::Value p = genValue(id, fill);
  json::Object o{{"jsonrpc", "2.0"}};
  Gen g(id + 99);
  json::Value jid = (int64_t)id;
  if (kind != 0 && g.chance(0.3))
    jid = "id-" + genText(id, 6);
  e.kind = kind;
  if (kind <= 1) {
    e.method = "m/" + std::to_string(id);
    o["method"] = e.method;
    if (g.chance(0.9)) {
      o["params"] = p;
      e.payload = dump(p);
    } else
      e.payload = "null";
  }
  if (kind >= 1) {
    o["id"] = jid;
    e.id = dump(jid);
  }
  if (kind == 2) {
    o["result"] = p;
    e.payload = dump(p);
  }
  if (kind == 3) {
    std::string m = "err " + genText(id, 10, true);
    o["error"] = json::Object{{"code", -32000}, {"message", m}};
    e.payload = "-32000: " + m;
  }
  return std::move(o);
}

std::string litBlock(int kind, uint64_t id, int fill, Expect &e) {
  Gen g(id * 7 + 1);
  std::string s;
  // what editors and people leave around the fences: blanks and CRLF
  std::string lead = g.chance(0.1) ? g.chance(0.5) ? "  " : "\t" : "";
  std::string nl = g.chance(0.1) ? "  \n" : g.chance(0.2) ? "\r\n" : "\n";
  if (g.chance(0.6))
    s += "Some prose " + std::to_string(id) + "\n\n# Title\n";
  if (g.chance(0.4) && kind == 0) {
    std::string text;
    int n = (int)g.range(0, 5);
    for (int i = 0; i < n; ++i)
      text += "line " + genText(id + i, (int)g.range(0, 12), true) + "\n";
    s += lead + "```nix file:///doc" + std::to_string(id) + ".nix" + nl + text +
         lead + "```" + nl;
    while (!text.empty() && isspace((unsigned char)text.back()))
      text.pop_back();
    e.kind = 0;
    e.method = "textDocument/didOpen";
    e.payload = dump(json::Object{
        {"textDocument",
         json::Object{{"uri", "file:///doc" + std::to_string(id) + ".nix"},
                      {"languageId", "nix"},
                      {"version", 1},
                      {"text", text}}}});
    return s;
  }
  json::Value m = message(kind, id, fill, e);
  std::string body = llvm::formatv("{0:2}", m).str();
  s += lead + "```json" + nl;
  if (g.chance(0.4))
    s += lead + "# a comment {" + nl;
  for (char c : body)
    if (c == '\n')
      s += nl + lead;
    else
      s += c;
  s += nl + lead + "```" + nl;
  return s;
}

void expectSame(const sut::Incoming &m) {
  if (S->got >= S->expect.size())
    violate("unexpected-message", "a message that was never completely sent "
                                  "was handed over: " +
                                      m.method + " " + m.payload.substr(0, 200));
  const Expect &e = S->expect[S->got];
  // how much the peer has written so far
  if (S->out.sent < S->endAt[S->got])
    violate("early-message", "message " + std::to_string(S->got) +
                                 " was handed over before it was complete");
  if (e.kind != m.kind || e.method != m.method || e.id != m.id ||
      dump(parseJson(e.kind == 3 ? "0" : e.payload)) !=
          dump(parseJson(m.kind == 3 ? "0" : m.payload)) ||
      (e.kind == 3 && e.payload != m.payload))
    violate("wrong-message",
            "message " + std::to_string(S->got) + " differs: sent kind " +
                std::to_string(e.kind) + " " + e.method + " id " + e.id + " " +
                e.payload.substr(0, 300) + "; received kind " +
                std::to_string(m.kind) + " " + m.method + " id " + m.id + " " +
                m.payload.substr(0, 300));
  S->got++;
  event("message", S->got);
  logf("message %zu handed over", S->got);
}

void judge() {
  logf("loop returned");
  if (S->endSince < 0 && !S->closing)
    violate("loop-ended", "the message loop returned although the peer is "
                          "there and the port is open (" +
                              std::to_string(S->got) + " messages handed over)");
  int64_t late = S->endSince < 0 ? 0 : now() - S->endSince;
  if (late > 3 * SEC)
    violate("loop-late", "the message loop returned " +
                             std::to_string(late / MS) + " ms after: " +
                             S->reason);
  if (!S->lossy && S->got < S->expect.size())
    violate("lost-message",
            std::to_string(S->expect.size() - S->got) +
                " complete messages were never handed over although the peer "
                "sent them before closing");
  if (S->got == S->expect.size())
    probe("all-delivered");
  finish();
}

void ended(const std::string &why) {
  K.eintr = K.jump = K.stall = 0; // progress is owed once faults stop
  if (S->endSince < 0) {
    S->endSince = now();
    S->reason = why;
  }
}

void setup(const Plan &P) {
  S = new St();
  S->lit = P.geti("lit");
  S->c03 = P.scenario == "C03";
  size_t off = 0;
  for (auto &line : P.ops) {
    auto w = words(line);
    St::Op op;
    op.what = w[0];
    auto num = [&](size_t i) -> int64_t {
      return i < w.size() ? strtoll(w[i].c_str(), nullptr, 10) : 0;
    };
    if (w[0] == "msg" || w[0] == "part") {
      Expect e;
      if (S->lit)
        op.bytes = litBlock((int)num(1), num(2), (int)num(4), e);
      else
        op.bytes =
            frame(dump(message((int)num(1), num(2), (int)num(4), e)) +
                      std::string((size_t)num(6), num(2) % 2 ? ' ' : '\n'),
                  (int)num(3));
      if (w[0] == "part") { // stops in the middle for good
        size_t cut = op.bytes.size() * (size_t)num(5) / 1000;
        if (S->lit && cut + 2 > op.bytes.size())
          cut = op.bytes.size() - 2;
        if (num(5) > 1000 && !S->lit) // what is missing is white space
          cut = op.bytes.size() - 1 - num(2) % num(6);
        if (cut >= op.bytes.size())
          cut = op.bytes.size() - 1;
        op.bytes.resize(cut);
        off += op.bytes.size();
        S->ops.push_back(op);
        // nothing can follow a message that stops in the middle
        St::Op c;
        c.what = "stop";
        S->ops.push_back(c);
        continue;
      }
      off += op.bytes.size();
      S->expect.push_back(e);
      S->endAt.push_back(off);
      S->ops.push_back(op);
    } else if (w[0] == "junk") {
      // complete frames that are not JSON-RPC messages
      static const char *junk[] = {"{not json", "[]", "42", "{\"id\":1}",
                                   "{\"jsonrpc\":\"2.0\"}",
                                   "{\"jsonrpc\":\"1.0\",\"method\":\"x\"}", ""};
      if (!S->lit) {
        op.what = "msg";
        op.bytes = frame(junk[num(1) % 7]);
        off += op.bytes.size();
        S->ops.push_back(op);
      }
    } else {
      op.ms = num(1);
      S->ops.push_back(op);
    }
  }
  // messages after the point where nothing more is sent do not count
  bool stopped = false;
  std::vector<St::Op> keep;
  size_t nmsg = 0, sentOff = 0;
  for (auto &o : S->ops) {
    if (o.what == "stop") {
      stopped = true;
      continue;
    }
    if ((o.what == "msg" || o.what == "part") && stopped)
      continue;
    if (o.what == "msg" || o.what == "part")
      sentOff += o.bytes.size();
    keep.push_back(o);
    if (o.what == "close" || o.what == "die" || o.what == "portclose")
      break;
  }
  S->ops = keep;
  while (nmsg < S->endAt.size() && S->endAt[nmsg] <= sentOff)
    nmsg++;
  S->expect.resize(nmsg);
  S->endAt.resize(nmsg);
  if (S->ops.empty() || (S->ops.back().what != "close" &&
                         S->ops.back().what != "die" &&
                         S->ops.back().what != "portclose")) {
    St::Op c;
    c.what = "close";
    S->ops.push_back(c);
  }
  if (S->ops.back().what != "close" && !stopped && !S->lit)
    S->chat = P.geti("chat") * MS;
  Pipe *in = serverReads(0);
  in->sock = P.geti("sock");
  in->cap = P.geti("cap", 65536);
  setFd(self(), 1, newFile(File::Sink, nullptr));
  setFd(self(), 2, newFile(File::Sink, nullptr));
  S->out.open(in);
  S->out.chop = P.getd("chop", 0.5);
  H.pidAlive = [](int pid) { return pid == 1000 && !S->pidDead; };
  H.pidForeign = P.geti("foreign");
  H.stepCap = 1200000;
  H.timeCap = 2000 * SEC;
  H.onIdle = [] {
    violate("loop-stuck", "the message loop did not return although: " +
                              S->reason + "; " + blockedReport());
  };
  H.onStep = [] {
    if (S->endSince >= 0 && now() > S->endSince + 10 * SEC)
      violate("loop-stuck", "the message loop is still running 10 s after: " +
                                S->reason + "; " + blockedReport());
  };
  H.onExit = [](int c) {
    violate("crash:exit", "exit(" + std::to_string(c) + ")");
  };
  sut::onMessage = [](const sut::Incoming &m) {
    expectSame(m);
    return true;
  };
  auto peer = std::make_shared<FnActor>();
  peer->name = "peer";
  peer->readyFn = [] {
    if (S->out.canSend())
      return true;
    if (!S->out.q.empty())
      return false;
    return (S->at < S->ops.size() || S->chat) && now() >= S->until;
  };
  peer->wakeFn = []() -> int64_t {
    return (S->at < S->ops.size() || S->chat) && S->out.q.empty() ? S->until
                                                                  : -1;
  };
  peer->stepFn = [] {
    if (!S->out.q.empty()) {
      S->out.sendSome();
      if (S->out.chop > 0 && !S->out.q.empty() && flip('t', 0.05)) {
        S->until = now() + (1 + pickn('T', 5)) * 700 * MS;
        faultCount("stalled-peer");
      }
      return;
    }
    if (S->at == S->ops.size()) { // ended, but somebody goes on sending
      Expect e;
      S->out.q = frame(dump(message(0, 5000000 + S->chatted++, 0, e)));
      S->expect.push_back(e);
      S->endAt.push_back(S->out.sent + S->out.q.size());
      S->until = now() + S->chat;
      faultCount("talks-on");
      return;
    }
    St::Op &o = S->ops[S->at++];
    if (o.what == "msg" || o.what == "part") {
      S->out.q = o.bytes;
    } else if (o.what == "wait") {
      S->until = now() + o.ms * MS;
    } else if (o.what == "close") {
      S->out.close();
      faultCount("peer-close");
      ended("the peer closed its end");
    } else if (o.what == "die") {
      S->pidDead = true;
      S->lossy = true;
      faultCount("editor-death");
      ended("the editor process is gone");
    } else if (o.what == "portclose") {
      S->lossy = true;
      S->closeReq = true;
      faultCount("port-close");
    }
  };
  addActor(peer);
  spawn("main", [] {
    sut::runInbound(0, S->lit ? 1 : 0);
    {
      InRt _;
      judge();
    }
  });
  bool owner = false;
  for (auto &o : S->ops)
    owner |= o.what == "portclose";
  if (owner)
    spawn("owner", [] {
      waitUntil([] { return S->closeReq && sut::portReady(); }, "the owner's decision");
      {
        InRt _;
        S->closing = true;
      }
      sut::closeInbound();
      InRt _;
      ended("the owner closed the port");
    });
}

void gen(Plan &P, Gen &G) {
  genKnobs(P, G);
  bool c03 = P.scenario == "C03";
  bool lit = G.chance(c03 ? 0.1 : 0.25);
  P.set("lit", lit);
  P.set("sock", G.chance(0.3));
  P.set("foreign", G.chance(0.1));
  static const std::vector<int> caps = {1, 7, 64, 4096, 65536};
  P.set("cap", G.chance(0.3) ? G.pick(caps) : 65536);
  static const std::vector<double> chops = {0, 0.3, 0.9};
  P.setd("chop", G.pick(chops));
  static const std::vector<int> fills = {0, 0, 3, 20, 200};
  int n = (int)G.range(c03 ? 0 : 1, c03 ? 4 : 8);
  for (int i = 0; i < n; ++i) {
    if (!lit && G.chance(0.1))
      P.ops.push_back("junk " + std::to_string(G.range(0, 6)));
    int fill = G.pick(fills);
    if (G.chance(0.05))
      fill = (int)G.range(1000, 20000);
    if (!lit && P.geti("cap") == 65536 && G.chance(0.02))
      fill = (int)G.range(60000, 180000);
    P.ops.push_back("msg " + std::to_string(G.range(0, 3)) + " " +
                    std::to_string(G.range(1, 1000000)) + " " +
                    std::to_string(G.chance(0.6) ? 0 : G.range(1, 3)) + " " +
                    std::to_string(fill) +
                    (G.chance(0.15) ? " 0 " + std::to_string(G.range(1, 9)) : ""));
    if (G.chance(c03 ? 0.5 : 0.2))
      P.ops.push_back("wait " + std::to_string(G.chance(0.5) ? G.range(1, 900)
                                                             : G.range(900, 9000)));
  }
  if (G.chance(c03 ? 0.6 : 0.35))
    P.ops.push_back("part " + std::to_string(G.range(0, 3)) + " " +
                    std::to_string(G.range(1, 1000000)) + " " +
                    std::to_string(G.range(0, 3)) + " " +
                    std::to_string(G.range(0, 60)) + " " +
                    (G.chance(0.2) ? "1001 " + std::to_string(G.range(1, 9))
                                   : std::to_string(G.range(0, 1000))));
  if (G.chance(c03 ? 0.5 : 0.1))
    P.ops.push_back("wait " + std::to_string(G.range(1, 60000)));
  if (c03 && G.chance(0.3))
    P.set("chat", G.range(1, 900));
  int r = (int)G.range(0, 9);
  if (c03)
    P.ops.push_back(r < 4 ? "close" : r < 7 ? "portclose" : "die");
  else
    P.ops.push_back(r < 8 ? "close" : r < 9 ? "portclose" : "die");
}
Register r1("C01", gen, setup), r3("C03", gen, setup);
} // namespace
