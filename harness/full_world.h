// The world around the real server: editor, workers, formatters, file system.
#pragma once
#include "common.h"
#include <set>

namespace fw {
using namespace hs;

/// One state of a document in the editor; `at` is the number of messages the
/// editor had queued when it took effect.
struct DocState {
  uint64_t at = 0;
  bool open = false;
  int64_t version = 0;
  std::string text;
  int tid = -1;      // text number in the pool, if any
  bool dropped = false; // closed by an edit that does not fit
};
struct Doc {
  std::string path, uri;
  std::vector<DocState> st;
  const DocState &cur() const { return st.back(); }
  /// States the server may be in for something between two stream positions.
  std::vector<const DocState *> window(uint64_t from, uint64_t to) const;
};
struct Req {
  int id = 0;
  std::string kind, method;
  int doc = -1;
  int line = 0, ch = 0;
  std::vector<std::string> op;
  uint64_t at = 0;        // stream position of the request
  uint64_t repliedAt = 0; // stream position when the reply was read
  int64_t tSent = 0, tReply = 0;
  uint64_t stepSent = 0, stepReply = 0;
  bool answered = false, err = false;
  json::Value result = nullptr;
  std::string errMsg;
};
struct Publish {
  int doc = -1;
  std::optional<int64_t> version;
  json::Value diags = nullptr;
  uint64_t at = 0;
  int64_t t = 0;
};
struct Conf {
  std::vector<std::string> fmt; // formatter command; empty: not given
  bool hasFmt = false;
  std::vector<std::string> suppress;
  std::map<std::string, std::string> options;
  std::string nixpkgs;
  json::Value toJson() const;
};
/// A question a worker was asked.
struct Ask {
  int serial = 0, worker = -1;
  std::string method;
  json::Value params = nullptr;
  json::Value id = nullptr;
  std::vector<std::string> path; // attrpathInfo, optionInfo, or scope
  std::string prefix;
  uint64_t at = 0;
  int64_t t = 0, tReply = -1;
  bool answered = false, err = false, lost = false;
  int64_t due = 0;
  json::Value result = nullptr;
  std::string fault;
  bool claimed = false;
};
struct Worker : Actor {
  int idx = 0;
  Proc *p = nullptr;
  Sender out;
  Receiver in;
  FrameParser fp;
  std::vector<int> pending; // serials in W->asks
  std::vector<std::string> exprs; // evaluated expressions in order
  int nreq = 0;
  bool gone = false, told = false, sawEof = false;
  int64_t stallUntil = 0, dieAt = -1, readAfter = 0;
  int dieStatus = 9;
  std::map<int, std::vector<std::string>> faults; // n-th request -> fault
  bool dieWhenSent = false;
  bool deaf = false; // never answers again
  std::string unread; // what was in its pipe when it ended
  bool doomed() const { return gone || deaf || dieAt >= 0 || dieWhenSent; }
  bool hadFault = false;
  bool linger = false; // goes on for ever when it should leave
  bool ready() override;
  void step() override;
  int64_t wake() override;
  void onBody(const std::string &b);
  void fault(const std::vector<std::string> &f, Ask *a);
  void exitNow(int status);
  void answer(Ask &a);
  /// which worker this is: "" nixpkgs, otherwise the option set's name
  bool isNixpkgs() const { return idx == 0; }
};
struct Formatter : Actor {
  Proc *p = nullptr;
  std::string mode;
  std::vector<std::string> args;
  Sender out, err;
  Receiver in;
  bool inOpen = true;
  std::string got, expected;
  bool sawEof = false, gone = false, wrote = false, readAll = false;
  int status = 0;
  int64_t startAt = 0, t0 = 0;
  uint64_t atStart = 0, atEnd = 0, stepStart = 0;
  int64_t lingerUntil = -1, readAfter = 0, tEnd = -1;
  bool linger() const { return lingerUntil >= 0; }
  std::string produced; // everything handed to its stdout
  bool ready() override;
  void step() override;
  int64_t wake() override;
  void finishUp(int status);
};
struct Progress {
  std::string token;
  int created = 0, begun = 0, ended = 0;
  int64_t tBegin = -1;
};
struct World {
  Plan P;
  // editor
  Sender in;
  Receiver out;
  FrameParser fp;
  uint64_t queued = 0; // messages queued so far
  std::vector<Doc> docs;
  std::vector<std::string> ops;
  size_t pc = 0;
  int64_t wakeAt = -1;
  std::string waiting; // sync / settle
  int64_t waitSince = 0, quietSince = 0;
  double savedEintr = 0, savedJump = 0;
  bool calm = false;
  int nextId = 1;
  std::map<int, Req> reqs;
  int outstanding = 0;
  bool initialized = false, initSent = false;
  int64_t patience = 120 * SEC;
  int64_t lastProgress = 0;
  int64_t lastSlow = 0; // when a worker answered that takes minutes
  std::vector<Publish> pubs;
  struct Due {
    int64_t at;
    std::string body;
    bool conf = false, valid = false;
    Conf c;
  };
  std::vector<Due> due;
  // configuration
  Conf conf;
  std::vector<std::vector<std::string>> confPlan; // how to answer next asks
  std::vector<Conf> validAnswers; // in stream order
  int confAsks = 0, confAnswers = 0;
  bool confStale = false; // changed, and not asked for since
  bool capConfig = true, capProgress = true, capSnippet = true;
  std::map<std::string, Progress> progress;
  std::vector<std::string> progressOrder;
  std::string endMode;
  bool ended = false, editorGone = false, mainDone = false;
  int64_t endAt = -1;
  std::string err; // the server's stderr
  // others
  std::vector<std::shared_ptr<Worker>> workers;
  std::vector<std::shared_ptr<Formatter>> fmts;
  std::vector<Ask> asks;
  int wdelay = 1; // 0 none 1 short 2 mixed 3 long
  std::set<int> startFds;
  bool crashOk = false;

  // hooks of the scenario
  std::function<void(Req &)> onReply;
  std::function<void(Publish &)> onPublish;
  std::function<void(Ask &, Worker &)> onAsk; // fills result / err
  std::function<bool(const std::vector<std::string> &)> onOp;
  std::function<void(Formatter &)> onFormatter;
  std::function<void()> onSettled; // each time a settle completes
  std::function<void()> atEnd;     // after main returned
  std::function<void(const std::string &what, const json::Object &)> onProgress;
  // everything the server sends, before it is looked at
  std::function<void(const json::Object &)> onEditorMsg;
  std::function<void(Worker &, const json::Object &)> onWorkerMsg;

  // editor actions
  void send(json::Object m);
  void notify(const std::string &method, json::Value params);
  int request(const std::string &kind, const std::string &method,
              json::Value params, int doc = -1,
              std::vector<std::string> op = {}, int line = 0, int ch = 0);
  void open(int d, const std::string &text, int64_t v, int tid = -1);
  void change(int d, const std::string &text, int64_t v, uint64_t style,
              int tid = -1);
  void badChange(int d, int64_t v, uint64_t style);
  void close(int d);
  int ask(const std::string &kind, int d, int line, int ch,
          std::vector<std::string> op = {},
          std::pair<int, int> end = {10000, 0}); // of the range, for "inlay"
  void changeConf(const Conf &c, std::vector<std::string> how);
  void finishEditor(const std::string &mode);
  void onBody(const std::string &b);
  bool editorReady();
  void editorStep();
  int64_t editorWake();
  bool opReady();
  void runOp();
  bool quiet();
  std::string unanswered();
  void stopFaults();
};
extern World *W;

/// Starts the world for a plan: the server's process, editor and hooks.
void start(const Plan &P, int ndocs, std::vector<std::string> args = {});

// --- texts
/// (line, UTF-16 column) of an offset.
std::pair<int, int> lspPos(const std::string &s, size_t off);
/// Content changes that turn one text into another.
json::Array mkChanges(const std::string &from, const std::string &to,
                      uint64_t style);
std::string genNix(uint64_t seed, int lines);
std::string mutateNix(const std::string &s, uint64_t seed);
std::string genUnicode(uint64_t seed, int len);
/// The text of an URI's document, doc number or -1.
int docOf(const std::string &uri);
std::string n2s(int64_t v);
int64_t num(const std::vector<std::string> &w, size_t i, int64_t d = 0);
const json::Object *obj(const json::Value &v);
std::string str(const json::Object *o, const char *k);
std::string pathStr(const std::vector<std::string> &p);
/// Common end of all scenarios' generators.
void genEnd(Plan &P, Gen &G, bool settle);
/// Knobs common to all scenarios with the whole server.
void genBase(Plan &P, Gen &G);
std::vector<std::string> baseArgs(const Plan &P);

// --- pools of texts with the answers expected for each (full_docs.cpp)
constexpr int PoolSize = 12, PoolPos = 6;
struct TextPool {
  std::vector<std::string> texts;
  std::vector<std::pair<int, int>> pos;
  bool ready = false;
  std::map<std::string, std::string> answers; // "TID KIND[@POS]"
  std::map<int, json::Value> diags;
};
TextPool &pool(int n);
int pickPool(uint64_t seed);
bool preparePool(const Plan &P,
                 const std::function<bool(const Plan &, std::string &)> &sub);
const std::vector<std::string> &plainKinds();
const std::vector<std::string> &posKinds();
std::string kindKey(const std::string &kind, int p);
std::string normal(const std::string &kind, bool err, const json::Value &v);
bool emptyish(const json::Value &v);
Conf suppressConf(uint64_t k);
} // namespace fw
