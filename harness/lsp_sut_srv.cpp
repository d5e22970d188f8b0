// Instrumented: drives the server class, the outbound port, the logger, the
// document store and the process launcher.
#include "../sim/rt.h"
#include "lsp_if.h"
#include <deque>
#include <lspserver/Connection.h>
#include <lspserver/DraftStore.h>
#include <lspserver/LSPServer.h>
#include <lspserver/Logger.h>
#include <llvm/Support/MemoryBuffer.h>
#include <map>
#include <nixd/Support/ForkPiped.h>
#include <nixd/Support/StreamProc.h>

using namespace lspserver;
namespace sut {
std::function<void(int, bool, const std::string &)> onResult;
std::function<Todo(const Request &)> onRequest;
namespace {
std::string text(const llvm::json::Value &v) {
  std::string s;
  llvm::raw_string_ostream o(s);
  o << v;
  return o.str();
}
struct Tagged {
  int tag = 0;
  std::string text;
};
bool fromJSON(const llvm::json::Value &V, Tagged &T, llvm::json::Path P) {
  llvm::json::ObjectMapper O(V, P);
  return O && O.map("tag", T.tag) && O.map("text", T.text);
}
llvm::json::Value toJSON(const Tagged &T) {
  return llvm::json::Object{{"tag", T.tag}, {"text", T.text}};
}

class TestServer : public LSPServer {
  std::mutex Mu;
  struct Job {
    Tagged T;
    Callback<llvm::json::Value> Reply;
    int How;
  };
  std::map<int, std::deque<Job>> Jobs;
  llvm::unique_function<void(const Tagged &, Callback<Tagged>)> CallTagged;
  llvm::unique_function<void(const Tagged &, Callback<llvm::json::Value>)>
      CallRaw;
  llvm::unique_function<void(const Tagged &)> Notify;

  static void answer(int How, const Tagged &T,
                     Callback<llvm::json::Value> Reply) {
    if (How == 2)
      return Reply(llvm::make_error<LSPError>("refused " + T.text,
                                              ErrorCode::InvalidRequest));
    if (How == 3)
      return Reply(lspserver::error("failed {0}", T.text));
    Reply(toJSON(T));
  }
  void onDo(const Tagged &T, Callback<llvm::json::Value> Reply) {
    Todo D;
    {
      rt::InRt _;
      D = onRequest({"test/do", text(toJSON(T))});
    }
    if (D.who == 0)
      return answer(D.how, T, std::move(Reply));
    std::lock_guard G(Mu);
    Jobs[D.who].push_back({T, std::move(Reply), D.how});
  }
  void onNote(const Tagged &T) {
    rt::InRt _;
    onRequest({"test/note", text(toJSON(T))});
  }

public:
  TestServer(std::unique_ptr<InboundPort> I, std::unique_ptr<OutboundPort> O)
      : LSPServer(std::move(I), std::move(O)) {
    CallTagged = mkOutMethod<Tagged, Tagged>("peer/call");
    CallRaw = mkOutMethod<Tagged, llvm::json::Value>("peer/raw");
    Notify = mkOutNotifiction<Tagged>("peer/note");
    Registry.addMethod("test/do", this, &TestServer::onDo);
    Registry.addNotification("test/note", this, &TestServer::onNote);
  }
  void call(int Tag, const std::string &Text, int Nested, bool Raw) {
    Tagged T{Tag, Text};
    if (Raw)
      CallRaw(T, [=, this](llvm::Expected<llvm::json::Value> R) {
        done(Tag, Nested, bool(R),
             R ? text(*R) : llvm::toString(R.takeError()));
      });
    else
      CallTagged(T, [=, this](llvm::Expected<Tagged> R) {
        done(Tag, Nested, bool(R),
             R ? text(toJSON(*R)) : llvm::toString(R.takeError()));
      });
  }
  void done(int Tag, int Nested, bool Ok, const std::string &S) {
    {
      rt::InRt _;
      onResult(Tag, Ok, S);
    }
    for (int I = 1; I <= Nested; ++I)
      sut::call(Tag * 1000 + I, "nested", 0, false);
  }
  void notify(int Tag, const std::string &Text) { Notify(Tagged{Tag, Text}); }
  bool answerOne(int Who) {
    Job J;
    {
      std::lock_guard G(Mu);
      auto &Q = Jobs[Who];
      if (Q.empty())
        return false;
      J = std::move(Q.front());
      Q.pop_front();
    }
    answer(J.How, J.T, std::move(J.Reply));
    return true;
  }
  bool haveWork(int Who) { return !Jobs[Who].empty(); }
};
std::unique_ptr<llvm::raw_fd_ostream> Stream;
std::unique_ptr<TestServer> Srv;
} // namespace

std::function<void(int)> onCallStart;
void mkServer(int in, int out) {
  Stream = std::make_unique<llvm::raw_fd_ostream>(out, false);
  Srv = std::make_unique<TestServer>(std::make_unique<InboundPort>(in),
                                     std::make_unique<OutboundPort>(*Stream));
}
void runServer() { Srv->run(); }
void closeServer() { Srv->closeInbound(); }
void destroyServer() {
  Srv.reset();
  Stream.reset();
}
void call(int tag, const std::string &text, int nested, bool raw) {
  {
    rt::InRt _;
    onCallStart(tag);
  }
  std::string t = text;
  Srv->call(tag, t, nested, raw);
}
void notifyOut(int tag, const std::string &text) { Srv->notify(tag, text); }
bool answerOne(int who) { return Srv->answerOne(who); }
bool haveWork(int who) {
  rt::InRt _;
  return Srv->haveWork(who);
}

// ------------------------------------------------------------ outbound port
namespace {
std::unique_ptr<llvm::raw_fd_ostream> Streams[2];
std::unique_ptr<OutboundPort> Ports[2];
}
void mkPort(int at, int fd, bool pretty) {
  Streams[at] = std::make_unique<llvm::raw_fd_ostream>(fd, false);
  Ports[at] = std::make_unique<OutboundPort>(*Streams[at], pretty);
}
void send(int at, int kind, int thread, int seq, const std::string &params) {
  auto &Port = Ports[at];
  if (kind == 4)
    return Port->notify("m/same", llvm::json::Object{{"same", true}});
  auto V = llvm::json::parse(params);
  llvm::json::Value P = V ? std::move(*V) : llvm::json::Value(nullptr);
  llvm::json::Object O{{"t", thread}, {"n", seq}, {"p", std::move(P)}};
  std::string Name = "m/" + std::to_string(thread) + "/" + std::to_string(seq);
  if (kind == 0)
    Port->notify(Name, std::move(O));
  else if (kind == 1)
    Port->call(Name, std::move(O), Name);
  else if (kind == 2)
    Port->reply(Name, llvm::json::Value(std::move(O)));
  else
    Port->reply(Name, llvm::make_error<LSPError>("oops " + Name,
                                                 ErrorCode::InternalError));
}
void destroyPort(int at) {
  Ports[at].reset();
  Streams[at].reset();
}

// ------------------------------------------------------------------ logging
namespace {
std::unique_ptr<StreamLogger> Log;
std::unique_ptr<LoggingSession> Session;
} // namespace
void mkLogger(int fd, int minLevel, bool buffered) {
  Stream = std::make_unique<llvm::raw_fd_ostream>(fd, false, !buffered);
  Log = std::make_unique<StreamLogger>(*Stream, (Logger::Level)minLevel);
  Session = std::make_unique<LoggingSession>(*Log);
}
void logLine(int level, const std::string &text) {
  if (level == 3)
    elog("{0}", text);
  else if (level == 2)
    lspserver::log("{0}", text);
  else if (level == 1)
    vlog("{0}", text);
  else
    detail::log(Logger::Debug, "{0}", text);
}
void destroyLogger() {
  Session.reset();
  Log.reset();
  Stream.reset();
}

// ------------------------------------------------------------------- drafts
namespace {
std::unique_ptr<DraftStore> Store;
std::map<int, std::optional<DraftStore::Draft>> Kept;
std::map<int, llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem>> KeptFs;
std::mutex KeptLock;
std::string vfsText(llvm::vfs::FileSystem &FS, const std::string &names) {
  llvm::json::Object O;
  size_t P = 0;
  while (P < names.size()) {
    size_t E = names.find(' ', P);
    if (E == names.npos)
      E = names.size();
    std::string N = names.substr(P, E - P);
    P = E + 1;
    auto B = FS.getBufferForFile(N);
    if (B)
      O[N] = (*B)->getBuffer().str();
  }
  return text(llvm::json::Value(std::move(O)));
}
} // namespace
void mkStore() { Store = std::make_unique<DraftStore>(); }
std::string draftAdd(const std::string &f, const std::string &v,
                     const std::string &c) {
  return Store->addDraft(f, v, c);
}
DraftVal draftGet(const std::string &f, int keep) {
  auto D = Store->getDraft(f);
  DraftVal R;
  if (D) {
    R.present = true;
    R.version = D->Version;
    R.contents = *D->Contents;
  }
  std::lock_guard G(KeptLock);
  Kept[keep] = std::move(D);
  return R;
}
std::string draftKept(int keep) {
  std::optional<DraftStore::Draft> D;
  {
    std::lock_guard G(KeptLock);
    D = Kept[keep];
  }
  if (!D)
    return "-";
  return D->Version + ":" + *D->Contents;
}
void draftRemove(const std::string &f) { Store->removeDraft(f); }
std::string draftList() {
  auto L = Store->getActiveFiles();
  std::sort(L.begin(), L.end());
  std::string S;
  for (auto &F : L)
    S += F + " ";
  return S;
}
std::string draftVfs(int keep, const std::string &names) {
  auto FS = Store->asVFS();
  std::string S = vfsText(*FS, names);
  std::lock_guard G(KeptLock);
  KeptFs[keep] = FS;
  return S;
}
std::string draftVfsKept(int keep, const std::string &names) {
  llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> FS;
  {
    std::lock_guard G(KeptLock);
    FS = KeptFs[keep];
  }
  return vfsText(*FS, names);
}
void destroyStore() { Store.reset(); }

// ----------------------------------------------------------------- children
namespace {
std::map<int, std::unique_ptr<nixd::StreamProc>> Procs;
std::map<int, std::unique_ptr<nixd::util::PipedProc>> Bare;
std::mutex ProcLock;
} // namespace
Spawned spawnChild(int slot, int how, const std::string &prog) {
  Spawned R;
  try {
    if (how == 0) {
      auto P = std::make_unique<nixd::StreamProc>([&] {
        execlp(prog.c_str(), prog.c_str(), (char *)nullptr);
        return -1;
      });
      R.in = P->proc().Stdin.get();
      R.out = P->proc().Stdout.get();
      R.err = P->proc().Stderr.get();
      R.pid = P->proc().PID;
      std::lock_guard G(ProcLock);
      Procs[slot] = std::move(P);
    } else {
      int In, Out, Err;
      pid_t Pid = nixd::forkPiped(In, Out, Err);
      if (Pid == 0) {
        execlp(prog.c_str(), prog.c_str(), (char *)nullptr);
        _exit(127);
      }
      R.in = In;
      R.out = Out;
      R.err = Err;
      R.pid = Pid;
      auto P = std::make_unique<nixd::util::PipedProc>(Pid, In, Out, Err);
      std::lock_guard G(ProcLock);
      Bare[slot] = std::move(P);
    }
    R.ok = true;
  } catch (const std::system_error &E) {
    R.error = E.what();
  }
  return R;
}
void writeChild(int slot, const std::string &s) {
  nixd::StreamProc *P = nullptr;
  {
    std::lock_guard G(ProcLock);
    if (Procs.count(slot))
      P = Procs[slot].get();
  }
  if (!P)
    return;
  P->stream() << s;
  P->stream().flush();
}
void moveChild(int slot) {
  std::unique_ptr<nixd::util::PipedProc> P;
  {
    std::lock_guard G(ProcLock);
    if (Bare.count(slot))
      P = std::move(Bare[slot]);
  }
  if (!P)
    return;
  // the moved-from owner goes away at once
  auto N = std::make_unique<nixd::util::PipedProc>(std::move(*P));
  P.reset();
  std::lock_guard G(ProcLock);
  Bare[slot] = std::move(N);
}
void dropChild(int slot) {
  std::unique_ptr<nixd::StreamProc> P;
  std::unique_ptr<nixd::util::PipedProc> B;
  {
    std::lock_guard G(ProcLock);
    if (Procs.count(slot))
      P = std::move(Procs[slot]);
    if (Bare.count(slot))
      B = std::move(Bare[slot]);
  }
}
} // namespace sut
