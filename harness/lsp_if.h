// What the uninstrumented scenarios and the instrumented code under test say
// to each other.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace sut {
// --- inbound port
struct Incoming {
  int kind; // 0 notify, 1 call, 2 reply, 3 error reply
  std::string method, id, payload;
};
extern std::function<bool(const Incoming &)> onMessage;
void runInbound(int fd, int style);
void closeInbound();
bool portReady();
// --- server: calls in both directions
extern std::function<void(int tag, bool ok, const std::string &)> onResult;
/// Called by the handler of a request or notification. Returns what to do:
/// 0 answer now, 1 hand over to thread `who`, 2 answer with an error,
/// 3 answer with a plain error.
struct Request {
  std::string method;
  std::string params;
};
struct Todo {
  int how = 0;
  int who = 0;
};
extern std::function<Todo(const Request &)> onRequest;
extern std::function<void(int tag)> onCallStart;
void mkServer(int in, int out);
void runServer();
void closeServer();
void destroyServer();
/// Outgoing call; the callback issues `nested` more calls.
void call(int tag, const std::string &text, int nested, bool rawResult);
void notifyOut(int tag, const std::string &text);
/// Answers the requests handed over to thread `who`; one per call.
bool answerOne(int who);
bool haveWork(int who);

// --- outbound port
void mkPort(int at, int fd, bool pretty);
void send(int at, int kind, int thread, int seq, const std::string &params);
void destroyPort(int at);

// --- logging
void mkLogger(int fd, int minLevel, bool buffered);
void logLine(int level, const std::string &text);
void destroyLogger();

// --- drafts
struct DraftVal {
  bool present = false;
  std::string version, contents;
};
void mkStore();
std::string draftAdd(const std::string &f, const std::string &v,
                     const std::string &c);
DraftVal draftGet(const std::string &f, int keep);
std::string draftKept(int keep);
void draftRemove(const std::string &f);
std::string draftList();
/// Contents of all files of a snapshot; kept under `keep`.
std::string draftVfs(int keep, const std::string &names);
std::string draftVfsKept(int keep, const std::string &names);
void destroyStore();

// --- children
struct Spawned {
  bool ok = false;
  int in = -1, out = -1, err = -1, pid = -1;
  std::string error;
};
/// how: 0 StreamProc, 1 bare forkPiped. The child executes `prog`.
Spawned spawnChild(int slot, int how, const std::string &prog);
void writeChild(int slot, const std::string &s);
void moveChild(int slot);
void dropChild(int slot);
} // namespace sut
