// Parts shared by the scenarios: byte streams of simulated peers, framing.
#pragma once
#include "../sim/rt.h"
#include "../sim/scenario.h"
#include <deque>
#include <llvm/Support/JSON.h>

namespace hs {
using namespace rt;
namespace json = llvm::json;

std::string dump(const json::Value &v);
/// Parses; null on failure (bad set to true).
json::Value parseJson(const std::string &s, bool *bad = nullptr);
/// A JSON value made from a seed, with about `fill` bytes of strings.
json::Value genValue(uint64_t seed, int fill);
std::string genText(uint64_t seed, int bytes, bool ascii = false);

/// Frames a body. style 0: plain; 1: extra headers; 2: lower-level variants
/// the base protocol allows (charset, padding); 3: Content-Length last.
std::string frame(const std::string &body, int style = 0);

/// Splits a byte stream of frames.
struct FrameParser {
  std::string buf;
  bool bad = false;
  std::string why;
  std::vector<std::string> bodies;
  void feed(const std::string &s);
  /// Number of bytes that belong to no complete frame yet.
  size_t rest() const { return buf.size(); }
};

/// The writing end of a pipe, held by a simulated party.
struct Sender {
  File *f = nullptr;
  std::string q;
  double chop = 0.5; // probability of sending less than everything
  uint64_t sent = 0;
  void open(Pipe *p);
  bool closed() const { return f == nullptr; }
  bool canSend() const;
  void sendSome();
  void close();
};
/// The reading end.
struct Receiver {
  File *f = nullptr;
  double chop = 0.5;
  void open(Pipe *p);
  bool canRead() const {
    return f && (!f->pipe->buf.empty());
  }
  bool eof() const { return f && f->pipe->buf.empty() && f->pipe->writers == 0; }
  std::string readSome();
  void close();
};
/// Puts the other end of a new pipe at descriptor fd of the simulated server.
Pipe *serverReads(int fd);
Pipe *serverWrites(int fd);
void setFd(Proc &p, int fd, File *f);

/// An actor whose behaviour is given by functions.
struct FnActor : Actor {
  std::function<bool()> readyFn;
  std::function<void()> stepFn;
  std::function<int64_t()> wakeFn;
  bool ready() override { return readyFn(); }
  void step() override { stepFn(); }
  int64_t wake() override { return wakeFn ? wakeFn() : -1; }
};
} // namespace hs
