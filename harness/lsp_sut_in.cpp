// Instrumented: drives the inbound port.
#include "../sim/rt.h"
#include "lsp_if.h"
#include <lspserver/Connection.h>

using namespace lspserver;
namespace sut {
std::function<bool(const Incoming &)> onMessage;
namespace {
InboundPort *Port;
std::mutex PortLock;
std::string text(const llvm::json::Value &v) {
  std::string s;
  llvm::raw_string_ostream o(s);
  o << v;
  return o.str();
}
struct Handler : MessageHandler {
  bool onNotify(llvm::StringRef M, llvm::json::Value P) override {
    rt::InRt _;
    return onMessage({0, M.str(), "", text(P)});
  }
  bool onCall(llvm::StringRef M, llvm::json::Value P,
              llvm::json::Value ID) override {
    rt::InRt _;
    return onMessage({1, M.str(), text(ID), text(P)});
  }
  bool onReply(llvm::json::Value ID,
               llvm::Expected<llvm::json::Value> R) override {
    rt::InRt _;
    if (R)
      return onMessage({2, "", text(ID), text(*R)});
    return onMessage({3, "", text(ID), llvm::toString(R.takeError())});
  }
};
} // namespace
void runInbound(int fd, int style) {
  Handler h;
  auto P = std::make_unique<InboundPort>(
      fd, style ? JSONStreamStyle::LitTest : JSONStreamStyle::Standard);
  {
    std::lock_guard G(PortLock);
    Port = P.get();
  }
  P->loop(h);
  {
    std::lock_guard G(PortLock);
    Port = nullptr;
  }
}
bool portReady() {
  rt::InRt _;
  return Port != nullptr;
}
void closeInbound() {
  std::lock_guard G(PortLock);
  if (Port)
    Port->close();
}
} // namespace sut
