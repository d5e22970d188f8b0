From 9b02ff030213bb6b4e4e4c4dc21470e6440907be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 01/34] fix: keep reading input after signals and drain it
 after hang-up

The message loop took an interrupted poll(2) and a client owned by another
user for the end of the input, and dropped bytes that were already in the
pipe when the writer closed its end.
---
 nixd/lspserver/src/Connection.cpp | 75 ++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..fd89e66 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -160,48 +160,63 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   return Handler.onNotify(*Method, std::move(Params));
 }
 
-bool readLine(int fd, const std::atomic<bool> &Close,
-              llvm::SmallString<128> &Line) {
-  Line.clear();
-
-  std::vector<pollfd> FDs;
-  FDs.emplace_back(pollfd{
-      fd,
-      POLLIN | POLLPRI,
-      0,
-  });
+/// Wait until \p fd can be read.
+///
+/// \returns false if there is nothing to wait for: the port has been closed,
+/// the writer side hung up and everything it wrote was already read, or the
+/// client process disappeared.
+static bool waitReadable(int fd, const std::atomic<bool> &Close) {
   for (;;) {
-    char Ch;
-    // FIXME: inefficient
-    int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    pollfd FD{
+        fd,
+        POLLIN | POLLPRI,
+        0,
+    };
+    int Poll = poll(&FD, 1, 1000);
+    // A signal does not mean the end of the input.
+    if (Poll < 0 && errno != EINTR)
       return false;
     if (Close)
       return false;
 
-    // POLLHUB: hang up from the writer side
-    // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    if (kill(ClientProcessID, 0) < 0 && errno == ESRCH) {
+      // Parent died.
       return false;
     }
 
-    if (FDs[0].revents & POLLIN) {
-      ssize_t BytesRead = read(fd, &Ch, 1);
-      if (BytesRead == -1) {
-        if (errno != EINTR)
-          return false;
-      } else if (BytesRead == 0)
+    if (Poll > 0) {
+      // There might be pending data even if the writer side has been closed,
+      // so look at POLLIN before POLLHUP.
+      if (FD.revents & POLLIN)
+        return true;
+      // POLLHUP: hang up from the writer side
+      // POLLNVAL: invalid request (fd not open)
+      if (FD.revents & (POLLHUP | POLLERR | POLLNVAL))
         return false;
-      else {
-        if (Ch == '\n')
-          return true;
-        Line += Ch;
-      }
     }
+  }
+}
 
-    if (kill(ClientProcessID, 0) < 0) {
-      // Parent died.
+bool readLine(int fd, const std::atomic<bool> &Close,
+              llvm::SmallString<128> &Line) {
+  Line.clear();
+
+  for (;;) {
+    char Ch;
+    // FIXME: inefficient
+    if (!waitReadable(fd, Close))
+      return false;
+
+    ssize_t BytesRead = read(fd, &Ch, 1);
+    if (BytesRead == -1) {
+      if (errno != EINTR)
+        return false;
+    } else if (BytesRead == 0)
       return false;
+    else {
+      if (Ch == '\n')
+        return true;
+      Line += Ch;
     }
   }
 }
-- 
2.43.0


From 2d0478f7d804676b0b5fb59ca7105ca34b1ca1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 02/34] fix: read message bodies interruptibly

The body of a message was read with blocking reads that ignored errors
(-1 was added to the position) and could not be ended by closing the port,
and the buffer was allocated from the announced length alone.
---
 nixd/lspserver/src/Connection.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index fd89e66..079805a 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -9,6 +9,7 @@
 #include <sys/poll.h>
 #include <sys/stat.h>
 
+#include <algorithm>
 #include <csignal>
 #include <cstdint>
 #include <cstdio>
@@ -243,16 +244,25 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
-  Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
-
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+  // Do not trust the announced length, grow the buffer while data arrives.
+  Buffer.clear();
+  while (Buffer.size() < ContentLength) {
+    char Chunk[4096];
+    ssize_t Read = 0;
+    if (waitReadable(In, Close)) {
+      Read = read(In, Chunk,
+                  std::min<unsigned long long>(sizeof(Chunk),
+                                               ContentLength - Buffer.size()));
+      if (Read == -1 && errno == EINTR)
+        continue;
+    }
 
-    if (Read == 0) {
-      elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
-           ContentLength);
+    if (Read <= 0) {
+      elog("Input was aborted. Read only {0} bytes of expected {1}.",
+           Buffer.size(), ContentLength);
       return llvm::make_error<ReadEOF>();
     }
+    Buffer.append(Chunk, Read);
   }
   return llvm::json::parse(Buffer);
 }
-- 
2.43.0


From b4848d750e84c28ac8e9ef45c24bf7a4d24f5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 03/34] fix: keep serving after a broken message

---
 nixd/lspserver/src/Connection.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 079805a..b68acb5 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -130,7 +130,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Object ||
       Object->getString("jsonrpc") != std::optional<llvm::StringRef>("2.0")) {
     elog("Not a JSON-RPC 2.0 message: {0:2}", Message);
-    return false;
+    return true;
   }
   // ID may be any JSON value. If absent, this is a notification.
   std::optional<llvm::json::Value> ID;
@@ -140,7 +140,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Method) { // This is a response.
     if (!ID) {
       elog("No method and no response ID: {0:2}", Message);
-      return false;
+      return true;
     }
     if (auto *Err = Object->getObject("error"))
       // TODO: Logging & reply errors.
@@ -350,15 +350,16 @@ void InboundPort::loop(MessageHandler &Handler) {
         return;
     } else {
       // Handle error while reading message.
-      return [&]() {
-        auto Err = Message.takeError();
-        if (Err.isA<ReadEOF>())
-          return; // Stop reading.
-        else if (Err.isA<llvm::json::ParseError>())
-          elog("The received json cannot be parsed, reason: {0}", Err);
-        else
-          elog("Error reading message: {0}", llvm::toString(std::move(Err)));
-      }();
+      auto Err = Message.takeError();
+      if (Err.isA<ReadEOF>()) {
+        llvm::consumeError(std::move(Err));
+        return; // Stop reading.
+      }
+      // A broken message does not affect those following it, keep reading.
+      if (Err.isA<llvm::json::ParseError>())
+        elog("The received json cannot be parsed, reason: {0}", std::move(Err));
+      else
+        elog("Error reading message: {0}", llvm::toString(std::move(Err)));
     }
   }
 }
-- 
2.43.0


From 584d14b612596c3af72a0f5ac9ce9fb834d188d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 04/34] fix: answer calls of unknown methods with an error

Such a call used to end the message loop, i.e. the server quit.
---
 nixd/lspserver/src/LSPServer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..9dc9cc2 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -45,8 +45,13 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                         Out->reply(std::move(ID), std::move(Err));
                       }
                     });
-  else
-    return false;
+  else {
+    // The peer is waiting for a response, and it is entitled to get an error.
+    log("unhandled method {0}", Method);
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found: " + Method.str(),
+                                          ErrorCode::MethodNotFound));
+  }
   return true;
 }
 
-- 
2.43.0


From 7c2c26f221eb90a3cf9bb5071b6a77c2ade456c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 05/34] fix: ignore replies with an id that was never used

The exception thrown for these ids was not caught by anyone and terminated the
server, and ids below INT_MIN were silently truncated.
---
 nixd/lspserver/src/LSPServer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 9dc9cc2..0b17919 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <limits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -60,17 +60,15 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // We only ever send "int"s, so anything else does not match any call.
+  if (auto OptI = ID.getAsInteger();
+      OptI && *OptI >= 0 && *OptI <= std::numeric_limits<int>::max()) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
-- 
2.43.0


From a9f640687f8cdd99cf104276f820b3a0f137d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 06/34] fix: run the callback of a forgotten call without
 holding the lock

A callback which calls the peer again used to deadlock.
---
 nixd/lspserver/src/LSPServer.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 0b17919..cba05b7 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -82,20 +82,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  std::optional<std::pair<int, Callback<llvm::json::Value>>> Oldest;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      Oldest.emplace(Begin->first, std::move(Begin->second));
+      PendingCalls.erase(Begin);
+    }
+  }
+
+  // Invoke the callback outside of the critical zone, it might make a call.
+  if (Oldest) {
+    auto &[ID, OldestCallback] = *Oldest;
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
          MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+    OldestCallback(
+        error("failed to receive a client reply for request ({0})", ID));
   }
   return Ret;
 }
-- 
2.43.0


From cc1293a5da0a4593925b60791ae67617b8b05d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 07/34] fix: complete outstanding calls when the connection
 ends

Nobody was told that the reply will never arrive, so e.g. a request waiting
for a worker that died was never answered and blocked its thread forever.
---
 nixd/lspserver/include/lspserver/LSPServer.h | 15 ++++++++---
 nixd/lspserver/src/LSPServer.cpp             | 27 +++++++++++++++++---
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 14a946a..6432c97 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -41,14 +41,21 @@ private:
 
   int TopID = 1;
 
+  /// The message loop ended, i.e. nobody will reply any more.
+  bool Closed = false;
+
   /// Allocate an "ID" (as returned value) for this callback.
-  int bindReply(Callback<llvm::json::Value>);
+  ///
+  /// If there will be no reply, the callback is invoked with an error instead.
+  std::optional<int> bindReply(Callback<llvm::json::Value>);
 
   void callMethod(llvm::StringRef Method, llvm::json::Value Params,
                   Callback<llvm::json::Value> CB, OutboundPort *O) {
-    llvm::json::Value ID(bindReply(std::move(CB)));
-    log("--> call {0}({1})", Method, ID.getAsInteger());
-    O->call(Method, Params, ID);
+    std::optional<int> ID = bindReply(std::move(CB));
+    if (!ID)
+      return;
+    log("--> call {0}({1})", Method, *ID);
+    O->call(Method, Params, *ID);
   }
 
 protected:
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index cba05b7..c735d41 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -12,7 +12,19 @@
 
 namespace lspserver {
 
-void LSPServer::run() { In->loop(*this); }
+void LSPServer::run() {
+  In->loop(*this);
+
+  // No more replies will arrive, complete the calls waiting for one.
+  std::map<int, Callback<llvm::json::Value>> Lost;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Closed = true;
+    Lost.swap(PendingCalls);
+  }
+  for (auto &[ID, CB] : Lost)
+    CB(error("connection closed while waiting for the reply ({0})", ID));
+}
 
 bool LSPServer::onNotify(llvm::StringRef Method, llvm::json::Value Params) {
   log("<-- {0}", Method);
@@ -81,13 +93,16 @@ bool LSPServer::onReply(llvm::json::Value ID,
   return true;
 }
 
-int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
+std::optional<int> LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   int Ret;
+  bool NoReply;
   std::optional<std::pair<int, Callback<llvm::json::Value>>> Oldest;
   {
     std::lock_guard<std::mutex> _(PendingCallsLock);
     Ret = TopID++;
-    PendingCalls[Ret] = std::move(CB);
+    NoReply = Closed;
+    if (!NoReply)
+      PendingCalls[Ret] = std::move(CB);
 
     // Check the limit
     if (PendingCalls.size() > MaxPendingCalls) {
@@ -97,7 +112,11 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
     }
   }
 
-  // Invoke the callback outside of the critical zone, it might make a call.
+  // Invoke callbacks outside of the critical zone, they might make a call.
+  if (NoReply) {
+    CB(error("connection closed, cannot make request ({0})", Ret));
+    return std::nullopt;
+  }
   if (Oldest) {
     auto &[ID, OldestCallback] = *Oldest;
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-- 
2.43.0


From adb2b57a092d3fb8922b9f50143ca9afa01ffc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 08/34] fix: carry to the left when incrementing a draft
 version

The version after 9 was 1, and the one after 19 was 11.
---
 nixd/lspserver/src/DraftStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..53e37e7 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -54,7 +54,7 @@ static void increment(std::string &S) {
       ++*I;
       break;
     }
-    *I = '0'; // and keep incrementing to the left.
+    *I++ = '0'; // and keep incrementing to the left.
   }
 }
 
-- 
2.43.0


From 8b6e377afbc12928b094fea3d0b404202a96dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 09/34] fix: return the stderr pipe of a forked process

The stdout pipe was returned twice, i.e. closed twice by its owner, possibly
hitting an unrelated descriptor, while the stderr pipe was leaked.
---
 nixd/lib/Support/ForkPiped.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..f0b6ab4 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -40,6 +40,6 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
-- 
2.43.0


From 491ac5022f7381f74207014289b62de997f18394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 10/34] fix: do not leak pipes into other children

A child inherited the pipes of all children forked before, so those never saw
the end of their input until it exited, too.
---
 nixd/lib/Support/ForkPiped.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index f0b6ab4..5449556 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -3,6 +3,8 @@
 #include <cerrno>
 
 #include <system_error>
+
+#include <fcntl.h>
 #include <unistd.h>
 
 int nixd::forkPiped(int &In, int &Out, int &Err) {
@@ -11,7 +13,10 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   int PipeIn[2];
   int PipeOut[2];
   int PipeErr[2];
-  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
+  // These must not leak into other children forked concurrently. Otherwise
+  // closing them here would not be noticed.
+  if (pipe2(PipeIn, O_CLOEXEC) == -1 || pipe2(PipeOut, O_CLOEXEC) == -1 ||
+      pipe2(PipeErr, O_CLOEXEC) == -1)
     throw std::system_error(errno, std::generic_category());
 
   pid_t Child = fork();
-- 
2.43.0


From 5b83213c812d8ed91c66999ef1b4469010e898ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 11/34] fix: close the pipes if a process cannot be forked

---
 nixd/lib/Support/ForkPiped.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 5449556..2af25ce 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -10,14 +10,23 @@
 int nixd::forkPiped(int &In, int &Out, int &Err) {
   static constexpr int READ = 0;
   static constexpr int WRITE = 1;
-  int PipeIn[2];
-  int PipeOut[2];
-  int PipeErr[2];
+  int PipeIn[2] = {-1, -1};
+  int PipeOut[2] = {-1, -1};
+  int PipeErr[2] = {-1, -1};
+
+  auto Fail = [&](int Errno) {
+    for (int FD : {PipeIn[READ], PipeIn[WRITE], PipeOut[READ], PipeOut[WRITE],
+                   PipeErr[READ], PipeErr[WRITE]})
+      if (FD != -1)
+        close(FD);
+    throw std::system_error(Errno, std::generic_category());
+  };
+
   // These must not leak into other children forked concurrently. Otherwise
   // closing them here would not be noticed.
   if (pipe2(PipeIn, O_CLOEXEC) == -1 || pipe2(PipeOut, O_CLOEXEC) == -1 ||
       pipe2(PipeErr, O_CLOEXEC) == -1)
-    throw std::system_error(errno, std::generic_category());
+    Fail(errno);
 
   pid_t Child = fork();
 
@@ -36,13 +45,13 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
     return 0;
   }
 
+  if (Child == -1)
+    Fail(errno);
+
   close(PipeIn[READ]);
   close(PipeOut[WRITE]);
   close(PipeErr[WRITE]);
 
-  if (Child == -1)
-    throw std::system_error(errno, std::generic_category());
-
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
   Err = PipeErr[READ];
-- 
2.43.0


From 115aabaef3abb16fe3d71b440139a565289860d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 12/34] fix: do not exit if a child process is gone when its
 stream is destroyed

The destructor of raw_fd_ostream treats a pending error as fatal.
---
 nixd/include/nixd/Support/StreamProc.h | 2 ++
 nixd/lib/Support/StreamProc.cpp        | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/nixd/include/nixd/Support/StreamProc.h b/nixd/include/nixd/Support/StreamProc.h
index bfba46b..d4a409e 100644
--- a/nixd/include/nixd/Support/StreamProc.h
+++ b/nixd/include/nixd/Support/StreamProc.h
@@ -19,6 +19,8 @@ public:
   /// value.
   StreamProc(const std::function<int()> &Action);
 
+  ~StreamProc();
+
   [[nodiscard]] llvm::raw_fd_ostream &stream() const {
     assert(Stream);
     return *Stream;
diff --git a/nixd/lib/Support/StreamProc.cpp b/nixd/lib/Support/StreamProc.cpp
index 6963b0d..7f9d4aa 100644
--- a/nixd/lib/Support/StreamProc.cpp
+++ b/nixd/lib/Support/StreamProc.cpp
@@ -27,3 +27,11 @@ StreamProc::StreamProc(const std::function<int()> &Action) {
   Proc = std::make_unique<PipedProc>(Child, In, Out, Err);
   Stream = std::make_unique<llvm::raw_fd_ostream>(In, false);
 }
+
+StreamProc::~StreamProc() {
+  if (!Stream)
+    return;
+  // The process might be dead, this is not a reason to die as well.
+  Stream->flush();
+  Stream->clear_error();
+}
-- 
2.43.0


From 0f33408b06d8891ba86f9132fcbcd962743f07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 13/34] fix: survive formatters which are slow, verbose, picky
 or missing

The text being formatted belongs to a temporary draft and could go away or
change meanwhile, formatting a document which is not opened dereferenced an
empty optional, large documents dead-locked with the formatter, and any system
call error terminated the server. Also two pipes were leaked each time.
---
 nixd/lib/Controller/Format.cpp | 107 ++++++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 29 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..d8f840e 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -10,16 +10,80 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
+#include <unistd.h>
 
 using namespace nixd;
 using namespace lspserver;
 
+namespace {
+
+/// \brief Send \p Input to a process, and read all of it's stdout.
+///
+/// Reading and writing are interleaved, because both sides may block on a full
+/// pipe. The process is free to leave some of it's input unread. All of the
+/// file descriptors are closed.
+std::string communicate(int In, int Out, int Err, std::string_view Input) {
+  std::string Response;
+  auto Close = [](int &FD) {
+    close(FD);
+    FD = -1; // poll(2) ignores negative descriptors.
+  };
+  fcntl(In, F_SETFL, fcntl(In, F_GETFL) | O_NONBLOCK);
+  while (Out != -1) {
+    if (In != -1 && Input.empty())
+      Close(In);
+    pollfd FDs[] = {
+        {.fd = In, .events = POLLOUT, .revents = 0},
+        {.fd = Out, .events = POLLIN, .revents = 0},
+        {.fd = Err, .events = POLLIN, .revents = 0},
+    };
+    if (poll(FDs, 3, -1) == -1) {
+      if (errno == EINTR)
+        continue;
+      break;
+    }
+    if (FDs[0].revents) {
+      ssize_t Written = write(In, Input.data(), Input.size());
+      if (Written >= 0)
+        Input.remove_prefix(Written);
+      else if (errno != EINTR && errno != EAGAIN)
+        Close(In);
+    }
+    auto Drain = [&](int &FD, std::string *Sink) {
+      char Buf[4096];
+      ssize_t Read = read(FD, Buf, sizeof(Buf));
+      if (Read > 0 && Sink)
+        Sink->append(Buf, Read);
+      else if (Read == 0 || (Read < 0 && errno != EINTR))
+        Close(FD);
+    };
+    if (FDs[1].revents)
+      Drain(Out, &Response);
+    if (FDs[2].revents)
+      Drain(Err, nullptr);
+  }
+  for (int FD : {In, Out, Err})
+    if (FD != -1)
+      close(FD);
+  return Response;
+}
+
+} // namespace
+
 void Controller::onFormat(const DocumentFormattingParams &Params,
                           Callback<std::vector<TextEdit>> Reply) {
   auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
     lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
+    const auto Draft = Store.getDraft(File);
+    if (!Draft) {
+      Reply(error("cannot format {0}, it is not opened", File));
+      return;
+    }
+    const std::string &Code = *Draft->Contents;
     // Invokes another process and then read it's stdout.
     std::vector<std::string> FormatCommand;
     {
@@ -48,27 +112,25 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
     int Out;
     int Err;
 
-    pid_t Child = forkPiped(In, Out, Err);
+    pid_t Child;
+    try {
+      Child = forkPiped(In, Out, Err);
+    } catch (std::system_error &E) {
+      Reply(error("cannot launch the formatting command {0}: {1}",
+                  FormatCommand[0], E.what()));
+      return;
+    }
     if (Child == 0) {
       execvp(Syscall[0], Syscall.data());
-      exit(-1);
-    }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
-      }
+      _exit(-1);
     }
-    close(In);
+    // Send the document to the process stdin, and read it's stdout.
+    std::string Response = communicate(In, Out, Err, Code);
 
     // And, wait for the process.
     int Exit = 0;
-    waitpid(Child, &Exit, 0);
+    while (waitpid(Child, &Exit, 0) == -1 && errno == EINTR)
+      ;
 
     if (Exit != 0) {
       Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
@@ -76,19 +138,6 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
-    }
-
     if (Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
-- 
2.43.0


From 39ac5228f293c8ffcc0ba5e0df46103d0d8b64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 14/34] fix: do not die of SIGPIPE or a closed standard stream

Writing to a worker or a formatter that has just exited, or to a client that
has gone, killed the server.
---
 nixd/lib/Support/ForkPiped.cpp |  3 +++
 nixd/tools/nixd.cpp            | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 2af25ce..34024de 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -1,6 +1,7 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <cerrno>
+#include <csignal>
 
 #include <system_error>
 
@@ -41,6 +42,8 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
     close(PipeIn[READ]);
     close(PipeOut[WRITE]);
     close(PipeErr[WRITE]);
+    // Do not pass our choice to ignore this signal on.
+    std::signal(SIGPIPE, SIG_DFL);
     // Child process.
     return 0;
   }
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 9417cf4..06304c2 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -9,6 +9,8 @@
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <csignal>
+
 using namespace lspserver;
 using namespace nixd;
 
@@ -67,6 +69,10 @@ int main(int argc, char *argv[]) {
     PrettyPrint = true;
   }
 
+  // Peers (the client, workers, formatters) may exit at any time, report this
+  // as an ordinary write error instead of killing the server.
+  std::signal(SIGPIPE, SIG_IGN);
+
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
@@ -79,5 +85,13 @@ int main(int argc, char *argv[]) {
 
   Controller->run();
 
+  // Finish jobs in flight, and forget write errors if the client has gone.
+  // Otherwise they are considered to be fatal while destroying the streams.
+  Controller.reset();
+  for (llvm::raw_fd_ostream *OS : {&llvm::outs(), &llvm::errs()}) {
+    OS->flush();
+    OS->clear_error();
+  }
+
   return 0;
 }
-- 
2.43.0


From 28df584bafaa6f34a18bed5f8d2cd196eeded386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 15/34] fix: do not publish outdated diagnostics after those of
 a new version

---
 nixd/lib/Controller/Support.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..209ea67 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -44,10 +44,11 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
-    publishDiagnostics(File, Version, *Src, Diagnostics);
-
     {
+      // Configuration changes publish diagnostics of known TUs at any time.
+      // Hold the lock, or these of the previous version may come last.
       std::lock_guard G(TUsLock);
+      publishDiagnostics(File, Version, *Src, Diagnostics);
       TUs.insert_or_assign(
           File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
                                         std::nullopt, std::move(VLA), Src));
-- 
2.43.0


From cc549770ef4ea1e99237f8bf127140de15783798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 16/34] fix: serve without workers that cannot be launched or
 are gone

---
 nixd/include/nixd/Controller/Controller.h |  8 +++---
 nixd/lib/Controller/Completion.cpp        | 31 +++++++++++++++++------
 nixd/lib/Controller/Configuration.cpp     | 15 ++++++++---
 nixd/lib/Controller/Definition.cpp        | 18 ++++++++-----
 nixd/lib/Controller/InlayHints.cpp        |  7 ++++-
 nixd/lib/Controller/LifeTime.cpp          | 11 +++++---
 nixd/lib/Eval/Launch.cpp                  | 17 ++++++++++---
 7 files changed, 74 insertions(+), 33 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..541edc9 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -33,13 +33,11 @@ private:
   //      "home-manager" -> home-manager worker
   OptionMapTy Options; // GUARDED_BY(OptionsLock)
 
-  AttrSetClientProc &nixpkgsEval() {
-    assert(NixpkgsEval);
-    return *NixpkgsEval;
+  /// \returns nullptr if the worker is not launched, or has been dead.
+  AttrSetClient *nixpkgsClient() {
+    return NixpkgsEval ? NixpkgsEval->client() : nullptr;
   }
 
-  AttrSetClient *nixpkgsClient() { return nixpkgsEval().client(); }
-
   void evalExprWithProgress(AttrSetClient &Client, const EvalExprParams &Params,
                             std::string_view Description);
 
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..4e44d83 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -391,12 +391,17 @@ AttrPathCompleteParams mkParams(nixd::Selector Sel, bool IsComplete) {
 void completeVarName(const lspserver::Range EditRange,
                      const VariableLookupAnalysis &VLA,
                      const ParentMapAnalysis &PM, const nixf::ExprVar &N,
-                     AttrSetClient &Client, std::vector<CompletionItem> &List) {
+                     AttrSetClient *Client, std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/var"
 
   VLACompletionProvider VLAP(VLA);
   VLAP.complete(N, List, PM);
 
+  if (!Client) [[unlikely]] {
+    elog(DBG "skipped nixpkgs client as it is dead");
+    return;
+  }
+
   // Try to complete the name by known idioms.
   try {
     Selector Sel = idioms::mkVarSelector(N, VLA, PM);
@@ -406,7 +411,7 @@ void completeVarName(const lspserver::Range EditRange,
       return;
 
     // Invoke nixpkgs provider to get the completion list.
-    NixpkgsCompletionProvider NCP(Client);
+    NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
     NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
   } catch (ExceedSizeError &) {
@@ -426,7 +431,7 @@ void completeVarName(const lspserver::Range EditRange,
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient &Client,
+                    const nixf::ExprSelect &Select, AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
                     std::vector<CompletionItem> &List) {
@@ -442,8 +447,13 @@ void completeSelect(const lspserver::Range EditRange,
   }
 
   const auto &Var = static_cast<const nixf::ExprVar &>(BaseExpr);
+  if (!Client) [[unlikely]] {
+    elog(DBG "skipped nixpkgs client as it is dead");
+    return;
+  }
+
   // Ask nixpkgs provider to get idioms completion.
-  NixpkgsCompletionProvider NCP(Client);
+  NixpkgsCompletionProvider NCP(*Client);
 
   try {
     Selector Sel =
@@ -493,7 +503,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprVar: {
             completeVarName(EditRange, VLA, PM,
                             static_cast<const nixf::ExprVar &>(UpExpr),
-                            *nixpkgsClient(), List.items);
+                            nixpkgsClient(), List.items);
             return List;
           }
           // A "select" expression. e.g.
@@ -502,7 +512,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
@@ -543,8 +553,13 @@ void Controller::onCompletionItemResolve(const CompletionItem &Params,
     llvm::json::Path::Root Root;
     fromJSON(*EV, Req, Root);
 
-    // FIXME: handle null nixpkgsClient()
-    NixpkgsCompletionProvider NCP(*nixpkgsClient());
+    AttrSetClient *Client = nixpkgsClient();
+    if (!Client) [[unlikely]] {
+      // Nothing could be added to this item.
+      Reply(Params);
+      return;
+    }
+    NixpkgsCompletionProvider NCP(*Client);
     CompletionItem Resp = Params;
     NCP.resolvePackage(Req.Scope, Params.label, Resp);
 
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..a0cd15d 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -59,8 +59,8 @@ void Controller::updateConfig(Configuration NewConfig) {
 
   if (!Config.nixpkgs.expr.empty()) {
     /// Evaluate nixpkgs and options, using user-provided config.
-    if (nixpkgsClient()) {
-      evalExprWithProgress(*nixpkgsClient(), Config.nixpkgs.expr,
+    if (AttrSetClient *Client = nixpkgsClient()) {
+      evalExprWithProgress(*Client, Config.nixpkgs.expr,
                            "nixpkgs entries");
     }
   }
@@ -73,8 +73,15 @@ void Controller::updateConfig(Configuration NewConfig) {
         // If it does not exist. Launch a new client.
         startOption(Name, Client);
       }
-      assert(Client);
-      evalExprWithProgress(*Client->client(), Opt.expr, Name);
+      if (!Client) [[unlikely]] {
+        // Failed to launch, nobody should see the missing one.
+        Options.erase(Name);
+        continue;
+      }
+      if (AttrSetClient *C = Client->client())
+        evalExprWithProgress(*C, Opt.expr, Name);
+      else
+        elog("skipped client {0} as it is dead", Name);
     }
   }
 
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..5aa9878 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -278,10 +278,14 @@ Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
 
 /// \brief Get nixpkgs definition from a selector.
 Locations defineNixpkgsSelector(const Selector &Sel,
-                                AttrSetClient &NixpkgsClient) {
+                                AttrSetClient *NixpkgsClient) {
+  if (!NixpkgsClient) [[unlikely]] {
+    elog("definition/idiom: skipped nixpkgs client as it is dead");
+    return {};
+  }
   try {
     // Ask nixpkgs provider information about this selector.
-    NixpkgsDefinitionProvider NDP(NixpkgsClient);
+    NixpkgsDefinitionProvider NDP(*NixpkgsClient);
     return NDP.resolveSelector(Sel);
   } catch (NoLocationsFoundInNixpkgsException &E) {
     elog("definition/idiom: {0}", E.what());
@@ -294,7 +298,7 @@ Locations defineNixpkgsSelector(const Selector &Sel,
 /// \brief Get definiton of select expressions.
 Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
                        const ParentMapAnalysis &PM,
-                       AttrSetClient &NixpkgsClient) {
+                       AttrSetClient *NixpkgsClient) {
   // Currently we can only deal with idioms.
   // Maybe more data-flow analysis will be added though.
   try {
@@ -319,7 +323,7 @@ std::vector<T> mergeVec(std::vector<T> A, const std::vector<T> &B) {
 
 llvm::Expected<Locations>
 defineVar(const ExprVar &Var, const VariableLookupAnalysis &VLA,
-          const ParentMapAnalysis &PM, AttrSetClient &NixpkgsClient,
+          const ParentMapAnalysis &PM, AttrSetClient *NixpkgsClient,
           const URIForFile &URI, llvm::StringRef Src) {
   try {
     Locations StaticLocs = defineVarStatic(Var, VLA, URI, Src);
@@ -392,16 +396,16 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
 
       // Special case for inherited names.
       if (const ExprVar *Var = findInheritVar(N, PM, VLA))
-        return defineVar(*Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(*Var, VLA, PM, nixpkgsClient(), URI, TU->src());
 
       switch (UpExpr.kind()) {
       case Node::NK_ExprVar: {
         const auto &Var = static_cast<const ExprVar &>(UpExpr);
-        return defineVar(Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(Var, VLA, PM, nixpkgsClient(), URI, TU->src());
       }
       case Node::NK_ExprSelect: {
         const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-        return defineSelect(Sel, VLA, PM, *nixpkgsClient());
+        return defineSelect(Sel, VLA, PM, nixpkgsClient());
       }
       case Node::NK_ExprAttrs:
         return defineAttrPath(N, PM, OptionsLock, Options);
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..3d45647 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -129,7 +129,12 @@ void Controller::onInlayHint(const InlayHintsParams &Params,
       const auto AST = CheckDefault(getAST(*TU));
       // Perform inlay hints computation on the range.
       std::vector<InlayHint> Response;
-      NixpkgsInlayHintsProvider NP(*nixpkgsClient(), *TU->variableLookup(),
+      AttrSetClient *Client = nixpkgsClient();
+      if (!Client) [[unlikely]] {
+        elog("inlay hints: skipped nixpkgs client as it is dead");
+        return Response;
+      }
+      NixpkgsInlayHintsProvider NP(*Client, *TU->variableLookup(),
                                    *TU->parentMap(), Range, Response,
                                    TU->src());
       NP.dfs(AST.get());
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..038fde4 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -174,17 +174,20 @@ void Controller::
   // Start default workers.
   startNixpkgs(NixpkgsEval);
 
-  if (nixpkgsClient()) {
-    evalExprWithProgress(*nixpkgsClient(), getDefaultNixpkgsExpr(),
+  if (AttrSetClient *Client = nixpkgsClient()) {
+    evalExprWithProgress(*Client, getDefaultNixpkgsExpr(),
                          "nixpkgs entries");
   }
 
   // Launch nixos worker also.
   {
     std::lock_guard _(OptionsLock);
-    startOption("nixos", Options["nixos"]);
+    auto &Worker = Options["nixos"];
+    startOption("nixos", Worker);
 
-    if (AttrSetClient *Client = Options["nixos"]->client())
+    if (!Worker) [[unlikely]]
+      Options.erase("nixos"); // Failed to launch.
+    else if (AttrSetClient *Client = Worker->client())
       evalExprWithProgress(*Client, getDefaultNixOSOptionsExpr(),
                            "nixos options");
   }
diff --git a/nixd/lib/Eval/Launch.cpp b/nixd/lib/Eval/Launch.cpp
index eeb2c05..8167e9c 100644
--- a/nixd/lib/Eval/Launch.cpp
+++ b/nixd/lib/Eval/Launch.cpp
@@ -1,8 +1,12 @@
 #include "nixd/Eval/Launch.h"
 #include "nixd/CommandLine/Options.h"
 
+#include "lspserver/Logger.h"
+
 #include <llvm/Support/CommandLine.h>
 
+#include <system_error>
+
 using namespace llvm::cl;
 using namespace nixd;
 
@@ -23,10 +27,15 @@ opt<std::string> NixpkgsWorkerStderr{
 
 void nixd::startAttrSetEval(const std::string &Name,
                             std::unique_ptr<AttrSetClientProc> &Worker) {
-  Worker = std::make_unique<AttrSetClientProc>([&Name]() {
-    freopen(Name.c_str(), "w", stderr);
-    return execl(AttrSetClient::getExe(), "nixd-attrset-eval", nullptr);
-  });
+  try {
+    Worker = std::make_unique<AttrSetClientProc>([&Name]() {
+      freopen(Name.c_str(), "w", stderr);
+      return execl(AttrSetClient::getExe(), "nixd-attrset-eval", nullptr);
+    });
+  } catch (std::system_error &E) {
+    // Without this worker there is less information, but we can still serve.
+    lspserver::elog("cannot launch worker: {0}", E.what());
+  }
 }
 
 void nixd::startNixpkgs(std::unique_ptr<AttrSetClientProc> &NixpkgsEval) {
-- 
2.43.0


From 9a89f2ef9836df9685b80de8fea685c3e3f38fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 17/34] fix: do not die of unexpected positions or unknown
 variables in definition

Exceptions other than those of idioms terminated the server.
---
 nixd/lib/Controller/Definition.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5aa9878..9f95a58 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -18,6 +18,7 @@
 
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
+#include <llvm/Support/Path.h>
 
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Basic.h>
@@ -133,7 +134,7 @@ struct NoLocationsFoundInNixpkgsException : std::exception {
   }
 };
 
-class WorkerReportedException : std::exception {
+class WorkerReportedException : public std::exception {
   llvm::Error E;
 
 public:
@@ -155,6 +156,9 @@ class NixpkgsDefinitionProvider {
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
   static Location parseLocation(std::string_view Position) {
+    if (!llvm::sys::path::is_absolute(Position))
+      throw NoLocationsFoundInNixpkgsException();
+
     // Firstly, find ":"
     auto Pos = Position.find_first_of(':');
     if (Pos == std::string_view::npos) {
@@ -303,7 +307,7 @@ Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
   // Maybe more data-flow analysis will be added though.
   try {
     return defineNixpkgsSelector(mkSelector(Sel, VLA, PM), NixpkgsClient);
-  } catch (IdiomSelectorException &E) {
+  } catch (std::exception &E) {
     elog("defintion/idiom/selector: {0}", E.what());
   }
   return {};
-- 
2.43.0


From 679eedb2fb3cf852dd7e2787f0f9ca38559f57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 18/34] fix: do not confuse a duplicated attribute with an
 inherited variable

---
 nixd/lib/Controller/Definition.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 9f95a58..8aaa8f4 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -86,8 +86,14 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
-    assert(Var->kind() == Node::NK_ExprVar);
+    auto It = SA.staticAttrs().find(AN.staticName());
+    if (It == SA.staticAttrs().end())
+      return nullptr;
+
+    // It may be something else if this name is duplicated.
+    const Node *Var = It->second.value();
+    if (!Var || Var->kind() != Node::NK_ExprVar)
+      return nullptr;
     return static_cast<const ExprVar *>(Var);
   }
   return nullptr;
-- 
2.43.0


From df84a2104565150a938f89cfda7d78db4a66b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 19/34] fix: show options in hover even if the nixpkgs worker
 is dead

---
 nixd/lib/Controller/Hover.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..40e19d6 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -222,8 +222,9 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
 
       const auto &UpExpr = *CheckDefault(PM.upExpr(N));
 
-      // Try to get hover info from nixpkgs.
-      if (auto *Client = nixpkgsClient(); Client) {
+      // Try to get hover info from nixpkgs. Options do not depend on it.
+      if (auto *Client = nixpkgsClient();
+          Client || UpExpr.kind() == Node::NK_ExprAttrs) {
         switch (UpExpr.kind()) {
         case Node::NK_ExprVar: {
           const auto &Var = static_cast<const ExprVar &>(UpExpr);
-- 
2.43.0


From db93d2f7b35d4aff8c4af5f1f9c0ec7620a9dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 20/34] fix: stop workers before the controller they report to

---
 nixd/include/nixd/Controller/Controller.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 541edc9..7422066 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -252,7 +252,13 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override { Pool.join(); }
+  ~Controller() override {
+    Pool.join();
+    // Threads reading from workers call back to this object. Finish them before
+    // destroying anything else.
+    Options.clear();
+    NixpkgsEval.reset();
+  }
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
-- 
2.43.0


From e91a0811cba41634ce6eea7db947d3d730632f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 21/34] fix: apply configurations in the order they were
 received

---
 nixd/include/nixd/Controller/Controller.h | 5 +++++
 nixd/lib/Controller/Configuration.cpp     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 7422066..3c2dbd2 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -10,6 +10,7 @@
 #include "nixd/Eval/AttrSetClient.h"
 #include "nixf/Basic/Diagnostic.h"
 
+#include <boost/asio/strand.hpp>
 #include <boost/asio/thread_pool.hpp>
 
 #include <set>
@@ -147,6 +148,10 @@ private:
   boost::asio::thread_pool Pool{};
 #endif
 
+  /// Configuration updates run in the thread pool, but in the order of arrival.
+  boost::asio::strand<boost::asio::thread_pool::executor_type> ConfigStrand{
+      Pool.get_executor()};
+
   /// Action right after a document is added (including updates).
   void actOnDocumentAdd(lspserver::PathRef File,
                         std::optional<int64_t> Version);
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index a0cd15d..792b38a 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -124,7 +124,7 @@ void Controller::fetchConfig() {
       updateConfig(std::move(NewConfig));
     };
 
-    boost::asio::post(Pool, std::move(ConfigAction));
+    boost::asio::post(ConfigStrand, std::move(ConfigAction));
   };
   workspaceConfiguration({.items = {ConfigurationItem{.section = "nixd"}}},
                          std::move(Action));
-- 
2.43.0


From 298b66111602164e13e2e49c89b56b505b7c4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 22/34] fix: ignore empty configuration responses

---
 nixd/lib/Controller/Configuration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 792b38a..ddc2bf4 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -103,8 +103,10 @@ void Controller::fetchConfig() {
     }
 
     // LSP response is a json array, just take the first.
-    if (Resp->kind() != llvm::json::Value::Array) {
-      lspserver::elog("workspace/configuration response is not an array: {0}",
+    if (Resp->kind() != llvm::json::Value::Array ||
+        Resp->getAsArray()->empty()) {
+      lspserver::elog("workspace/configuration response is not an array, or it "
+                      "is empty: {0}",
                       *Resp);
       return;
     }
-- 
2.43.0


From bc9fa6e5b270c50e45c0ee61026347d66a971bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 23/34] fix: do not read past the end if a document ends in a
 backslash in a string

---
 libnixf/src/Parse/Lexer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..1d775d6 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,10 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    // The second one may be missing, while typing.
+    consume();
+    if (!eof())
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -440,7 +443,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From ee181a1ef85881babf974e7d73a3aeec0797eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 24/34] fix: do not assume that inherited names are identifiers

The names may be quoted (inherit "a";) or dynamic (inherit ${a};), taking
their identifier for granted crashed the parser.
---
 libnixf/src/Sema/SemaActions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..5ffcce3 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -308,6 +308,11 @@ void Sema::lowerInheritName(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
 void Sema::lowerInherit(SemaAttrs &Attr, const Inherit &Inherit) {
   for (const std::shared_ptr<AttrName> &Name : Inherit.names()) {
     assert(Name);
+    // There is nothing to desugar for dynamic names, just diagnose them.
+    if (!Name->isStatic()) {
+      lowerInheritName(Attr, Name, nullptr, Attribute::AttributeKind::Inherit);
+      continue;
+    }
     auto [Desugar, Kind] = desugarInheritExpr(Name, Inherit.expr());
     lowerInheritName(Attr, Name, std::move(Desugar), Kind);
   }
@@ -337,9 +342,14 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // The name may be quoted, e.g. `inherit "a";`
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 5cae8d4a67d17305f52b14737a27d943c79c2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 25/34] fix: attribute sets in dynamic names have no static
 attribute path

Asking for one, e.g. by hovering over it, ran into an assertion.
---
 nixd/lib/Controller/AST.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..6bf8473 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -81,8 +81,9 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
       return;
     }
   }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  // "N" is not the value of any binding, so it is inside a dynamic name.
+  // e.g. { ${ { a = 1; } } = 2; }
+  throw AttrPathHasDynamicError();
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From d1f2d62ee22ae91795649a761089d2ba22a6f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 26/34] fix: check completion items and markup received from
 the editor

Parameters which are no object ran into an assertion, the kinds of an item
that does not tell them were uninitialized, and documentation of an unknown
kind was unreachable code.
---
 nixd/lspserver/src/Protocol.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..1c76975 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1074,14 +1074,6 @@ static llvm::StringRef toTextKind(MarkupKind Kind) {
   llvm_unreachable("Invalid MarkupKind");
 }
 
-static MarkupKind fromTextKind(llvm::StringRef Kind) {
-  if (Kind == "plaintext")
-    return MarkupKind::PlainText;
-  if (Kind == "markdown")
-    return MarkupKind::Markdown;
-  llvm_unreachable("Invalid MarkupKind");
-}
-
 bool fromJSON(const llvm::json::Value &V, MarkupKind &K, llvm::json::Path P) {
   auto Str = V.getAsString();
   if (!Str) {
@@ -1115,11 +1107,14 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
+  // A plain string is allowed as well.
+  if (auto Str = Params.getAsString()) {
+    R.kind = MarkupKind::PlainText;
+    R.value = Str->str();
+    return true;
+  }
   llvm::json::ObjectMapper O(Params, P);
-  std::string MarkupKind;
-  O.map("kind", MarkupKind);
-  R.kind = fromTextKind(MarkupKind);
-  return O.mapOptional("value", R.value);
+  return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
 
 llvm::json::Value toJSON(const Hover &H) {
@@ -1209,14 +1204,15 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
-  if (!O.mapOptional("kind", Kind))
+  int Kind = static_cast<int>(CompletionItemKind::Missing);
+  if (!O || !O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
-  if (!O.mapOptional("insertTextFormat", Kind))
+  int Format = static_cast<int>(InsertTextFormat::Missing);
+  if (!O.mapOptional("insertTextFormat", Format))
     return false;
-  R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
+  R.insertTextFormat = static_cast<InsertTextFormat>(Format);
   return O                                                              //
          && O.map("label", R.label)                                     //
          && O.mapOptional("detail", R.detail)                           //
-- 
2.43.0


From 8aaf1085ab737ac83469cebc4f3d0df94319f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 27/34] fix: do not offer or accept completion items without a
 label

An attribute named "", in the document or in an evaluated set, became an item
that could not be encoded.
---
 nixd/lib/Controller/Completion.cpp | 3 +++
 nixd/lspserver/src/Protocol.cpp    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 4e44d83..4701405 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -42,6 +42,9 @@ struct ExceedSizeError : std::exception {
 };
 
 void addItem(std::vector<CompletionItem> &Items, CompletionItem Item) {
+  // Names may be empty, e.g. { "" = 1; }, but labels may not.
+  if (Item.label.empty())
+    return;
   if (Items.size() >= MaxCompletionSize) {
     throw ExceedSizeError();
   }
diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 1c76975..ec4f1a7 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1213,8 +1213,13 @@ bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
   if (!O.mapOptional("insertTextFormat", Format))
     return false;
   R.insertTextFormat = static_cast<InsertTextFormat>(Format);
+  if (!O.map("label", R.label))
+    return false;
+  if (R.label.empty()) {
+    P.field("label").report("expected a label");
+    return false;
+  }
   return O                                                              //
-         && O.map("label", R.label)                                     //
          && O.mapOptional("detail", R.detail)                           //
          && O.mapOptional("documentation", R.documentation)             //
          && O.mapOptional("sortText", R.sortText)                       //
-- 
2.43.0


From adc5755060b92c2a67bdad93fde16e7866340613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 28/34] fix: parse paths with adjacent interpolations

In ./${a}${b} the second interpolation was taken for a fragment of the path
and what follows it ran into an assertion.
---
 libnixf/src/Parse/ParseStrings.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..2676092 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,21 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_path_fragment) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+      } else if (Current.kind() == tok_dollar_curly) {
+        // There may be another one right behind, e.g. ./${a}${b}
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
-        continue;
+      } else {
+        break; // path_end
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      assert(LastToken && "LastToken should be set after consume()");
+      End = LastToken->rCur();
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From fe5f4ab5a842454b42255baae6759073ec346aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 29/34] fix: do not complete an empty attribute path

Completing the bare name "config" took the last name of an empty path.
---
 nixd/lib/Controller/Completion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 4701405..58bc7ef 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -363,7 +363,8 @@ void completeAttrPath(const lspserver::Range EditRange, const Node &N,
   std::vector<std::string> Scope;
   using PathResult = FindAttrPathResult;
   auto R = findAttrPathForOptions(N, PM, Scope);
-  if (R == PathResult::OK) {
+  // The path may be empty, if it was nothing but "config".
+  if (R == PathResult::OK && !Scope.empty()) {
     // Construct request.
     std::string Prefix = Scope.back();
     Scope.pop_back();
-- 
2.43.0


From 1620f8122b970c352866ee4124b5bf38fd18dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 30/34] fix: convert positions from UTF-16 to bytes

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 17 +++++++++++++----
 nixd/lib/Controller/Convert.h             |  6 ++++--
 nixd/lib/Controller/Definition.cpp        |  3 ++-
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  2 +-
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  6 ++++--
 10 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 58bc7ef..e40caa4 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -479,11 +479,12 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
       CheckDefault(Desc && canCompleteAt(*Desc));
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..ed50a47 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -29,12 +29,21 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  // Columns are counted in UTF-16 code units in LSP, but in bytes in nixf.
+  llvm::Expected<size_t> Offset = lspserver::positionToOffset(Code, P);
+  if (!Offset) {
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character}; // There is no such line.
+  }
+  size_t StartOfLine = Code.substr(0, *Offset).rfind('\n') + 1;
+  return {P.line, static_cast<int64_t>(*Offset - StartOfLine)};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..24c1b6b 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,11 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 8aaa8f4..1978bdd 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -394,11 +394,12 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..3379364 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,11 +58,12 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
       try {
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..5e4251e 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,11 +51,12 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 40e19d6..a0ec503 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -213,7 +213,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 3d45647..95a95e0 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..d36475f 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,12 +73,13 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
+                 RawPos = Params.position,
                  NewText = Params.newName, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
           error("cannot find corresponding node on given position"));
@@ -100,11 +101,12 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
 
-- 
2.43.0


From b677a6e27394398474310637376379f5ff4683b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 31/34] fix: Know how formatters end although SIGCHLD was
 ignored when started

The disposition is inherited. If it is SIG_IGN, waitpid(2) fails with ECHILD,
and a formatter that has crashed was considered to be successful: the document
was replaced by whatever it had printed until then.
---
 nixd/tools/nixd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 06304c2..6cde046 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -73,6 +73,10 @@ int main(int argc, char *argv[]) {
   // as an ordinary write error instead of killing the server.
   std::signal(SIGPIPE, SIG_IGN);
 
+  // We have to know how our children end. If this is ignored (and that is
+  // inherited from whoever started the server), the system forgets about them.
+  std::signal(SIGCHLD, SIG_DFL);
+
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
-- 
2.43.0


From 7921a68a4682de5f7576590e93dd19a70803c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 32/34] fix: Remove .. from paths like Nix does

Nix removes ".." from a path literal without looking at the file system, but
links before it were followed. Below a link to a file this even made up a path
that the system would not accept.
---
 nixd/lib/Controller/PathResolve.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/PathResolve.h b/nixd/lib/Controller/PathResolve.h
index 56d3f16..fb33c7c 100644
--- a/nixd/lib/Controller/PathResolve.h
+++ b/nixd/lib/Controller/PathResolve.h
@@ -58,12 +58,17 @@ inline std::optional<std::string> resolveExprPath(const std::string &BasePath,
     }
 
     // Resolve the user-provided path relative to base directory
+    // Nix removes "." and ".." without looking at the file system. In
+    // particular "link/.." is not the parent of what "link" points to.
+    fs::path FullPath = (BaseDirCanonical / ExprPath).lexically_normal();
+    if (!FullPath.has_filename())
+      FullPath = FullPath.parent_path();
+
     // Use weakly_canonical to handle non-existent intermediate components
-    fs::path ResolvedPath =
-        fs::weakly_canonical(BaseDirCanonical / ExprPath, EC);
+    fs::path ResolvedPath = fs::weakly_canonical(FullPath, EC);
     if (EC) {
       lspserver::elog("path-resolve: weakly_canonical failed for {0}: {1}",
-                      (BaseDirCanonical / ExprPath).string(), EC.message());
+                      FullPath.string(), EC.message());
       return std::nullopt;
     }
 
-- 
2.43.0


From a52fe6f4458666f44661ba9c43a4bb4813652c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 33/34] fix: apply formatter and diagnostic configuration
 without waiting for workers

A configuration update waited for the option workers, which might be busy with
a request, while holding the lock of the configuration. Formatting had to wait
as well, and so did the diagnostic suppression.
---
 nixd/lib/Controller/Configuration.cpp | 28 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index ddc2bf4..a813dd0 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -54,8 +54,23 @@ void Controller::onDidChangeConfiguration(
 }
 
 void Controller::updateConfig(Configuration NewConfig) {
-  std::lock_guard G(ConfigLock);
-  Config = std::move(NewConfig);
+  {
+    // Only written here, and by one update at a time. Others should not wait
+    // until workers have been told.
+    std::lock_guard G(ConfigLock);
+    Config = std::move(NewConfig);
+  }
+
+  // Update the diagnostic part.
+  updateSuppressed(Config.diagnostic.suppress);
+
+  // After all, notify all AST modules the diagnostic set has been updated.
+  {
+    std::lock_guard TUsGuard(TUsLock);
+    for (const auto &[File, TU] : TUs) {
+      publishDiagnostics(File, std::nullopt, TU->src(), TU->diagnostics());
+    }
+  }
 
   if (!Config.nixpkgs.expr.empty()) {
     /// Evaluate nixpkgs and options, using user-provided config.
@@ -84,15 +99,6 @@ void Controller::updateConfig(Configuration NewConfig) {
         elog("skipped client {0} as it is dead", Name);
     }
   }
-
-  // Update the diagnostic part.
-  updateSuppressed(Config.diagnostic.suppress);
-
-  // After all, notify all AST modules the diagnostic set has been updated.
-  std::lock_guard TUsGuard(TUsLock);
-  for (const auto &[File, TU] : TUs) {
-    publishDiagnostics(File, std::nullopt, TU->src(), TU->diagnostics());
-  }
 }
 
 void Controller::fetchConfig() {
-- 
2.43.0


From 76c3e5db1f202dca63261071384a53e6bc9875b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 34/34] fix: do not hand closed standard streams to children

If nixd is started with stderr closed, the first pipe it creates takes its
place, and formatters are launched without a standard error stream.  Files
they open then receive what they meant to complain about.
---
 nixd/tools/nixd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 6cde046..af57d3c 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -8,6 +8,7 @@
 
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
+#include <llvm/Support/Process.h>
 
 #include <csignal>
 
@@ -69,6 +70,10 @@ int main(int argc, char *argv[]) {
     PrettyPrint = true;
   }
 
+  // If any of these is closed, it would be taken by the first file we open.
+  // Pipes for our children should not be confused with them.
+  llvm::sys::Process::FixupStandardFileDescriptors();
+
   // Peers (the client, workers, formatters) may exit at any time, report this
   // as an ordinary write error instead of killing the server.
   std::signal(SIGPIPE, SIG_IGN);
-- 
2.43.0

