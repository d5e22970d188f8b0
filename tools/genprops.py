#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})
C = "nixd/lspserver/src/Connection.cpp"
L = "nixd/lspserver/src/LSPServer.cpp"
LH = "nixd/lspserver/include/lspserver/LSPServer.h"
LB = "nixd/lspserver/include/lspserver/LSPBinder.h"
CTL = "nixd/lib/Controller/"
CH = "nixd/include/nixd/Controller/Controller.h"
AC = "nixd/lib/Eval/AttrSetClient.cpp"
ACH = "nixd/include/nixd/Eval/AttrSetClient.h"
SUP = "nixd/lib/Support/"

prop("C01", "Incoming messages are decoded exactly once, in order, however bytes arrive",
 "Every complete JSON-RPC message a peer sends is handed to the server exactly once, intact and in order, however the byte stream is split, delayed or interrupted by signals, whatever other header fields accompany it, and even if the peer closes its end right after the last byte. A message that was never completed is never handed over, in whole or in part. This holds for the standard framing and for the Markdown test framing.",
 ["inputs", "schedules", "fault_sequences"],
 "all message sequences, all splits of the byte stream into reads, delays, EINTR at any poll/read, half-close at any byte",
 "The repository's reliable tests only cover the parser library; the lit tests feed one file through a pipe once, with no fragmentation, signal, delay or half-close.",
 [C, "nixd/lspserver/include/lspserver/Connection.h"],
 [("poll+read byte loop for header lines", C + " readLine"), ("body loop until Content-Length bytes", C + " readStandardMessage"), ("Markdown framing", C + " readLitTestMessage"), ("call/notify/reply classification", C + " InboundPort::dispatch")],
 ["messages delivered to the MessageHandler callbacks"])
prop("C02", "Concurrent senders never interleave or lose outgoing frames",
 "Whatever number of threads send notifications, calls and replies at once, and however the peer drains its end (short writes, interrupted writes, a full pipe), the bytes written form a sequence of complete frames whose declared length equals the body length. Each message sent appears exactly once and unmodified, and messages sent by one thread appear in the order it sent them.",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of sending threads, all write splits, EINTR at any write, slow and bursty readers",
 "No test sends from more than one thread, and no test makes write(2) short or interrupted.",
 [C, "nixd/lspserver/include/lspserver/Connection.h"],
 [("mutex around format+write+flush", C + " OutboundPort::sendMessage"), ("header/body emission", C + " OutboundPort::sendMessage")],
 ["bytes read by the peer"])
prop("C03", "The message loop ends promptly when its peer is gone, and only then",
 "Once the peer closes its end, the port is closed by its owner, or the editor process that started the server disappears, the message loop returns within a bounded time, at whatever byte of a message this happens. While the peer is alive and the port open the loop never returns on its own because of silence, slowness or an interrupted system call.",
 ["fault_sequences", "schedules", "histories"],
 "stop causes (EOF, close, editor death) x position in the stream (idle, mid header, mid body) x delays and EINTR",
 "Needs a clock and a peer that stalls or dies at a chosen byte; no test has either.",
 [C, "nixd/lspserver/include/lspserver/Connection.h"],
 [("1 s poll tick re-checking the close flag and kill(clientPid,0)", C + " readLine"), ("EOF detection", C + " readLine / readStandardMessage")],
 ["return of InboundPort::loop / LSPServer::run in simulated time"])
prop("C04", "Each outgoing call completes exactly once, with its own reply or an error",
 "For every call the server makes to a peer, its callback runs exactly once: with the result or error the peer sent for that very call, however replies are reordered, duplicated or interleaved with other traffic, or with an error when more than 100 calls are outstanding and it is the oldest, when the reply cannot be decoded, or when the connection ends first. Replies that match no outstanding call are ignored and disturb nothing.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of calling threads with the reading thread, all reply orders, duplicate/unknown/ill-typed ids, overflow, connection loss at any point",
 "No test issues concurrent calls, reorders or forges replies, overflows the table or cuts the connection with calls outstanding.",
 [L, LH],
 [("id allocation and pending table under a lock", L + " bindReply"), ("reply lookup/erase, callback outside the lock", L + " onReply"), ("overflow eviction of the oldest", L + " bindReply")],
 ["callback invocations and their arguments"],
 [("PendingCalls", "id -> callback of calls awaiting a reply", LH), ("TopID", "next id", LH)])
prop("C05", "Each incoming request gets exactly one response carrying its own id",
 "For every request a peer sends, exactly one response with the identical id (any JSON id) is written: the handler's result or error, invalid-params if the parameters cannot be decoded, or an error if no such method exists, no matter on which thread or in which order handlers answer. Unknown notifications, notifications with undecodable parameters and stray responses produce no response, and none of these stops the server from serving the messages that follow; only the exit notification does.",
 ["schedules", "inputs", "histories"],
 "all request/notification sequences incl. unknown methods and bad params, all completion orders and threads, duplicate ids",
 "Tests replay fixed well-formed dialogues with one request in flight.",
 [L, LB, C],
 [("handler registry lookup and reply closure capturing the id", L + " onCall"), ("parameter decoding and InvalidParams", LB + " parseParam/addMethod"), ("error encoding", C + " encodeError")],
 ["frames read by the peer"])
prop("C06", "Concurrent document store operations are atomic and snapshots immutable",
 "Concurrent add, replace, read, list and remove operations on the open-document store behave as if executed one at a time in some order consistent with real time. A snapshot obtained from the store never changes or becomes invalid afterwards, versions supplied by the caller are kept, and automatically assigned versions of a document increase by one.",
 ["schedules", "histories"],
 "all interleavings of operations by several threads over several documents",
 "Unit tests of the store are single threaded.",
 ["nixd/lspserver/src/DraftStore.cpp", "nixd/lspserver/include/lspserver/DraftStore.h"],
 [("one mutex around the map", "nixd/lspserver/src/DraftStore.cpp"), ("contents held by shared_ptr<const string>", "nixd/lspserver/include/lspserver/DraftStore.h"), ("version update", "nixd/lspserver/src/DraftStore.cpp updateVersion")],
 ["return values of getDraft/addDraft/getActiveFiles/asVFS"],
 [("Drafts", "open documents", "nixd/lspserver/include/lspserver/DraftStore.h")])
prop("C07", "Log lines are whole, ordered and filtered by level",
 "Every message logged at or above the configured level appears on the log stream exactly once as one uninterrupted line tagged with its level, and no message below it appears, whatever threads log concurrently and however the stream accepts the bytes. Lines logged by one thread appear in its order.",
 ["schedules", "fault_sequences"],
 "all interleavings of logging threads, short and interrupted writes, all level thresholds",
 "No test logs from several threads or looks at the log stream.",
 ["nixd/lspserver/src/Logger.cpp", "nixd/lspserver/include/lspserver/Logger.h"],
 [("lock around format+flush", "nixd/lspserver/src/Logger.cpp StreamLogger::log"), ("level filter", "nixd/lspserver/src/Logger.cpp StreamLogger::log")],
 ["bytes on the log stream"])
prop("C08", "Spawning a child connects exactly its three streams and leaks nothing",
 "A spawned child has its standard input, output and error connected to three distinct pipes whose other ends only the parent holds, so that closing one end is seen as end of file at the other, also when several children are spawned concurrently. The parent's ends are each closed exactly once when their owner is destroyed, no descriptor of a live object is ever closed by another, and a failed spawn leaves no descriptor behind and reports the error.",
 ["schedules", "fault_sequences"],
 "concurrent spawns and destructions, pipe(2)/fork(2) failure at each call (EMFILE, EAGAIN), child exit at any time",
 "Tests never inspect descriptor tables and never make pipe or fork fail.",
 [SUP + "ForkPiped.cpp", SUP + "StreamProc.cpp", SUP + "AutoCloseFD.cpp", "nixd/include/nixd/Support/PipedProc.h"],
 [("pipe/fork/dup2/close sequence", SUP + "ForkPiped.cpp"), ("RAII owners", SUP + "AutoCloseFD.cpp, " + SUP + "StreamProc.cpp")],
 ["descriptor tables of parent and children"])
prop("C09", "The server's text equals the editor's text after any edit history",
 "After any sequence of open, incremental and full change, and close notifications on any number of documents, and with any other traffic going on, the text the server works with for an open document equals the text the editor holds under the protocol's UTF-16 rules. An edit that does not fit the document (a position outside it or inside a character, an end before its start, a stated length that is not the range's) drops that document, and it stays dropped until it is opened again; operations on one document never affect another.",
 ["histories", "inputs", "schedules"],
 "edit histories over several documents interleaved with requests, including multi-change batches, non-ASCII text, invalid edits, changes and closes of documents that are not open",
 "Tests apply at most a couple of fixed edits to one document and cover only the range arithmetic.",
 [CTL + "TextDocumentSync.cpp", "nixd/lspserver/src/SourceCode.cpp", "nixd/lspserver/src/DraftStore.cpp", CTL + "Support.cpp"],
 [("sequential application of content changes to a copy of the draft", CTL + "TextDocumentSync.cpp onDocumentDidChange"), ("range application and checks", "nixd/lspserver/src/SourceCode.cpp applyChange"), ("drop on failure", CTL + "Support.cpp removeDocument")],
 ["text piped to the external formatter; replies computed from the text"])
prop("C10", "Diagnostics converge to the latest text and suppression settings",
 "Once edits and configuration changes stop, the last diagnostics published for an open document are those of its latest text under the latest suppression list, and for a document that was closed or dropped they are empty. While edits go on, a publication that carries a version carries the diagnostics of exactly that version, and versions never go backwards while the document stays open.",
 ["schedules", "histories"],
 "edits, opens, closes and configuration changes racing with each other on all thread interleavings",
 "Tests have one edit at a time and a fixed configuration; the race between republishing and editing needs chosen interleavings.",
 [CTL + "Support.cpp", CTL + "Diagnostics.cpp", CTL + "Configuration.cpp"],
 [("publish on add", CTL + "Support.cpp actOnDocumentAdd"), ("clear on remove", CTL + "Support.cpp removeDocument"), ("republish all on configuration change under the units lock", CTL + "Configuration.cpp updateConfig"), ("suppression filter", CTL + "Diagnostics.cpp")],
 ["textDocument/publishDiagnostics notifications"],
 [("TUs", "parsed unit per open document", CH), ("SuppressedDiagnostics", "suppressed kinds", CH)])
prop("C11", "Replies are computed from one consistent version of the document",
 "Every answer about a document (symbols, folding, tokens, references, highlights, rename, definition, links, code actions) is the answer for one single version of its text, and that version is at least as new as every edit sent before the request. If the document is not open the answer is empty or an error, never one computed from a closed or different document.",
 ["schedules", "histories"],
 "requests racing with edits, closes and reopens of several documents on all thread interleavings",
 "Tests never edit while a request is being computed on another thread.",
 [CTL + "Support.cpp", CTL + "DocumentSymbol.cpp", CTL + "FoldingRange.cpp", CTL + "SemanticTokens.cpp", CTL + "FindReferences.cpp", CTL + "DocumentHighlight.cpp", CTL + "Rename.cpp", CTL + "Definition.cpp", CTL + "CodeAction.cpp", CH],
 [("immutable shared unit fetched once under a lock", CH + " getTU"), ("parse in the reading thread before the next message", CTL + "Support.cpp actOnDocumentAdd")],
 ["replies read by the editor"],
 [("TUs", "parsed unit per open document", CH)])
prop("C12", "Every editor request is answered exactly once, whatever else goes on",
 "Every request the editor sends to the running server receives exactly one response with its id, within bounded time once the workers and formatters asked meanwhile have answered or died, for every supported feature, while documents are edited and closed under it, workers and formatters misbehave, configuration changes and other requests are in flight. Nothing the editor, a worker or a formatter sends makes the server process exit, crash or stop reading.",
 ["schedules", "fault_sequences", "histories"],
 "mixed workloads of all request kinds with all fault kinds",
 "Tests run one scripted well-behaved dialogue at a time.",
 [CTL, L, CH],
 [("reply callback owned by the posted task", CTL + "*.cpp"), ("thread pool off the reading thread", CH)],
 ["frames read by the editor; process exit status"])
prop("C13", "A failing evaluation worker never takes the server or a request down with it",
 "When an evaluation worker cannot be started, crashes, is killed, closes its streams, sends errors, malformed or unsolicited data, or is slow, the server keeps running, every request that consulted that worker is still answered once the worker is gone or has answered, and documents stay editable and features that need no worker are answered promptly meanwhile, as long as fewer requests and configuration changes wait for workers than the server has task threads. A dead worker's absence only removes the information it would have provided.",
 ["fault_sequences", "schedules", "crash_points"],
 "worker fault kinds x the point in the dialogue (before start, during evaluation, with a call outstanding, mid frame, between calls) x requests in flight",
 "Tests run against one healthy worker or none; crashes at chosen points need a simulated worker.",
 [AC, ACH, L, CTL + "Hover.cpp", CTL + "Completion.cpp", CTL + "Definition.cpp", CTL + "InlayHints.cpp", CTL + "Configuration.cpp", CTL + "LifeTime.cpp"],
 [("liveness probe of the worker process", AC + " client()"), ("reply callback releasing the waiting task", CTL + "Hover.cpp, Completion.cpp, Definition.cpp, InlayHints.cpp")],
 ["replies read by the editor; process exit status"])
prop("C14", "Evaluated information is attributed to the right query, worker and document",
 "Hover, completion, completion-resolve, definition and inlay-hint answers that use evaluated information contain exactly what the responsible workers answered for the attribute path under the cursor in that version of the document, never the answer to another query, however many requests run concurrently and in whatever order workers answer. Option information names and covers each configured option set.",
 ["schedules", "histories"],
 "concurrent queries to several workers answered in any order and delay",
 "Tests have one query in flight and one worker.",
 [CTL + "Hover.cpp", CTL + "Completion.cpp", CTL + "Definition.cpp", CTL + "InlayHints.cpp", LH, L],
 [("per-request semaphore and result slot", CTL + "*.cpp"), ("call correlation", L), ("Options map lock", CH)],
 ["replies read by the editor compared with what the simulated workers answered"])
prop("C15", "The effective configuration is the editor's latest valid answer",
 "After configuration changes settle, the formatter command, diagnostic suppression and option sets in force are those of the editor's most recent valid configuration answer, in whatever order answers and the work they trigger are scheduled; after a change notification the server asks again, so an answer from before the change is never the last word; malformed, empty or error answers change nothing and disturb nothing. Each configured option set has a worker that was sent the configured expression last (a set missing from the configuration keeps its worker; a worker that died is not restarted), the package worker was sent the configured package expression last, and an editor that does not support configuration is never asked.",
 ["schedules", "histories", "inputs"],
 "sequences of configuration changes and answers (valid, malformed, late, out of order) interleaved with other work",
 "Tests answer one configuration request once.",
 [CTL + "Configuration.cpp", CTL + "LifeTime.cpp", "nixd/lib/CommandLine/Configuration.cpp"],
 [("answers applied in pool tasks under the config lock", CTL + "Configuration.cpp"), ("worker start and evaluation", CTL + "Configuration.cpp updateConfig")],
 ["formatter processes started, diagnostics published, evaluation requests received by workers"],
 [("Config", "effective configuration", CH), ("Options", "option workers", CH)])
prop("C16", "Formatting returns the formatter's exact output or an error",
 "A formatting request runs the configured command on the document's current text and answers with no edit if the output equals the text, with one edit replacing the whole document by exactly the output otherwise, and with an error if the command cannot be run, fails or dies or the document is not open. This holds for any document and output size and any way the formatter reads, writes, ignores its input, or exits, under interrupted and short reads and writes and concurrent requests. Each command starts with its three standard streams connected to the server and nothing else, whatever the server's own are; no descriptor or process stays behind.",
 ["fault_sequences", "schedules", "inputs"],
 "formatter behaviours (streaming, buffering, early exit, no read, crash, missing binary, stderr noise, slow) x sizes x concurrent formats and edits",
 "Tests run one tiny document through one well-behaved formatter.",
 [CTL + "Format.cpp", SUP + "ForkPiped.cpp"],
 [("write all, wait, read all", CTL + "Format.cpp onFormat")],
 ["formatting replies; descriptor table of the server"])
prop("C17", "Progress reports are created, begun and ended exactly once",
 "For every evaluation the server reports progress on, the editor sees one creation, one begin and one end with the same token in that order, with no two running reports sharing a token, and the end comes in bounded time however the evaluation turns out, including when the worker dies. An editor that did not declare support sees no progress traffic at all.",
 ["schedules", "fault_sequences"],
 "worker outcomes (result, error, crash, garbage, slow) x configuration changes x interleavings",
 "Tests do not enable progress with failing workers.",
 [CTL + "LifeTime.cpp", CTL + "Support.cpp", CH],
 [("begin before the call, end in its callback", CTL + "LifeTime.cpp evalExprWithProgress")],
 ["window/workDoneProgress/create and $/progress messages"])
prop("C18", "Shutdown is clean and bounded from any state",
 "After the exit notification, the end of input or the death of the editor, at any moment and with any work outstanding, the server process ends normally within bounded time once outstanding workers and formatters have answered or died. Requests received before are still answered if the editor is there to listen, every worker is told to exit and sees its input closed, and nothing destroyed is used by a thread still running.",
 ["crash_points", "schedules", "fault_sequences"],
 "stop cause x point in the workload x worker states x interleavings of destruction with worker threads",
 "Tests send exit after everything is idle.",
 [CH, ACH, "nixd/tools/nixd.cpp", C, CTL + "LifeTime.cpp"],
 [("pool join, then member destruction; worker exit notification, close and join", CH + " ~Controller, " + ACH + " ~AttrSetClientProc")],
 ["process exit status and time; bytes and EOF seen by workers; memory-safety oracle"])
prop("C19", "Path links and definitions follow the file system as it is, and never fail hard",
 "A path in a document is linked to, and its definition is, the existing file it denotes relative to the document's directory (`.` and `..` being removed without looking at the file system, as Nix does), or the default.nix inside it when it denotes a directory, and it yields nothing when the target does not exist or cannot be examined. Files appearing, disappearing, changing kind or failing with I/O errors during the resolution never crash the server nor leave the request unanswered.",
 ["fault_sequences", "schedules", "inputs"],
 "file-system states and their changes between any two system calls of one resolution, errors (ENOENT, EACCES, EIO, ELOOP, ENAMETOOLONG) at each call",
 "Tests have fixed files and no errors or races.",
 [CTL + "PathResolve.h", CTL + "DocumentLink.cpp", CTL + "Definition.cpp"],
 [("error_code overloads of std::filesystem and a catch", CTL + "PathResolve.h")],
 ["documentLink and definition replies"])
prop("C20", "No interleaving corrupts, races or deadlocks the server",
 "No interleaving of editor messages, worker replies, configuration changes, requests and shutdown makes two threads access the same memory without synchronisation with at least one writing, use memory after it was freed, or wait for each other forever.",
 ["schedules", "fault_sequences", "histories"],
 "all thread interleavings of mixed workloads over the whole server",
 "Real-thread tests observe one arbitrary schedule and have no race oracle.",
 [CTL, "nixd/lspserver/src/", "nixd/lib/Eval/", "nixd/lib/Support/", CH],
 [("TUsLock, ConfigLock, OptionsLock, SuppressedDiagnosticsLock, PendingCallsLock, output and log locks", CH), ("immutable units and drafts shared by shared_ptr", CH)],
 ["happens-before race detector, freed-memory detector and deadlock detector in the simulator"])

prop("C30", "Every party is only told what the protocol allows, in the right order",
 "Whatever the schedule, the faults and the end of the session: the first message the editor gets is the answer to initialize; everything the editor and the workers get is a JSON-RPC call, notification or response of a kind they know, with an id used once per party; progress is only reported for tokens announced before, and diagnostics only for documents that were opened; a worker gets its expression before any question about it, and nothing after it was told to exit.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of editor traffic, configuration changes, worker replies and faults, and shutdown at any point",
 "Tests drive one message at a time and never look at what is sent to the workers.",
 [CTL, L, "nixd/lib/Eval/", "nixd/lspserver/src/"],
 [("initialize handler: reply, then workers and configuration", CTL + "LifeTime.cpp"), ("ids from a counter", L + " callMethod"), ("progress tokens", CTL + "Configuration.cpp"), ("workers are evaluated before they are published", CTL + "Configuration.cpp"), ("exit on destruction", AC)],
 ["every message to the editor and to each worker"])

prop("C31", "Long sessions hold on to nothing that is no longer needed",
 "However often the same work is repeated (documents opened, changed, badly changed, closed, questions of all kinds answered, failed or refused, configurations changed, formatters run), once all documents are closed and everything is answered the server holds no more memory, descriptors, threads and child processes than after the earlier rounds.",
 ["histories", "schedules", "fault_sequences"],
 "all repeated rounds of work, with any schedule within the rounds and with workers missing or formatters failing",
 "Tests end after a few messages, so nothing accumulates visibly, and leak checkers do not see what is still referenced.",
 [CTL, L, "nixd/lspserver/src/DraftStore.cpp", "nixd/lib/Support/", "nixd/lib/Eval/"],
 [("closing a document drops draft and unit", CTL + "Support.cpp"), ("answered and failed calls leave the pending table", L), ("formatters' pipes and processes are released", CTL + "Format.cpp")],
 ["live blocks of the server's heap, its descriptors, threads and children after each round"])

# Pure functions: real properties of nixd, but nothing here for a schedule or a fault to act on.
def pure(id, title, statement, over, qtext, why, files, mech, observe):
    prop(id, title, statement, over, qtext, why, files, mech, observe)
pure("C21", "Parsing terminates and yields a tree for any byte sequence",
 "For every input text the parser terminates without crashing and returns a (possibly partial) tree together with diagnostics, and valid Nix programs yield no syntax diagnostics.",
 ["inputs"], "all byte strings", "Tests sample a few hundred snippets.",
 ["libnixf/src/Parse/"], [("error-recovering recursive descent", "libnixf/src/Parse/")], ["nixf::parse"])
pure("C22", "Tree, token and diagnostic ranges lie inside the source and nest",
 "Every node's range lies within the source text and inside its parent's range, siblings do not overlap, and every diagnostic, note and fix-it refers to a range inside the source.",
 ["inputs"], "all source texts", "Tests check ranges of chosen snippets.",
 ["libnixf/src/Parse/", "libnixf/src/Basic/Nodes.cpp"], [("cursor bookkeeping in the lexer", "libnixf/src/Parse/Lexer.cpp")], ["node and diagnostic ranges"])
pure("C23", "Variable resolution agrees with the scoping rules of the Nix language",
 "Each variable is bound to the definition the Nix scoping rules give it (let, rec, lambda, inherit, with, builtins), and undefined and unused reports follow exactly from that.",
 ["programs"], "all Nix programs", "Tests sample each construct in isolation.",
 ["libnixf/src/Sema/VariableLookup.cpp"], [("environment chain walk", "libnixf/src/Sema/VariableLookup.cpp")], ["VariableLookupAnalysis queries and diagnostics"])
pure("C24", "Code actions, quick fixes and renames preserve the program's meaning",
 "Applying an offered refactoring, rename or quick fix yields text that parses and means the same as before, except for the reported problem it fixes.",
 ["programs"], "all programs and cursor ranges", "Tests compare a few fixed inputs and outputs.",
 [CTL + "CodeActions/", CTL + "Rename.cpp", "libnixf/src/Sema/"], [("edit construction", CTL + "CodeActions/")], ["workspace edits"])
pure("C25", "File URIs and paths convert back and forth without loss",
 "Converting an absolute path to a URI and back gives the same path, for every path including reserved and non-ASCII characters, and malformed URIs are rejected.",
 ["inputs"], "all paths and URI strings", "Tests sample a few paths.",
 ["nixd/lspserver/src/URI.cpp"], [("percent encoding", "nixd/lspserver/src/URI.cpp")], ["URI::create/parse, URIForFile"])
pure("C26", "Offsets and editor positions convert consistently in UTF-16 units",
 "Converting a byte offset to an editor position and back is the identity on character boundaries, in UTF-16 code units, for every text, and out-of-range positions are rejected or clamped as documented.",
 ["inputs"], "all texts and positions", "Tests sample a few strings.",
 ["nixd/lspserver/src/SourceCode.cpp", CTL + "Convert.cpp"], [("UTF-16 length iteration", "nixd/lspserver/src/SourceCode.cpp")], ["positionToOffset/offsetToPosition"])
pure("C27", "Protocol values survive encoding and decoding",
 "Every protocol value the server can produce encodes to JSON that decodes to an equal value, and decoding any JSON either yields a value or an error, never a crash.",
 ["inputs"], "all protocol values and JSON documents", "Only some structures are exercised.",
 ["nixd/lspserver/src/Protocol.cpp", "nixd/lib/Protocol/AttrSet.cpp"], [("toJSON/fromJSON pairs", "nixd/lspserver/src/Protocol.cpp")], ["toJSON/fromJSON"])
pure("C28", "Command-line configuration is parsed and merged as documented",
 "The configuration given on the command line as JSON is parsed like the editor's and its formatting command is in force until the editor's first answer; a malformed one stops the server with a message.",
 ["configurations"], "all option strings", "Tests run two option strings.",
 ["nixd/lib/CommandLine/Configuration.cpp"], [("JSON merge", "nixd/lib/CommandLine/Configuration.cpp")], ["parseCLIConfig"])
pure("C29", "The evaluation worker reports attribute and option values as Nix evaluates them",
 "The worker's answers about attribute names, packages and options equal what the Nix evaluator computes for the expression it was given, and an evaluation error is reported as an error for that query only.",
 ["programs", "histories"], "all expressions and query sequences", "The worker is not built in this sandbox at all.",
 ["nixd/lib/Eval/AttrSetProvider.cpp", "libnixt/"], [("evaluator bindings", "nixd/lib/Eval/AttrSetProvider.cpp")], ["worker replies"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
