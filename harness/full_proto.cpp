// C30: the order and the kinds of what every party is told.
#include "full_mix.h"

using namespace fw;
using namespace rt;

namespace {
struct C30 {
  bool first = true;
  std::set<std::string> ids, tokens;
  std::map<int, std::set<std::string>> workerIds;
  std::map<int, bool> evaluated, leaving;
};
C30 *S30;

/// Is this a JSON-RPC message? Its method, "" for a response.
std::string envelope(const std::string &to, const json::Object &o) {
  std::string text = dump(json::Object(o)).substr(0, 300);
  if (str(&o, "jsonrpc") != "2.0")
    violate("bad-message", to + " got a message without a version: " + text);
  const json::Value *id = o.get("id");
  if (id && id->kind() != json::Value::Number &&
      id->kind() != json::Value::String && id->kind() != json::Value::Null)
    violate("bad-message", to + " got a message with an odd id: " + text);
  if (o.get("method")) {
    if (!o.getString("method") || o.get("result") || o.get("error"))
      violate("bad-message", to + " got something between a call and an "
                                  "answer: " + text);
    if (const json::Value *p = o.get("params"))
      if (p->kind() == json::Value::Number || p->kind() == json::Value::Boolean)
        violate("bad-message", to + " got odd parameters: " + text);
    return o.getString("method")->str();
  }
  if (!id || !o.get("result") == !o.get("error"))
    violate("bad-message", to + " got a response which is none: " + text);
  if (const json::Value *e = o.get("error")) {
    const json::Object *eo = e->getAsObject();
    if (!eo || !eo->getInteger("code") || !eo->getString("message"))
      violate("bad-message", to + " got an error without code or message: " +
                                 text);
  }
  return "";
}
void toEditor(const json::Object &o) {
  std::string m = envelope("the editor", o);
  const json::Value *id = o.get("id");
  if (S30->first) {
    S30->first = false;
    if (!m.empty() || !id || id->getAsInteger() != 1 || !o.get("result"))
      violate("too-early", "the first message to the editor is not the answer "
                           "to initialize: " +
                               dump(json::Object(o)).substr(0, 200));
    const json::Object *r = obj(*o.get("result"));
    if (!r || !r->getObject("capabilities"))
      violate("bad-message", "the answer to initialize lacks capabilities");
    probe("initialized-first");
  }
  if (m.empty())
    return;
  static const std::set<std::string> calls = {
      "workspace/configuration", "workspace/workspaceFolders",
      "workspace/applyEdit", "workspace/semanticTokens/refresh",
      "workspace/inlayHint/refresh", "workspace/diagnostic/refresh",
      "workspace/codeLens/refresh", "client/registerCapability",
      "client/unregisterCapability", "window/showMessageRequest",
      "window/showDocument", "window/workDoneProgress/create"},
      notes = {"textDocument/publishDiagnostics", "$/progress", "$/logTrace",
               "$/cancelRequest", "window/showMessage", "window/logMessage",
               "telemetry/event"};
  if (!(id ? calls : notes).count(m))
    violate("bad-message", "the editor got a " +
                               std::string(id ? "call" : "notification") +
                               " it does not know: " + m);
  const json::Object *p = o.getObject("params");
  if (id && !S30->ids.insert(dump(*id)).second)
    violate("id-reused", "the editor got two calls with the id " + dump(*id));
  if (m == "window/workDoneProgress/create" || m == "$/progress") {
    if (!W->capProgress)
      violate("unsupported", "the editor got " + m + " without supporting it");
    const json::Value *t = p ? p->get("token") : nullptr;
    if (!t)
      violate("bad-message", m + " without a token");
    if (id)
      S30->tokens.insert(dump(*t));
    else if (!S30->tokens.count(dump(*t)) && !W->ended)
      // (a connection that ends refuses calls before notifications)
      violate("unknown-token", "the editor got progress for the token " +
                                   dump(*t) + " it was never told about");
  }
  if (m == "workspace/configuration") {
    const json::Array *items = p ? p->getArray("items") : nullptr;
    const json::Object *i = items && items->size() == 1 ? obj((*items)[0])
                                                        : nullptr;
    if (!i || str(i, "section") != "nixd")
      violate("bad-message", "the editor is asked for another section of its "
                             "configuration: " +
                                 dump(json::Object(o)).substr(0, 200));
  }
  if (m == "textDocument/publishDiagnostics") {
    int d = docOf(str(p, "uri"));
    bool was = false;
    if (d >= 0)
      for (auto &s : W->docs[d].st)
        was |= s.open;
    if (!was)
      violate("unknown-document", "the editor got diagnostics of " +
                                      str(p, "uri") + ", never opened");
  }
}
void toWorker(Worker &w, const json::Object &o) {
  std::string m = envelope(w.name, o);
  if (S30->leaving[w.idx])
    violate("after-exit", w.name + " was told to exit, and then got " +
                              dump(json::Object(o)).substr(0, 200));
  if (m.empty())
    return;
  const json::Value *id = o.get("id");
  if (m == "exit") {
    if (id)
      violate("bad-message", "exit is a notification");
    S30->leaving[w.idx] = true;
    probe("exit-last");
    return;
  }
  static const std::set<std::string> calls = {
      "attrset/evalExpr", "attrset/attrpathInfo", "attrset/attrpathComplete",
      "attrset/optionInfo", "attrset/optionComplete"};
  if (!id || !calls.count(m))
    violate("bad-message", w.name + " does not know " + m);
  if (!S30->workerIds[w.idx].insert(dump(*id)).second)
    violate("id-reused", w.name + " got two calls with the id " + dump(*id));
  if (m == "attrset/evalExpr") {
    S30->evaluated[w.idx] = true;
    return;
  }
  if (!S30->evaluated[w.idx])
    violate("nothing-to-ask", w.name + " was asked " + m +
                                  " before it was given an expression");
  probe("asked-after-expression");
}
void genC30(Plan &P, Gen &G) {
  genBase(P, G);
  P.set("noworker", G.chance(0.05));
  P.set("capConfig", G.chance(0.9));
  P.set("capProgress", G.chance(0.7));
  P.set("wdelay", G.range(0, 2));
  MixOpts O;
  O.minOps = 3;
  O.maxOps = G.chance(0.2) ? 50 : 20;
  O.pConf = G.chance(0.6) ? 0.2 : 0.05;
  O.pEval = 0.75;
  O.pFormat = 0.04;
  O.pDoc = 0.2;
  O.pWait = G.chance(0.6) ? 0.05 : 0.25;
  O.pFaults = G.chance(0.5) ? 0 : 0.4;
  genMix(P, G, O);
  if (G.chance(0.3))
    P.ops.resize((size_t)G.range(1, (int64_t)P.ops.size()));
  static const std::vector<std::string> e = {"end shutdown", "end exit",
                                             "end eof", "end die"};
  P.ops.push_back(G.pick(e));
}
void setupC30(const Plan &P) {
  S30 = new C30();
  setupMix(P);
  W->onEditorMsg = toEditor;
  W->onWorkerMsg = toWorker;
  W->atEnd = [] {
    // what was still on its way to the workers
    for (auto &w : W->workers) {
      if (w->hadFault || w->p->status == 13)
        continue;
      w->fp.feed(w->in.f ? w->in.f->pipe->buf : w->unread);
      for (auto &b : w->fp.bodies) {
        bool bad;
        json::Value v = parseJson(b, &bad);
        if (bad || !v.getAsObject())
          violate("bad-output", w->name + " got a message that is no JSON "
                                          "object: " + b.substr(0, 200));
        toWorker(*w, *v.getAsObject());
      }
    }
  };
}
Register rC30("C30", genC30, setupC30);
} // namespace
