"""Builds the real nixd from /repo (the current directory) and drives it as an
editor does. Everything is written to a scratch directory that is removed."""
import atexit, concurrent.futures as cf, glob, json, os, re, select, shutil
import signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
OUT = REPO + "/_build/out"
TMP = tempfile.mkdtemp(prefix="nixd-demo-")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
INC = ["-I" + REPO + "/nixd/include", "-I" + REPO + "/nixd/lspserver/include",
       "-I" + REPO + "/libnixf/include", "-I" + REPO + "/nixd/lib",
       "-I" + OUT + "/libnixf/src", "-isystem", "/usr/lib/llvm-18/include"]
FLAGS = ["-std=gnu++20", "-O0", "-w", "-pthread", "-D_GNU_SOURCE"]
LIBS = ["-L" + OUT + "/libnixf/src", "-L" + OUT + "/nixd/lspserver",
        OUT + "/libnixf/src/libscope-nixf-primops.a", "-lnixf", "-lnixd-lspserver", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
        "-Wl,-rpath," + OUT + "/libnixf/src:" + OUT + "/nixd/lspserver"]


def fail(msg):
    print("FAILED:", msg)
    sys.stdout.flush()
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(1)


def broken(msg):
    print("demo cannot run:", msg)
    sys.stdout.flush()
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(3)


def ok():
    print("OK")
    sys.stdout.flush()
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(0)


def watchdog(seconds, msg):
    t = threading.Timer(seconds, lambda: fail(msg))
    t.daemon = True
    t.start()
    return t


def cxx(args):
    r = subprocess.run(["g++"] + FLAGS + INC + args, capture_output=True,
                       text=True)
    if r.returncode:
        broken(r.stderr[-3000:])


def program(srcs, extra=()):
    """A program of the demo's, linked with the built libraries."""
    exe = TMP + "/prog"
    cxx([os.path.join(HERE, s) for s in srcs] + list(extra) +
        ["-o", exe] + LIBS)
    return exe


def nixd():
    """The server, compiled as it is."""
    st = TMP + "/stubs"
    os.makedirs(st + "/nix/expr")
    open(st + "/nix/expr/value.hh", "w").write("#pragma once\n")
    open(st + "/nixd-config.h", "w").write(
        '#pragma once\n#define NIXD_VERSION "demo"\n'
        '#define NIXD_LIBEXEC "/nonexistent"\n')
    open(st + "/PrimOps.cpp", "w").write("""
#include <nixf/Sema/PrimOpInfo.h>
static nixf::PrimOpInfo P(std::vector<std::string> A) {
  nixf::PrimOpInfo I;
  I.Arity = A.size();
  I.Args = std::move(A);
  I.Internal = false;
  return I;
}
std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {
    {"abort", P({"s"})}, {"import", P({"path"})}, {"map", P({"f", "list"})},
    {"throw", P({"s"})}, {"toString", P({"e"})}, {"__head", P({"list"})}};
""")
    meson = open(REPO + "/nixd/lib/meson.build").read()
    srcs = [REPO + "/nixd/lib/" + s
            for s in dict.fromkeys(re.findall(r"'([\w/.-]+\.cpp)'", meson))
            if not s.endswith("AttrSetProvider.cpp")]
    srcs = [s for s in srcs if os.path.exists(s)]
    srcs.append(REPO + "/nixd/tools/nixd.cpp")
    srcs.append(st + "/PrimOps.cpp")
    objs = [TMP + "/%d.o" % i for i in range(len(srcs))]

    def one(p):
        cxx(["-I" + st, "-c", p[0], "-o", p[1]])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, sorted(zip(srcs, objs),
                                key=lambda p: -os.path.getsize(p[0]))))
    exe = TMP + "/nixd"
    cxx(objs + ["-o", exe] + LIBS)
    return exe


class Server:
    def __init__(self, exe, args=(), worker=None, config=None, env=None,
                 caps=None, stdin=subprocess.PIPE):
        e = dict(os.environ)
        e.update(env or {})
        if worker:
            w = TMP + "/worker"
            open(w, "w").write("#!/bin/sh\nexec python3 %s/%s %s\n" %
                               (HERE, worker, TMP))
            os.chmod(w, 0o755)
            e["NIXD_ATTRSET_EVAL"] = w
        else:
            e["NIXD_ATTRSET_EVAL"] = "/bin/false"
        self.config = config
        self.log = TMP + "/log"
        self.p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=open(self.log, "wb"), env=e)
        self.n = 0
        self.replies = {}
        self.count = {}
        self.notes = []
        self.calls = []
        self.cv = threading.Condition()
        self.wl = threading.Lock()
        self.on_call = None
        threading.Thread(target=self._read, daemon=True).start()
        self.caps = caps

    def raw(self, b):
        with self.wl:
            try:
                self.p.stdin.write(b)
                self.p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass

    def frame(self, m):
        b = json.dumps(m).encode()
        return b"Content-Length: %d\r\n\r\n" % len(b) + b

    def send(self, m):
        m["jsonrpc"] = "2.0"
        self.raw(self.frame(m))

    def notify(self, method, params):
        self.send({"method": method, "params": params})

    def request(self, method, params):
        self.n += 1
        self.send({"id": self.n, "method": method, "params": params})
        return self.n

    def wait(self, i, t=20):
        """The reply, or None."""
        end = time.time() + t
        with self.cv:
            while i not in self.replies:
                r = end - time.time()
                if r <= 0 or not self.cv.wait(r):
                    if i in self.replies:
                        break
                    return None
            return self.replies[i]

    def call(self, method, params, t=20):
        r = self.wait(self.request(method, params), t)
        if r is None:
            fail("no reply to %s within %d s (exit status %s)" %
                 (method, t, self.p.poll()))
        return r

    def until(self, what, t=20):
        end = time.time() + t
        with self.cv:
            while not what(self):
                r = end - time.time()
                if r <= 0:
                    return False
                self.cv.wait(min(r, 0.2))
        return True

    def _read(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                l = f.readline()
                if not l:
                    return
                l = l.strip()
                if not l:
                    break
                if l.lower().startswith(b"content-length:"):
                    n = int(l.split(b":")[1])
            if n is None:
                continue
            try:
                m = json.loads(f.read(n))
            except ValueError:
                fail("the server wrote something that is not JSON")
            with self.cv:
                if "method" in m and "id" in m:
                    self.calls.append(m)
                elif "method" in m:
                    self.notes.append(m)
                else:
                    self.count[m["id"]] = self.count.get(m["id"], 0) + 1
                    self.replies[m["id"]] = m
                self.cv.notify_all()
            if "method" in m and "id" in m:
                if self.on_call and self.on_call(m):
                    continue
                if m["method"] == "workspace/configuration":
                    self.send({"id": m["id"], "result": [self.config]})
                else:
                    self.send({"id": m["id"], "result": None})

    def start(self):
        caps = self.caps
        if caps is None:
            caps = {"workspace": {"configuration": True},
                    "window": {"workDoneProgress": True},
                    "textDocument": {"completion": {"completionItem":
                                                    {"snippetSupport": True}}}}
        r = self.call("initialize", {"processId": os.getpid(),
                                     "rootUri": "file://" + TMP,
                                     "capabilities": caps})
        self.notify("initialized", {})
        return r

    def open(self, name, text, version=1):
        uri = "file://" + TMP + "/" + name
        self.notify("textDocument/didOpen", {"textDocument": {
            "uri": uri, "languageId": "nix", "version": version,
            "text": text}})
        return uri

    def change(self, uri, version, changes):
        self.notify("textDocument/didChange", {
            "textDocument": {"uri": uri, "version": version},
            "contentChanges": changes})

    def close(self, uri):
        self.notify("textDocument/didClose", {"textDocument": {"uri": uri}})

    def at(self, method, uri, line, ch, **kw):
        p = {"textDocument": {"uri": uri},
             "position": {"line": line, "character": ch}}
        p.update(kw)
        return self.call("textDocument/" + method, p)

    def diags(self, uri, version=None):
        return [n["params"] for n in self.notes
                if n["method"] == "textDocument/publishDiagnostics"
                and n["params"]["uri"] == uri
                and (version is None or n["params"].get("version") == version)]

    def stop(self, t=20):
        self.call("shutdown", None)
        self.notify("exit", None)
        return self.join(t)

    def join(self, t=20):
        """Exit status, or None if it does not end."""
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            return None

    def kill(self):
        self.p.kill()
        self.p.wait()

    def stderr(self):
        return open(self.log, errors="replace").read()
