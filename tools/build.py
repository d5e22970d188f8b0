#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

    build.py TARGET...            (targets: lsp, full)

Objects are cached in /verif/build and reused only when the compiler command
and the *content* of every file the compiler read (system headers excluded)
are unchanged, so the result always reflects /repo's current tree."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GEN = os.path.join(BUILD, "gen")
OBJ = os.path.join(BUILD, "obj")
CXX = "/usr/bin/g++"

INC = [
    "-I" + VERIF + "/stubs",
    "-I" + GEN,
    "-I" + REPO + "/nixd/lspserver/include",
    "-I" + REPO + "/nixd/include",
    "-I" + REPO + "/libnixf/include",
    "-isystem", "/usr/lib/llvm-18/include",
]
BASE = [
    "-std=gnu++20", "-g1", "-fno-pie", "-pthread", "-D_GNU_SOURCE",
    "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
    "-D__STDC_LIMIT_MACROS", "-D_FILE_OFFSET_BITS=64", "-w",
    "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
    "-fno-stack-protector",
]
# Code under test: every memory access, atomic and function entry calls into
# the simulator's runtime (sim/rt.cpp provides the __tsan_* entry points).
REPO_FLAGS = BASE + ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS",
                     "-fno-builtin-memcpy", "-DNIXD_SIM=1"]
SIM_FLAGS = [f for f in BASE if "FILE_OFFSET" not in f] + ["-O2", "-fno-builtin-malloc"]


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def meson_sources(rel):
    """The .cpp files named in REPO/rel/meson.build that exist."""
    text = open(os.path.join(REPO, rel, "meson.build")).read()
    out = []
    for s in re.findall(r"'([\w/.-]+\.cpp)'", text):
        p = os.path.join(REPO, rel, s)
        if os.path.exists(p) and p not in out:
            out.append(p)
    return out


def generate():
    src = REPO + "/libnixf/src"
    os.makedirs(GEN, exist_ok=True)
    jobs = [(src + s, GEN + "/" + os.path.basename(s)[:-3]) for s in (
        "/Basic/DiagnosticEnum.h.py", "/Basic/Diagnostic.cpp.py",
        "/Parse/Tokens.h.py", "/Parse/TokenKinds.inc.py")]
    for script, out in jobs:
        tmp = out + ".tmp"
        subprocess.run([sys.executable, script, tmp], check=True,
                       env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
        if os.path.exists(out) and sha(out) == sha(tmp):
            os.unlink(tmp)
        else:
            os.rename(tmp, out)


def compile_one(job):
    src, obj, flags = job
    cmd = [CXX] + flags + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["key"] == key and all(
                os.path.exists(p) and sha(p) == h for p, h in m["deps"].items()
            ) and m["obj"] == sha(obj):
                return None
        except (ValueError, KeyError, OSError):
            pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stderr)
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = sorted({os.path.normpath(d) for d in deps})
    keep = {d: sha(d) for d in deps
            if d.startswith((REPO + "/", VERIF + "/", BUILD + "/"))}
    json.dump({"key": key, "deps": keep, "obj": sha(obj)}, open(meta, "w"))
    return ""


def objname(src):
    return os.path.join(OBJ, src.strip("/").replace("/", "_") + ".o")


def build(target):
    """Returns the path of the built binary; raises on failure."""
    os.makedirs(OBJ, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    generate()
    jobs = []

    def add(srcs, flags):
        for s in srcs:
            jobs.append((s, objname(s), flags))

    inc = INC + ["-I" + REPO + "/libnixf/src", "-I" + REPO + "/nixd/lib"]
    rf, sf = REPO_FLAGS + inc, SIM_FLAGS + inc
    nixd_flags = rf + ["-Dmain=nixd_main"]
    support = ["AutoCloseFD", "ForkPiped", "StreamProc", "JSON"]
    if target == "full":
        nixf = [s for s in meson_sources("libnixf/src")
                if not s.endswith("PrimOpsInfoGen.cpp")]
        add(nixf, rf)
        add([GEN + "/Diagnostic.cpp"], rf)
        add([VERIF + "/stubs/PrimOpsInfo.cpp"], rf)
        add([s for s in meson_sources("nixd/lib")
             if not s.endswith("Eval/AttrSetProvider.cpp")], rf)
        jobs.append((REPO + "/nixd/tools/nixd.cpp",
                     objname(REPO + "/nixd/tools/nixd.cpp"), nixd_flags))
    else:
        add([s for s in meson_sources("nixd/lib") if "/Support/" in s
             and os.path.basename(s)[:-4] in support], rf)
    add(meson_sources("nixd/lspserver"), rf)
    hdir = VERIF + "/harness"
    names = sorted(f for f in os.listdir(hdir) if f.endswith(".cpp"))
    for f in names:
        if f.startswith("full_") and target != "full":
            continue
        if f.startswith("lsp_") and target != "lsp":
            continue
        # harness subclasses of the code under test are instrumented too
        add([os.path.join(hdir, f)], rf if "_sut" in f else sf)
    add(sorted(os.path.join(VERIF, "sim", f)
               for f in os.listdir(VERIF + "/sim") if f.endswith(".cpp")), sf)
    # COMDAT functions: the linker keeps the first copy, which has to be the
    # instrumented one
    order = [j for j in jobs if j[2] is not sf] + [j for j in jobs if j[2] is sf]
    # slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    errors, n = [], 0
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(compile_one, jobs):
            if r:
                errors.append(r)
            elif r is not None:
                n += 1
    if errors:
        raise RuntimeError("\n".join(errors[:3]))
    out = os.path.join(BUILD, "sim_" + target)
    objs = [j[1] for j in order]
    link = [CXX, "-no-pie", "-pthread", "-o", out + ".tmp"] + objs + [
        "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-ldl", "-rdynamic"]
    key = hashlib.sha256((" ".join(link) + "".join(
        sha(o) for o in objs)).encode()).hexdigest()
    stamp = out + ".key"
    if not (os.path.exists(out) and os.path.exists(stamp)
            and open(stamp).read() == key):
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError(" ".join(link[:6]) + "\n" + r.stderr[-4000:])
        os.rename(out + ".tmp", out)
        open(stamp, "w").write(key)
    lock.close()
    return out


if __name__ == "__main__":
    for t in sys.argv[1:] or ["lsp", "full"]:
        try:
            print(build(t))
        except (RuntimeError, OSError, subprocess.CalledProcessError) as e:
            print("build of %s failed:\n%s" % (t, e), file=sys.stderr)
            sys.exit(2)
