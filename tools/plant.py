#!/usr/bin/env python3
"""plant.py DIR...: confirms planted bugs in a scratch copy of /repo.
plant.py --new SPEC.py: makes /verif/seeded/<id> from a spec first.
plant.py --check DIR...: only runs the property's check against the bug.
A spec sets id, prop, needs, breaks, edits=[(file, old, new)], files={name: text}."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True,
                          text=True, **kw)

def copy():
    if not os.path.exists(WT):
        sh(["cp", "-a", "/repo", WT])
        shutil.rmtree(WT + "/_build", ignore_errors=True)
    sh(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    sh("git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -qfd" % (WT, WT))
    os.makedirs("/tmp/vpwt", exist_ok=True)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", WT).replace(
            "/opt/vp/build.sh", "/tmp/vpwt/build.sh")
        open("/tmp/vpwt/" + f, "w").write(s)

def reset():
    sh("git -C %s checkout -q -f . && git -C %s clean -qfd" % (WT, WT))

def tests():
    r = sh(["bash", "/tmp/vpwt/test.sh", "/tmp/vpwt/out.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    got = json.load(open("/tmp/vpwt/out.json"))
    miss = want - set(got["passed"])
    if miss:
        print(r.stdout[-1500:], r.stderr[-1500:], sorted(miss)[:5])
    return not miss

def demo(d):
    # as at the end: elsewhere, without diff and meta
    t = "/tmp/vpwt/demo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = sh(["bash", t + "/demo.sh"], cwd=WT, timeout=280)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def check(d, secs=None, seed="1"):
    m = json.load(open(d + "/meta.json"))
    env = {**os.environ, "VERIF_REPO": WT, "VERIF_BUILD": "/tmp/vpwt/build",
           "VERIF_EVIDENCE": "/tmp/vpwt/evidence", "VERIF_SEED": seed}
    if secs:
        env["VERIF_SECS"] = str(secs)
    r = sh(["python3", V + "/run.py", m["property"]], env=env)
    out = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "class" in l or "FINDING" in l]
    print("  check %s: exit %d %s" % (m["property"], r.returncode, "; ".join(out)[:500] or (r.stdout + r.stderr)[-300:]))
    return r.returncode == 1

def new(spec):
    s = {}
    exec(open(spec).read(), s)
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, a, b in s["edits"]:
        t = open(WT + "/" + f).read()
        if t.count(a) != 1:
            sys.exit("%s: %d matches of %r" % (f, t.count(a), a))
        open(WT + "/" + f, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh(["git", "-C", WT, "diff"]).stdout)
    reset()
    for n, t in s["files"].items():
        open(d + "/" + n, "w").write(t)
    kit = V + "/tools/demokit/"
    kits = ["kit.py"]
    if any("wkit" in t for t in s["files"].values()):
        kits.append("wkit.py")
    for n in kits:
        shutil.copy(kit + n, d)
    if "demo.sh" not in s["files"]:
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    return d

def main():
    a = sys.argv[1:]
    only = a[:1] == ["--check"]
    mk = a[:1] == ["--new"]
    if only or mk:
        a = a[1:]
    copy()
    for x in a:
        try:
            d = new(x) if mk else x
        except SystemExit as e:
            print(x, e); continue
        if not os.path.isdir(d):
            d = V + "/seeded/" + d
        print(os.path.basename(d))
        if not only:
            t = sh(["bash", "/tmp/vpwt/build.sh"])
            print("  clean demo:", demo(d))
        r = sh(["git", "-C", WT, "apply", os.path.abspath(d + "/patch.diff")])
        if r.returncode:
            print("  does not apply", r.stderr); continue
        if not only:
            print("  tests pass:", tests())
            print("  demo:", demo(d))
        check(d)
        reset()
main()
