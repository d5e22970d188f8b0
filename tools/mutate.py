#!/usr/bin/env python3
"""mutate.py MUTANTS.py [NAME...]: runs each mutant's property check against it
in a scratch copy. MUTANTS.py sets M = [(name, prop, [(file, old, new), ...])].
Used to find what the checks miss; the confirmed ones are in seeded/."""
import os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/mt"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True,
                          text=True, **kw)

def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    if not os.path.exists(WT):
        sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    sh("git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -qfd" % (WT, WT))
    for name, prop, edits in s["M"]:
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        bad = None
        for f, a, b in edits:
            t = open(WT + "/" + f).read()
            if t.count(a) != 1:
                bad = "%s: %d matches of %r" % (f, t.count(a), a[:60])
                break
            open(WT + "/" + f, "w").write(t.replace(a, b))
        if not bad:
            env = {**os.environ, "VERIF_REPO": WT, "VERIF_BUILD": "/tmp/mtb",
                   "VERIF_EVIDENCE": "/tmp/mtb/evidence"}
            env.setdefault("VERIF_SEED", "1")
            t0 = time.time()
            for p in prop.split("+"):
                r = sh(["python3", V + "/run.py", p], env=env)
                out = [l for l in r.stdout.splitlines() if "class" in l or "FINDING" in l]
                print("%s %s %s %.0fs %s" % (
                    {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), name, p,
                    time.time() - t0, "; ".join(out)[:200] or (r.stdout + r.stderr)[-300:]), flush=True)
        else:
            print("BAD", name, bad, flush=True)
        sh("git -C %s checkout -q -f . && git -C %s clean -qfd" % (WT, WT))
main()
