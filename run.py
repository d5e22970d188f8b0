#!/usr/bin/env python3
"""run.py PROPERTY: decides one property by simulation on /repo's current tree.

Exit 0: held on every simulated run. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: no verdict."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build  # noqa: E402

LSP = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"}
QUICK_SECS = {"default": 40, "C11": 60, "C14": 60, "C20": 60, "C31": 60}
THOROUGH_SECS = 600
SHRINK_SECS = int(os.environ.get("VERIF_SHRINK", "45"))

REAL = {
    "lsp": "nixd/lspserver (framing, dispatch, server, drafts, logging), "
           "nixd/lib/Support (process launching, stream processes), "
           "libstdc++, LLVM Support",
    "full": "the whole nixd process: nixd/tools/nixd.cpp main, nixd/lib "
            "(Controller, Eval client, CommandLine, Protocol, Support), "
            "nixd/lspserver, libnixf, boost::asio thread pool, libstdc++, "
            "LLVM Support",
}
STUB = {
    "lsp": "kernel: threads' scheduling, mutexes, clock, pipes, poll, fork, "
           "exec, wait, kill; the peer at the other end of the pipes; child "
           "programs",
    "full": "kernel: threads' scheduling, mutexes, condition variables, clock, "
            "pipes, poll, fork, exec, wait, kill, stat/readlink; the editor; "
            "the nixd-attrset-eval workers (scripted, Nix itself is not "
            "available); the external formatter; the file system; libnixf's "
            "generated table of builtins (a small one)",
}
RULE = (
    "One case is one simulated run: a plan (workload operations, scheduling "
    "strategy, fault rates) generated from its seed, then every thread "
    "switch, delay, transfer size and fault decided by the seed's random "
    "stream. Non-trivial: the run's event hash (every I/O event, message, "
    "fault and switch in order) was not seen before in this check and the run "
    "had more than two forced thread switches or at least one injected fault.")


def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN-FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)",
                         line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    secs = THOROUGH_SECS if tier == "thorough" else QUICK_SECS.get(
        prop, QUICK_SECS["default"])
    secs = float(os.environ.get("VERIF_SECS", secs))
    target = "lsp" if prop in LSP else "full"
    t0 = time.time()
    try:
        binary = build.build(target)
    except Exception as e:  # noqa: BLE001
        print("error: build failed: %s" % e, file=sys.stderr)
        return 2
    tbuild = time.time() - t0
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ev, exist_ok=True)
    work = os.path.join(build.BUILD, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    base = (seed * 1000003) % (1 << 40) * 1000000
    print("property %s, tier %s, VERIF_SEED %d, first simulation seed %d, "
          "%d processes, %.0f s (build %.1f s)" %
          (prop, tier, seed, base, jobs, secs, tbuild), flush=True)
    known = [k for k in known_findings() if k[0] == prop]
    procs = []
    t1 = time.time()
    for i in range(jobs):
        out = os.path.join(work, "out%d.json" % i)
        procs.append((out, subprocess.Popen(
            [binary, "batch", prop, str(base + i), str(jobs), "100000000",
             str(secs), out, work], stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE, text=True)))
    res, errors = [], []
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append("a batch did not end")
            continue
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            errors.append("batch failed (%s): %s" % (p.returncode, err[-500:]))
            continue
        if r["error"]:
            errors.append(r["error"])
        res.append(r)
    wall = time.time() - t1
    viol = sorted((v for r in res for v in r["violations"]),
                  key=lambda v: (v["steps"], v["seed"]))
    tot = lambda k: sum(r[k] for r in res)  # noqa: E731

    def merge(k):
        d = {}
        for r in res:
            for n, c in r[k].items():
                d[n] = d.get(n, 0) + c
        return dict(sorted(d.items()))
    hashes = set(h for r in res for h in r["hashes"])
    scheds = set(h for r in res for h in r["scheds"])
    runs = tot("runs")
    # confirm, minimise and replay violations
    real, seen_known, unconfirmed = [], {}, []
    done, tries = set(), {}
    t2 = time.time()
    for v in viol:
        if v["class"] in done or (real and time.time() - t2 > 100):
            continue
        k = next((k for k in known if re.fullmatch(k[1], v["class"]) and
                  re.search(k[2], v["message"], re.S)), None)
        if k:
            seen_known[k] = v
            continue
        if tries.get(v["class"], 0) >= 3:
            continue
        tries[v["class"]] = tries.get(v["class"], 0) + 1
        small = os.path.join(ev, "%s-%d.replay" % (prop, v["seed"]))
        r = subprocess.run([binary, "shrink", v["plan"], small,
                            str(SHRINK_SECS)], capture_output=True, text=True)
        if r.returncode != 0:
            shutil.copy(v["plan"], small)
        hs = []
        for _ in range(2):
            r = subprocess.run([binary, "replay", small], capture_output=True,
                               text=True)
            try:
                j = json.loads(r.stdout.strip().splitlines()[-1])
            except (ValueError, IndexError):
                j = {}
            hs.append((j.get("violation"), j.get("class"), j.get("hash"),
                       j.get("message")))
        if hs[0] == hs[1] and hs[0][0] and hs[0][1] == v["class"]:
            real.append((v, small, hs[0][3]))
            done.add(v["class"])
        else:
            unconfirmed.append("violation of seed %d (%s) did not replay: %s" %
                               (v["seed"], v["class"], hs))
        if len(real) >= 3:
            break
    samples = [s for r in res for s in r["samples"]][:4]
    for v, path, msg in real:
        samples.append("VIOLATION seed %d %s: %s (replay %s)" %
                       (v["seed"], v["class"], msg, path))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": tot("nontrivial"),
            "rule": RULE,
            "samples": samples or ["none"],
            "first_simulation_seed": base,
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_seconds": round(tot("simTime"), 1),
            "scheduling_steps": tot("steps"),
            "thread_switches": tot("switches"),
            "instrumented_memory_accesses": tot("accesses"),
            "distinct_event_histories": len(hashes),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure":
                "hash of the sequence of (running thread or actor, place) at "
                "every scheduling step",
            "faults_fired": merge("faults"),
            "runs_in_which_fault_fired": merge("runsWithFault"),
            "probes_reached": merge("probes"),
            "determinism_checks": tot("detChecks"),
            "determinism_failures": tot("detBad"),
            "real_components": REAL[target],
            "stubbed_components": STUB[target],
            "processes": jobs,
            "build_s": round(tbuild, 1),
        },
        "assumptions": [
            "a clean batch is evidence, not proof: schedules and faults are "
            "sampled",
            "memory accesses outside the instrumented sources (LLVM and "
            "libstdc++ shared libraries) are not checked for races",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(real),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%d runs, %d distinct schedules, %.0f simulated s, %d determinism "
          "checks, %.1f s" % (runs, len(scheds), tot("simTime"),
                              tot("detChecks"), time.time() - t0))
    for r in res:
        if r.get("detNote"):
            print("note: " + r["detNote"])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for v, path, msg in real:
        print("seed %d: %s: %s" % (v["seed"], v["class"], msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if real:
        return 1
    if errors or unconfirmed or not runs:
        for e in errors + unconfirmed:
            print("error: %s" % e, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
