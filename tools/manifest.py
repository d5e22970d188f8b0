#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C%02d" % i for i in list(range(1, 21)) + [30, 31]]
NOT = {
 "C21": "a pure function of its input: parsing has no schedule, clock, I/O or fault for a simulator to decide",
 "C22": "a pure function of its input: ranges depend on the text alone",
 "C23": "a pure function of its input: name resolution depends on the tree alone",
 "C24": "a pure function of its input: edits depend on the text and the cursor alone",
 "C25": "a pure function of its input: no schedule, clock, I/O or fault",
 "C26": "a pure function of its input: no schedule, clock, I/O or fault",
 "C27": "a pure function of its input: no schedule, clock, I/O or fault",
 "C28": "decided once from the command line before any thread, timer or peer exists",
 "C29": "needs the Nix evaluator libraries, which are not installed: the worker cannot be built here",
}
ALL = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
for p in ALL:
    if p not in CLAIMED and p not in NOT:
        NOT[p] = "not claimed yet: the check is under construction"
m = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py lsp full",
 "checks": [{
   "property": p,
   "quick_cmd": "python3 run.py " + p,
   "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
   "technique": "deterministic simulation with fault injection (seeded schedule and fault search over the real code, race/use-after-free/deadlock oracles, minimised replay)",
   "level": "exploration",
   "level_note": "Seeded search over interleavings, delays and faults of the real code compiled with the simulator's hooks; every failure replays from its file. Samples the space, does not exhaust it. Trusts the simulated kernel, peers and oracles in sim/ and harness/.",
 } for p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NOT[p]} for p in ALL if p in NOT],
}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
