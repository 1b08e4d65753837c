#!/usr/bin/env python3
"""writes MANIFEST.json from tools/components.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from components import PROPERTIES
NA = {
    "C20": "pure single-threaded value semantics without scheduling, time, I/O, randomness or failure behaviour; exhausting inputs of a pure function is not simulation",
    "C21": "pure single-threaded symbolic rewriting; nothing a scheduler, clock or fault could influence (its behaviour under failing allocations is part of C09)",
    "C22": "pure index arithmetic; no nondeterminism to simulate (the parts the concurrent tables rely on are exercised in C03, C04 and C11)",
    "C23": "pure single-threaded computation on value types; no schedule, fault or history it could depend on",
    "C24": "pure single-threaded construction of a matrix; exercised through the trajectories of C11, but not decided by simulation",
    "C25": "pure single-threaded symbolic rewriting without any seam for a simulator",
    "C26": "pure value arithmetic of an iterator without concurrency, I/O or failures",
}
TECH = "deterministic simulation: seeded search over {what}, checked against {oracle}"
NOTE = ("Exploration by seeded search: no violation in the runs the evidence counts, not a proof. Every run is one exactly "
        "repeatable seed (re-checked on a sample of runs); violations are minimised and replayed in a fresh process before "
        "they are reported. Trusted: the simulator and stand-ins in /verif/sim and /verif/shim, the compiler's instrumentation, "
        "sequentially consistent memory. {extra}")
checks = []
for p, d in sorted(PROPERTIES.items()):
    c = {"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
         "technique": TECH.format(what=d["what"], oracle=d["oracle"]), "level": "exploration",
         "level_note": NOTE.format(extra=d.get("note", "")).strip()}
    checks.append(c)
na = []
for l in open(ROOT + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i not in PROPERTIES:
        na.append({"property": i, "reason": NA.get(i, "check under construction in this session")})
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: OpenMP, threads, heap, files, clocks and environment are taken over at link time "
              "(interposed symbols and compiler instrumentation). fix: commits in /repo are listed in known-findings.txt."}
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
