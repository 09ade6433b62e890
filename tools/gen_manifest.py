#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks the analyzer implements."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
have = set(subprocess.check_output([root + "/bin/gearsverif", "list"], text=True).split())
TECH = {
 "X": "inter-procedural lockset and lock-order analysis over SSA paths of every entry point, goroutine and timer body",
 "C": "critical-section relation analysis over SSA paths (value numbering, interval facts)",
 "B": "path-sensitive call typestate and critical-section relation analysis over SSA",
 "R": "critical-section relation analysis over SSA paths with linear facts",
 "S": "path-sensitive typestate and channel-protocol analysis over SSA, goroutine bodies included",
 "E": "path-sensitive channel-ownership and protocol analysis over SSA, goroutine bodies included",
 "K": "path-sensitive effect and value-flow analysis over SSA",
 "F": "path-sensitive value-flow and call-order analysis over SSA, with loop summaries",
 "N": "value-flow (taint and mapping) and path-dominance analysis over SSA",
 "W": "path-sensitive typestate analysis over SSA",
 "D": "path-sensitive effect and value-flow analysis over SSA",
 "P": "path-sensitive panic-site and value-flow analysis over SSA",
}
SPECIAL = {
 "X04": "loop-iteration effect analysis over SSA paths",
 "X05": "panic-site analysis over SSA paths of every entry point, goroutine and callback, with inferred object invariants",
 "X06": "effect analysis over SSA paths: ownership of every address written",
 "R07": "path enumeration over the parsed syntax tree of the embedded Lua script, with per-path effect rules",
}
NA = {
 "T01": "real elapsed time and scheduler latency are runtime quantities; no static argument bounds them",
 "T03": "a long-run rate depends on the real request arrival times; the static part (issue rule) is R05",
 "T04": "fairness depends on the Go runtime's scheduler and semaphore queues, which the source of this library does not determine",
}
NOTE = ("Every path of the current source is enumerated (loops are summarised by forgetting what they may change), so a pass covers all inputs and "
        "schedules the rule quantifies over. Trusted: the analyzer, its models of library calls, 64-bit signed arithmetic not overflowing, Go's memory model.")
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have:
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh " + i,
                       "technique": "static analysis: " + SPECIAL.get(i, TECH[i[0]]), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks read its source only."}, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
