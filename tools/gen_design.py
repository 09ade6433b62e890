#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property from the last run's evidence (EV dir), seeds table, tail.
gen_design.py [EVIDENCE_DIR]   (default: runs `gearsverif all` into a temporary directory)"""
import json, os, sys, glob, subprocess, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
exec(open(here + "/design/notes.py").read())
ev = sys.argv[1] if len(sys.argv) > 1 else None
tmp = None
if not ev:
    tmp = ev = tempfile.mkdtemp()
    subprocess.run([root + "/bin/gearsverif", "all"], env=dict(os.environ, GEARS_EVIDENCE=ev), stdout=subprocess.DEVNULL)
man = json.load(open(root + "/MANIFEST.json"))
tech = {c["property"]: c["technique"] for c in man["checks"]}
seeds = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); m["id"] = os.path.basename(os.path.dirname(f)); seeds.setdefault(m["property"], []).append(m)
caught = {}
try: caught = json.load(open(here + "/seeds/caught.json"))
except OSError: pass
areas = {"C": "Semaphores (concurrent)", "B": "Circuit breaker", "R": "Rate limiters", "S": "Schedulers", "E": "Event bus", "K": "Config store",
         "F": "Configuration loading", "N": "Client construction (confs)", "W": "Tracing (skywalking)", "P": "Keys (util/rsa)", "D": "Helpers (dto, testutil)", "X": "Locks and races, all packages"}
out = [open(here + "/design/head.md").read()]
out.append("## 3. Properties\n\nPer property: the rule the analysis decides, what it is decided over on the current tree, the assumptions, and the planted bugs of `seeded/` it catches.\n")
area = None
for l in open(root + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i not in tech: continue
    if i[0] != area:
        area = i[0]; out.append("### " + areas[area] + "\n")
    d = json.load(open(ev + "/" + i + ".json")); c = d["coverage"]
    rule = c["explanation"].split("Rules: ", 1)[-1]
    out.append("**%s %s.** *%s.*" % (i, p["title"], tech[i].replace("static analysis: ", "")))
    out.append("Rule: " + rule + ".")
    out.append("Analysed: %d functions, %d paths, %d obligations." % (c["functions_analysed"], c["paths"], c["obligations"]))
    if d.get("assumptions"): out.append("Assumes: " + "; ".join(d["assumptions"]) + ".")
    if i in NOTES: out.append("Limits: " + NOTES[i])
    if i in seeds: out.append("Planted: " + ", ".join("`%s`" % s["id"] for s in seeds[i]) + ".")
    out.append("")
tail = open(here + "/design/tail.md").read()
a, b = tail.split("## 6.", 1)
out.append(a)
out.append("## 5. Planted bugs and the checks that report them\n")
out.append("Each is a change to the library that compiles and passes the existing tests, with a demonstration that fails only with it (`seeded/<id>/`). The corpus of `tools/corpus` holds many more changes without demonstrations.\n")
out.append("| Bug | Property | Needs | Reported by |\n|---|---|---|---|")
for i in sorted(seeds):
    for s in seeds[i]:
        out.append("| %s | %s | %s | %s |" % (s["id"], i, s["needs"].replace("|", "/"), ", ".join(caught.get(s["id"], [])) or "nothing"))
out.append("")
out.append("## 6." + b.rstrip("\n") + "\n")
for l in open(root + "/known-findings.txt"):
    if l.startswith("fixed: "):
        _, prop, com, what = l.strip().split(" ", 3)
        out.append("* %s, /repo %s: %s" % (prop.split("=")[1], com, what))
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
if tmp: shutil.rmtree(tmp)
