#!/usr/bin/env python3
"""Development corpus runner: applies each textual change of tools/corpus/*.py to a scratch copy of
/repo and runs the checks there. M(props, file, old, new): every listed check must report it.
B(file, old, new): no check may report it. Usage: mutate.py [-k substring] [-b] [-m]"""
import os, sys, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
items = []
def M(props, file, old, new, n=1): items.append(("M", props.split(), [(file, old, new)], cur[0]))
def MM(props, *edits): items.append(("M", props.split(), list(edits), cur[0]))
def B(file, old, new): items.append(("B", [], [(file, old, new)], cur[0]))
def BB(*edits): items.append(("B", [], list(edits), cur[0]))
cur = [""]
for f in sorted(glob.glob(here + "/corpus/*.py")):
    cur[0] = os.path.basename(f)[:-3]
    exec(compile(open(f).read(), f, "exec"))
args = sys.argv[1:]
k = args[args.index("-k") + 1] if "-k" in args else ""
def build_env(d):
    e = dict(os.environ, GEARS_DIR=d, GEARS_EVIDENCE=d + "/.ev", GEARS_VERIF=root)
    return e
def one(i_item):
    i, (kind, props, edits, src) = i_item
    name = f"{src}#{i}"
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = d + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        os.mkdir(r + "/.ev")
        for file, old, new in edits:
            p = r + "/" + file
            s = open(p).read() if os.path.exists(p) else ""
            if old == "":
                s += new
            elif s.count(old) < 1:
                return name, "STALE", f"{file}: {old[:60]!r}"
            else:
                s = s.replace(old, new, 1)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(s)
        out = subprocess.run([root + "/bin/gearsverif"] + (props if kind == "M" else ["all"]), env=build_env(r), capture_output=True, text=True, timeout=600)
        o = out.stdout
        if "type checking failed" in o:
            return name, "NOCOMPILE", o[:400]
        if kind == "M":
            missed = [p for p in props if f"VIOLATION property={p} " not in o]
            if missed:
                return name, "MISSED", " ".join(missed) + " " + edits[0][0] + ": " + edits[0][2][:100].replace("\n", "\\n")
            if "undecided" in o or "analyser-panic" in o:
                return name, "WEAK", o[:500]
            return name, "ok", ""
        if "VIOLATION" in o or out.returncode != 0:
            return name, "FALSE", "\n".join(l for l in o.splitlines() if not l.startswith("ok "))[:1500]
        return name, "ok", ""
    finally:
        shutil.rmtree(d)
sel = [(i, it) for i, it in enumerate(items) if (k in it[3] or k in " ".join(it[1])) and ("-b" not in args or it[0] == "B") and ("-m" not in args or it[0] == "M")]
n = 0
with ThreadPoolExecutor(8) as ex:
    for name, st, msg in ex.map(one, sel):
        if st == "ok": n += 1
        else: print(name, st, msg, flush=True)
print(n, "of", len(sel), "as expected")
