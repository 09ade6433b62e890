#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a seed definition in tools/seeds/*.py, after confirming it in a scratch copy of /repo.

A seed file calls S(id, prop, pkg, [(file, old, new)...], test_source, needs, breaks, race=False).
plant.py [-k substr] [-c]   (-c: only report which checks catch each seed)
"""
import json, os, re, shutil, subprocess, sys, tempfile, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
seeds = []
def S(id, prop, pkg, edits, test, needs, breaks, race=False):
    seeds.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks, race=race))
for f in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
k = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
force = "-f" in sys.argv
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package, laid over the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
unset INTEGRATION_TEST
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/gears.mod"; cp "$repo/go.sum" "$tmp/gears.sum"
export GOFLAGS="-mod=mod -modfile=$tmp/gears.mod"
echo "{\\"Replace\\": {\\"$repo/@PKG@/zz_seed_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/o.json"
go test -vet=off -count=1 -timeout 120s@RACE@ -overlay "$tmp/o.json" -run '^TestSeedDemo$' "./@PKG@"
'''
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base["stable"])
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on")
env.pop("INTEGRATION_TEST", None)
ids = [s["id"] for s in seeds]; assert len(set(ids)) == len(ids), ids
def at_base(w, diff):
    """Some hunk replaces an original line, or inserts between two of them."""
    u = subprocess.check_output(["git", "-C", w, "diff", "-U0"], text=True)
    f = None
    for l in u.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            at, n = int(m[1]), int(m[2] or 1)
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "5851074..HEAD", f], text=True).splitlines()
            old = [bl[x - 1].startswith("^") for x in (range(at, at + n) if n else (at, at + 1)) if 1 <= x <= len(bl)]
            if any(old) if n else all(old): return True
    return False
claimed = [c["property"] for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
bad = 0
for s in seeds:
    if k not in s["id"] and k != s["prop"]: continue
    d = root + "/seeded/" + s["id"]
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        w = tmp + "/w"
        subprocess.check_call(["cp", "-a", "/repo", w])
        shutil.rmtree(w + "/.git/worktrees", ignore_errors=True)
        for f, a, b in s["edits"]:
            p = w + "/" + f; t = open(p).read()
            if t.count(a) != 1: print(s["id"], "EDIT", f, t.count(a), "matches"); raise SystemExit(1)
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        if not at_base(w, diff): print(s["id"], "CHANGES NO ORIGINAL LINE"); bad = 1
        if "-c" not in sys.argv and not (os.path.exists(d + "/patch.diff") and open(d + "/patch.diff").read() == diff and os.path.exists(d + "/demo_test.go") and open(d + "/demo_test.go").read() == s["test"] and not force):
            shutil.copy(w + "/go.mod", tmp + "/gears.mod"); shutil.copy(w + "/go.sum", tmp + "/gears.sum")
            e = dict(env, GOFLAGS="-mod=mod -modfile=" + tmp + "/gears.mod")
            if subprocess.run(["go", "build", "./..."], cwd=w, env=e).returncode: print(s["id"], "DOES NOT BUILD"); bad = 1; continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo_test.go", "w").write(s["test"])
            open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", " -race" if s["race"] else "")); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            for i in range(3):
                c = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
                if c.returncode: print(s["id"], "DEMO FAILS ON CLEAN TREE", c.stdout[-1500:], c.stderr[-1500:]); bad = 1; break
                c = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
                if not c.returncode or "setup failed" in c.stdout or "build failed" in c.stdout: print(s["id"], "DEMO PASSES WITH PATCH", c.stdout[-1500:]); bad = 1; break
            pk = sorted(set(os.path.dirname(f) for f, _, _ in s["edits"]))
            t = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-p", "1", "./..."], cwd=w, env=e, capture_output=True, text=True)
            failed = set()
            for l in t.stdout.splitlines():
                try: ev = json.loads(l)
                except ValueError: continue
                if ev.get("Action") == "fail" and ev.get("Test"): failed.add(ev["Package"] + "/" + ev["Test"])
            hit = sorted(failed & stable)
            if hit: print(s["id"], "TESTS FAIL", hit); bad = 1
        ev = dict(os.environ, GEARS_DIR=w, GEARS_EVIDENCE=tmp)
        out = subprocess.run([root + "/bin/gearsverif", "all"], env=ev, capture_output=True, text=True)
        caught = sorted(set(re.findall(r"^VIOLATION property=(\S+)", out.stdout, re.M)))
        cf = here + "/seeds/caught.json"; cj = json.load(open(cf)) if os.path.exists(cf) else {}
        cj[s["id"]] = caught; json.dump(cj, open(cf, "w"), indent=1, sort_keys=True)
        print(s["id"], s["prop"], "caught" if s["prop"] in caught else ("NOT CAUGHT" if s["prop"] in claimed else "unclaimed"), caught, flush=True)
    finally:
        shutil.rmtree(tmp)
sys.exit(bad)
