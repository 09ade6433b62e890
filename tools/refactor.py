#!/usr/bin/env python3
"""Applies the mechanical refactorings of tools/refactor to scratch copies of /repo and runs every check
there: no check may report anything. Usage: refactor.py [-t] [-s] [NAME...]
-t: also run the repository's tests on the result; -s: one run per site instead of one for all sites;
-c=N: N random chains of two to four of them (seed -r=S), each at all or at some random sites."""
import os, random, sys, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")
BIN = "/tmp/refactor.bin"
subprocess.run(["go", "build", "-o", BIN, "."], cwd=here + "/refactor", env=dict(ENV, GOFLAGS="-mod=mod"), check=True)
INL = "/tmp/inl.bin"
if not os.path.exists(INL) and not os.system("ls /root/go/pkg/mod/golang.org/x/tools@v0.52.0/internal/refactor/inline >/dev/null 2>&1"):
    x = tempfile.mkdtemp(prefix="inl")
    subprocess.run("cp -a /root/go/pkg/mod/golang.org/x/tools@v0.52.0/. %s && chmod -R u+w %s && mkdir -p %s/cmd/inl" % (x, x, x), shell=True, check=True)
    shutil.copy(here + "/refactor/inliner/main.go.txt", x + "/cmd/inl/main.go")
    shutil.copy(here + "/refactor/go.sum", x + "/go.sum")
    open(x + "/go.mod", "w").write("module golang.org/x/tools\n\ngo 1.26.0\n\nrequire (\n\tgolang.org/x/mod v0.42.0\n\tgolang.org/x/sync v0.24.0\n)\n")
    subprocess.run(["go", "build", "-o", INL, "./cmd/inl"], cwd=x, env=dict(ENV, GOFLAGS="-mod=mod"), check=True)
    shutil.rmtree(x)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
tests, sites = "-t" in sys.argv, "-s" in sys.argv
names = args or subprocess.run([BIN, "-list"], capture_output=True, text=True).stdout.split()
def one(job):
    name, site = job
    chain = name.split("+")
    d = tempfile.mkdtemp(prefix="ref")
    try:
        r = d + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        os.mkdir(r + "/.ev")
        for step in chain:
            nm, _, at = step.partition("@")
            at = at or ("" if site is None else str(site))
            out = subprocess.run(([INL, r] if nm == "inline" else [BIN, r, nm]) + ([at] if at else []), env=ENV, capture_output=True, text=True)
            n = out.stdout.split()
            if out.returncode != 0 or len(n) != 2:
                return job, 0, "none" if "does not compile" in out.stdout and len(chain) > 1 else "BROKEN", nm + " " + (out.stdout + out.stderr)[:600]
        if n[1] == "0":
            return job, int(n[0]), "none", ""
        chk = subprocess.run([root + "/bin/gearsverif", "all"], env=dict(os.environ, GEARS_DIR=r, GEARS_EVIDENCE=r + "/.ev", GEARS_VERIF=root), capture_output=True, text=True)
        o = chk.stdout
        if "type checking failed" in o:
            return job, int(n[0]), "NOCOMPILE", o[:600]
        st, msg = "ok", ""
        if "VIOLATION" in o or chk.returncode != 0:
            ids = " ".join(l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION"))
            st, msg = "FALSE", ids + "\n" + "\n".join("    " + l[:300] for l in o.splitlines() if not l.startswith("ok ") and not l.startswith("VIOLATION"))
        if tests:
            shutil.copy(r + "/go.mod", d + "/gears.mod"); shutil.copy(r + "/go.sum", d + "/gears.sum")
            t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-p", "1", "./..."], cwd=r, env=dict(ENV, GOFLAGS="-mod=mod -modfile=" + d + "/gears.mod"), capture_output=True, text=True)
            bad = [l for l in t.stdout.splitlines() if l.startswith("--- FAIL") or l.startswith("FAIL")]
            if bad:
                msg += "\n    TESTS " + " ".join(bad)[:300]
        return job, int(n[0]), st, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
jobs = []
opt = {a[1]: int(a[3:]) for a in sys.argv[1:] if a[:3] in ("-c=", "-r=")}
if "c" in opt:
    rnd = random.Random(opt.get("r", 1))
    for _ in range(opt["c"]):
        jobs.append(("+".join(n + ("" if rnd.random() < .3 else "@%%%d" % rnd.randrange(1, 10**6)) for n in rnd.sample(names + ["inline"] * 6, rnd.randint(2, 4))), None))
elif sites:
    for n in names:
        (_, tot, _, _) = one((n, 10**9))
        jobs += [(n, i) for i in range(tot)]
else:
    jobs = [(n, None) for n in names]
ok = 0
with ThreadPoolExecutor(2 if tests else 8) as ex:
    for (name, site), n, st, msg in ex.map(one, jobs):
        ok += st in ("ok", "none")
        if st != "ok" or msg or not sites:
            print(name if site is None else f"{name}@{site}", f"({n} sites)" if site is None else "", st, msg, flush=True)
print(ok, "of", len(jobs), "quiet")
