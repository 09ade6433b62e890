#!/usr/bin/env python3
"""Every small change listed by tools/mutants, one at a time: which compile, are reported by no check and
survive the tests of their package? Those are either equivalent or gaps. Usage: mutants.py [-j=N] [-o=OUT] [FILE-SUBSTRING...]"""
import json, os, sys, subprocess, shutil, tempfile, threading, queue
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")
opt = {a[1]: a[3:] for a in sys.argv[1:] if a.startswith("-")}
want = [a for a in sys.argv[1:] if not a.startswith("-")]
base = tempfile.mkdtemp(prefix="mutant")
subprocess.run(["go", "build", "-o", base + "/mutants", "."], cwd=here + "/mutants", env=dict(ENV, GOFLAGS="-mod=mod"), check=True)
shutil.copy(root + "/bin/gearsverif", base + "/gearsverif")
shutil.copytree("/repo", base + "/r0", ignore=shutil.ignore_patterns(".git"))
muts = [json.loads(l) for l in subprocess.run([base + "/mutants", base + "/r0"], env=ENV, capture_output=True, text=True).stdout.splitlines()]
muts = [m for m in muts if not want or any(w in m["file"] for w in want)]
q = queue.Queue()
for i, m in enumerate(muts): q.put((i, m))
out = open(opt.get("o", "/tmp/mutants.out"), "w")
lock = threading.Lock(); stat = {}
def work(k):
    r = base + "/w%d" % k
    shutil.copytree(base + "/r0", r)
    os.mkdir(r + "/.ev")
    shutil.copy(r + "/go.mod", base + "/m%d.mod" % k); shutil.copy(r + "/go.sum", base + "/m%d.sum" % k)
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        f = r + "/" + m["file"]
        src = open(f, "rb").read()
        open(f, "wb").write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])
        try:
            c = subprocess.run(["go", "build", "-modfile=" + base + "/m%d.mod" % k, "./" + os.path.dirname(m["file"])], cwd=r, env=dict(ENV, GOFLAGS="-mod=mod"), capture_output=True, text=True)
            if c.returncode: st, ids = "NOCOMPILE", ""
            else:
                try:
                    o = subprocess.run([base + "/gearsverif", "all"], env=dict(os.environ, GEARS_DIR=r, GEARS_EVIDENCE=r + "/.ev", GEARS_VERIF=root), capture_output=True, text=True, timeout=600).stdout
                except subprocess.TimeoutExpired: o = "VIOLATION property=TIMEOUT "
                ids = " ".join(l.split("property=")[1].split()[0] for l in o.splitlines() if l.startswith("VIOLATION"))
                st = "caught" if ids else "MISSED"
                if st == "MISSED":
                    try:
                        t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-modfile=" + base + "/m%d.mod" % k, "./" + os.path.dirname(m["file"]) + "/..."], cwd=r, env=dict(ENV, GOFLAGS="-mod=mod"), capture_output=True, text=True, timeout=90)
                        bad = [l for l in t.stdout.splitlines() if l.startswith("--- FAIL") or l.startswith("panic")]
                        if bad or "[build failed]" in t.stdout: st = "tests"; ids = " ".join(bad)[:80]
                    except subprocess.TimeoutExpired: st = "tests"; ids = "timeout"
        finally:
            open(f, "wb").write(src)
        with lock:
            stat[st] = stat.get(st, 0) + 1
            out.write("%d %s %s:%d %s [%s] %s -> %s\n" % (i, st, m["file"], m["line"], m["what"], ids, src[m["from"]:m["to"]].decode()[:90].replace("\n", "\\n"), m["text"][:90].replace("\n", "\\n")))
            out.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt.get("j", 8)))]
for t in ts: t.start()
for t in ts: t.join()
print(stat)
shutil.rmtree(base)
