#!/usr/bin/env python3
"""Development helper: behaviour-preserving edits (tools/neutral/*.py) on which the checks must stay quiet.
usage: neutraltest.py [--checks all|own|C01,..] [--test] [ID...]"""
import glob, os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = "own"; test = False
while args and args[0].startswith("--"):
    if args[0] == "--checks":
        checks = args[1]; args = args[2:]
    elif args[0] == "--test":
        test = True; args = args[1:]
items = []
def neutral(id, props, edits):
    items.append((id, props, edits))
for f in sorted(glob.glob(os.path.join(V, "tools/neutral/*.py"))):
    exec(open(f).read())
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
base = os.environ.get("BASE", "/tmp/neutraltest")
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
R = base + "/repo"
for id, props, edits in items:
    if args and id not in args:
        continue
    shutil.rmtree(R, ignore_errors=True)
    sh("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (R, R))
    bad = False
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT does not match exactly once:", f, repr(a[:80]), s.count(a)); bad = True; break
        open(p, "w").write(s.replace(a, b))
    if bad:
        continue
    out = []
    if test:
        p = sh("cargo +stable test --workspace --all-features --offline --lib --bins 2>&1 | grep '^test result\\|FAILED\\|^error'", cwd=R, env=dict(os.environ, CARGO_TARGET_DIR=base + "/target"))
        out.append("tests " + ("ok" if "FAILED" not in p.stdout and "error" not in p.stdout and "ok." in p.stdout else "!!! " + p.stdout[-300:]))
    cs = claimed if checks == "all" else [x for x in props if x in claimed] if checks == "own" else checks.split(",")
    for c in cs:
        p = sh("%s/check %s" % (V, c), env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE="/tmp/evn"))
        u = [l for l in p.stdout.splitlines() if l.startswith("UNDECIDED")]
        if p.returncode or "VIOLATION" in p.stdout:
            out.append("!!! %s ALARM rc=%d\n%s" % (c, p.returncode, p.stdout[-900:]))
        elif u:
            out.append("%s quiet, undecided: %s" % (c, " | ".join(x[:160] for x in u[:3])))
        else:
            out.append("%s ok" % c)
    print(id, "; ".join(out), flush=True)
