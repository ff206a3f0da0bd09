#!/usr/bin/env python3
"""Development helper: confirm planted bugs in scratch copies of /repo and see which checks catch them.
usage: seedtest.py [--checks C01,C02|own|all] ID...   (no ID: all of them)"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
checks = "own"; confirm = True
if args and args[0] == "--noconfirm":
    confirm = False; args = args[1:]
if args and args[0] == "--checks":
    checks = args[1]; args = args[2:]
ids = args or sorted(os.listdir(S))
base = os.environ.get("BASE", "/tmp/seedtest")
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    R = os.path.join(base, "repo")
    shutil.rmtree(R, ignore_errors=True)
    sh("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (R, R))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=base + "/target")
    msg = []
    if confirm:
        dd = os.path.join(base, "demo"); shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
        p = sh("bash %s/demo.sh" % dd, cwd=R, env=dict(os.environ))
        msg.append("demo clean rc=%d%s" % (p.returncode, "" if p.returncode == 0 else " !!! " + p.stdout[-600:]))
    p = sh("git apply -p1 %s/patch.diff" % d, cwd=R)
    if p.returncode:
        print(i, "PATCH FAILS", p.stdout); continue
    if confirm:
        p = sh("bash %s/demo.sh" % dd, cwd=R, env=dict(os.environ))
        msg.append("demo bug rc=%d (%s)" % (p.returncode, p.stdout.strip().splitlines()[-1][:100] if p.stdout.strip() else ""))
        p = sh("timeout 120 cargo +stable test --workspace --all-features --offline --lib --bins 2>&1 | grep '^test result\\|FAILED\\|^error' ; timeout 120 cargo +stable test --workspace --all-features --offline --doc 2>&1 | grep '^test result\\|FAILED\\|^error'", cwd=R, env=env)
        msg.append("tests: " + ("ok" if "FAILED" not in p.stdout and "error" not in p.stdout and "ok." in p.stdout else "!!! " + p.stdout[-500:]))
    cs = claimed if checks == "all" else ([meta["property"]] if checks == "own" else checks.split(","))
    for c in cs:
        if c not in claimed and checks == "own":
            msg.append("%s not claimed" % c); continue
        p = sh("%s/check %s" % (V, c), env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE="/tmp/ev"))
        hit = "VIOLATION property=%s " % c in p.stdout
        if checks != "all" or hit or p.returncode not in (0, 1):
            msg.append("%s %s%s" % (c, "CAUGHT" if hit and p.returncode == 1 else "missed", "" if p.returncode in (0, 1) else " rc=%d %s" % (p.returncode, p.stdout[-800:])))
            if hit:
                msg.append("   " + " | ".join(x.strip() for x in p.stdout.splitlines() if "why:" in x or "rule inst" in x)[:300])
    print(i, "\n    ".join([""] + msg), flush=True)
