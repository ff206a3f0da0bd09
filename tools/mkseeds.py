#!/usr/bin/env python3
"""Development helper: writes /verif/seeded/<id>/ from tools/seeds/*.py.  usage: mkseeds.py [ID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 99
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$HERE/main.rs" "$W/src/main.rs" && cp Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rusty-systems = { path = "$PWD" }
[workspace]
EOT
cd "$W" && CARGO_TARGET_DIR="$W/t" CARGO_NET_OFFLINE=true timeout 250 cargo run -q --offline
'''
DEMO_BIN = '''#!/bin/bash
# Builds the command line tool from the current directory into a scratch folder and drives it there.
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 99
trap 'rm -rf "$W"' EXIT
CARGO_TARGET_DIR="$W/t" CARGO_NET_OFFLINE=true cargo build -q --offline --features lsystem --bin lsystem || exit 98
cd "$W" || exit 97
L="$W/t/debug/lsystem"
'''
seeds = []
def seed(id, prop, needs, breaks, edits, demo=None, bin_demo=None):
    seeds.append((id, prop, needs, breaks, edits, demo, bin_demo))
for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(open(f).read())
ids = [s[0] for s in seeds]
assert len(set(ids)) == len(ids)
for (id, prop, needs, breaks, edits, demo, bin_demo) in seeds:
    if sys.argv[1:] and id not in sys.argv[1:]:
        continue
    w = tempfile.mkdtemp()
    subprocess.run("cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
    for (f, a, b) in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT does not match exactly once:", f, repr(a[:80]), s.count(a)); sys.exit(1)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo is not None:
        open(os.path.join(d, "main.rs"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_BIN + bin_demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.rmtree(w)
print(len(seeds), "seeds")
