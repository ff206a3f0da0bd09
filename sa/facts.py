"""Extracts facts from /repo's current working tree with the rustc driver, and
gives structured access to them (functions, instances, CFGs, call graph)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVER_SRC = os.path.join(VERIF, "driver", "mirfacts.rs")


class ToolError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def sysroot():
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise ToolError("no nightly toolchain: " + out)
    return out.strip()


def driver_path():
    h = hashlib.sha256(open(DRIVER_SRC, "rb").read()).hexdigest()[:16]
    return os.path.join(VERIF, "build", "mirfacts-" + h)


def build_driver():
    exe = driver_path()
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    rc, out = _run(["rustc", "+nightly", "--edition", "2024", "-O", DRIVER_SRC, "-o", tmp],
                   cwd=os.path.dirname(exe))
    if rc or not os.path.exists(tmp):
        raise ToolError("driver build failed:\n" + out)
    os.rename(tmp, exe)
    return exe


def _tree_hash():
    h = hashlib.sha256()
    fs = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "target")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(open(DRIVER_SRC, "rb").read())
    return h.hexdigest()[:24]


def extract():
    """Returns {"lib": json, "bin": json}. Fresh target directory on every run, so
    that cargo's freshness cache can never skip the wrapper."""
    cache = os.environ.get("VERIF_FACTS_CACHE")
    if cache:
        d = os.path.join(cache, _tree_hash())
        if os.path.exists(os.path.join(d, "ok")):
            return _load(d)
    exe = build_driver()
    sr = sysroot()
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix="facts-", dir=base)
    try:
        out = os.path.join(work, "out")
        os.makedirs(out)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sr + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRFACTS_OUT"] = out
        env.pop("RUSTFLAGS", None)
        env.pop("RUSTC_WRAPPER", None)
        env["CARGO_INCREMENTAL"] = "0"
        for attempt in (1, 2):      # once more if the toolchain itself stumbled
            rc, log = _run(["cargo", "+nightly", "check", "--offline", "--lib", "--bin", "lsystem",
                            "--all-features", "--target-dir", os.path.join(work, "target")], cwd=REPO, env=env)
            if not rc or "could not compile" in log:
                break
            time.sleep(2)
        if rc:
            raise ToolError("fact extraction failed:\n" + log[-4000:])
        r = _load(out)
        if cache:
            d = os.path.join(cache, _tree_hash())
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(out):
                shutil.copy(os.path.join(out, f), d)
            open(os.path.join(d, "ok"), "w").close()
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _load(d):
    r = {}
    for f in os.listdir(d):
        if f.endswith(".lib.json"):
            r["lib"] = json.load(open(os.path.join(d, f)))
        elif f.endswith(".bin.json"):
            r["bin"] = json.load(open(os.path.join(d, f)))
    if "lib" not in r or "bin" not in r:
        raise ToolError("facts missing: got %s" % sorted(r))
    return r


_gen = re.compile(r"::<")


def strip_generics(p):
    """std::vec::Vec::<T, A>::push -> std::vec::Vec::push (balanced)."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


_implre = re.compile(r"^(?:core|std|alloc)::.*<impl (.+)>::(\w+)$")


def norm(p):
    """Canonical short callee name: `core::slice::<impl [T]>::iter` -> `slice::iter`,
    `core::str::<impl str>::trim` -> `str::trim`, `std::vec::Vec::<T>::push` -> `Vec::push`."""
    m = _implre.match(p)
    if m and " for " not in m.group(1):
        t = m.group(1)
        t = {"[T]": "slice", "str": "str", "[u8]": "bytes"}.get(t, "slice" if t.startswith("[") else t)
        return "%s::%s" % (t, m.group(2))
    p = strip_generics(p)
    return p


class Inst:
    """One instance-resolved function body."""

    def __init__(self, prog, name, j):
        self.prog = prog
        self.name = name
        self.j = j
        self.blocks = j["blocks"]
        self.nargs = j["args"]
        self.locals = j["locals"]
        self.path = j["path"]
        self.local = j["local"]
        self.closure = j["closure"]
        self._loops = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k == "goto":
            return [t["b"]]
        if k == "switch":
            r = []
            for _, x in t["v"]:
                r.append(x)
            r.append(t["else"])
            return r
        if k in ("drop", "assert"):
            return [t["b"]]
        if k == "call":
            return [t["b"]] if t["b"] is not None else []
        return []

    def reachable(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def loops(self):
        """{header: set(blocks)} natural loops of the non-unwinding CFG."""
        if self._loops is not None:
            return self._loops
        R = self.reachable()
        preds = {b: [] for b in R}
        for b in R:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators
        order = []
        seen = set()

        def dfs(s):
            st = [(s, iter(self.succs(s)))]
            seen.add(s)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(self.succs(x))))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        dom = {b: None for b in R}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0:
                    continue
                ds = [dom[p] for p in preds[b] if dom[p] is not None]
                nd = set.intersection(*ds) | {b} if ds else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        loops = {}
        for b in R:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = loops
        return loops


class Program:
    def __init__(self, j, kind):
        self.j = j
        self.kind = kind
        self.types = j["types"]
        self.fns = j["fns"]
        self.adts = j["adts"]
        self.impls = j["impls"]
        self.statics = j["statics"]
        self.unsafe = j["unsafe"]
        self.insts = {n: Inst(self, n, b) for n, b in j["insts"].items()}

    def ty(self, i):
        return self.types[i]

    def root(self, path):
        f = self.fns.get(path)
        return self.insts.get(f["root"]) if f else None

    def callee(self, term):
        """(info dict of the callee's fndef type, Inst or None) of a call terminator"""
        t = self.types[term["f"]]
        if t["k"] == "fndef":
            return t, self.insts.get(t.get("inst")) if t.get("inst") else None
        if t["k"] == "closure":
            return t, self.insts.get(t.get("inst"))
        return t, None

    def local_fns(self):
        return {p: f for p, f in self.fns.items()}


def load():
    fs = extract()
    return Program(fs["lib"], "lib"), Program(fs["bin"], "bin")
