"""Running the abstract interpreter on functions with symbolic arguments."""
import os
import time
import traceback

from .absdom import Facts
from .engine import Budget, Eng, State
from .facts import norm
from .fwit import regions
from .terms import *


class Run:
    def __init__(self, inst):
        self.inst = inst
        self.eng = None
        self.res = []
        self.err = None
        self.args = []
        self.dt = 0.0

    def bad(self):
        """obligations that are neither proved nor hidden behind an unknown library call"""
        return [o for o in self.eng.obl if not o.ok and not o.taint]

    def vague(self):
        return [o for o in self.eng.obl if not o.ok and o.taint]


def symbolic(eng, inst, st):
    args = []
    for i in range(inst.nargs):
        ty = inst.locals[i + 1]["ty"]
        t = eng.prog.types[ty]
        v = mk("sym", inst.name, "arg", i)
        if t["k"] == "ref" and t.get("mut"):
            r = ("a", inst.name, i)
            eng.typ(v, t["to"])
            st.mem[r] = v
            eng.rootty[r] = t["to"]
            eng.hint[(r, ())] = t["to"]
            args.append(mk("mref", r, ()))
        else:
            eng.typ(v, ty)
            args.append(v)
    return args


def value(st, a, eng):
    return eng.get(st, a.a[0], a.a[1]) if a.op == "mref" else a


def analyse(lib, inst, opaque=None, assume=None, tmax=60.0, steps=400000, pure=True, args=None, extra=None, hook=None, peel=0, track=False, passes=False, scale=None):
    """run inst (an Inst or a function path) on symbolic arguments"""
    if isinstance(inst, str):
        inst = lib.insts.get(lib.fns[inst]["root"])
    r = Run(inst)
    eng = r.eng = Eng(lib, opaque=opaque, max_time=tmax, max_steps=steps, hook=hook)
    eng.opaque_pure = pure
    eng.peel = peel
    eng.scale = scale or {}
    if passes:
        eng.passes = []
    eng.track = track
    if extra:
        eng.extra = extra
    st = State({}, Facts(), None)
    t0 = time.time()
    try:
        r.args = symbolic(eng, inst, st) if args is None else args(eng, inst, st)
        r.mem0 = dict(st.mem)
        states = [st]
        if assume is not None:
            for b in assume(eng, inst, [value(st, a, eng) for a in r.args]):
                states = [x for y in states for x in y.assume(b)]
        r.st0 = st
        for s in states:
            r.res += eng.run(inst, r.args, s, inst.name, ())
    except Budget as x:
        r.err = "analysis budget exceeded in %s" % x
    except RecursionError:
        r.err = "analysis recursion limit"
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(x.__traceback__)[-1]
        r.err = "analysis error %r at %s:%d" % (x, os.path.basename(tb.filename), tb.lineno)
    r.dt = time.time() - t0
    return r


def conjuncts(b):
    if b.op == "and":
        return conjuncts(b.a[0]) + conjuncts(b.a[1])
    return [b]


def refine(lib, inst, rounds=3, **kw):
    """analyse; offer unproved conditions to the loops whose values they speak of as invariants"""
    r = analyse(lib, inst, **kw)
    extra = {}
    for _ in range(rounds):
        if r.err or not r.bad():
            return r
        new = False
        for o in r.bad():
            for b in conjuncts(o.cond):
                for l in leaves(b):
                    if l.op == "phi" and isinstance(l.a[0], tuple):
                        k = (l.a[0][0], l.a[0][1])
                        if b not in extra.setdefault(k, []):
                            extra[k].append(b)
                            new = True
        if not new:
            return r
        r2 = analyse(lib, inst, extra=extra, **kw)
        if r2.err:
            return r
        r = r2
    return r


def callees(lib, inst):
    """local instances called directly"""
    c = lib.__dict__.setdefault("_callees", {})
    r = c.get(inst.name)
    if r is None:
        r = []
        for b in inst.reachable():
            t = inst.blocks[b]["t"]
            if t["t"] == "call":
                info = lib.types[t["f"]]
                i = lib.insts.get(info.get("inst")) if info.get("inst") else None
                if i is not None:
                    r.append(i)
        c[inst.name] = r
    return r


def weight(lib, inst, seen=None):
    """(blocks, loops) of an instance and everything it calls"""
    c = lib.__dict__.setdefault("_weight", {})
    if inst.name in c:
        return c[inst.name]
    seen = seen or set()
    if inst.name in seen:
        return (10000, 1)
    seen = seen | {inst.name}
    n = len(inst.reachable())
    l = len(inst.loops())
    for i in callees(lib, inst):
        a, b = weight(lib, i, seen)
        n += a
        l += b
    c[inst.name] = (n, l)
    return n, l


def arith(o):
    """does it depend on floating point arithmetic?"""
    return any(x.op in ("fop", "ffold", "i2f") for b in list(o.state.facts.all()) + [o.cond] if any(y.op in ("fcmp", "fclass", "fnan") for y in walk(b)) for x in walk(b))


def witness(o):
    """one number for which every comparison on the path, and the failure, comes out"""
    fl = [b for b in o.state.facts.all() if any(y.op in ("fcmp", "fclass", "fnan") for y in walk(b))] + [not_(o.cond)]
    base = set()

    def collect(t):
        if t.op == "fop":
            for x in t.a[1:]:
                collect(x)
        elif t.op != "float":
            base.add(t)
    for b in fl:
        for y in walk(b):
            if y.op in ("fcmp", "fclass"):
                for x in y.a[1:]:
                    collect(x)
            elif y.op == "fnan":
                collect(y.a[0])
    if len(base) != 1:
        return False
    return isinstance(regions(fl, base.pop(), lambda x: False), tuple)


class Summaries:
    """assume-guarantee: which functions are free of panics for every argument"""

    def __init__(self, lib, invariants=None, tmax=60.0, small=40):
        self.lib = lib
        self.inv = invariants
        self.tmax = tmax
        self.small = small
        self.memo = {}
        self.busy = set()
        self.runs = 0

    def opaque(self, name, info=None):
        inst = self.lib.insts.get(name)
        if inst is None or not inst.local or inst.j.get("closure"):
            return False
        n, l = weight(self.lib, inst)
        if n <= self.small and not l:
            return False
        return self.status(inst)[0] == "clean"

    def status(self, inst):
        m = self.memo.get(inst.name)
        if m is not None:
            return m
        if inst.name in self.busy:
            return ("recursive", None)
        self.busy.add(inst.name)
        r = refine(self.lib, inst, opaque=self.opaque, assume=self.assume, tmax=self.tmax, pure=False)
        self.runs += 1
        how = "modular"
        if r.err or r.bad():
            if any(self.opaqued(r)):
                r2 = refine(self.lib, inst, assume=self.assume, tmax=self.tmax, pure=False)
                self.runs += 1
                if not r2.err:
                    r, how = r2, "inlined"
        self.busy.discard(inst.name)
        if r.err:
            m = ("unknown", r, how)
        elif r.bad():
            m = ("dirty", r, how)
        else:
            m = ("clean", r, how)
        self.memo[inst.name] = m
        return m

    def opaqued(self, r):
        yield True

    def confirmed(self, r):
        """unproved obligations that also fail on the first passes of every loop, where no value is
        a loop summary: [(obligation, confirmed?)]"""
        out = []
        need = False
        for o in r.bad():
            ph = any(l.op == "phi" for b in list(o.state.facts.all()) + [o.cond] for l in leaves(b))
            if arith(o) and not witness(o):
                out.append((o, False))
                continue
            out.append((o, not ph and constructible(self.lib, r.inst, o.state) is not False))
            need |= ph
        if need:
            keys = set()
            for n in (1, 3):
                p = analyse(self.lib, r.inst, opaque=self.opaque, assume=self.assume, tmax=self.tmax, pure=False, peel=n)
                keys |= {o.key[:2] for o in p.bad() if (not arith(o) or witness(o)) and constructible(self.lib, r.inst, o.state) is not False} if p.eng else set()
            out = [(o, c or o.key[:2] in keys) for o, c in out]      # (also where arithmetic on floats is concerned: a pass with a witness)
        return out

    def assume(self, eng, inst, vals):
        return self.inv(eng, inst, vals) if self.inv else []


# ---------------------------------------------------------------- type invariants
def base_adt(lib, tyi):
    t = lib.types[tyi]
    n = 0
    while t["k"] == "ref" and n < 3:
        t = lib.types[t["to"]]
        n += 1
    return (t["adt"], t) if t["k"] == "adt" and t["adt"] in lib.adts else (None, None)


class TypeInvariants:
    """facts that hold of every value of a struct of the crate between calls: candidates over its
    fields, weakened until every function that makes or changes such a value keeps them"""

    def __init__(self, lib, tmax=30.0):
        self.lib = lib
        self.tmax = tmax
        self.inv = {}      # adt -> [function from a value term to a boolean term]
        self.names = {}
        self.checked = {}

    def candidates(self, eng, adt, t):
        ints, seqs, bools = [], [], []
        for i, fd in enumerate(t["variants"][0]["fields"]):
            k = eng.scalar(fd["ty"])
            if k == "usize":
                ints.append((i, k))
            elif k in ("str", "seq"):
                seqs.append((i, k))
            elif k == "bool":
                bools.append((i, k))
        out = []

        def f(i, k):
            return lambda v: typed(fld(v, 0, i), k)
        for i, k in ints:
            for j, k2 in seqs:
                out.append(("field %d <= len(field %d)" % (i, j), lambda v, a=f(i, k), b=f(j, k2): le(a(v), len_(b(v)))))
                if k2 == "str":
                    out.append(("field %d is a character boundary of field %d" % (i, j), lambda v, a=f(i, k), b=f(j, k2): bnd(b(v), a(v))))
        for i, k in bools:
            for j, k2 in seqs:
                out.append(("field %d implies field %d is not empty" % (i, j),
                            lambda v, a=f(i, k), b=f(j, k2): or_(not_(a(v)), le(ONE, len_(b(v))))))
        return out

    def makers(self, adt):
        """functions that build or can change a value of the type"""
        out = []
        for name, inst in self.lib.insts.items():
            if not inst.local:
                continue
            hit = any(base_adt(self.lib, inst.locals[i + 1]["ty"])[0] == adt and self.lib.types[inst.locals[i + 1]["ty"]].get("mut")
                      for i in range(inst.nargs))
            for b in inst.reachable():
                for s in inst.blocks[b]["st"]:
                    if s["s"] == "asg":
                        rv = s["rv"]
                        if rv["r"] == "agg" and rv.get("adt") == adt or self.within(inst, s["p"], adt):
                            hit = True
                        if rv["r"] in ("ref", "addr") and rv.get("mut") and self.within(inst, rv.get("p"), adt):
                            hit = True
                t = inst.blocks[b]["t"]
                if t["t"] == "call" and self.within(inst, t.get("d"), adt):
                    hit = True
            if hit and not inst.j.get("closure"):
                out.append(inst)
        return out

    def within(self, inst, place, adt):
        """is this place a part of a value of the type?"""
        if not place or not place[1]:
            return False
        tys = self.lib.types
        ty = inst.locals[place[0]]["ty"]
        for q in place[1]:
            if ty is None:
                return False
            t = tys[ty]
            if q[0] == "d":
                ty = t.get("to")
            elif q[0] == "f":
                if t["k"] == "adt" and t["adt"] == adt:
                    return True
                ty = q[2] if len(q) > 2 and isinstance(q[2], int) else None
            elif q[0] == "v":
                continue
            else:
                ty = t.get("el") if isinstance(t.get("el"), int) else None
        return False

    def infer(self, adt, t):
        if adt in self.inv:
            return
        eng = Eng(self.lib)
        cur = self.candidates(eng, adt, t)
        self.inv[adt] = [c for _, c in cur]
        if not cur:
            return
        mk_ = self.makers(adt)
        while True:
            drop = set()
            self.inv[adt] = [c for _, c in cur]
            for inst in mk_:
                r = analyse(self.lib, inst, assume=self.assume, tmax=self.tmax)
                if r.err:
                    drop = set(range(len(cur)))
                    break
                for s, v in r.res:
                    vals = [x for x in walk(v) if x.op == "adt" and x.a[0] == adt]
                    for i, a in enumerate(r.args):
                        if a.op == "mref" and base_adt(self.lib, inst.locals[i + 1]["ty"])[0] == adt:
                            vals.append(value(s, a, r.eng))
                    for x in vals:
                        for n, (name, c) in enumerate(cur):
                            if n not in drop and s.ask(c(x)) is not True:
                                # a disjunction may need a case split
                                if not all(q.ask(c(x)) is True for q in s.assume(c(x), False)):
                                    drop.add(n)
            if not drop:
                break
            cur = [c for n, c in enumerate(cur) if n not in drop]
            self.inv[adt] = [c for _, c in cur]
            if not cur:
                break
        self.names[adt] = [n for n, _ in cur]
        self.checked[adt] = [i.name for i in mk_]

    def assume(self, eng, inst, vals):
        out = []
        for i, v in enumerate(vals):
            adt, t = base_adt(self.lib, inst.locals[i + 1]["ty"])
            for c in self.inv.get(adt, ()):
                out.append(c(v))
        return out


# ---------------------------------------------------------------- values that can be made
def tyterm(lib, inst, t, depth=0):
    """the type of a part of the arguments, None if not known"""
    if depth > 12:
        return None

    def plain_(i):
        for _ in range(4):
            x = lib.types[i]
            if x["k"] == "ref":
                i = x["to"]
            elif x["k"] == "adt" and x["adt"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
                i = x["args"][0]
            else:
                return i
        return None
    if t.op == "sym" and len(t.a) == 3 and t.a[0] == inst.name and t.a[1] == "arg":
        return plain_(inst.locals[t.a[2] + 1]["ty"])
    if t.op in ("sym", "cellval"):
        i = lib.__dict__.get("_tt", {}).get(t)
        return plain_(i) if i is not None else None
    if t.op == "fld":
        i = tyterm(lib, inst, t.a[0], depth + 1)
        if i is None:
            return None
        x = lib.types[i]
        if x["k"] == "tuple" and t.a[2] < len(x["el"]):
            return plain_(x["el"][t.a[2]])
        if x["k"] == "adt" and x.get("variants") and t.a[1] < len(x["variants"]) and t.a[2] < len(x["variants"][t.a[1]]["fields"]):
            return plain_(x["variants"][t.a[1]]["fields"][t.a[2]]["ty"])
        return None
    if t.op == "elem":
        i = tyterm(lib, inst, t.a[0], depth + 1)
        if i is None:
            return None
        x = lib.types[i]
        if x["k"] in ("slice", "array"):
            return plain_(x["el"]) if isinstance(x["el"], int) else None
        if x["k"] == "adt" and x["adt"] in ("std::vec::Vec", "std::collections::VecDeque"):
            return plain_(x["args"][0])
    return None


def shapes(lib, adt):
    """[(state, value)] of every function that makes or changes a value of a struct with private fields;
    None if that is not known"""
    cache = lib.__dict__.setdefault("_shapes", {})
    if adt in cache:
        return cache[adt]
    cache[adt] = None
    a = lib.adts.get(adt)
    if a is None or len(a["variants"]) != 1 or all(f["pub"] for f in a["variants"][0]["fields"]):
        return None
    out = []
    for inst in TypeInvariants(lib).makers(adt):
        r = analyse(lib, inst, tmax=10.0)
        if r.err:
            return None
        given = [value(r.st0, x, r.eng) for x in r.args]
        for s, v in r.res:
            vals = [x for x in walk(v) if x.op == "adt" and x.a[0] == adt]
            for i, x in enumerate(r.args):
                if x.op == "mref" and base_adt(lib, inst.locals[i + 1]["ty"])[0] == adt:
                    vals.append(value(s, x, r.eng))
            for x in vals:
                if x.op != "adt" or any(l.op == "phi" for l in leaves(x)):
                    return None
                if any(all(y is fld(g, 0, n) for n, y in enumerate(x.a[2:])) for g in given):
                    continue        # a copy of a value made before
                out.append((s, x))
    cache[adt] = out
    return out


def constructible(lib, inst, st):
    """False if the facts speak of a value with private fields that no function can have made"""
    lits = [b for b in st.facts.all() if b.op in ("indom", "notindom", "eq0", "le0", "not")]
    parents = {}
    for b in lits:
        for t in walk(b):
            if t.op == "fld" and t.a[0].op in ("sym", "fld", "elem"):
                parents.setdefault(t.a[0], []).append(b)
    for x, bs in parents.items():
        if len(bs) < 2:
            continue
        i = tyterm(lib, inst, x)
        if i is None or lib.types[i]["k"] != "adt":
            continue
        try:
            ss = shapes(lib, lib.types[i]["adt"])
        except Exception:
            ss = None
        if not ss:
            continue
        # the names of the case and those of the functions making the value are kept apart
        x0 = mk("sym", "case", "made")
        m = {}
        for b in bs:
            for t in walk(b):
                if t.op == "sym" and t not in m:
                    m[t] = typed(mk("sym", "case", len(m)), tyof.get(t))
        m[x] = x0
        bs = [subst(b, m) for b in bs]
        if all(any(s.ask(subst(b, {x0: v})) is False for b in bs) for s, v in ss):
            return False
    return None
