"""Abstract interpreter over instance-resolved MIR.

Values are hash-consed terms (value numbering), path facts live in absdom.Facts, the
control flow is followed with trace partitioning, and every loop is summarised by a
fixpoint: the locations it changes become `phi` values, partitioned by the variants of
enums and flags, with invariants found by weakening a finite candidate set until it is
inductive. Nothing is executed and no path is handed to a solver."""
import sys
import time
from .absdom import Facts
from .facts import norm
from .terms import *

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "ev", "ctx")

    def __init__(self, mem, facts, ev, ctx=""):
        self.mem = mem
        self.facts = facts
        self.ev = ev
        self.ctx = ctx

    def copy(self):
        return State(dict(self.mem), self.facts, self.ev, self.ctx)

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def assume(self, b, truth=True):
        """list of states"""
        if b.op == "bool":
            return [self] if b.a[0] == truth else []
        fs = self.facts.assume(b, truth)
        if len(fs) == 1:
            if fs[0] is self.facts:
                return [self]
            s = self.copy()
            s.facts = fs[0]
            return [s]
        out = []
        for f in fs:
            s = self.copy()
            s.facts = f
            out.append(s)
        return out

    def know(self, b, truth=True):
        """add a fact that holds by construction"""
        if b.op == "bool":
            return self
        self.facts = self.facts.copy()
        self.facts.add(b, truth)
        return self

    def ask(self, b):
        return self.facts.eval(b)


class Frame:
    __slots__ = ("inst", "fid", "stack", "args")

    def __init__(self, inst, fid, stack):
        self.inst = inst
        self.fid = fid
        self.stack = stack
        self.args = None


class Obl:
    __slots__ = ("key", "ok", "inst", "sp", "kind", "cond", "state", "stack", "taint")


class LoopRec:
    def __init__(self, key, inst, where, s0):
        self.key = key
        self.inst = inst
        self.where = where
        self.s0 = s0
        self.parts = []
        self.backs = []     # (from part, to part, state, {phi: value})
        self.exits = []     # (from part, tag, state)
        self.kind = "loop"

    def __repr__(self):
        return "<loop %s>" % (self.key,)


class Part:
    def __init__(self, n, skel):
        self.n = n
        self.skel = skel
        self.tmpl = {}
        self.phis = {}      # phi -> (root, path)
        self.inv = []
        self.tried = set()
        self.init = None    # {phi: value} when entered from outside


ITER = {"it", "itmut", "range", "enum", "map", "filter", "filtermap", "take", "takewhile", "skip", "skipwhile", "chain", "zip",
        "peek", "revit", "flatmap", "chars", "charidx", "splitit", "inspect", "stepby", "cycle", "bytesit", "scan", "mapwhile"}
CALLS = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"}
CONS = {"adt", "tup", "clo", "some"} | ITER


def local_impl(prog, trait, adt, name):
    """(function record, instance) of a trait method implemented in the crate for a type"""
    cache = prog.__dict__.setdefault("_limpl", {})
    if not cache:
        for p, f in prog.fns.items():
            if f.get("impl_trait") and isinstance(f.get("impl_self"), int):
                t = prog.types[f["impl_self"]]
                if t["k"] == "adt":
                    cache.setdefault((norm(f["impl_trait"]).split("<")[0], t["adt"], f["name"]), []).append((f, prog.insts.get(f["root"])))
    r = cache.get((trait, adt, name))
    return r[0] if r and len(r) == 1 else (None, None)


def is_structural(eng, tyi, what, depth=0):
    """does == compare (what='eq'), or clone copy (what='clone'), the whole value component by component?"""
    prog = eng.prog
    cache = prog.__dict__.setdefault("_structural", {})
    k = (tyi, what)
    if k in cache:
        return cache[k]
    cache[k] = True     # recursive types: assume while checking
    cache[k] = r = _structural(eng, prog, tyi, what, depth)
    return r


def _structural(eng, prog, tyi, what, depth):
    if depth > 12:
        return False
    t = prog.types[tyi]
    k = t["k"]
    rec = lambda x: is_structural(eng, x, what, depth + 1)
    if k == "ref":
        return what == "clone" or rec(t["to"])
    if k in ("bool", "char", "int", "uint", "str", "never"):
        return True
    if k == "float":
        return what == "clone"
    if k in ("slice", "array"):
        return rec(t["el"])
    if k == "tuple":
        return all(rec(x) for x in t.get("el") or [])
    if k == "adt":
        a = t["adt"]
        if a in ("std::rc::Rc", "std::sync::Arc") and what == "clone":
            return True
        if a in ("std::string::String",):
            return True
        if a in ("std::vec::Vec", "std::option::Option", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::result::Result",
                 "std::collections::HashSet", "std::collections::HashMap"):
            return all(rec(x) for x in t.get("args", []) if "Global" not in prog.types[x]["s"] and "RandomState" not in prog.types[x]["s"])
        if a not in prog.adts:
            return False
        f, inst = local_impl(prog, "std::cmp::PartialEq" if what == "eq" else "std::clone::Clone", a, "eq" if what == "eq" else "clone")
        if f is None:
            return False
        if f.get("derived"):
            return all(rec(fd["ty"]) for v in t.get("variants") or [] for fd in v["fields"])
        if inst is None:
            return False
        x, y = mk("sym", "structural", a, 0), mk("sym", "structural", a, 1)
        e2 = Eng(prog, max_steps=4000, max_time=10)
        try:
            res = e2.run(inst, [x, y] if what == "eq" else [x], State({}, Facts(), None), "structural:" + a, ())
        except Budget:
            return False
        if len(res) != 1 or e2.unmodelled:
            return False
        if what == "clone":
            return res[0][1] is x
        vs = t.get("variants") or []
        if len(vs) != 1 or len(vs[0]["fields"]) != 1:
            return False
        return res[0][1] is structeq(eng, vs[0]["fields"][0]["ty"], fld(x, 0, 0), fld(y, 0, 0))
    return False


def structeq(eng, tyi, a, b):
    """a == b as one atom where == is structural, else None"""
    if not is_structural(eng, tyi, "eq"):
        return None
    t = eng.prog.types[tyi]
    while t["k"] == "ref":
        tyi = t["to"]
        t = eng.prog.types[tyi]
    if eng.scalar(tyi) is not None:
        typed(a, eng.scalar(tyi)), typed(b, eng.scalar(tyi))
    if t["k"] == "adt" and t["adt"] in eng.prog.adts and len(t.get("variants") or []) == 1 and len(t["variants"][0]["fields"]) == 1:
        return structeq(eng, t["variants"][0]["fields"][0]["ty"], fld(a, 0, 0), fld(b, 0, 0))
    if eng.scalar(tyi) in INTB:
        return eqi(a, b)
    return eq(a, b)


class Eng:
    def __init__(self, prog, opaque=None, hook=None, max_steps=400000, max_time=200.0, poison=False):
        self.prog = prog
        self.opaque = opaque or (lambda name, info: False)
        self.hook = hook
        self.obl = []
        self.unmodelled = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + max_time
        self.poison = poison
        self.track = False
        self.extra = {}
        self.recs = []
        self.opaque_pure = True
        self.peel = 0
        self.scale = {}         # integer constants taken as other numbers
        self.bigs = set()       # integer constants seen that are limits rather than small numbers
        self.arith = False      # integer arithmetic in which the size of a constant matters
        self.passes = None      # (function, place, kept roots, state before, state after) of the passes followed one by one
        self.rootty = {}
        self.hint = {}
        self.taints = set()
        self.analysed = set()
        self.livecache = {}
        self.promo = {}
        self.maxdepth = 24
        self.maxparts = 14
        from . import models
        self.models = models
        for n, d in prog.adts.items():
            if d.get("kind") == "Struct":
                STRUCTS.add(n)

    # ---------------------------------------------------------------- types
    def T(self, i):
        return self.prog.types[i]

    def scalar(self, tyi):
        """scalar kind of a type, through references and smart pointers"""
        t = self.prog.types[tyi]
        n = 0
        while t["k"] == "ref" and n < 5:
            t = self.prog.types[t["to"]]
            n += 1
        k = t["k"]
        if k in ("uint", "int", "float", "char", "bool"):
            return t["s"]
        if k == "str":
            return "str"
        if k in ("slice", "array"):
            return "seq"
        if k == "adt":
            a = t["adt"]
            if a in ("std::string::String",):
                return "str"
            if a in ("std::vec::Vec",):
                return "seq"
            if a in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box") and t.get("args"):
                return self.scalar(t["args"][0])
            if a == "std::borrow::Cow" and t.get("args"):
                return self.scalar(t["args"][-1])
        return None

    def typ(self, term, tyi):
        if tyi is None:
            return term
        if term.op in ("sym", "cellval") and isinstance(tyi, int):
            self.prog.__dict__.setdefault("_tt", {})[term] = tyi
        return typed(term, self.scalar(tyi))

    def arity(self, tyi, variant):
        if tyi is None:
            return None
        t = self.prog.types[tyi]
        n = 0
        while t["k"] == "ref" and n < 3:
            t = self.prog.types[t["to"]]
            n += 1
        if t["k"] == "adt" and t.get("variants") and variant < len(t["variants"]):
            return len(t["variants"][variant]["fields"]), t["adt"]
        return None

    def fresh(self, F, st, bb, tag, tyi=None):
        t = mk("sym", F.fid, st.ctx, bb, tag)
        self.typ(t, tyi)
        return t

    # ---------------------------------------------------------------- memory
    def get(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.default_root(root)
        for s in path:
            v = self.step(v, s)
        return v

    def default_root(self, root):
        if root[0] == "l":
            return mk("uninit")
        return mk("sym", "root", root)

    def step(self, v, s):
        if s[0] == "f":
            return fld(v, s[1], s[2])
        if s[0] == "i":
            return elem(v, s[1])
        if s[0] == "mv":
            return mk("mapget", v, s[1])
        return mk("proj", v, s)

    def set(self, st, root, path, val, tys=None):
        if not path:
            st.mem[root] = val
            return
        cur = self.get(st, root)
        st.mem[root] = self._set(cur, tuple(path), val, tys or {}, root, 0)

    def _set(self, cur, path, val, tys, root, n):
        s = path[n]
        if len(path) > n + 1:
            val = self._set(self.step(cur, s), path, val, tys, root, n + 1)
        if s[0] == "f":
            if cur.op == "mref":
                return cur
            ar = None
            if cur.op not in ("adt", "tup", "clo"):
                ty = tys.get(path[:n], self.hint.get((root, path[:n])))
                ar = self.arity(ty, s[1] or 0)
            if ar:
                return setf(cur, s[1], s[2], val, ar[0], ar[1])
            return setf(cur, s[1], s[2], val)
        if s[0] == "i":
            return upd(cur, s[1], val)
        if s[0] == "mv":
            return mk("mapput", cur, s[1], val)
        return mk("updp", cur, s, val)

    def loc(self, F, st, place):
        """(root, path, {path: type}) of a place, following mutable references"""
        n, proj = place
        root, path = ("l", F.fid, n), []
        ty = F.inst.locals[n]["ty"]
        tys = {(): ty}
        var = 0
        for e in proj:
            k = e[0]
            if k == "d":
                v = self.get(st, root, path)
                t = self.prog.types[ty] if ty is not None else None
                if t is not None:
                    if t["k"] == "ref" or "to" in t:
                        ty = t.get("to")
                    elif t["k"] == "adt" and t.get("args"):
                        ty = t["args"][0]
                if v.op == "mref":
                    root, path = v.a[0], list(v.a[1])
                    tys = {tuple(path): ty}
                else:
                    tys[tuple(path)] = ty
                var = 0
            elif k == "v":
                var = e[1]
            elif k == "f":
                path.append(("f", var, e[1]))
                ty = e[2]
                tys[tuple(path)] = ty
                var = 0
            elif k == "i":
                path.append(("i", self.get(st, ("l", F.fid, e[1]))))
                ty = self.elty(ty)
                tys[tuple(path)] = ty
            elif k == "ci":
                base = self.get(st, root, path)
                i = INT(e[1]) if not e[3] else addc(len_(base), -e[1])
                path.append(("i", i))
                ty = self.elty(ty)
                tys[tuple(path)] = ty
            else:
                path.append(("ss", tuple(e[1:])))
                ty = None
        return root, path, tys, ty

    def elty(self, ty):
        if ty is None:
            return None
        t = self.prog.types[ty]
        return t.get("el") if isinstance(t.get("el"), int) else None

    def read(self, F, st, place):
        root, path, tys, ty = self.loc(F, st, place)
        v = self.get(st, root, path)
        # a subslice pattern
        if path and path[-1][0] == "ss":
            base = self.get(st, root, path[:-1])
            frm, to, fromend = path[-1][1]
            v = slice_(base, INT(frm), addc(len_(base), -to) if fromend else INT(to))
        return self.typ(v, ty) if ty is not None else v

    def write(self, F, st, place, val):
        root, path, tys, ty = self.loc(F, st, place)
        if root[0] == "u":      # vec! boxes: any write stores the array
            st.mem[root] = val
            return
        self.set(st, root, path, val, tys)

    # ---------------------------------------------------------------- operands
    def const(self, F, c):
        k = c["c"]
        if k == "int":
            n = int(c["v"])
            if n > 10:
                self.bigs.add(n)
                n = self.scale.get(n, n)
            return INT(n)
        if k == "bool":
            return BOOL(c["v"])
        if k == "char":
            return INT(c["v"])
        if k == "float":
            import struct
            b = int(c["bits"])
            v = struct.unpack("<f", struct.pack("<I", b))[0] if c["w"] == 32 else struct.unpack("<d", struct.pack("<Q", b))[0]
            if v != v:
                return mk("nan")
            return mk("float", v)
        if k == "str":
            return STR(c["v"])
        if k == "bytes":
            return mk("bytes", tuple(c["v"]))
        if k == "zst":
            t = self.prog.types[c["ty"]]
            return self.zst(c["ty"])
        if k in ("fn", "fnptr"):
            return mk("fn", c.get("ty"))
        if k == "static":
            return mk("static", c["path"])
        if k == "refto":
            return self.const(F, c["v"]) if isinstance(c.get("v"), dict) else mk("constopaque", str(c))
        if k == "array":
            return mk("lst", *[self.const(F, x) for x in c["v"]])
        if k == "tuple":
            return mk("tup", *[self.const(F, x) for x in c["v"]])
        if k == "struct":
            return mk("adt", c.get("adt"), c.get("variant", 0), *[self.const(F, x) for x in c.get("v", [])])
        if k == "promoted":
            return self.promoted(F, c["n"])
        return self.typ(mk("constopaque", str(sorted(c.items(), key=str))), c.get("ty"))

    def zst(self, tyi):
        t = self.prog.types[tyi]
        if t["k"] == "fndef":
            return mk("fn", tyi)
        if t["k"] == "closure":
            return mk("clo", t.get("inst"))
        if t["k"] == "tuple":
            return UNIT
        if t["k"] == "array":
            return EMPTY
        if t["k"] == "adt":
            vs = t.get("variants")
            if vs and len(vs) == 1:
                return mk("adt", t["adt"], 0, *[self.zst(f["ty"]) for f in vs[0]["fields"]])
            return mk("adt", t["adt"], 0)
        if t["k"] == "ref":
            return self.zst(t["to"])
        return UNIT

    def promoted(self, F, n):
        key = (F.inst.name, n)
        if key not in self.promo:
            from .facts import Inst
            j = dict(F.inst.j["promoted"][n])
            j.setdefault("args", 0)
            for k in ("path", "local", "closure"):
                j.setdefault(k, F.inst.j.get(k))
            j.setdefault("promoted", [])
            inst = Inst(self.prog, F.inst.name + "#p%d" % n, j)
            save = self.obl
            self.obl = []
            r = self.run(inst, [], State({}, Facts(), None), "promo:" + inst.name, ())
            self.obl = save
            self.promo[key] = r[0][1] if len(r) == 1 else mk("constopaque", inst.name)
        return self.promo[key]

    def operand(self, F, st, o):
        if "o" in o:
            return self.read(F, st, o["p"])
        return self.const(F, o)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, F, st, rv, dty, bb):
        r = rv["r"]
        if r == "use":
            return self.operand(F, st, rv["a"][0])
        if r in ("ref", "rawptr"):
            if rv.get("mut"):
                root, path, tys, ty = self.loc(F, st, rv["p"])
                v = self.get(st, root, path)
                if v.op == "mref" and ty is not None and self.prog.types[ty]["k"] != "ref":
                    return v
                if ty is not None and root not in self.rootty and not path:
                    self.rootty[root] = ty
                for k, x in tys.items():
                    if x is not None:
                        self.hint[(root, k)] = x
                return mk("mref", root, tuple(path))
            return self.read(F, st, rv["p"])
        if r == "bin":
            a = self.operand(F, st, rv["a"][0])
            b = self.operand(F, st, rv["a"][1])
            oty = self.opty(F, rv["a"][0]) or self.opty(F, rv["a"][1])
            return self.binop(rv["op"], a, b, oty)
        if r == "un":
            a = self.operand(F, st, rv["a"][0])
            op = rv["op"]
            if op == "Not":
                if self.opty(F, rv["a"][0]) == "bool" or a.op in ("bool", "not", "le0", "eq0", "and", "or", "fcmp", "eq"):
                    return not_(a)
                return mk("un", "Not", a)
            if op == "Neg":
                if a.op == "float":
                    return mk("float", -a.a[0])
                if isint(a):
                    return mulc(a, -1)
                return typed(mk("fop", "Neg", a), tyof.get(a) or self.opty(F, rv["a"][0]))
            if op == "PtrMetadata":
                return typed(len_(a), "usize")
            return mk("un", op, a)
        if r == "discr":
            v = self.read(F, st, rv["p"])
            if v.op == "adt":
                return INT(v.a[1])
            if v.op == "bool":
                return INT(1 if v.a[0] else 0)
            return mk("discr", v)
        if r == "cast":
            return self.cast(F, st, rv)
        if r == "agg":
            a = [self.operand(F, st, x) for x in rv["a"]]
            k = rv["k"]
            if k == "array":
                return mk("lst", *a)
            if k == "tuple":
                return mk("tup", *a)
            if k == "adt":
                return mk("adt", rv["adt"], rv.get("variant") or 0, *a)
            if k == "closure":
                return mk("clo", self.prog.types[rv["ty"]].get("inst"), *a)
            return mk("aggopaque", *a)
        if r == "repeat":
            a = self.operand(F, st, rv["a"][0])
            n = rv.get("n")
            if isinstance(n, int) and n <= 16:
                return mk("lst", *[a] * n)
            return mk("repeat", a, INT(n) if isinstance(n, int) else mk("constopaque", str(n)))
        return mk("rvopaque", F.fid, bb, str(rv)[:80])

    def opty(self, F, o):
        if "o" in o:
            n, proj = o["p"]
            ty = F.inst.locals[n]["ty"]
            for e in proj:
                if e[0] == "f":
                    ty = e[2]
                elif e[0] == "d":
                    t = self.prog.types[ty]
                    ty = t.get("to", ty)
                elif e[0] in ("i", "ci"):
                    ty = self.elty(ty)
                    if ty is None:
                        return None
            return self.scalar(ty)
        return self.scalar(o["ty"]) if "ty" in o else None

    def binop(self, op, a, b, ty):
        isf = ty in ("f32", "f64")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isf:
                t = {"Eq": lambda: fcmp("eq", a, b), "Ne": lambda: not_(fcmp("eq", a, b)), "Lt": lambda: fcmp("lt", a, b),
                     "Le": lambda: fcmp("le", a, b), "Gt": lambda: fcmp("lt", b, a), "Ge": lambda: fcmp("le", b, a)}[op]()
                return t
            if ty == "bool":
                e = eq(a, b)
                if op == "Eq":
                    return e
                if op == "Ne":
                    return not_(e)
            if a.op == "discr" and b.op == "int":
                e = isv(a.a[0], b.a[0])
                return e if op == "Eq" else not_(e) if op == "Ne" else mk("cmp", op, a, b)
            if b.op == "discr" and a.op == "int":
                e = isv(b.a[0], a.a[0])
                return e if op == "Eq" else not_(e) if op == "Ne" else mk("cmp", op, a, b)
            if a.op == "discr" or b.op == "discr":
                e = eq(a, b)
                return e if op == "Eq" else not_(e) if op == "Ne" else mk("cmp", op, a, b)
            if ty in INTB or isint(a) or isint(b):
                return {"Eq": lambda: eqi(a, b), "Ne": lambda: not_(eqi(a, b)), "Lt": lambda: lt(a, b), "Le": lambda: le(a, b),
                        "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
            e = eq(a, b)
            return e if op == "Eq" else not_(e) if op == "Ne" else mk("cmp", op, a, b)
        if isf:
            if a.op == b.op == "float":
                x, y = a.a[0], b.a[0]
                try:
                    v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
                    if v == v and ty == "f64":
                        return mk("float", v)
                except (KeyError, ZeroDivisionError, OverflowError):
                    pass
            return typed(mk("fop", op, a, b), ty)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        v = None
        if base not in ("Add", "Sub") and ty != "bool":
            self.arith = True
        if base == "Add":
            v = add(a, b)
        elif base == "Sub":
            v = sub(a, b)
        elif base == "Mul":
            if a.op == "int":
                v = mulc(b, a.a[0])
            elif b.op == "int":
                v = mulc(a, b.a[0])
        elif ty == "bool" and base == "BitAnd":
            return and_(a, b)
        elif ty == "bool" and base == "BitOr":
            return or_(a, b)
        elif ty == "bool" and base == "BitXor":
            return not_(eq(a, b))
        if v is None:
            if a.op == b.op == "int" and b.a[0] != 0:
                x, y = a.a[0], b.a[0]
                f = {"Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "Rem": lambda: abs(x) % abs(y) * (-1 if x < 0 else 1),
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(base)
                if f:
                    v = INT(f())
        if v is None:
            v = typed(mk("iop", base, a, b), ty)
        if op.endswith("WithOverflow"):
            lo, hi = INTB.get(ty, (None, None))
            ok = and_(le(INT(lo), v), le(v, INT(hi))) if lo is not None else mk("ovf", v)
            return mk("tup", v, not_(ok))
        if base in ("Add", "Sub", "Mul") and not op.startswith("Unchecked") and v.op != "int" and not isf:
            # wrapping operation written as such: exact only if it stays in range; keep it exact (profile checks overflow)
            pass
        return v

    def cast(self, F, st, rv):
        a = self.operand(F, st, rv["a"][0])
        k = rv["kind"]
        ty = self.scalar(rv["ty"])
        if k.startswith("PointerCoercion") or k in ("PtrToPtr", "BoxDerefTransmute", "FnPtrToPtr"):
            return a
        if k == "Transmute":
            return a if a.op == "mref" or not isint(a) else self.typ(mk("cast", k, ty, a), rv["ty"])
        frm = self.opty(F, rv["a"][0])
        if k == "IntToInt":
            if a.op == "discr":
                return a
            lo, hi = INTB.get(ty, (None, None))
            if lo is not None and st.ask(and_(le(INT(lo), a), le(a, INT(hi)))):
                return a
            if a.op == "bool":
                return INT(1 if a.a[0] else 0)
            return typed(mk("cast", k, ty, a), ty)
        if k == "IntToFloat":
            if a.op == "int":
                return mk("float", float(a.a[0]))
            return typed(mk("i2f", a), ty)
        if k == "FloatToFloat":
            if a.op == "float" and ty == "f64":
                return a
            return typed(mk("f2f", ty, a), ty)
        return typed(mk("cast", k, ty, a), ty)

    # ---------------------------------------------------------------- obligations
    def require(self, F, st, cond, kind, sp, bb):
        """prove cond, record the obligation, and continue with cond assumed"""
        r = st.ask(cond)
        if r is not True and st.facts.inconsistent():
            return []
        o = Obl()
        o.ok = r is True
        o.inst, o.sp, o.kind, o.cond, o.state, o.stack = F.inst.name, sp, kind, cond, st, F.stack
        o.taint = self.tainted(cond, st)
        o.key = (F.inst.name, kind, bb)
        self.obl.append(o)
        if r is True:
            return [st]
        if r is False:
            return []
        return st.assume(cond)

    def panic(self, F, st, kind, sp, bb, payload=None):
        if st.facts.inconsistent():
            return []
        o = Obl()
        o.ok = False
        o.inst, o.sp, o.kind, o.cond, o.state, o.stack = F.inst.name, sp, kind, FALSE, st, F.stack
        o.taint = (payload is not None and self.tainted(payload, st)) or self.path_tainted(st)
        o.key = (F.inst.name, kind, bb)
        self.obl.append(o)
        return []

    def tainted(self, t, st=None):
        return any(l in self.taints for l in leaves(t))

    def path_tainted(self, st):
        if not self.taints:
            return False
        for b in st.facts.all():
            if self.tainted(b):
                return True
        return False

    # ---------------------------------------------------------------- liveness
    def live(self, inst):
        r = self.livecache.get(inst.name)
        if r is not None:
            return r
        R = sorted(inst.reachable())
        use, dfn = {}, {}
        always = set()

        def pl(p, u, d, isdef=False):
            if isdef and not p[1]:
                if p[0] not in u:
                    d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if "o" in o:
                pl(o["p"], u, d)
        for b in R:
            u, d = set(), set()
            B = inst.blocks[b]
            for s in B["st"]:
                if s["s"] == "asg":
                    rv = s["rv"]
                    for a in rv.get("a", []):
                        op(a, u, d)
                    if "p" in rv:
                        pl(rv["p"], u, d)
                        if rv["r"] in ("ref", "rawptr") and rv.get("mut") and not any(e[0] == "d" for e in rv["p"][1]):
                            always.add(rv["p"][0])
                    pl(s["p"], u, d, True)
                elif s["s"] == "setd":
                    pl(s["p"], u, d) if "p" in s else None
            t = B["t"]
            if t["t"] == "switch":
                op(t["d"], u, d)
            elif t["t"] == "drop":
                ty = self.prog.types[inst.locals[t["p"][0]]["ty"]]["s"]
                if "Guard" in ty or "std::cell::Ref" in ty:
                    pl(t["p"], u, d)
            elif t["t"] == "assert":
                op(t["c"], u, d)
                for o in t["ops"]:
                    op(o, u, d)
            elif t["t"] == "call":
                for a in t["a"]:
                    op(a, u, d)
                if t.get("fo"):
                    op(t["fo"], u, d)
                pl(t["d"], u, d, True)
            elif t["t"] == "return":
                u.add(0)
            use[b], dfn[b] = u, d
        livein = {b: set(use[b]) for b in R}
        ch = True
        while ch:
            ch = False
            for b in reversed(R):
                o = set()
                for s in inst.succs(b):
                    o |= livein.get(s, set())
                n = use[b] | (o - dfn[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        r = (livein, always)
        self.livecache[inst.name] = r
        return r

    # ---------------------------------------------------------------- execution
    def run(self, inst, args, st, fid, stack):
        """[(state, returned value)]"""
        F = Frame(inst, fid, stack + (inst.name,))
        F.args = args
        self.analysed.add(inst.name)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("l", fid, i + 1)] = a
        for n, l in enumerate(inst.locals):
            self.rootty.setdefault(("l", fid, n), l["ty"])
        backs, exits, rets = self.region(F, 0, st, None, None)
        out = []
        seen = {}
        for s in rets:
            v = self.get(s, ("l", fid, 0))
            for r in [r for r in s.mem if r[0] == "l" and r[1] == fid]:
                del s.mem[r]
            k = (v, frozenset(s.mem.items()), s.facts.key(), id(s.ev))
            if k in seen:
                continue
            seen[k] = 1
            out.append((s, v))
        return out

    def region(self, F, start, st, body, header):
        inst = F.inst
        loops = inst.loops()
        backs, exits, rets = [], [], []
        work = [(start, st, True)]
        while work:
            bb, s, first = work.pop()
            if body is not None and not first:
                if bb == header:
                    backs.append(s)
                    continue
                if bb not in body:
                    exits.append((bb, s))
                    continue
            if bb in loops and not (first and bb == header):
                for (bb2, s2) in self.mir_loop(F, bb, s):
                    if bb2 is None:
                        rets.append(s2)
                    else:
                        work.append((bb2, s2, False))
                continue
            self.steps += 1
            if self.steps > self.max_steps or (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Budget(F.inst.name)
            for nxt in self.block(F, bb, s):
                if nxt[0] is None:
                    rets.append(nxt[1])
                else:
                    work.append((nxt[0], nxt[1], False))
        return backs, exits, rets

    def block(self, F, bb, st):
        """list of (successor or None for return, state)"""
        inst = F.inst
        B = inst.blocks[bb]
        st = st.copy()
        for s in B["st"]:
            k = s["s"]
            if k == "asg":
                v = self.rvalue(F, st, s["rv"], None, bb)
                if not s["p"][1]:
                    self.typ(v, inst.locals[s["p"][0]]["ty"])
                self.write(F, st, s["p"], v)
            elif k == "dead":
                l = s["l"]
                r = ("l", F.fid, l)
                st.mem.pop(r, None)
            elif k == "setd":
                cur = self.read(F, st, s["p"])
                v = s.get("v", s.get("variant"))
                if cur.op == "adt":
                    self.write(F, st, s["p"], mk("adt", cur.a[0], v, *cur.a[2:]))
        t = B["t"]
        k = t["t"]
        if k == "goto":
            return [(t["b"], st)]
        if k == "return":
            return [(None, st)]
        if k == "switch":
            return self.switch(F, t, st)
        if k == "drop":
            v = self.read(F, st, t["p"])
            self.drop(st, v)
            if not t["p"][1]:
                st.mem.pop(("l", F.fid, t["p"][0]), None)
            return [(t["b"], st)]
        if k == "assert":
            if t["kind"].startswith("other"):
                return [(t["b"], st)]
            c = self.operand(F, st, t["c"])
            if t["kind"].startswith("divzero") or "zero" in t["kind"].lower():
                pass
            cond = c if t["exp"] else not_(c)
            return [(t["b"], s) for s in self.require(F, st, cond, t["kind"], t.get("sp"), bb)]
        if k == "call":
            return self.call(F, bb, t, st)
        if k in ("unreachable", "resume", "abort", "other"):
            return []
        return []

    def drop(self, st, v):
        for x in walk(v):
            if x.op == "guard":
                st.emit("rel", x)

    def switch(self, F, t, st):
        d = self.operand(F, st, t["d"])
        if d.op == "int":
            for v, b in t["v"]:
                if int(v) == d.a[0]:
                    return [(b, st)]
            return [(t["else"], st)]
        if d.op == "bool":
            v = 1 if d.a[0] else 0
            for x, b in t["v"]:
                if int(x) == v:
                    return [(b, st)]
            return [(t["else"], st)]
        ty = self.prog.types[t["dty"]]
        out = []
        vals = [int(x) for x, _ in t["v"]]
        if ty["k"] == "bool":
            for x, b in t["v"]:
                for s in st.assume(d, bool(int(x))):
                    out.append((b, s))
            rest = {0, 1} - set(vals)
            for x in rest:
                for s in st.assume(d, bool(x)):
                    out.append((t["else"], s))
            return out
        tgt = d.a[0] if d.op == "discr" else d
        by = {}
        for x, b in t["v"]:
            by.setdefault(b, []).append(int(x))
        if t["else"] in by:
            # values that share the default target are not tested at all
            drop = by.pop(t["else"])
            vals = [v for v in vals if v not in drop]
        if ty["k"] in ("int",) and d.op != "discr":
            bits = 2 ** (8 * {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "isize": 8, "i128": 16}.get(ty["s"], 8))
            conv = lambda v: v - bits if v >= bits // 2 else v
            by = {b: [conv(v) for v in vs] for b, vs in by.items()}
            vals = [conv(v) for v in vals]
        for b, vs in by.items():
            for s in st.assume(mk("indom", tgt, tuple(sorted(vs)))):
                s = s.copy()
                if d.op != "discr" and isint(tgt):
                    s.know(le(INT(min(vs)), tgt))
                    s.know(le(tgt, INT(max(vs))))
                out.append((b, s))
        # enum known to have finitely many variants
        n = self.nvariants(F, t["d"]) if d.op == "discr" else None
        if not (n is not None and len(set(vals)) >= n):
            blk = F.inst.blocks[t["else"]]
            if not (blk["t"]["t"] == "unreachable"):
                for s in st.assume(mk("notindom", tgt, tuple(sorted(vals)))):
                    out.append((t["else"], s))
        return out

    def nvariants(self, F, d):
        return None

    # ---------------------------------------------------------------- calls
    def call(self, F, bb, t, st):
        info = self.prog.types[t["f"]]
        args = [self.operand(F, st, a) for a in t["a"]]
        res = self.invoke(F, bb, t, info, args, st)
        out = []
        if t["b"] is None:
            return []
        for s, v in res:
            s = s.copy()
            dty = t.get("dt")
            if dty is not None:
                self.typ(v, dty)
            self.write(F, s, t["d"], v)
            out.append((t["b"], s))
        return out

    def invoke(self, F, bb, t, info, args, st):
        k = info["k"]
        if k == "fndef":
            if info.get("ctor_of"):
                return [(st, mk("adt", info["ctor_of"], info.get("ctor_variant") or 0, *args))]
            p = norm(info.get("path", ""))
            if self.hook is not None:
                r = self.hook(self, F, bb, t, info, p, args, st)
                if r is not None:
                    return r
            inst = self.prog.insts.get(info.get("inst")) if info.get("inst") else None
            if p in CALLS and len(args) == 2 and args[1].op == "tup":
                return self.call_value(F, bb, args[0], list(args[1].a), st, t.get("dt"))
            if inst is not None and inst.local:
                if len(args) == 2 and p.endswith("PartialEq::eq") and info.get("self") is not None:
                    sty = info["self"]
                    a, b = (self.get(st, x.a[0], x.a[1]) if x.op == "mref" else x for x in args)
                    r = structeq(self, sty, a, b)
                    if r is not None:
                        return [(st, r)]
                return self.inline(F, bb, inst, args, st, info, t)
            m = self.models.lookup(p, info)
            if m is not None:
                r = m(self, F, bb, t, info, args, st)
                if r is not None:
                    return r
            if inst is not None:
                return self.inline(F, bb, inst, args, st, info, t)
            if info.get("rkind") == "virtual" and args and args[0].op == "adt" and "::" in p:
                # a value of a known type behind `dyn`
                tr, m = p.rsplit("::", 1)
                inst = self.prog.insts.get("<%s as %s>::%s" % (args[0].a[0], tr, m))
                if inst is not None:
                    return self.inline(F, bb, inst, args, st, info, t)
            return self.unknown(F, bb, t, info, args, st)
        if k == "closure":
            inst = self.prog.insts.get(info.get("inst"))
            if inst is not None:
                return self.inline(F, bb, inst, args, st, info, t)
        if t.get("fo"):
            fv = self.operand(F, st, t["fo"])
            return self.call_value(F, bb, fv, args, st, t.get("dt"))
        return self.unknown(F, bb, t, info, args, st)

    def inline(self, F, bb, inst, args, st, info=None, t=None, tag=""):
        if self.opaque(inst.name, info):
            return self.opaque_call(F, bb, inst.name, args, st, t)
        if len(F.stack) > self.maxdepth or F.stack.count(inst.name) > 0:
            self.unmodelled["recursion " + inst.name] = 1
            return self.opaque_call(F, bb, inst.name, args, st, t, taint=True)
        fid = "%s/%s%s" % (F.fid, bb, tag)
        return self.run(inst, args, st, fid, F.stack)

    def opaque_call(self, F, bb, name, args, st, t, taint=False):
        st = st.copy()
        st.emit("opaque", name, tuple(args), F.inst.name)
        muts = self.mrefs(args)
        if self.opaque_pure == "state" and not taint and all(a.op == "mref" or not self.mrefs([a]) for a in args):
            # a function of the values before, also in what it leaves behind a `&mut`
            vals = [self.get(st, a.a[0], a.a[1]) if a.op == "mref" else a for a in args]
            v = mk("call", name, *vals)
            if t is not None and t.get("dt") is not None:
                self.typ(v, t["dt"])
            for n, (root, path) in enumerate(muts):
                self.set(st, root, path, mk("call", "%s'%d" % (name, n), *vals))
            self.outcome(st, v, t.get("dt") if t else None, name, F, bb)
            return [(st, v)]
        if muts or taint or not self.opaque_pure:
            v = self.fresh(F, st, bb, "ret:" + name)
            if taint:
                self.taints.add(v)
        else:
            v = mk("call", name, *args)
        if t is not None and t.get("dt") is not None:
            self.typ(v, t["dt"])
        for n, (root, path) in enumerate(muts):
            self.set(st, root, path, mk("sym", F.fid, st.ctx, bb, "after%d" % n))
        self.outcome(st, v, t.get("dt") if t else None, name, F, bb)
        return [(st, v)]

    def mrefs(self, args):
        out = []
        for a in args:
            for x in walk(a):
                if x.op == "mref" and (x.a[0], x.a[1]) not in out:
                    out.append((x.a[0], x.a[1]))
        return out

    def unknown(self, F, bb, t, info, args, st, user=False):
        """a call into code the analysis does not see"""
        p = norm(info.get("path", "")) if info["k"] == "fndef" else info["s"]
        rk = info.get("rkind")
        st = st.copy()
        isuser = rk in ("unresolved", "virtual") or info["k"] in ("param", "dyn", "fnptr")
        st.emit("user" if isuser else "std", p, tuple(args), F.inst.name)
        v = mk("sym", F.fid, st.ctx, bb, "ret:" + p, mk("args", *args), *(("arg",) if isuser else ()))
        if t.get("dt") is not None:
            self.typ(v, t["dt"])
        if not isuser:
            self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
            self.taints.add(v)
        for n, (root, path) in enumerate(self.mrefs(args)):
            w = mk("sym", F.fid, st.ctx, bb, "after%d" % n)
            if not isuser:
                self.taints.add(w)
            self.set(st, root, path, w)
        self.outcome(st, v, t.get("dt"), p, F, bb)
        return [(st, v)]

    def outcome(self, st, v, dty, what, F, bb):
        """remember that this value says whether a step succeeded"""
        if self.track and dty is not None:
            t = self.prog.types[dty]
            if t["k"] == "adt" and t["adt"] == "std::result::Result":
                e = self.prog.types[t["args"][1]] if len(t.get("args", ())) > 1 and isinstance(t["args"][1], int) else {"s": ""}
                st.emit("res", v, what, e.get("s", ""), "%s:%s" % (F.inst.name, bb))
                self.typ(fld(v, 0, 0), t["args"][0])

    def call_value(self, F, bb, fv, args, st, dty=None, tag=""):
        """call a closure or function value"""
        if fv.op == "mref":
            inner = self.get(st, fv.a[0], fv.a[1])
            if inner.op in ("clo", "fn"):
                return self.call_clo(F, bb, inner, args, st, dty, tag, fv)
            fv = inner
        return self.call_clo(F, bb, fv, args, st, dty, tag, None)

    def call_clo(self, F, bb, fv, args, st, dty, tag, ref):
        if fv.op == "clo":
            inst = self.prog.insts.get(fv.a[0])
            if inst is not None:
                sty = self.prog.types[inst.locals[1]["ty"]]
                self_ = fv
                root = None
                if sty["k"] == "ref" and sty.get("mut"):
                    if ref is not None:
                        self_ = ref
                    else:
                        root = ("c", F.fid, bb, tag)
                        st = st.copy()
                        st.mem[root] = fv
                        self_ = mk("mref", root, ())
                n = inst.nargs
                a = [self_] + list(args)
                if n != len(a) and n == 2 and len(args) != 1:
                    a = [self_, mk("tup", *args)]
                res = self.inline(F, bb, inst, a, st, tag="c" + tag)
                if root is not None:
                    for s, _ in res:
                        if s.mem.get(root) is not fv:
                            self.unmodelled["closure state"] = 1
                        s.mem.pop(root, None)
                return res
        if fv.op == "fn" and fv.a[0] is not None:
            info = self.prog.types[fv.a[0]]
            if info["k"] == "fndef":
                tt = {"f": fv.a[0], "a": [], "at": [], "d": [0, []], "dt": dty, "b": None, "t": "call", "sp": None}
                return self.invoke(F, "%sf%s" % (bb, tag), tt, info, list(args), st)
        st = st.copy()
        st.emit("user", "call", (fv,) + tuple(args), F.inst.name)
        v = mk("sym", F.fid, st.ctx, bb, "callret" + tag, fv)
        if dty is not None:
            self.typ(v, dty)
        for n, (root, path) in enumerate(self.mrefs(args)):
            self.set(st, root, path, mk("sym", F.fid, st.ctx, bb, "after%d%s" % (n, tag)))
        return [(st, v)]

    # ---------------------------------------------------------------- loops
    def mir_loop(self, F, h, st):
        inst = F.inst
        body = inst.loops()[h]
        livein, always = self.live(inst)
        lv = livein[h] | always

        def keep(r):
            return not (r[0] == "l" and r[1] == F.fid) or r[2] in lv

        def run(s):
            b, e, rets = self.region(F, h, s, body, h)
            ex = [(("bb", x), y) for x, y in e] + [(("ret",), y) for y in rets]
            return b, ex
        sp = inst.blocks[h]["t"].get("sp")
        res = self.generic_loop((F.fid, h, st.ctx), st, run, keep, inst.name, sp)
        out = []
        for tag, s in res:
            out.append((tag[1] if tag[0] == "bb" else None, s))
        return out

    def skel(self, st, keep, roots=None):
        out = []
        for r in sorted((r for r in st.mem if keep(r)), key=str):
            s = self.vskel(st.mem[r], 0)
            if s != "*":
                out.append((r, s))
        return tuple(out)

    def vskel(self, v, d):
        if v.op == "bool":
            return "T" if v.a[0] else "F"
        if d > 4:
            return "*"
        if v.op == "adt":
            t = "%d" % v.a[1]
            subs = [self.vskel(x, d + 1) for x in v.a[2:]]
            if self.isenum(v.a[0]):
                return (v.a[0].split("::")[-1] + t,) + tuple(subs)
            return ("s",) + tuple(subs) if any(s != "*" for s in subs) else "*"
        if v.op == "tup":
            subs = [self.vskel(x, d + 1) for x in v.a]
            return ("t",) + tuple(subs) if any(s != "*" for s in subs) else "*"
        if v.op in ITER:
            subs = [self.vskel(x, d + 1) for x in v.a if isinstance(x, T)]
            return (v.op,) + tuple(subs)
        if v.op == "clo":
            subs = [self.vskel(x, d + 1) for x in v.a[1:]]
            return ("c",) + tuple(subs) if any(s != "*" for s in subs) else "*"
        return "*"

    def isenum(self, adt):
        if adt in ("std::option::Option", "std::result::Result"):
            return True
        a = self.prog.adts.get(adt)
        return bool(a and a.get("kind") == "Enum") or bool(a and len(a.get("variants", [])) > 1) or adt == "std::ops::ControlFlow"

    def tguess(self, *ts):
        for t in ts:
            if t is None:
                continue
            if t.op == "len":
                return "usize"
            if t in tyof:
                return tyof[t]
            if t.op == "lin":
                g = self.tguess(*[x for x, _ in t.a[1]])
                if g:
                    return g
            if t.op == "str" or t.op == "disp":
                return "str"
            if t.op == "cat":
                return "str" if any(isstr(x) for x in t.a) else "seq"
            if t.op in ("lst", "mapseq", "rev", "upd"):
                return "seq"
            if t.op == "slice":
                g = self.tguess(t.a[0])
                if g:
                    return g
            if t.op == "fop":
                return "f64"
        return None

    def childty(self, tyi, v, k):
        """type of the k-th component of a structure of type tyi"""
        if isinstance(tyi, int):
            t = self.prog.types[tyi]
            n = 0
            while t["k"] == "ref" and n < 3:
                t = self.prog.types[t["to"]]
                n += 1
            if t["k"] == "adt" and v.op == "adt" and t.get("variants") and v.a[1] < len(t["variants"]):
                fs = t["variants"][v.a[1]]["fields"]
                if k - 2 < len(fs):
                    return fs[k - 2]["ty"]
            if t["k"] == "tuple" and isinstance(t.get("el"), list) and k < len(t["el"]):
                return t["el"][k]
            if t["k"] == "adt" and v.op == "adt" and t.get("args") and t["adt"] in ("std::option::Option",):
                return t["args"][0]
        if v.op in ITER:
            return "usize" if v.op != "range" else v.a[2]
        return None

    def gen(self, rec, q, root, path, old, new, s0, ty):
        """least general term covering old and new; changed parts become phi"""
        if old is new:
            return old
        if old is not None and old.op == "phi" and old.a[0] == rec.key and old.a[1] == q.n:
            return old
        if old is not None and new.op == "adt" and new.a[0] in STRUCTS and (old.op == "adt" and old.a[0] == new.a[0] or
                                                                         old.op not in ("adt", "phi", "uninit", "mref")):
            return mk("adt", *new.a[:2], *[self.gen(rec, q, root, path + (("sf", i),), fld(old, 0, i), x,
                                                    fld(s0, 0, i) if s0 is not None else None, self.childty(ty, new, i + 2))
                                           for i, x in enumerate(new.a[2:])])
        if old is not None and new.op == "upd" and old.op not in ("uninit", "phi", "mref") and (old is new.a[0] or old.op == "upd" and old.a[:2] == new.a[:2]) \
                and all(l in rec.base for l in leaves(new.a[1])):
            i = new.a[1]
            return mk("upd", new.a[0], i, self.gen(rec, q, root, path + (("el", i),), elem(old, i), new.a[2],
                                                   elem(s0, i) if s0 is not None else None, self.elty(ty) if isinstance(ty, int) else None))
        if old is not None and old.op == new.op and old.op in CONS and len(old.a) == len(new.a) and \
                all(x == y for x, y in zip(old.a, new.a) if not isinstance(x, T)):
            return mk(old.op, *[self.gen(rec, q, root, path + (k,), x, y, s0.a[k] if s0 is not None and s0.op == new.op and len(s0.a) == len(new.a) else None,
                                         self.childty(ty, new, k)) if isinstance(x, T) else x
                                for k, (x, y) in enumerate(zip(old.a, new.a))])
        p = mk("phi", rec.key, q.n, root, path)
        kind = ty if isinstance(ty, str) else (self.scalar(ty) if isinstance(ty, int) else None)
        typed(p, kind or self.tguess(old, new))
        q.phis[p] = (root, path)
        return p

    def gen1(self, rec, q, root, path, s0, new, ty):
        """template for a value that first arrives over a back edge"""
        if s0 is new or isconst(new):
            return new
        if new.op in CONS:
            same = s0 is not None and s0.op == new.op and len(s0.a) == len(new.a)
            return mk(new.op, *[self.gen1(rec, q, root, path + (k,), s0.a[k] if same and isinstance(s0.a[k], T) else None, x, self.childty(ty, new, k))
                                if isinstance(x, T) else x for k, x in enumerate(new.a)])
        if new.op in ("mref", "guard", "fn", "static", "uninit"):
            return new
        p = mk("phi", rec.key, q.n, root, path)
        kind = ty if isinstance(ty, str) else (self.scalar(ty) if isinstance(ty, int) else None)
        typed(p, kind or self.tguess(new))
        q.phis[p] = (root, path)
        return p

    def at(self, v, path):
        for k in path:
            if isinstance(k, tuple):
                v = fld(v, 0, k[1]) if k[0] == "sf" else elem(v, k[1])
                continue
            if not isinstance(v, T) or k >= len(v.a):
                return None
            v = v.a[k]
        return v

    def phivals(self, q, st):
        out = {}
        for p, (root, path) in q.phis.items():
            v = st.mem.get(root)
            if v is None:
                v = self.default_root(root)
            v = self.at(v, path)
            if v is None:
                return None
            out[p] = v
        return out

    def head(self, rec, q, s0):
        f = s0.facts.copy()
        for c in q.inv:
            f.add(c)
        st = State(dict(q.tmpl), f, s0.ev, s0.ctx)
        st.emit("loop", rec, q.n)
        return st

    def canunroll(self, s0, keep):
        for r, v in s0.mem.items():
            if not keep(r):
                continue
            if r[0] == "l" and not any(x.op in ("it", "range") for x in [v] + [y for y in v.a if isinstance(y, T)]) and v.op not in ITER:
                continue
            for x in walk(v):
                if x.op == "it" and x.a[1].op == x.a[2].op == "int" and x.a[2].a[0] - x.a[1].a[0] <= 16 and x.a[0].op in ("lst", "str", "mapseq", "enumseq"):
                    return True
                if x.op == "range" and x.a[0].op == x.a[1].op == "int" and 0 <= x.a[1].a[0] - x.a[0].a[0] <= 16:
                    return True
        return False

    def generic_loop(self, key, s0, body, keep, name, sp):
        if self.canunroll(s0, keep):
            r = self.unroll(s0, body, keep)
            if r is not None:
                return r
        if self.peel:
            return self.peeled(s0, body, keep, name, sp)
        rec = LoopRec(key, name, sp, s0)
        s0 = s0.copy()
        for r in list(s0.mem):
            if not keep(r):
                if r[0] == "l" and self.outer_ref(s0, r):
                    continue
                del s0.mem[r]
        rec.s0 = s0
        base = set()
        for v in s0.mem.values():
            base |= leaves(v)
        for b in s0.facts.all():
            base |= leaves(b)
        for p in list(base):
            if p.op == "phi" and p.a[0] == key:
                base.discard(p)
        rec.base = base
        parts = {}
        p0 = Part(0, self.skel(s0, keep))
        p0.tmpl = dict(s0.mem)
        parts[p0.skel] = p0
        obl0 = self.obl
        rounds = 0
        roots0 = set(s0.mem)

        def strip(b):
            for r in list(b.mem):
                if not keep(r) and r not in roots0:
                    del b.mem[r]
        last = []
        while True:
            rounds += 1
            if rounds > 12:
                raise Budget("loop in " + name)
            changed = False
            last = []
            for q in list(parts.values()):
                self.obl = []
                h = self.head(rec, q, s0)
                backs, exits = body(h)
                for b in backs:
                    strip(b)
                    sk = self.skel(b, keep)
                    w = parts.get(sk)
                    if w is None:
                        if len(parts) >= self.maxparts:
                            raise Budget("partitions of the loop in " + name)
                        w = Part(len(parts), sk)
                        for r, v in b.mem.items():
                            w.tmpl[r] = self.gen1(rec, w, r, (), s0.mem.get(r), v, self.rootty.get(r))
                        parts[sk] = w
                        changed = True
                    else:
                        for r in set(w.tmpl) | set(b.mem):
                            o = w.tmpl.get(r)
                            n = b.mem.get(r)
                            if o is None or n is None:
                                if r[0] == "l":
                                    # assigned on some arrivals only: undefined at the head
                                    if o is not None:
                                        del w.tmpl[r]
                                        changed = True
                                    continue
                                if o is None:
                                    o = self.default_root(r)
                                if n is None:
                                    n = self.default_root(r)
                            g = self.gen(rec, w, r, (), o, n, s0.mem.get(r), self.rootty.get(r))
                            if g is not w.tmpl.get(r):
                                w.tmpl[r] = g
                                changed = True
                    last.append((q, w, b))
            if not changed:
                break
        plist = list(parts.values())
        rec.parts = plist
        # prune phis no longer in the template
        for q in plist:
            live = set()
            for v in q.tmpl.values():
                live |= leaves(v)
            q.phis = {p: l for p, l in q.phis.items() if p in live}
        allphis = set()
        for q in plist:
            allphis |= set(q.phis)

        # ---- invariants
        arr = self.arrivals(p0, s0, last)
        for q in plist:
            self.addcands(q, self.candidates(rec, q, [a for a in arr if a[0] is q], s0, base, plist), base)
        for _ in range(4):
            final = self.houdini(rec, plist, p0, s0, body, strip, keep)
            fobl = self.obl
            backs_all, exits_all = final
            new = False
            arr = self.arrivals(p0, s0, backs_all)
            for q in plist:
                before = len(q.tried)
                self.addcands(q, self.candidates(rec, q, [a for a in arr if a[0] is q], s0, base, plist), base)
                # failing obligations become candidates
                for o in fobl:
                    if not o.ok and not o.taint:
                        self.addcands(q, [o.cond], base)
                for c in self.extra.get((key[0], key[1]), ()):
                    c = self.rename(c, q)
                    self.addcands(q, [c], base)
                if len(q.tried) > before:
                    new = True
            if not new:
                break
        rec.backs = [(a, b, s, self.phivals(b, s)) for a, b, s in backs_all]
        p0.init = self.phivals(p0, s0)
        exits_all = self.quantify(rec, plist, p0, s0, backs_all, exits_all, base)
        rec.exits = exits_all
        self.obl = obl0 + fobl
        self.recs.append(rec)
        return [(tag, s) for _, tag, s in exits_all]

    def quantify(self, rec, plist, p0, s0, backs, exits, base):
        """what held of every element already passed holds of all of them: the facts of the back
        edges, generalised over the position of an iterator or counter that moves by one"""
        heads, hfacts = {}, {}
        for q in plist:
            f = s0.facts.copy()
            for c in q.inv:
                f.add(c)
            heads[q] = set(f.all())
            hfacts[q] = f
        if not backs or not exits:
            return exits
        locs = set()
        for p, (root, path) in p0.phis.items():
            if isint(p):
                locs.add((root, path))
        for root, path in sorted(locs, key=str):
            phi = {}
            for q in plist:
                v = q.tmpl.get(root)
                v = self.at(v, path) if v is not None else None
                if not isinstance(v, T) or v.op != "phi":
                    break
                phi[q] = v
            if len(phi) != len(plist):
                continue
            init = self.at(s0.mem.get(root, UNIT), path)
            if init is None or not all(l in base for l in leaves(init)):
                continue
            bv = typed(mk("bv", 700), "usize")
            disj = []
            # the other counters that move in step with this one
            steps = {}
            for q in plist:
                m = {}
                for p2, (r2, path2) in q.phis.items():
                    if p2 is phi[q] or not isint(p2):
                        continue
                    i2 = self.at(s0.mem.get(r2, UNIT), path2)
                    if i2 is None or not isint(i2) or not all(l in base for l in leaves(i2)):
                        continue
                    e = add(phi[q], sub(i2, init))
                    if hfacts[q].eval(eqi(p2, e)) is True:
                        m[p2] = e
                    else:
                        e = sub(add(i2, init), phi[q])
                        if hfacts[q].eval(eqi(p2, e)) is True:
                            m[p2] = e
                steps[q] = m
            for q, w, s in backs:
                nv = self.at(s.mem.get(root, UNIT), path)
                if nv is not addc(phi[q], 1):
                    disj = None
                    break
                fs = []
                for f in s.facts.all():
                    if f in heads[q] or f.op == "allq":
                        continue
                    if steps[q]:
                        f = subst(f, steps[q])
                    if f.op == "bool" or phi[q] not in leaves(f):
                        continue
                    g = subst(f, {phi[q]: bv})
                    if all(l in base or l is bv for l in leaves(g)):
                        if g.op in ("le0",) and not any(x.op in ("elem", "call", "fld") for x in walk(g)):
                            continue        # the range condition itself
                        fs.append(g)
                fs = tuple(fs)
                if fs not in disj:
                    disj.append(fs)
            if not disj or any(not d for d in disj) or len(disj) > 12:
                continue
            out = []
            for n, tag, s in exits:
                q = next(x for x in plist if x.n == n)
                s = s.copy()
                aq = mk("allq", init, phi[q], bv, tuple(disj))
                s.facts = s.facts.copy()
                s.facts.add(aq)
                if self.instpoints(s, aq):
                    out.append((n, tag, s))
            exits = out
        return exits

    def instpoints(self, s, aq):
        """use a quantified fact at the positions the sequences it speaks of single out"""
        lo, hi, bv, disj = aq.a
        pts = []
        for d in disj:
            for f in d:
                for x in walk(f):
                    if x.op == "elem" and x.a[1] is bv:
                        b = x.a[0]
                        if b.op == "upd":
                            pts.append(b.a[1])
                        if b.op == "cat":
                            off = ZERO
                            for y in b.a:
                                if y.op == "lst":
                                    pts += [addc(off, i) for i in range(len(y.a))]
                                off = add(off, len_(y))
        for p in list(dict.fromkeys(pts))[:6]:
            if s.facts.instance(p, aq) is False:
                return False
        return True

    def rename(self, c, q):
        """a condition on another partition's values, stated for this partition"""
        here = {l: p for p, l in q.phis.items()}
        m = {}
        for l in leaves(c):
            if l.op == "phi" and l not in q.phis:
                p = here.get((l.a[2], l.a[3]))
                if p is not None and p.a[0][:2] == l.a[0][:2]:
                    m[l] = p
        return subst(c, m) if m else c

    def outer_ref(self, st, r):
        """is a dead local still reachable through a mutable reference held elsewhere?"""
        for k, v in st.mem.items():
            if k == r:
                continue
            for x in walk(v):
                if x.op == "mref" and x.a[0] == r:
                    return True
        return False

    def unroll(self, s0, body, keep):
        states = [s0]
        exits = []
        save = self.obl
        self.obl = []
        steps0 = self.steps
        for k in range(18):
            nxt = []
            for s in states:
                s = s.copy()
                s.ctx = s.ctx + "#%d" % k
                b, e = body(s)
                exits += e
                nxt += b
            if len(nxt) > 48 or len(exits) > 96:
                break
            states = nxt
            if not states:
                for t, s in exits:
                    s.ctx = s0.ctx
                self.obl = save + self.obl
                return exits
        self.obl = save
        return None

    def peeled(self, s0, body, keep=None, name=None, sp=None):
        """the first passes only: an under-approximation, used to confirm what the fixpoint could not prove"""
        states, exits = [s0], []
        for k in range(self.peel):
            nxt = []
            for s in states:
                s = s.copy()
                s.ctx = s.ctx + "#%d" % k
                b, e = body(s)
                if self.passes is not None:
                    self.passes += [(name, sp, keep, s, x) for x in b]
                exits += e
                nxt += b
            states = nxt[:160]
        for t, s in exits:
            s.ctx = s0.ctx
        return exits[:400]

    def arrivals(self, p0, s0, backs):
        out = []
        v = self.phivals(p0, s0)
        if v is not None:
            out.append((p0, s0, v))
        for q, w, b in backs:
            v = self.phivals(w, b)
            if v is not None:
                out.append((w, b, v))
        return out

    def addcands(self, q, cs, base):
        for c in cs:
            if c.op == "bool" or c in q.tried:
                continue
            ls = leaves(c)
            if not any(p in q.phis for p in ls):
                continue
            if not all(p in q.phis or p in base or p.op == "bv" for p in ls):
                continue
            q.tried.add(c)
            q.inv.append(c)

    def candidates(self, rec, q, arr, s0, base, plist):
        out = []
        ints = []
        for p in q.phis:
            if isint(p):
                ints.append((p, lambda v, p=p: v.get(p)))
            if tyof.get(p) in ("seq", "str"):
                ints.append((typed(len_(p), "usize"), lambda v, p=p: len_(v[p]) if v.get(p) is not None else None))
        ok = lambda t: t is not None and all(l in base for l in leaves(t))
        for n, (t, val) in enumerate(ints):
            for _, s, v in arr:
                x = val(v)
                if ok(x):
                    out += [le(x, t), le(t, x)]
                elif x is not None and s.facts.eval(le(ONE, x)) is True:
                    out.append(le(ONE, t))
            for t2, val2 in ints[n + 1:]:
                for _, s, v in arr:
                    x, y = val(v), val2(v)
                    if x is None or y is None:
                        continue
                    d = sub(x, y)
                    if ok(d):
                        out += [le(sub(t, t2), d), le(d, sub(t, t2))]
                    sm = add(x, y)
                    if ok(sm):
                        out += [le(add(t, t2), sm), le(sm, add(t, t2))]
        for v in q.tmpl.values():
            for x in walk(v):
                if x.op == "it":
                    out += [le(x.a[1], len_(x.a[0])), le(x.a[1], x.a[2]), le(x.a[2], len_(x.a[0]))]
                if x.op == "range":
                    out += [le(x.a[0], x.a[1])]
                if x.op in ("chars", "charidx"):
                    out += [le(x.a[1], x.a[2]), bnd(x.a[0], x.a[1]), bnd(x.a[0], x.a[2])]
        basekeys = s0.facts
        for _, s, v in arr:
            out += self.project(s.facts, v, basekeys, base, q)
        return out

    def project(self, facts, vals, base_facts, base, q):
        m = {}
        new = {}
        for p, v in vals.items():
            if v is p or isconst(v):
                continue
            np_ = mk("phi", "new", p)
            if p in tyof:
                tyof[np_] = tyof[p]
            new[np_] = p
            if v.op == "lin":
                c, d = v.a
                pick = None
                for t, k in d:
                    if k in (1, -1) and not all(l in base for l in leaves(t)) and t not in m:
                        pick = (t, k)
                        break
                if pick:
                    t, k = pick
                    rest = sub(v, mulc(t, k))
                    m[t] = mulc(sub(np_, rest), k)
            elif v not in m:
                m[v] = np_
        # a phi that kept its value stays itself
        for p, v in vals.items():
            if v is p and p not in m:
                np_ = mk("phi", "new", p)
                if p in tyof:
                    tyof[np_] = tyof[p]
                new[np_] = p
                m[p] = np_
        out = []
        allowed = base | set(new)
        n = 0
        for f in facts.all():
            ls = leaves(f)
            if all(l in base for l in ls):
                continue
            g = subst(f, m)
            gl = leaves(g)
            if all(l in allowed for l in gl) and any(l in new for l in gl):
                out.append(subst(g, new))
                n += 1
                if n > 60:
                    break
        return out

    def houdini(self, rec, plist, p0, s0, body, strip, keep):
        for rnd in range(25):
            self.obl = []
            backs_all, exits_all = [], []
            removed = False
            for q in plist:
                h = self.head(rec, q, s0)
                backs, exits = body(h)
                for b in backs:
                    strip(b)
                    w = next((x for x in plist if x.skel == self.skel(b, keep)), None)
                    if w is None:
                        raise Budget("unstable partition in " + rec.inst)
                    backs_all.append((q, w, b))
                exits_all += [(q.n, t, s) for t, s in exits]
            for (w, s, v) in self.arrivals(p0, s0, backs_all):
                keepc = []
                for c in w.inv:
                    g = subst(c, v)
                    if s.facts.eval(g) is True:
                        keepc.append(c)
                    else:
                        removed = True
                w.inv = keepc
            if not removed:
                return backs_all, exits_all
        raise Budget("invariants in " + rec.inst)

    def native_loop(self, F, bb, tag, st, vars_, types, body):
        """loop of a library consumer: vars_ are its state variables; body(state, roots) -> (backs, exits)"""
        roots = {n: ("n", F.fid, bb, tag, n) for n in vars_}
        st = st.copy()
        for n, v in vars_.items():
            st.mem[roots[n]] = v
            if types.get(n) is not None:
                self.rootty[roots[n]] = types[n]
        res = self.generic_loop((F.fid, "%s:%s" % (bb, tag), st.ctx), st, lambda s: body(s, roots), lambda r: True, F.inst.name,
                                F.inst.blocks[bb]["t"].get("sp") if isinstance(bb, int) else None)
        out = []
        for t, s in res:
            s = s.copy()
            vals = {n: s.mem.pop(r, None) for n, r in roots.items()}
            out.append((t, s, vals))
        return out
