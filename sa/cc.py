"""Congruence closure over path facts: equalities of terms, variants of enums, and which
literals remain uninterpreted."""
from .absdom import lin_of
from .terms import *

FIELDISH = ("sym", "fld", "elem", "discr")
# functions that send different values to the same one
MANYONE = ("trim", "len", "lower", "upper", "abs", "fclass")


class CC:
    def __init__(self, lits, prog=None, roots=None):
        """lits: (boolean term, truth); roots: types of the arguments, by term"""
        self.prog = prog
        self.roots = roots or {}
        self.par = {}
        self.terms = []
        self.ne = []
        self.other = []         # (term, truth): uninterpreted
        self.doms = []
        les = {b.a[0] for b, v in lits if b.op == "le0" and v}
        for b, v in lits:
            if b.op == "le0" and v and mulc(b.a[0], -1) in les:
                b = mk("eq0", b.a[0])
            self.lit(b, v)
        self.close()

    def add(self, t):
        if t in self.par:
            return
        self.par[t] = t
        self.terms.append(t)
        for x in t.a:
            self._addany(x)

    def _addany(self, x):
        if isinstance(x, T):
            self.add(x)
        elif isinstance(x, tuple):
            for y in x:
                self._addany(y)

    def find(self, t):
        self.add(t)
        while self.par[t] is not t:
            self.par[t] = self.par[self.par[t]]
            t = self.par[t]
        return t

    def merge(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return False
        if b.op in ("int", "adt", "str", "bool", "float", "tup", "lst"):
            a, b = b, a
        self.par[b] = a
        return True

    def lit(self, b, v):
        if b.op == "bool":
            if b.a[0] != v:
                self.ne.append((b, b))
            return
        if b.op == "not":
            return self.lit(b.a[0], not v)
        if b.op == "and" and v:
            self.lit(b.a[0], True)
            return self.lit(b.a[1], True)
        if b.op == "or" and not v:
            self.lit(b.a[0], False)
            return self.lit(b.a[1], False)
        p = None
        if b.op == "eq":
            p = b.a
        elif b.op == "eq0":
            c, d = lin_of(b.a[0])
            it = sorted(d.items(), key=lambda z: z[1])
            if c == 0 and len(it) == 2 and it[0][1] == -1 and it[1][1] == 1:
                p = (it[1][0], it[0][0])
            elif len(it) == 1 and abs(it[0][1]) == 1:
                p = (self.scalar(it[0][0]), INT(-c * it[0][1]))
        elif b.op == "isv":
            p = (typed(mk("discr", b.a[0]), "isize"), INT(b.a[1]))
        if p:
            self.add(p[0])
            self.add(p[1])
            if v:
                self.merge(*p)
            else:
                self.ne.append(p)
            return
        if b.op in ("indom", "notindom"):
            pos = (b.op == "indom") == v
            t = b.a[0]
            t = self.scalar(t)
            self.add(t)
            if pos and len(b.a[1]) == 1:
                self.add(INT(b.a[1][0]))
                self.merge(t, INT(b.a[1][0]))
            self.doms.append((t, pos, frozenset(b.a[1])))
            return
        self._addany(b)
        self.other.append((b, v))

    def scalar(self, t):
        if self.prog is not None and len(self.shape(t) or ()) > 1 or not isint(t):
            return typed(mk("discr", t), "isize")
        return t

    def shape(self, t):
        """the variants of a value whose fields are all of it, None if not such a type"""
        i = self.type(t)
        if i is None:
            return None
        ty = self.prog.types[i]
        if ty["k"] == "adt" and (ty.get("local") or ty["adt"] in ("std::option::Option", "std::result::Result")):
            return ty.get("variants")
        return None

    def type(self, t):
        i = self.roots.get(t)
        if i is None and t.op == "fld" and isinstance(t.a[0], T):
            v = self.shape(t.a[0])
            if v and t.a[1] < len(v) and t.a[2] < len(v[t.a[1]]["fields"]):
                i = v[t.a[1]]["fields"][t.a[2]]["ty"]
        while i is not None and self.prog.types[i]["k"] == "ref":
            i = self.prog.types[i]["to"]
        return i

    def variant(self, t, n):
        if n == 1:
            return 0
        d = mk("discr", t)
        if d not in self.par:
            return None
        c = self.find(d)
        return c.a[0] if c.op == "int" else None

    def extend(self):
        """values with the same variant and the same fields are the same"""
        ch = False
        by = {}
        for t in list(self.terms):
            if t.op in ("sym", "fld"):
                v = self.shape(t)
                if v:
                    by.setdefault(self.type(t), []).append((t, v))
        for ts in by.values():
            for n, (x, v) in enumerate(ts):
                for y, _ in ts[:n]:
                    if self.find(x) is self.find(y):
                        continue
                    k = self.variant(x, len(v))
                    if k is None or k != self.variant(y, len(v)) or k >= len(v):
                        continue
                    new = len(self.terms)
                    fs = [(fld(x, k, i), fld(y, k, i)) for i in range(len(v[k]["fields"]))]
                    for p in fs:
                        self.add(p[0])
                        self.add(p[1])
                    if len(self.terms) != new:
                        ch = True
                        continue
                    if all(self.find(p) is self.find(q) for p, q in fs):
                        ch |= self.merge(x, y)
        return ch

    def narrow(self):
        """variants left over by exclusion"""
        ch = False
        for t, p, s in list(self.doms):
            if t.op != "discr":
                continue
            v = self.shape(t.a[0])
            if not v:
                continue
            left = set(range(len(v)))
            for t2, p2, s2 in self.doms:
                if self.find(t2) is self.find(t):
                    left = left & s2 if p2 else left - s2
            if len(left) == 1:
                k = INT(min(left))
                self.add(k)
                ch |= self.merge(t, k)
            elif not left:
                self.ne.append((t, t))
        return ch

    def sig(self, t):
        def s(x):
            if isinstance(x, T):
                return self.find(x)
            if isinstance(x, tuple):
                return tuple(s(y) for y in x)
            return x
        return (t.op,) + tuple(s(x) for x in t.a)

    def close(self):
        ch = True
        while ch:
            ch = self.prog is not None and (self.narrow() | self.extend())
            table = {}
            byc = {}
            for t in list(self.terms):
                if t.a and any(isinstance(x, (T, tuple)) for x in t.a):
                    k = self.sig(t)
                    o = table.get(k)
                    if o is None:
                        table[k] = t
                    elif self.find(o) is not self.find(t):
                        ch |= self.merge(o, t)
                if t.op in ("adt", "tup"):
                    byc.setdefault(self.find(t), []).append(t)
            for c, ts in byc.items():
                for u in ts[1:]:
                    o = ts[0]
                    if o.op == u.op and len(o.a) == len(u.a) and (o.op == "tup" or o.a[:2] == u.a[:2]):
                        for x, y in zip(o.a, u.a):
                            if isinstance(x, T) and isinstance(y, T):
                                ch |= self.merge(x, y)
            for t in list(self.terms):
                if t.op == "fld" and isinstance(t.a[0], T):
                    for u in byc.get(self.find(t.a[0]), ()):
                        x = fld(u, t.a[1], t.a[2])
                        if x is not t:
                            ch |= self.merge(x, t)
                elif t.op == "discr":
                    for u in byc.get(self.find(t.a[0]), ()):
                        if u.op == "adt":
                            ch |= self.merge(INT(u.a[1]), t)

    def equal(self, a, b):
        n = len(self.terms)
        self.add(a)
        self.add(b)
        if len(self.terms) != n:
            self.close()
        return self.find(a) is self.find(b)

    def consistent(self):
        consts = {}
        vars_ = {}
        for t in self.terms:
            if t.op in ("int", "str", "bool"):
                c = self.find(t)
                if consts.setdefault(c, t) is not t:
                    return False
            if t.op == "adt":
                c = self.find(t)
                if vars_.setdefault(c, t.a[1]) != t.a[1]:
                    return False
        for a, b in self.ne:
            if self.find(a) is self.find(b):
                return False
        pos = {}
        for t, p, s in self.doms:
            c = self.find(t)
            k = consts.get(c)
            if k is not None and (k.a[0] in s) != p:
                return False
            o = pos.get(c)
            if p:
                pos[c] = s if o is None else o & s
        for t, p, s in self.doms:
            c = self.find(t)
            if not p and c in pos:
                pos[c] = pos[c] - s
        if any(not s for s in pos.values()):
            return False
        seen = {}
        for b, v in self.other:
            k = self.sig(b)
            if seen.setdefault(k, v) != v:
                return False
        return True

    def simple(self):
        """only equalities between parts of the arguments (or of what many values are sent to)"""
        def ok(t):
            if t.op in ("int", "str", "bool", "float"):
                return True
            if t.op == "sym":
                return "arg" in t.a or "free" in t.a
            if t.op in FIELDISH or t.op in MANYONE:
                return all(ok(x) for x in t.a if isinstance(x, T))
            return False
        if self.other:
            return False
        return all(ok(t) for p in self.ne for t in p) and all(ok(t) for t in self.terms if t.op not in ("adt", "tup"))
