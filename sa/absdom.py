"""The abstract domain of path facts: linear inequalities over integer terms (with
Fourier-Motzkin entailment), finite value sets of discriminants, order facts of floats,
character-boundary facts of strings, and opaque literals."""
from math import gcd
from .terms import *


def _norm(c, d):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)
    return c, d


def infeasible(cons, limit=600):
    """Is the conjunction of (c, {v: k}) meaning c + sum k*v <= 0 without integer solution?"""
    rows = {}
    for c, d in cons:
        c, d = _norm(c, d)
        if not d:
            if c > 0:
                return True
            continue
        key = frozenset(d.items())
        if key not in rows or rows[key][0] < c:
            rows[key] = (c, d)
    while True:
        vars_ = {}
        for c, d in rows.values():
            for v, k in d.items():
                p, n = vars_.get(v, (0, 0))
                vars_[v] = (p + (k > 0), n + (k < 0))
        if not vars_:
            return False
        v = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], x.id))
        pos, neg, rest = [], [], {}
        for key, (c, d) in rows.items():
            k = d.get(v, 0)
            if k > 0:
                pos.append((c, d, k))
            elif k < 0:
                neg.append((c, d, -k))
            else:
                rest[key] = (c, d)
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                d = {}
                for t, k in d1.items():
                    d[t] = k * k2
                for t, k in d2.items():
                    d[t] = d.get(t, 0) + k * k1
                d = {t: k for t, k in d.items() if k}
                c, d = _norm(c1 * k2 + c2 * k1, d)
                if not d:
                    if c > 0:
                        return True
                    continue
                key = frozenset(d.items())
                if key not in rest or rest[key][0] < c:
                    rest[key] = (c, d)
        rows = rest


class Facts:
    __slots__ = ("lits", "lin", "dom", "ne", "cache", "imp")

    def __init__(self):
        self.lits = {}      # atom -> bool
        self.lin = {}       # linear term e (e <= 0) -> None, in order
        self.dom = {}       # term -> (True, allowed) | (False, excluded) discriminants / scalars
        self.ne = {}        # linear term e != 0
        self.imp = {}       # (atom, truth) -> list of bool terms implied (used for summaries)
        self.cache = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.lits = dict(self.lits)
        f.lin = dict(self.lin)
        f.dom = dict(self.dom)
        f.ne = dict(self.ne)
        f.imp = self.imp
        f.cache = {}
        return f

    def key(self):
        return (frozenset(self.lits.items()), frozenset(self.lin), frozenset(self.dom.items()), frozenset(self.ne))

    # ---- quantified facts
    def instance(self, idx, aq=None):
        """use the quantified facts at a position (in place); False if that is contradictory"""
        for q in ([aq] if aq is not None else [l for l, v in self.lits.items() if v and l.op == "allq"]):
            lo, hi, bv, disj = q.a
            if self.eval(le(lo, idx)) is not True or self.eval(lt(idx, hi)) is not True:
                continue
            ok = []
            for d in disj:
                fs = [subst(f, {bv: idx}) for f in d]
                if any(self.eval(f) is False for f in fs):
                    continue
                ok.append(fs)
            if not ok:
                return False
            for f in ok[0]:
                if all(f in o for o in ok[1:]) and self.eval(f) is None:
                    self.add(f)
        return True

    # ---- listing as boolean terms
    def all(self):
        for a, v in self.lits.items():
            yield a if v else not_(a)
        for e in self.lin:
            yield le0(e)
        for e in self.ne:
            yield not_(eqi(e, ZERO))
        for t, (pos, s) in self.dom.items():
            yield mk("indom" if pos else "notindom", t, tuple(sorted(s)))

    # ---- linear reasoning
    def _rows(self, goal):
        """constraints connected with the goal's variables"""
        from .terms import implicit
        gvars = set(goal)
        todo = [lin_of(e) for e in self.lin]
        sel = []
        seen = set()
        work = list(gvars)
        byvar = {}
        for n, (c, d) in enumerate(todo):
            for v in d:
                byvar.setdefault(v, []).append(n)
        used = set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            lo, hi = implicit(v)
            dm = self.dom.get(v)
            if dm and dm[0] and dm[1]:
                lo = max(lo, min(dm[1])) if lo is not None else min(dm[1])
                hi = min(hi, max(dm[1])) if hi is not None else max(dm[1])
            if v.op == "utf8len":
                # one byte exactly when the character is ASCII
                c = v.a[0]
                chi = self.upper(c)
                if chi is not None and chi < 0x80:
                    hi = 1
            if lo is not None:
                sel.append((lo, {v: -1}))
            if hi is not None:
                sel.append((-hi, {v: 1}))
            for n in byvar.get(v, ()):
                if n not in used:
                    used.add(n)
                    sel.append(todo[n])
                    work.extend(todo[n][1])
        return sel, seen

    def upper(self, t):
        k = ("up", t)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = None
        dm = self.dom.get(t)
        hi = implicit(t)[1]
        if t.op == "int":
            hi = t.a[0]
        if dm and dm[0] and dm[1]:
            hi = max(dm[1])
        for e in self.lin:
            c, d = lin_of(e)
            if len(d) == 1 and d.get(t, 0) > 0:
                x = (-c) // d[t]
                hi = x if hi is None else min(hi, x)
        self.cache[k] = hi
        return hi

    def ent_le0(self, e):
        """facts |= e <= 0"""
        c, d = lin_of(e)
        if not d:
            return c <= 0
        if e in self.lin:
            return True
        k = ("le", e)
        r = self.cache.get(k)
        if r is None:
            rows, seen = self._rows(d)
            neg = (1 - c, {t: -x for t, x in d.items()})
            r = infeasible(rows + [neg])
            if not r and self.ne:
                extra = []
                for q in self.ne:
                    qc, qd = lin_of(q)
                    if not (set(qd) & seen):
                        continue
                    # q <= 0 known: then q <= -1; q >= 0 known: then q >= 1
                    if infeasible(rows + [(1 - qc, {t: -x for t, x in qd.items()})]):
                        extra.append((qc + 1, qd))
                    elif infeasible(rows + [(qc + 1, qd)]):
                        extra.append((1 - qc, {t: -x for t, x in qd.items()}))
                if extra:
                    r = infeasible(rows + extra + [neg])
            self.cache[k] = r
        return r

    def inconsistent(self):
        for e in list(self.lin):
            c, d = lin_of(e)
            rows, seen = self._rows(d)
            if infeasible(rows):
                return True
            for _ in range(6):
                extra = []
                for q in self.ne:
                    qc, qd = lin_of(q)
                    if not (set(qd) & seen):
                        continue
                    neg = {t: -x for t, x in qd.items()}
                    lo = infeasible(rows + [(qc + 1, qd)])        # q >= 0
                    hi = infeasible(rows + [(1 - qc, neg)])       # q <= 0
                    x = (qc + 1, qd) if hi else (1 - qc, neg) if lo else None
                    if lo and hi:
                        return True
                    if x and not infeasible(rows + [(1 - x[0], {t: -y for t, y in x[1].items()})]):
                        extra.append(x)
                if not extra:
                    break
                rows = rows + extra
                if infeasible(rows):
                    return True
        return False

    # ---- entailment of a boolean term: True / False / None
    def eval(self, b):
        op = b.op
        if op == "bool":
            return b.a[0]
        k = ("ev", b)
        if k in self.cache:
            return self.cache[k]
        r = self._eval(b)
        self.cache[k] = r
        return r

    def _eval(self, b):
        op = b.op
        if op == "not":
            r = self.eval(b.a[0])
            return None if r is None else not r
        if op == "and":
            x, y = self.eval(b.a[0]), self.eval(b.a[1])
            return False if x is False or y is False else True if x and y else None
        if op == "or":
            x, y = self.eval(b.a[0]), self.eval(b.a[1])
            return True if x or y else False if x is False and y is False else None
        if op == "le0":
            if self.ent_le0(b.a[0]):
                return True
            if self.ent_le0(addc(mulc(b.a[0], -1), 1)):
                return False
            return None
        if op == "eq0":
            e = b.a[0]
            if e in self.ne or mulc(e, -1) in self.ne:
                return False
            c, d = lin_of(e)
            if len(d) == 1:
                (t, k), = d.items()
                dm = self.dom.get(t)
                if dm and k in (1, -1):
                    v = -c * k
                    if dm[0] and v not in dm[1]:
                        return False
                    if not dm[0] and v in dm[1]:
                        return False
            a1 = self.ent_le0(e)
            a2 = self.ent_le0(mulc(e, -1))
            if a1 and a2:
                return True
            if a1 and self.ent_le0(addc(e, 1)):
                return False
            if a2 and self.ent_le0(addc(mulc(e, -1), 1)):
                return False
            if self.ent_le0(addc(e, 1)) or self.ent_le0(addc(mulc(e, -1), 1)):
                return False
            return None
        if op in ("indom", "notindom"):
            t, vals = b.a
            r = self._indom(t, set(vals))
            return r if op == "indom" else (None if r is None else not r)
        if op == "isv":
            return self._indom(b.a[0], {b.a[1]})
        if op == "fcmp":
            r = self._feval(b)
            if r is not None:
                return r
            return self.lits.get(b)
        if op == "bnd":
            if self.lits.get(b):
                return True
            s, e = b.a
            if self.eval(eqi(e, len_(s))) or self.eval(eqi(e, ZERO)):
                return True
            cand = [f.a[1] for f, v in self.lits.items() if v and f.op == "bnd" and f.a[0] is s]
            for f in cand:
                d = sub(e, f)
                c, dd = lin_of(d)
                if not dd:
                    if c == 0:
                        return True
                    continue
                if self.eval(eqi(e, f)):
                    return True
            return None
        if op == "contains":
            r = self.lits.get(b)
            if r is not None:
                return r
            s, p = b.a
            if p.op == "str":
                for f, v in self.lits.items():
                    if v and f.op in ("starts", "ends", "contains", "eq"):
                        for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0]))[:2 if f.op == "eq" else 1]:
                            if y.op == "str" and p.a[0] in y.a[0] and part_of(x, s):
                                return True
            return None
        if op == "eq":
            r = self.lits.get(b)
            if r is not None:
                return r
            x, y = b.a
            if x.op == "str":
                x, y = y, x
            # x == c1 known and c1 != c2
            if isconst(y):
                for f, v in self.lits.items():
                    if v and f.op == "eq" and (f.a[0] is x or f.a[1] is x):
                        o = f.a[1] if f.a[0] is x else f.a[0]
                        if isconst(o) and o is not y:
                            return False
            if x.op not in ("adt",) and y.op not in ("adt",) and (isseq(x) and isseq(y)):
                if self.eval(eqi(len_(x), len_(y))) is False:
                    return False
            return None
        return self.lits.get(b)

    def _indom(self, t, vals):
        if t.op == "int":
            return t.a[0] in vals
        if t.op == "bool":
            return (1 if t.a[0] else 0) in vals
        if t.op == "adt":
            return t.a[1] in vals
        dm = self.dom.get(t)
        if dm:
            pos, s = dm
            if pos:
                if s <= vals:
                    return True
                if not (s & vals):
                    return False
            else:
                if vals <= s:
                    return False
        if isint(t):
            ks = [self.eval(eqi(t, INT(v))) for v in vals]
            if any(ks):
                return True
            if all(k is False for k in ks):
                return False
        return None

    # ---- floats
    def _feval(self, b):
        op, x, y = b.a
        strict, weak, notnan, nan = self._fgraph((x, y))

        def isnan(t):
            return t in nan or t.op == "nan"

        def ok(t):
            return t in notnan or t.op == "float"

        if isnan(x) or isnan(y):
            return False

        def path(a, c):
            """0: none, 1: a<=c, 2: a<c"""
            best = {a: 1}
            work = [a]
            while work:
                u = work.pop()
                nxt = [(v, 1) for v in weak.get(u, ())] + [(v, 2) for v in strict.get(u, ())]
                nodes = self.cache["fnodes"]
                if u.op == "float":
                    for v in nodes | {x, y}:
                        if v.op == "float" and v is not u and u.a[0] <= v.a[0]:
                            nxt.append((v, 2 if u.a[0] < v.a[0] else 1))
                for v, w in nxt:
                    w2 = max(w, best[u])
                    if best.get(v, 0) < w2:
                        best[v] = w2
                        work.append(v)
            return best.get(c, 0)
        p, q = path(x, y), path(y, x)
        both = ok(x) and ok(y)
        # infinities bound everything that is a number
        inf = float("inf")
        if y.op == "float" and y.a[0] == inf and ok(x) and p == 0:
            p = 1
        if x.op == "float" and x.a[0] == -inf and ok(y) and p == 0:
            p = 1
        if x is y:
            p = q = max(p, 1) if ok(x) else 0
        if op == "lt":
            if p == 2:
                return True
            if q >= 1:
                return False
        elif op == "le":
            if p >= 1 and both:
                return True
            if q == 2:
                return False
        elif op == "eq":
            if p >= 1 and q >= 1 and both:
                return True
            if p == 2 or q == 2:
                return False
        return None

    def _fgraph(self, more=()):
        fops = [t for t in more if t.op == "fop" and t.a[0] in ("min", "max", "clamp")]
        key = ("fg",) + tuple(fops)
        g = self.cache.get(key)
        if g:
            self.cache["fnodes"] = g[4]
            return g[:4]
        strict, weak, notnan, nan = {}, {}, set(), set()
        nodes = set()
        fl = [(f.a, v) for f, v in self.lits.items() if f.op == "fcmp"]
        for (op, a, b), v in fl:
            nodes |= {a, b}
            fops += [t for t in (a, b) if t.op == "fop" and t.a[0] in ("min", "max", "clamp") and t not in fops]
            if v:
                notnan |= {a, b}
                if op == "lt":
                    strict.setdefault(a, set()).add(b)
                else:
                    weak.setdefault(a, set()).add(b)
                    if op == "eq":
                        weak.setdefault(b, set()).add(a)
        for f, v in self.lits.items():
            if f.op == "fnan":
                (nan if v else notnan).add(f.a[0])
        for (op, a, b), v in fl:
            if not v and (a in notnan or a.op == "float") and (b in notnan or b.op == "float"):
                if op == "lt":
                    weak.setdefault(b, set()).add(a)
                elif op == "le":
                    strict.setdefault(b, set()).add(a)
        def known(t):
            return t in notnan or t.op == "float" and t.a[0] == t.a[0]
        for t in fops:
            xs = t.a[1:]
            nodes |= {t} | set(xs)
            if t.a[0] in ("min", "max"):
                if any(known(x) for x in xs):
                    notnan.add(t)
                for x in xs:
                    if known(x):
                        a, b = (t, x) if t.a[0] == "min" else (x, t)
                        weak.setdefault(a, set()).add(b)
            elif known(xs[0]):
                notnan.add(t)
                weak.setdefault(xs[1], set()).add(t)
                weak.setdefault(t, set()).add(xs[2])
        g = (strict, weak, notnan, nan)
        self.cache["fnodes"] = nodes
        self.cache[key] = g + (nodes,)
        return g

    # ---- assuming
    def assume(self, b, truth=True):
        """list of facts (several when the condition is a disjunction); [] if impossible"""
        if not truth:
            if b.op == "and":
                return self.copy().assume(not_(b.a[0])) + [g for f in self.copy().assume(b.a[0]) for g in f.assume(not_(b.a[1]))]
            if b.op == "or":
                return [g for f in self.assume(not_(b.a[0])) for g in f.assume(not_(b.a[1]))]
            if b.op == "not":
                return self.assume(b.a[0])
        else:
            if b.op == "and":
                return [g for f in self.assume(b.a[0]) for g in f.assume(b.a[1])]
            if b.op == "or":
                return self.copy().assume(b.a[0]) + [g for f in self.copy().assume(not_(b.a[0])) for g in f.assume(b.a[1])]
            if b.op == "not":
                return self.assume(b.a[0], False)
        e = self.eval(b)
        if e is not None:
            return [self] if e == truth else []
        f = self.copy()
        f.add(b, truth)
        return [f]

    def add(self, b, truth=True):
        """record a fact without checking (in place)"""
        op = b.op
        self.cache = {}
        if op == "bool":
            return
        if op == "not":
            return self.add(b.a[0], not truth)
        if op == "and" and truth:
            self.add(b.a[0])
            self.add(b.a[1])
            return
        if op == "or" and not truth:
            self.add(b.a[0], False)
            self.add(b.a[1], False)
            return
        if op == "le0":
            x = b if truth else not_(b)
            if x.op == "le0":
                self.lin[x.a[0]] = None
            return
        if op == "eq0":
            e = b.a[0]
            if truth:
                self.lin[e] = None
                self.lin[mulc(e, -1)] = None
                c, d = lin_of(e)
                if len(d) == 1:
                    (t, k), = d.items()
                    if k in (1, -1):
                        self.dom[t] = (True, frozenset([-c * k]))
            else:
                self.ne[e] = None
            return
        if op in ("indom", "notindom", "isv"):
            t = b.a[0]
            vals = frozenset([b.a[1]] if op == "isv" else b.a[1])
            pos = (op != "notindom") == truth
            dm = self.dom.get(t)
            if pos:
                if dm:
                    vals = (vals & dm[1]) if dm[0] else (vals - dm[1])
                self.dom[t] = (True, vals)
            else:
                if dm and dm[0]:
                    self.dom[t] = (True, dm[1] - vals)
                else:
                    self.dom[t] = (False, vals | (dm[1] if dm else frozenset()))
                if isint(t):
                    for v in vals:
                        self.ne[addc(t, -v)] = None
            return
        self.lits[b] = truth
        if op == "eq" and truth:
            x, y = b.a
            if isseq(x) and isseq(y):
                e = sub(len_(x), len_(y))
                if e.op != "int":
                    self.lin[e] = None
                    self.lin[mulc(e, -1)] = None
        if op == "starts" and truth:
            s, p = b.a
            self.lin[sub(len_(p), len_(s))] = None
            self.lits[mk("bnd", s, len_(p)) if bnd(s, len_(p)).op == "bnd" else mk("bnd", s, ZERO)] = True
        if op == "ends" and truth:
            s, p = b.a
            self.lin[sub(len_(p), len_(s))] = None
            x = bnd(s, sub(len_(s), len_(p)))
            if x.op == "bnd":
                self.lits[x] = True


def part_of(x, s):
    """x is a piece of the text s"""
    while True:
        if x is s:
            return True
        if x.op == "trim":
            x = x.a[1]
        elif x.op == "slice":
            x = x.a[0]
        else:
            return False


def isseq(t):
    return t.op in ("str", "lst", "cat", "slice", "rev", "mapseq", "disp", "words", "trim") or tyof.get(t) in ("str", "seq")
