"""What a loop computes, as a closed term: at the exit of a loop that moves one position at a time,
values only appended to become sequences over the range, sums and minima become folds."""
from .terms import *

def rng(lo, hi, b, xs):
    """range item over the free variable b; positions are shifted so that the sequences are indexed by
    the variable itself"""
    offs = []
    for x in xs:
        for y in walk(x):
            if y.op == "elem" and y.a[1] is not b and b in leaves(y.a[1]) and b not in leaves(y.a[0]):
                o = sub(y.a[1], b)
                if b in leaves(o):
                    return shut(lo, hi, b, xs)
                offs.append(o)
            elif y.op == "elem" and y.a[1] is b:
                offs.append(ZERO)
    offs = list(dict.fromkeys(offs))
    if not offs or ZERO in offs:
        return flatrng(lo, hi, b, xs)
    if len(offs) > 1:
        c = [x.a[0] for x in offs if x.op == "int"]
        if len(c) != len(offs):
            return shut(lo, hi, b, xs)
        o = INT(min(c))
    else:
        o = offs[0]
    return flatrng(add(lo, o), add(hi, o), b, tuple(subst(x, {b: sub(b, o)}) for x in xs))


def flatrng(lo, hi, b, xs):
    """a range over a flattened sequence is a nested range"""
    if lo is ZERO:
        for x in xs:
            for y in walk(x):
                if y.op == "elem" and y.a[1] is b and y.a[0].op == "flatseq" and len_(y.a[0]) is hi:
                    n, v, body = y.a[0].a
                    if all(b not in leaves(z) or only(z, y, b) for z in xs):
                        return over(ZERO, n, lambda j: over(ZERO, len_(subst(body, {v: j})), lambda i: tuple(subst(z, {y: elem(subst(body, {v: j}), i)}) for z in xs)))
    return shut(lo, hi, b, xs)


def only(z, y, b):
    """the variable occurs in z only inside y"""
    t = mk("sym", "hole")
    return b not in leaves(subst(z, {y: t}))


def shut(lo, hi, b, xs):
    d, ys = close(xs, b)
    return mk("rng", lo, hi, d, ys)


_tmp = [0]


def temp():
    _tmp[0] += 1
    return boundvar(100000 + _tmp[0])


def over(lo, hi, f):
    """rng item: f(position) for all positions in [lo, hi)"""
    b = temp()
    x = f(b)
    return rng(lo, hi, b, x if isinstance(x, tuple) else (x,))


def unphi(t, ok=()):
    return not any(l.op == "phi" and l not in ok for l in leaves(t))


def pinned(st, p, ok=()):
    """an expression without loop values that p equals on this path"""
    cand = []
    for f in st.facts.all():
        if f.op in ("le0", "eq0"):
            c, d = lin_of(f.a[0])
            if abs(d.get(p, 0)) == 1:
                k = d[p]
                e = sub(p, f.a[0]) if k == 1 else add(p, f.a[0])
                if unphi(e, ok) and e not in cand:
                    cand.append(e)
    for e in cand:
        if st.ask(le(p, e)) is True and st.ask(le(e, p)) is True:
            return e
    return None


class Resolver:
    """closed forms of the loop values in terms seen at the end of a path"""

    def __init__(self, st, given=()):
        self.st = st
        self.recs = {}
        for e in st.events():
            if e[0] == "loop":
                self.recs[e[1].key] = (e[1], e[2])
        self.memo = {x: x for x in given}
        self.ok = set(given)      # loop values of enclosing passes
        self.busy = set()
        self.why = []

    def __call__(self, t):
        """the term with every loop value it can close replaced"""
        m = {}
        for l in leaves(t):
            if l.op == "phi":
                r = self.phi(l)
                if r is not None:
                    m[l] = r
        return subst(t, m) if m else t

    def phi(self, l):
        if l in self.memo:
            return self.memo[l]
        if l in self.busy:
            return None
        self.busy.add(l)
        try:
            r = self._phi(l)
        finally:
            self.busy.discard(l)
        self.memo[l] = r
        return r

    def info(self, key, n):
        """(entry values, position phi, first position, self back edges) of the partition left"""
        rec, _ = self.recs.get(key, (None, None))
        if rec is None:
            return None
        q = next((x for x in rec.parts if x.n == n), None)
        if q is None:
            return None
        ent = self.entry(rec, q, ())
        if ent is None:
            return None
        selfs = [(s, v) for a, b, s, v in rec.backs if a is q and b is q]
        if any(v is None for s, v in selfs):
            return None
        for p in q.phis:
            if isint(p) and p in ent and all(v.get(p) is addc(p, 1) for s, v in selfs) and selfs:
                return rec, q, ent, p, ent[p], selfs
        return rec, q, ent, None, None, selfs

    def entry(self, rec, q, seen):
        """values on first arrival in the partition, when there is one way of arriving"""
        if q.n in seen:
            return None
        arr = []
        if q.n == 0 and q.init is not None:
            arr.append(q.init)
        for a, b, s, v in rec.backs:
            if b is q and a is not q:
                if v is None or any(x is a and y is a for x, y, _, _ in rec.backs):
                    return None
                e = self.entry(rec, a, seen + (q.n,))
                if e is None:
                    return None
                R = Resolver(s)
                arr.append({p: subst(R(x), e) for p, x in v.items()})
        uniq = []
        for a in arr:
            if a not in uniq:
                uniq.append(a)
        return uniq[0] if len(uniq) == 1 else None

    def _phi(self, l):
        i = self.info(l.a[0], l.a[1])
        if i is None:
            return None
        rec, q, ent, p, c0, selfs = i
        if l not in ent:
            return None
        if not selfs:
            return self(ent[l])
        if p is None:
            return None
        hi = self.memo.get(("hi", p)) or pinned(self.st, p, self.ok)
        if hi is None:
            return None
        if l is p:
            return hi
        vals = []
        for s, v in selfs:
            x = v.get(l)
            if x is None:
                return None
            R = Resolver(s, self.ok | set(q.phis))
            vals.append((s, R(x)))
        init = self(ent[l])
        c0 = self(c0)
        if not unphi(init, self.ok) or not unphi(c0, self.ok):
            return None
        vals = [(s, self.whole(x, l, ent, selfs)) for s, x in vals]
        uniq = list(dict.fromkeys(x for _, x in vals))
        if uniq == [l]:
            return init

        def own(x):
            """mentions no loop value but the position"""
            return all(y.op != "phi" or y is p or y in self.ok for y in leaves(x))

        def items(xs):
            b = temp()
            return rng(c0, hi, b, tuple(subst(y, {p: b}) for y in xs))
        # another value on the first pass
        if len(uniq) == 2:
            first = list(dict.fromkeys(x for s, x in vals if s.ask(eqi(p, c0)) is True))
            rest = list(dict.fromkeys(x for s, x in vals if s.ask(eqi(p, c0)) is False))
            if len(first) == len(rest) == 1 and len(first) + len(rest) == 2 and \
                    all(s.ask(eqi(p, c0)) is not None for s, x in vals) and all(x is l or x.op == "cat" and x.a[0] is l for x in uniq):
                if self.st.ask(le(hi, c0)) is True:
                    return init
                if self.st.ask(lt(c0, hi)) is True:
                    a = cat(*first[0].a[1:]) if first[0] is not l else EMPTY
                    z = cat(*rest[0].a[1:]) if rest[0] is not l else EMPTY
                    if own(a) and own(z):
                        return cat(init, subst(a, {p: c0}), self.seq(z, p, addc(c0, 1), hi))
        # appended to on every pass
        if len(uniq) == 1 and uniq[0].op == "cat" and uniq[0].a[0] is l:
            x = cat(*uniq[0].a[1:])
            if own(x):
                return cat(init, self.seq(x, p, c0, hi))
        # sums
        if len(uniq) == 1:
            x = uniq[0]
            it = self.addend(x, l)
            if it is not None and all(own(y) for y in it):
                f = mk("ffold", "Add", (init, items(it)))
                return typed(f, tyof.get(l))
            for op in ("min", "max"):
                it = self.extreme(x, l, op)
                if it is not None and all(own(y) for y in it):
                    return typed(mk("ffold", op, (init, items(it))), tyof.get(l))
        # minima by comparison
        if len(uniq) == 2 and l in uniq:
            t = uniq[0] if uniq[1] is l else uniq[1]
            if own(t):
                for op in ("min", "max"):
                    lt_ = fcmp("lt", t, l) if op == "min" else fcmp("lt", l, t)
                    le_ = fcmp("le", t, l) if op == "min" else fcmp("le", l, t)
                    if all((s.ask(lt_) is True or s.ask(le_) is True) if x is t else (s.ask(lt_) is False or s.ask(le_) is False) for s, x in vals):
                        return typed(mk("ffold", op, (init, items([t]))), tyof.get(l))
        return None

    def whole(self, x, l, ent, selfs):
        """a part of a carried sequence that always is all of it: its bound is carried along as its length"""
        m = {}
        for y in walk(x):
            if y.op == "slice" and y.a[0] is l and y.a[1] is ZERO and y.a[2].op == "phi":
                h = y.a[2]
                if h in ent and ent[h] is len_(ent[l]) and all(v.get(h) is len_(v[l]) for s, v in selfs):
                    m[y] = l
        return subst(x, m) if m else x

    def seq(self, x, p, c0, hi):
        """the concatenation of x over positions [c0, hi)"""
        b = temp()
        return typed(flatseq(sub(hi, c0), b, subst(x, {p: add(c0, b)})), "seq")

    def addend(self, x, l):
        """x = l + items"""
        if isint(l):
            c, d = lin_of(x)
            if d.get(l) == 1:
                e = sub(x, l)
                return [e] if l not in leaves(e) else None
            return None
        if x.op == "fop" and x.a[0] == "Add":
            for u, v in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if l not in leaves(v):
                    if u is l:
                        return [v]
                    r = self.addend(u, l)
                    if r is not None:
                        return r + [v]
        if x.op == "ffold" and x.a[0] == "Add" and x.a[1][0] is l and not any(l in leaves(y) for y in x.a[1][1:]):
            return list(x.a[1][1:])
        return None

    def extreme(self, x, l, op):
        if x.op == "fop" and x.a[0] == op:
            for u, v in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if l not in leaves(v):
                    if u is l:
                        return [v]
                    r = self.extreme(u, l, op)
                    if r is not None:
                        return r + [v]
        if x.op == "ffold" and x.a[0] == op and x.a[1][0] is l and not any(l in leaves(y) for y in x.a[1][1:]):
            return list(x.a[1][1:])
        return None


def resolve(st, t):
    return Resolver(st)(t)
