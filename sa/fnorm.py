"""Normal forms of floating point expressions, up to rounding: quotients of polynomials with
rational coefficients over the values the expression is made of."""
import math
from fractions import Fraction

from .loops import over
from .terms import *

PI = mk("fconst", "pi")
MAXT = 400


class Unknown(Exception):
    """an operation without a normal form"""


def ck(x):
    """a total order on keys"""
    if isinstance(x, T):
        return "#%08d" % x.id
    if isinstance(x, (tuple, frozenset)):
        return "(" + ",".join(ck(y) for y in x) + ")"
    return repr(x)


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    if len(a) * len(b) > MAXT * MAXT:
        raise Unknown("expression too large")
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for x, e in n:
                k[x] = k.get(x, 0) + e
            k = tuple(sorted(((x, e) for x, e in k.items() if e), key=lambda y: ck(y[0])))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXT:
        raise Unknown("expression too large")
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(x):
    return {((x, 1),): Fraction(1)}


def key(p):
    return tuple(sorted(((tuple(m), c) for m, c in p.items()), key=ck))


class Norm:
    """pins: term -> term replacements (path facts)"""

    def __init__(self, pins=None, st=None):
        self.pins = pins or {}
        self.st = st
        self.memo = {}

    def q(self, t):
        """(numerator, denominator)"""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.red(self._q(t))
        return r

    def red(self, nd):
        n, d = nd
        if not n:
            return {}, pconst(1)
        if len(d) == 1:
            # single-term denominator: move it into the numerator
            (m, c), = d.items()
            inv = {tuple((x, -e) for x, e in m): 1 / c}
            return pmul(n, inv), pconst(1)
        # scale so that the denominator's first coefficient is one
        c = d[min(d, key=ck)]
        if c != 1:
            n = {m: v / c for m, v in n.items()}
            d = {m: v / c for m, v in d.items()}
        if key(n) == key(d):
            return pconst(1), pconst(1)
        return n, d

    def _q(self, t):
        if t in self.pins:
            return self.q(self.pins[t])
        one = pconst(1)
        if t.op == "int":
            return pconst(t.a[0]), one
        if t.op == "float":
            v = t.a[0]
            if math.isinf(v) or math.isnan(v):
                return patom(t), one
            for m in (1, 2, -1, -2):
                if v == m * math.pi:
                    return {((PI, 1),): Fraction(m)}, one
            if v == math.pi / 2:
                return {((PI, 1),): Fraction(1, 2)}, one
            if v == math.pi / 180:
                return {((PI, 1),): Fraction(1, 180)}, one
            if v == 180 / math.pi:
                return {((PI, -1),): Fraction(180)}, one
            return pconst(Fraction(v)), one
        if t.op == "i2f":
            return self.i2f(t.a[0])
        if t.op == "ffold":
            return self.fold(t)
        if t.op == "f2f" and t.a[0] == "f64":
            return self.q(t.a[1])
        if t.op != "fop":
            return patom(t), one
        f = t.a[0]
        a = t.a[1:]
        if f in ("Add", "Sub"):
            (n1, d1), (n2, d2) = self.q(a[0]), self.q(a[1])
            k = 1 if f == "Add" else -1
            if key(d1) == key(d2):
                return padd(n1, n2, k), d1
            return padd(pmul(n1, d2), pmul(n2, d1), k), pmul(d1, d2)
        if f == "Mul":
            (n1, d1), (n2, d2) = self.q(a[0]), self.q(a[1])
            return pmul(n1, n2), pmul(d1, d2)
        if f == "Div":
            (n1, d1), (n2, d2) = self.q(a[0]), self.q(a[1])
            if not n2:
                return patom(mk("fop", "Div", a[0], a[1])), one
            return pmul(n1, d2), pmul(d1, n2)
        if f == "recip":
            n, d = self.q(a[0])
            if not n:
                return patom(t), one
            return d, n
        if f == "Neg":
            n, d = self.q(a[0])
            return padd({}, n, -1), d
        if f == "clone":
            return self.q(a[0])
        if f == "mul_add":
            return self.q(mk("fop", "Add", mk("fop", "Mul", a[0], a[1]), a[2]))
        if f == "hypot":
            return self.q(mk("fop", "sqrt", mk("fop", "Add", mk("fop", "Mul", a[0], a[0]), mk("fop", "Mul", a[1], a[1]))))
        if f in ("powi", "powf"):
            e = a[1].a[0] if a[1].op in ("int", "float") else None
            if e is not None and e == int(e) and abs(e) <= 6:
                n, d = self.q(a[0])
                if e < 0:
                    n, d = d, n
                    e = -e
                r, s = pconst(1), pconst(1)
                for _ in range(int(e)):
                    r, s = pmul(r, n), pmul(s, d)
                return r, s
            if e == 0.5:
                return self.q(mk("fop", "sqrt", a[0]))
        if f == "to_radians":
            n, d = self.q(a[0])
            return pmul(n, {((PI, 1),): Fraction(1, 180)}), d
        if f == "to_degrees":
            n, d = self.q(a[0])
            return pmul(n, {((PI, -1),): Fraction(180)}), d
        if f in ("sin", "cos", "tan", "abs", "sqrt"):
            n, d = self.q(a[0])
            if not n:
                return (pconst(1) if f == "cos" else {}), one
            if f in ("sin", "cos") and list(d) == [()] and list(n) == [((PI, 1),)]:
                r = 2 * n[((PI, 1),)] / d[()]
                if r.denominator == 1:
                    return pconst((0, 1, 0, -1)[(int(r) + (f == "cos")) % 4]), one
            if f != "sqrt":
                neg = {m: -c for m, c in n.items()}
                if ck(key(n)) > ck(key(neg)):
                    n = neg
                    if f in ("sin", "tan"):
                        return {(((f, key(n), key(d)), 1),): Fraction(-1)}, one
            if list(n) == [()] and list(d) == [()]:
                v = n[()] / d[()]
                if f == "abs":
                    return pconst(abs(v)), one
                if f == "sqrt" and v >= 0:
                    r = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if r[0] ** 2 == v.numerator and r[1] ** 2 == v.denominator:
                        return pconst(Fraction(r[0], r[1])), one
            return patom((f, key(n), key(d))), one
        if f in ("min", "max"):
            xs = set()
            self.mm(f, t, xs)
            if len(xs) == 1:
                (n, d), = xs
                return dict(n), dict(d)
            return patom((f, tuple(sorted(xs, key=ck)))), one
        return patom((f,) + tuple(self.k(x) if isinstance(x, T) else x for x in a)), one

    def mm(self, f, t, xs):
        if t.op == "fop" and t.a[0] == f:
            self.mm(f, t.a[1], xs)
            self.mm(f, t.a[2], xs)
            return
        if t.op == "ffold" and t.a[0] == f:
            n, d = self.q(t)
            (m, _), = n.items()
            if len(m) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == f:
                xs |= set(m[0][0][1])
                return
        n, d = self.q(t)
        c = math.inf if f == "min" else -math.inf
        if key(n) == key(patom(mk("float", c))):
            return
        xs.add((key(n), key(d)))

    def i2f(self, v):
        one = pconst(1)
        if v.op == "ffold":
            return self.fold(v, True)
        c, d = lin_of(v)
        r = pconst(c)
        for x, k in d.items():
            n = self.const(x)
            if n is not None:
                r = padd(r, pconst(n * k))
                continue
            if x.op == "len" and x.a[0].op == "flatseq":
                n, v, body = x.a[0].a
                x = mk("ffold", "Add", (over(ZERO, n, lambda j: len_(subst(body, {v: j}))),))
            if x.op == "ffold":
                n, q = self.fold(x, True)
                if list(q) != [()]:
                    raise Unknown("fold")
                r = padd(r, n, k / q[()])
            else:
                r = padd(r, patom(("i2f", x)), k)
        return r, one

    def const(self, x):
        """the small number an integer is known to be"""
        if self.st is None or x.op == "ffold":
            return None
        for k in range(5):
            if self.st.ask(eqi(x, INT(k))) is True:
                return k
        return None

    def fold(self, t, ints=False):
        """ffold(op, items): items are terms or rng(lo, hi, bv, items)"""
        op, items = t.a
        if op == "Add":
            r = (pconst(0), pconst(1))
            for it in items:
                if it.op == "rng":
                    n, d = self.fold(mk("ffold", "Add", it.a[3]), ints)
                    lo, hi, bv = it.a[:3]
                    # terms that do not depend on the position are multiples of the count
                    if list(d) != [()]:
                        raise Unknown("sum of quotients")
                    cnt = self.i2f(sub(hi, lo))[0]
                    s = {}
                    for m, c in n.items():
                        outer = tuple((x, e) for x, e in m if not self.dep(x, bv))
                        inner = tuple((x, e) for x, e in m if self.dep(x, bv))
                        o = {outer: c / d[()]}
                        if not inner:
                            s = padd(s, pmul(o, cnt))
                        else:
                            s = padd(s, pmul(o, patom(("sum", lo, hi, bv, inner))))
                    x = (s, pconst(1))
                else:
                    x = self.i2f(it) if ints else self.q(it)
                if key(r[1]) == key(x[1]):
                    r = (padd(r[0], x[0]), r[1])
                else:
                    r = (padd(pmul(r[0], x[1]), pmul(x[0], r[1])), pmul(r[1], x[1]))
            return (self.mergesum(r[0]), r[1])
        # min / max: a set of values and ranges of values
        xs = set()
        self.fset(op, items, xs)
        xs = self.merge(xs)
        if len(xs) == 1:
            x, = xs
            if x[0] != "rng":
                return dict(x[0]), dict(x[1])
        return patom((op, tuple(sorted(xs, key=ck)))), pconst(1)

    def mergesum(self, p):
        """a term equal to the next element of a sum over a range extends the sum"""
        again = True
        while again:
            again = False
            for m, c in list(p.items()):
                s = [(x, e) for x, e in m if isinstance(x, tuple) and x[0] == "sum" and e == 1]
                if len(s) != 1:
                    continue
                (_, lo, hi, bv, inner), _ = s[0]
                rest = tuple((x, e) for x, e in m if (x, e) != s[0])
                for end, nlo, nhi in ((addc(lo, -1), addc(lo, -1), hi), (hi, lo, addc(hi, 1))):
                    w = pmul({tuple((ksub(x, bv, end), e) for x, e in inner): Fraction(1)}, {rest: c})
                    if len(w) == 1:
                        (wm, wc), = w.items()
                        if p.get(wm) == wc:
                            p = dict(p)
                            del p[wm]
                            del p[m]
                            p = padd(p, pmul({rest: c}, patom(("sum", nlo, nhi, bv, inner))))
                            again = True
                            break
                if again:
                    break
        return p

    def fset(self, op, items, xs):
        c = math.inf if op == "min" else -math.inf
        for it in items:
            if it.op == "rng":
                ys = set()
                self.fset(op, it.a[3], ys)
                for y in self.merge(ys):
                    xs.add(("rng", it.a[0], it.a[1], it.a[2], y))
            elif it.op == "ffold" and it.a[0] == op:
                self.fset(op, it.a[1], xs)
            elif it.op == "float" and it.a[0] == c:
                pass
            elif it.op == "fop" and it.a[0] == op:
                self.fset(op, it.a[1:], xs)
            else:
                n, d = self.q(it)
                xs.add((key(n), key(d)))

    def merge(self, xs):
        """a single value at the edge of a range extends the range"""
        xs = set(xs)
        again = True
        while again:
            again = False
            for r in list(xs):
                if r[0] != "rng":
                    continue
                _, lo, hi, bv, y = r
                for end, nlo, nhi in ((addc(lo, -1), addc(lo, -1), hi), (hi, lo, addc(hi, 1))):
                    w = ksub(y, bv, end)
                    if w in xs and w is not r:
                        xs.discard(w)
                        xs.discard(r)
                        xs.add(("rng", nlo, nhi, bv, y))
                        again = True
                        break
                if again:
                    break
        return xs

    def dep(self, x, bv):
        if isinstance(x, T):
            return any(l is bv for l in leaves(x))
        if isinstance(x, tuple):
            return any(self.dep(y, bv) for y in x)
        return False

    def k(self, t):
        n, d = self.q(t)
        return key(n), key(d)


def ksub(k, bv, v):
    """substitution in a key"""
    if isinstance(k, T):
        return subst(k, {bv: v})
    if isinstance(k, tuple):
        return tuple(ksub(x, bv, v) for x in k)
    return k


def leafset(k, out=None):
    out = set() if out is None else out
    if isinstance(k, T):
        for x in walk(k):
            out.add(x)
    elif isinstance(k, tuple):
        for x in k:
            leafset(x, out)
    return out


def pins(st):
    """equalities with constants known on a path"""
    m = {}
    for f in st.facts.all():
        if f.op == "fcmp" and f.a[0] == "eq":
            a, b = f.a[1:]
            if a.op == "float" and b.op != "float":
                m[b] = a
            elif b.op == "float" and a.op != "float":
                m[a] = b
    return m


def same(a, b, st=None):
    """True: equal up to rounding; False: different functions of the same values; None: unknown"""
    try:
        n = Norm(pins(st) if st is not None else None, st)
        (n1, d1), (n2, d2) = n.q(a), n.q(b)
        if key(n1) == key(n2) and key(d1) == key(d2):
            return True
        if key(pmul(n1, d2)) == key(pmul(n2, d1)):
            return True
        return False
    except Unknown:
        return None
