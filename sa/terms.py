"""Hash-consed abstract values ("terms"), linear integer normal forms and the
normalising constructors for structures, sequences and booleans."""
_tab = {}


class T:
    __slots__ = ("op", "a", "id", "_l")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


STRUCTS = set()      # types with a single variant: rebuilt field by field they are the value itself


def mk(op, *a):
    if op == "adt" and len(a) > 2 and a[0] in STRUCTS:
        x = a[2]
        if x.op == "fld" and x.a[2] == 0 and not x.a[1]:
            x = x.a[0]
            if all(y.op == "fld" and y.a[0] is x and not y.a[1] and y.a[2] == i for i, y in enumerate(a[2:])):
                return x
    k = (op, tuple(type(x).__name__ for x in a if not isinstance(x, T)), a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab) + 1
        t._l = None
        _tab[k] = t
    return t


UNIT = mk("tup")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
EMPTY = mk("lst")
ESTR = mk("str", "")


def INT(n):
    return mk("int", int(n))


def STR(s):
    return mk("str", s)


def BOOL(b):
    return TRUE if b else FALSE


ZERO = INT(0)
ONE = INT(1)

# ---- types of opaque scalars ------------------------------------------------
tyof = {}
INTB = {"usize": (0, 2**64 - 1), "u64": (0, 2**64 - 1), "u32": (0, 2**32 - 1), "u16": (0, 2**16 - 1), "u8": (0, 255),
        "u128": (0, 2**128 - 1), "isize": (-2**63, 2**63 - 1), "i64": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1),
        "i16": (-2**15, 2**15 - 1), "i8": (-128, 127), "i128": (-2**127, 2**127 - 1), "char": (0, 0x10FFFF)}
LENMAX = 2**63 - 1


def typed(t, ty):
    if ty and t.op not in ("int", "lin", "bool", "float", "str") and t not in tyof:
        tyof[t] = ty
    return t


def isint(t):
    return t.op in ("int", "lin", "len", "utf8len") or tyof.get(t) in INTB


def implicit(v):
    """(lo, hi) bounds every value of this term satisfies"""
    if v.op == "len":
        return 0, LENMAX
    if v.op == "utf8len":
        return 1, 4
    return INTB.get(tyof.get(v), (None, None))


# ---- linear integer forms -------------------------------------------------
def lin_of(t):
    """(const, {term: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin_make(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, kb=1):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + kb * k
    return lin_make(c1 + kb * c2, d)


def sub(a, b):
    return add(a, b, -1)


def addc(a, n):
    c, d = lin_of(a)
    return lin_make(c + n, d)


def mulc(a, n):
    c, d = lin_of(a)
    return lin_make(c * n, {t: k * n for t, k in d.items()})


# ---- booleans ---------------------------------------------------------------
def le0(e):
    """e <= 0 over the integers"""
    c, d = lin_of(e)
    if not d:
        return BOOL(c <= 0)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)
        e = lin_make(c, d)
    return mk("le0", e)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(addc(sub(a, b), 1))


def eqi(a, b):
    e = sub(a, b)
    c, d = lin_of(e)
    if not d:
        return BOOL(c == 0)
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        e = mulc(e, -1)
    return mk("eq0", e)


def not_(b):
    if b.op == "bool":
        return BOOL(not b.a[0])
    if b.op == "not":
        return b.a[0]
    if b.op == "le0":
        return le0(addc(mulc(b.a[0], -1), 1))
    return mk("not", b)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    return mk("or", a, b)


def isconst(t):
    if t.op in ("int", "bool", "str", "float", "fn"):
        return True
    if t.op in ("tup", "lst"):
        return all(isconst(x) for x in t.a)
    if t.op == "adt":
        return all(isconst(x) for x in t.a[2:])
    return False


def eq(a, b):
    """structural equality of two values, as a boolean term"""
    if a is b:
        return TRUE if not has_float(a) else mk("eqf", a, b)
    if isint(a) or isint(b):
        return eqi(a, b)
    if a.op == b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            r = and_(r, eq(x, y))
        return r
    if a.op == b.op == "tup" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = and_(r, eq(x, y))
        return r
    if a.op == b.op == "bool" or (a.op == b.op == "str"):
        return FALSE
    if a.op == "bool":
        return b if a is TRUE else not_(b)
    if b.op == "bool":
        return a if b is TRUE else not_(a)
    if a.op == b.op == "lst":
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = and_(r, eq(x, y))
        return r
    if a.op == "adt" and len(a.a) == 2:
        return mk("isv", b, a.a[1])
    if b.op == "adt" and len(b.a) == 2:
        return mk("isv", a, b.a[1])
    for x, y in ((a, b), (b, a)):
        if x in (EMPTY, ESTR) and y.op != "adt":
            return eqi(len_(y), ZERO)
    if tyof.get(a) in ("f32", "f64") or tyof.get(b) in ("f32", "f64") or a.op in ("float", "fop") or b.op in ("float", "fop"):
        return fcmp("eq", a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def has_float(t):
    return t.op in ("float", "fop") or tyof.get(t) in ("f32", "f64")


def fcmp(op, a, b):
    if a.op == b.op == "float":
        x, y = a.a[0], b.a[0]
        return BOOL(x < y if op == "lt" else x <= y if op == "le" else x == y)
    if op == "eq" and a.id > b.id:
        a, b = b, a
    return mk("fcmp", op, a, b)


# ---- structures -------------------------------------------------------------
def fld(t, v, i):
    if t.op == "adt":
        if t.a[1] == v or v is None or True:
            k = i + 2
            if k < len(t.a) and t.a[1] == (v or 0):
                return t.a[k]
            return mk("bottom")
    if t.op == "tup":
        return t.a[i] if i < len(t.a) else mk("bottom")
    if t.op == "updf":
        if t.a[1] == (v or 0) and t.a[2] == i:
            return t.a[3]
        return fld(t.a[0], v, i)
    if t.op == "clo":
        return t.a[1 + i]
    if t.op == "mref":
        return t
    return mk("fld", t, v or 0, i)


def setf(t, v, i, x, arity=None, adt=None):
    v = v or 0
    if t.op == "adt" and t.a[1] == v:
        a = list(t.a)
        a[i + 2] = x
        return mk("adt", *a)
    if t.op == "tup":
        a = list(t.a)
        while len(a) <= i:
            a.append(mk("uninit"))
        a[i] = x
        return mk("tup", *a)
    if t.op == "clo":
        a = list(t.a)
        a[1 + i] = x
        return mk("clo", *a)
    if arity is not None:
        return mk("adt", adt, v, *[x if j == i else fld(t, v, j) for j in range(arity)])
    if t.op == "updf" and (t.a[1], t.a[2]) > (v, i):
        return mk("updf", setf(t.a[0], v, i, x), *t.a[1:])
    if t.op == "updf" and (t.a[1], t.a[2]) == (v, i):
        return mk("updf", t.a[0], v, i, x)
    return mk("updf", t, v, i, x)


# ---- sequences --------------------------------------------------------------
def blen(s):
    return len(s.encode("utf-8", "surrogatepass"))


def len_(s):
    op = s.op
    if op == "lst":
        return INT(len(s.a))
    if op == "str":
        return INT(blen(s.a[0]))
    if op == "slice":
        return sub(s.a[2], s.a[1])
    if op == "cat":
        r = ZERO
        for p in s.a:
            r = add(r, len_(p))
        return r
    if op in ("rev", "mapseq", "upd", "sorted", "enumseq", "bytesof"):
        return len_(s.a[0])
    if op == "repeat":
        return s.a[1]
    if op == "rangeseq":
        return sub(s.a[1], s.a[0])
    if op == "insat":
        return addc(len_(s.a[0]), 1)
    if op == "rmat":
        return addc(len_(s.a[0]), -1)
    return mk("len", s)


def slice_(s, lo, hi):
    if s.op == "slice":
        b = s.a[1]
        return slice_(s.a[0], add(b, lo), add(b, hi))
    if lo is ZERO and hi is len_(s):
        return s
    if lo is hi:
        return ESTR if isstr(s) else EMPTY
    if s.op == "str" and lo.op == hi.op == "int":
        b = s.a[0].encode()
        try:
            return STR(b[lo.a[0]:hi.a[0]].decode())
        except UnicodeDecodeError:
            return mk("bottom")
    if s.op == "lst" and lo.op == hi.op == "int" and 0 <= lo.a[0] <= hi.a[0] <= len(s.a):
        return mk("lst", *s.a[lo.a[0]:hi.a[0]])
    if s.op == "rangeseq":
        return mk("rangeseq", add(s.a[0], lo), add(s.a[0], hi))
    if s.op == "cat":
        # cut at part boundaries
        pos = ZERO
        st = None
        parts = list(s.a)
        for n, p in enumerate(parts):
            if pos is lo:
                st = n
                break
            pos = add(pos, len_(p))
        else:
            if pos is lo:
                st = len(parts)
        if st is not None:
            p2 = lo
            for m in range(st, len(parts) + 1):
                if p2 is hi:
                    return cat(*parts[st:m])
                if m < len(parts):
                    p2 = add(p2, len_(parts[m]))
    return mk("slice", s, lo, hi)


def isstr(s):
    return s.op == "str" or tyof.get(s) == "str" or (s.op == "slice" and isstr(s.a[0])) or (s.op == "cat" and any(isstr(x) for x in s.a)) or s.op == "disp"


def elem(s, i):
    op = s.op
    if op == "slice":
        return elem(s.a[0], add(s.a[1], i))
    if op == "lst":
        if i.op == "int":
            if 0 <= i.a[0] < len(s.a):
                return s.a[i.a[0]]
            return mk("bottom")
        if s.a and all(x is s.a[0] for x in s.a):
            return s.a[0]
    if op == "rev":
        return elem(s.a[0], addc(sub(len_(s.a[0]), i), -1))
    if op == "mapseq":
        return subst(s.a[2], {s.a[1]: i})
    if op == "enumseq":
        return mk("tup", add(s.a[1], i), elem(s.a[0], i))
    if op == "rangeseq":
        return add(s.a[0], i)
    if op == "repeat":
        return s.a[0]
    if op == "upd":
        if s.a[1] is i:
            return s.a[2]
        d = sub(s.a[1], i)
        if d.op == "int" and d.a[0] != 0:
            return elem(s.a[0], i)
    if op == "cat":
        pos = ZERO
        for p in s.a:
            d = sub(i, pos)
            lp = len_(p)
            if d.op == "int" and d.a[0] < 0:
                break
            if lp.op == "int":
                if d.op == "int" and d.a[0] < lp.a[0]:
                    return elem(p, d)
            elif d.op == "int" or sub(i, add(pos, lp)).op != "int":
                break
            pos = add(pos, lp)
    return mk("elem", s, i)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            q = p.a
        else:
            q = (p,)
        for x in q:
            if x is EMPTY or x is ESTR:
                continue
            if out and out[-1].op == x.op == "str":
                out[-1] = STR(out[-1].a[0] + x.a[0])
            elif out and out[-1].op == x.op == "lst":
                out[-1] = mk("lst", *(out[-1].a + x.a))
            else:
                out.append(x)
    if not out:
        for p in parts:
            return p
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def upd(s, i, v):
    if v is elem(s, i) and v.op == "elem":
        return s
    if s.op == "lst" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        a = list(s.a)
        a[i.a[0]] = v
        return mk("lst", *a)
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    return mk("upd", s, i, v)


def rev(s):
    if s.op == "rev":
        return s.a[0]
    if s.op == "lst":
        return mk("lst", *s.a[::-1])
    return mk("rev", s)


def bnd(s, e):
    """byte offset e is a character boundary of s"""
    if s.op == "slice":
        return bnd(s.a[0], add(s.a[1], e))
    if e is ZERO or e is len_(s):
        return TRUE
    if s.op == "str" and e.op == "int":
        b = s.a[0].encode()
        n = e.a[0]
        return BOOL(0 <= n <= len(b) and (n == len(b) or (b[n] & 0xC0) != 0x80))
    return mk("bnd", s, e)


def utf8len(c):
    if c.op == "int":
        n = c.a[0]
        return INT(1 if n < 0x80 else 2 if n < 0x800 else 3 if n < 0x10000 else 4)
    return mk("utf8len", c)


_bvn = [0]


BVFREE = 700      # bound variables below are numbered by nesting height, the others are temporaries


def bvheight(*ts):
    d = 0
    for t in ts:
        for l in leaves(t):
            if l.op == "bv" and l.a[0] < BVFREE:
                d = max(d, l.a[0] + 1)
    return d


def boundvar(n):
    b = mk("bv", n)
    tyof.setdefault(b, "usize")
    return b


def close(xs, var):
    """(bound variable, bodies) with the free variable var made the binder's"""
    d = boundvar(bvheight(*xs))
    return d, tuple(subst(x, {var: d}, {}, True) for x in xs)


def mapseq(base, var, body):
    """sequence whose i-th element is body[var := i]; var is made canonical"""
    if body is elem(base, var):
        return base
    b, (body,) = close((body,), var)
    return mk("mapseq", base, b, body)


def flatseq(n, var, body):
    """body[var := 0] ++ .. ++ body[var := n-1]"""
    if body.op == "lst" and len(body.a) == 1:
        x = body.a[0]
        base = next((y.a[0] for y in walk(x) if y.op == "elem" and y.a[1] is var and len_(y.a[0]) is n and var not in leaves(y.a[0])), None)
        return mapseq(base if base is not None else mk("rangeseq", ZERO, n), var, x)
    if body.op in ("lst", "str") and not len_(body).a[0]:
        return body
    b, (body,) = close((body,), var)
    return mk("flatseq", n, b, body)


REBUILD = {
    "len": len_, "slice": slice_, "elem": elem, "cat": cat, "upd": upd, "rev": rev, "bnd": bnd, "utf8len": utf8len,
    "le0": le0, "not": not_, "and": and_, "or": or_, "fld": fld, "eq": eq, "fcmp": fcmp,
    "eq0": lambda e: eqi(e, ZERO), "isv": lambda t, v: isv(t, v),
}


def isv(t, v):
    if t.op == "adt":
        return BOOL(t.a[1] == v)
    return mk("isv", t, v)


def rebuild(op, a, old=None):
    f = REBUILD.get(op)
    t = f(*a) if f else mk(op, *a)
    if old is not None and old in tyof and t not in tyof and t.op not in ("int", "lin", "bool", "float", "str"):
        tyof[t] = tyof[old]
    return t


def subst(t, m, memo=None, raw=False):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        c, d = t.a
        r = INT(c)
        for x, k in d:
            y = subst(x, m, memo, raw)
            r = add(r, y, k)
    elif not t.a or not any(isinstance(x, (T, tuple)) for x in t.a):
        r = t
    elif t.op in BINDERS and not raw:
        r = _subst_binder(t, m, memo)
    else:
        a = tuple(_subst_any(x, m, memo, raw) for x in t.a)
        r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t.op, a, t)
    memo[t] = r
    return r


BINDERS = {"mapseq": (1, (2,)), "flatseq": (1, (2,)), "rng": (2, (3,))}
_fresh = [0]


def _subst_binder(t, m, memo):
    vi, bodies = BINDERS[t.op]
    out = tuple(_subst_any(x, m, memo) if i != vi and i not in bodies else x for i, x in enumerate(t.a))
    _fresh[0] += 1
    v = t.a[vi]
    f = boundvar(200000 + _fresh[0])
    m2 = {v: f}
    nb = {}
    for i in bodies:
        old = t.a[i]
        new = _subst_any(old, m, {x: y for x, y in m.items() if x is not v}) if v not in m else old
        if new is old:
            nb[i] = old
            continue
        y = _subst_any(_subst_any(old, m2, {}), m, {})
        nb[i] = y
    if all(out[i] is t.a[i] for i in range(len(t.a)) if i not in bodies) and all(nb[i] is t.a[i] for i in bodies):
        return t
    a = list(out)
    for i in bodies:
        a[i] = nb[i] if nb[i] is not t.a[i] else _subst_any(t.a[i], m2, {})
    if t.op == "mapseq":
        r = mapseq(a[0], f, a[2])
    elif t.op == "flatseq":
        r = flatseq(a[0], f, a[2])
    else:
        xs = a[3]
        d, xs = close(xs, f)
        r = mk("rng", a[0], a[1], d, xs)
    if t in tyof and r not in tyof and r.op not in ("int", "lin", "bool", "float", "str"):
        tyof[r] = tyof[t]
    return r


def _subst_any(x, m, memo, raw=False):
    if isinstance(x, T):
        return subst(x, m, memo, raw)
    if isinstance(x, tuple):
        y = tuple(_subst_any(z, m, memo, raw) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


LEAF = {"sym", "phi", "bv"}


def leaves(t):
    if t._l is None:
        if t.op in LEAF:
            t._l = frozenset((t,))
        else:
            s = set()
            _leaves_into(t.a, s)
            t._l = frozenset(s)
    return t._l


def _leaves_into(a, s):
    for x in a:
        if isinstance(x, T):
            s |= leaves(x)
        elif isinstance(x, tuple):
            _leaves_into(x, s)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 9:
        return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op in ("int", "bool", "float"):
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "le0":
        return "%s<=0" % s(a[0])
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "not":
        return "!%s" % s(a[0])
    if op == "lin":
        r = " + ".join((s(x) if k == 1 else "%d*%s" % (k, s(x))) for x, k in a[1])
        return "(%s%+d)" % (r, a[0]) if a[0] else "(%s)" % r
    if op == "adt":
        return "%s#%s(%s)" % (a[0].split("::")[-1], a[1], ", ".join(s(x) for x in a[2:]))
    if op == "tup":
        return "(%s)" % ", ".join(s(x) for x in a)
    if op == "lst":
        return "[%s]" % ", ".join(s(x) for x in a)
    if op == "cat":
        return "{" + " ++ ".join(s(x) for x in a) + "}"
    if op == "fld":
        return "%s.%s%s" % (s(a[0]), ("v%s." % a[1]) if a[1] else "", a[2])
    if op == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "phi":
        loc = a[2] if isinstance(a[2], tuple) else (a[2],)
        return "phi%s.%s_%s%s" % (a[0][1] if isinstance(a[0], tuple) and len(a[0]) > 1 else a[0], a[1] if not isinstance(a[1], T) else show(a[1], d + 1),
                                "_".join(str(x) for x in loc[:1] + loc[-1:]), "".join(".%s" % str(x) for x in a[3]) if len(a) > 3 else "")
    if op == "sym":
        return "?" + "/".join(str(x) for x in a if not isinstance(x, T))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a))


def walk(t, seen=None):
    """all sub-terms, each once"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, x):
    return any(y is x for y in walk(t))
