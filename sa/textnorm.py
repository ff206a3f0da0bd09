"""Texts as lists of segments: constants, opaque texts and repetitions."""
from .terms import *

_bv = typed(mk("bv", 970), "usize")


def merge(ss):
    out = []
    for s in ss:
        if s[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + s[1])
        elif s == ("s", ""):
            continue
        elif s[0] == "f" and s[1] is ZERO:
            continue
        else:
            out.append(s)
    return out


class Unknown(Exception):
    pass


def segs(st, t, atom=lambda st, x: None):
    """segments of a text: ("s", constant), ("t", term), ("f", count, (segments over bv 970,))"""
    return rotate(st, merge(_segs(st, t, atom)))


def _segs(st, t, atom):
    a = atom(st, t)
    if a is not None:
        return a if isinstance(a, list) else _segs(st, a, None or atom) if a is not t else [("t", t)]
    if t is EMPTY:
        return []
    if t.op == "str":
        return [("s", t.a[0] if isinstance(t.a[0], str) else bytes(t.a[0]).decode())]
    if t.op == "cat":
        r = []
        for x in t.a:
            r += _segs(st, x, atom)
        return r
    if t.op == "lst":
        r = []
        for x in t.a:
            r += _segs(st, chartext(x), atom)
        return r
    if t.op == "flatseq":
        n, b, body = t.a
        n = fixed(st, n)
        if n.op == "int" and n.a[0] <= 6:
            r = []
            for i in range(max(n.a[0], 0)):
                r += _segs(st, subst(body, {b: INT(i)}), atom)
            return r
        return [("f", n, tuple(merge(_segs(inside(st, n), subst(body, {b: _bv}), atom))))]
    if t.op == "mapseq":
        return _segs(st, over(t), atom)
    if t.op == "join":
        v, sep = t.a
        n = fixed(st, len_(v))
        if v.op == "cat" and all(x.op in ("lst", "mapseq") for x in v.a) or n.op == "int":
            pass
        if n.op == "int":
            r = []
            for i in range(n.a[0]):
                if i:
                    r += _segs(st, sep, atom)
                r += _segs(st, elem(v, INT(i)), atom)
            return r
        if st.ask(le(ONE, n)) is not True:
            return [("j", n, tuple(merge(_segs(inside(st, n), elem(v, _bv), atom))), tuple(merge(_segs(st, sep, atom))))]
        m = addc(n, -1)
        return _segs(st, elem(v, ZERO), atom) + [("f", m, tuple(merge(_segs(st, sep, atom) + _segs(inside(st, m), elem(v, addc(_bv, 1)), atom))))]
    return [("t", t)]


def inside(st, n):
    s = st.copy()
    s.facts = s.facts.copy()
    s.know(le(ZERO, _bv))
    s.know(lt(_bv, n))
    return s


def over(t):
    s, b, body = t.a
    return mk("flatseq", len_(s), b, body)


def chartext(x):
    return STR(chr(x.a[0])) if x.op == "int" else typed(mk("chr", x), "str")


def fixed(st, n):
    if n.op == "int":
        return n
    for k in range(7):
        if st.ask(eqi(n, INT(k))) is True:
            return INT(k)
    return n


def sub_segs(ss, m):
    r = []
    for s in ss:
        if s[0] == "t":
            r.append(("t", subst(s[1], m)))
        elif s[0] == "s":
            r.append(s)
        else:
            raise Unknown
    return r


def rotate(st, ss):
    """{A(b) c} over b < m, then A(m)  is  A(0), then {c A(b+1)} over b < m"""
    for i, s in enumerate(ss):
        if s[0] != "f" or len(s[2]) < 2 or s[2][-1][0] != "s":
            continue
        c, A = s[2][-1], list(s[2][:-1])
        try:
            am = sub_segs(A, {_bv: s[1]})
            if [x for x in ss[i + 1:i + 1 + len(am)]] != am and not equal(st, ss[i + 1:i + 1 + len(am)], am):
                continue
            a0 = sub_segs(A, {_bv: ZERO})
            a1 = sub_segs(A, {_bv: addc(_bv, 1)})
        except Unknown:
            continue
        return merge(ss[:i] + a0 + [("f", s[1], tuple(merge([c] + a1)))] + ss[i + 1 + len(am):])
    return ss


def equal(st, a, b):
    """do two lists of segments denote the same text for sure?"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0]:
            return False
        if x[0] == "t":
            if not eqterm(st, x[1], y[1]):
                return False
        elif x[0] == "f":
            if st.ask(eqi(x[1], y[1])) is not True or not equal(inside(st, x[1]), list(x[2]), list(y[2])):
                return False
        else:
            return False
    return True


def eqterm(st, x, y):
    """the same operation on the same things, positions compared as numbers"""
    if x is y:
        return True
    if isint(x) and isint(y):
        return st.ask(eqi(x, y)) is True
    if x.op != y.op or len(x.a) != len(y.a):
        return False
    for p, q in zip(x.a, y.a):
        if isinstance(p, T) != isinstance(q, T):
            return False
        if isinstance(p, T):
            if not eqterm(st, p, q):
                return False
        elif p != q:
            return False
    return True


def show_segs(ss):
    r = []
    for s in ss:
        r.append(repr(s[1]) if s[0] == "s" else show(s[1])[:60] if s[0] == "t" else "{%s}*%s" % (show_segs(s[2]), show(s[1])[:30]))
    return " ".join(r)
