"""Deciding conditions on one floating point number by its regions: comparisons with finitely many
constants cut the floating point line into finitely many pieces, and one number is looked at in each."""
import math
import struct

from .terms import *

EXACT = ("Neg", "neg", "abs", "min", "max", "floor", "ceil", "trunc", "signum", "clamp")


def near32(x):
    if x != x or math.isinf(x):
        return []
    y = struct.unpack("<f", struct.pack("<f", x))[0] if abs(x) < 3e38 else None
    if y is None:
        return []
    out = [y]
    b = struct.unpack("<i", struct.pack("<f", y))[0]
    for d in (-1, 1):
        c = b + d
        if y == 0.0:
            out += [1e-45 * d]
            continue
        out.append(struct.unpack("<f", struct.pack("<i", c))[0])
    return out


def samples(facts, var):
    ks = {0.0, 1.0}
    for b in facts:
        for t in walk(b):
            if t.op == "float" and t.a[0] == t.a[0]:
                ks.add(float(t.a[0]))
    pts = set()
    for k in list(ks) + [-k for k in ks]:
        pts.update(near32(k))
    ls = sorted(x for x in ks | pts if not math.isinf(x))
    pts.update((a + b) / 2 for a, b in zip(ls, ls[1:]))
    pts.update([ls[0] - 1, ls[-1] + 1, 3.0e38, -3.0e38])
    pts = {struct.unpack("<f", struct.pack("<f", x))[0] for x in pts if abs(x) < 3.4e38}
    return sorted(pts) + [-0.0, float("inf"), float("-inf"), float("nan")]


def ev(t, var, x):
    """value of a term, None if not known"""
    if t is var:
        return x
    if x is None and t in var:
        return var[t]
    if t.op == "float":
        return float(t.a[0])
    if t.op == "bool":
        return t.a[0]
    if t.op == "nan":
        return float("nan")
    if t.op == "f2f":
        for y in t.a:
            if isinstance(y, T):
                return ev(y, var, x)
    if t.op == "not":
        y = ev(t.a[0], var, x)
        return None if y is None else not y
    if t.op in ("and", "or"):
        ys = [ev(y, var, x) for y in t.a]
        if t.op == "and":
            return False if False in ys else None if None in ys else True
        return True if True in ys else None if None in ys else False
    if t.op == "fcmp":
        a, b = ev(t.a[1], var, x), ev(t.a[2], var, x)
        if a is None or b is None:
            return None
        return {"lt": a < b, "le": a <= b, "eq": a == b}.get(t.a[0])
    if t.op == "fclass":
        a = ev(t.a[1], var, x)
        if a is None:
            return None
        return {"is_nan": a != a, "is_infinite": math.isinf(a), "is_finite": math.isfinite(a),
                "is_sign_negative": math.copysign(1.0, a) < 0, "is_sign_positive": math.copysign(1.0, a) > 0,
                "is_normal": None}.get(t.a[0])
    if t.op == "fnan":
        a = ev(t.a[0], var, x)
        return None if a is None else a != a
    if t.op == "fop" and t.a[0] in EXACT:
        ys = [ev(y, var, x) for y in t.a[1:]]
        if None in ys or any(y != y for y in ys):
            return None
        a = ys[0]
        n = t.a[0]
        if n == "clamp" and math.isinf(a):
            return None
        if n in ("Neg", "neg"):
            return -a
        if n == "abs":
            return abs(a)
        if n in ("min", "max"):
            return (min if n == "min" else max)(ys)
        if math.isinf(a):
            return None
        if n == "clamp":
            return None if len(ys) != 3 or ys[1] > ys[2] else max(ys[1], min(ys[2], a))
        return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "signum": lambda z: math.copysign(1.0, z)}[n](a) * 1.0
    if t.op == "fop" and t.a[0] in ("Add", "Sub", "Mul", "Div", "Rem", "round", "sqrt") and tyof.get(t) in ("f32", "f64"):
        ys = [ev(y, var, x) for y in t.a[1:]]
        if None in ys or any(not math.isfinite(y) for y in ys):
            return None
        n = t.a[0]
        a, b = ys[0], ys[1] if len(ys) > 1 else None
        if n in ("Div", "Rem") and b == 0 or n == "sqrt" and a < 0:
            return None
        r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b, "Rem": lambda: math.fmod(a, b), "sqrt": lambda: math.sqrt(a),
             "round": lambda: math.copysign(math.floor(abs(a) + 0.5), a) if abs(a) < 2 ** 22 else None}[n]()
        if r is None or not math.isfinite(r):
            return None
        if tyof[t] == "f32":
            if abs(r) > 3.4e38:
                return None
            r = struct.unpack("<f", struct.pack("<f", r))[0]
        return r
    return None


def regions(facts, var, want):
    """do the facts imply want(x) for the number var? True, (False, witness) or None"""
    facts = list(facts)
    vague = False
    sure = True
    for b in facts:
        for t in walk(b):
            if t.op not in ("float", "fcmp", "fclass", "fnan", "not", "and", "or", "bool", "f2f", "nan") and t is not var \
                    and not (t.op == "fop" and t.a[0] in ("min", "max", "clamp", "Neg", "abs")):
                sure = False
    for x in samples(facts, var):
        vals = [ev(b, var, x) for b in facts]
        if False in vals:
            continue
        if None in vals:
            if not want(x):
                vague = True
            continue
        if not want(x):
            return (False, x)
    return True if sure and not vague else None


def identical(facts, var, val):
    """is the value `val`, computed from the number var, always that number? True, (False, witness) or None"""
    if val is var:
        return True
    facts = list(facts)
    pieces = all(t is var or t.op == "float" or t.op == "f2f" or t.op == "fop" and t.a[0] in ("min", "max", "clamp") for t in walk(val))
    vague = not pieces
    extra = [0.3335, 0.1, 0.123456, 1e-7, 0.9999999]
    for x in samples(facts + [val], var) + [struct.unpack("<f", struct.pack("<f", z))[0] for z in extra]:
        vals = [ev(b, var, x) for b in facts]
        if False in vals:
            continue
        r = ev(val, var, x)
        if r is None or None in vals:
            vague = True
            continue
        if not (r == x or r != r and x != x):
            return (False, x)
    return None if vague else True


FLOATLIT = ("fcmp", "fclass", "fnan")


def bases(t, out=None):
    """the numbers comparisons depend on"""
    out = [] if out is None else out
    if t.op in ("fcmp", "fclass", "fnan", "not", "and", "or", "fop", "f2f"):
        for x in t.a:
            if isinstance(x, T):
                bases(x, out)
    elif t.op not in ("float", "bool", "nan") and t not in out:
        out.append(t)
    return out


BEYOND = []     # are examples with numbers that are not finite wanted?


def example(lits, equal=None, limit=6000):
    """values of the numbers for which all comparisons come out, or None: {number: value}"""
    from itertools import product
    vs = []
    for b in lits:
        bases(b, vs)
    if any(tyof.get(v) not in ("f32", "f64") for v in vs) or len(vs) > 6:
        return None
    group = {}
    reps = []
    for v in vs:
        r = next((x for x in reps if equal and equal(x, v)), None)
        group[v] = r if r is not None else v
        if r is None:
            reps.append(v)
    ks = {0.0, 0.25, 0.5, 0.75, 1.0}
    for b in lits:
        for t in walk(b):
            if t.op == "float" and t.a[0] == t.a[0] and abs(t.a[0]) < 1e6:
                ks |= {float(t.a[0]), float(t.a[0]) + 1, float(t.a[0]) - 1, float(t.a[0]) / 2}
    if BEYOND and any(t.op == "fclass" for b in lits for t in walk(b)):
        ks |= {math.inf, -math.inf}
    ks = sorted(ks, key=lambda k: (k not in (math.inf, -math.inf), k not in (0.0, 0.5, 1.0, 0.25, 0.75), abs(k)))
    while len(reps) and len(ks) ** len(reps) > limit and len(ks) > 3:
        ks.pop()
    for xs in product(ks, repeat=len(reps)):
        m = dict(zip(reps, xs))
        e = {v: m[group[v]] for v in vs}
        if all(ev(b, e, None) is True for b in lits):
            return e
    return None
