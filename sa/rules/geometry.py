"""C17: component-wise arithmetic; C18: bounds are minima and maxima over all points."""
from ..facts import strip_generics
from ..loops import over
from ..rel import Result, analyse, conj, decide, loc, same, sameseq
from ..report import Check
from ..terms import *

G = "geometry::"
PT, VC, PA, BB = G + "Point", G + "Vector", G + "Path", G + "BoundingBox"
BIN = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div"}


def fidx(lib, adt):
    a = lib.adts.get(adt)
    if a is None or a["kind"] != "Struct":
        return None
    return {f["n"]: i for i, f in enumerate(a["variants"][0]["fields"])}


def fop(op, *a):
    return typed(mk("fop", op, *a), "f64")


def xy(lib, adt):
    i = fidx(lib, adt)
    return None if i is None or "x" not in i or "y" not in i else (i["x"], i["y"])


def kind(lib, tyi):
    t = lib.types[tyi]
    while t["k"] == "ref":
        t = lib.types[t["to"]]
    if t["k"] == "float":
        return "f"
    if t["k"] == "adt" and t["adt"] in (PT, VC):
        return t["adt"]
    return None


def f64(t):
    return typed(t, "f64")


def comp(lib, t, adt, n):
    """x (0) or y (1) of a point, vector or number"""
    if adt == "f":
        return t
    return f64(fld(t, 0, xy(lib, adt)[n]))


def check_C17(lib, bn):
    c = Check("C17", "proof",
              "Relational abstract interpretation of every arithmetic operator, conversion, constructor and accessor of points, vectors and "
              "paths: the result of every path through the function, as a term over the arguments' components, must have the same normal "
              "form (quotient of polynomials over components, sines, cosines and roots) as the component-wise definition.",
              ["floating point operations are compared up to rounding; sin, cos, sqrt and to_radians are the functions of their names"])
    if not xy(lib, PT) or not xy(lib, VC):
        c.undecided("types", "src/geometry.rs", "points and vectors no longer have fields x and y")
        return c.finish()
    nops = 0
    for p, f in sorted(lib.fns.items()):
        tr = (f.get("impl_trait") or "").split("<")[0]
        if not p.startswith("<") or f.get("root") not in lib.insts:
            continue
        inst = lib.insts[f["root"]]
        key = "op:" + strip_generics(p)
        tn = tr.split("::")[-1]
        ks = [kind(lib, inst.locals[i + 1]["ty"]) for i in range(inst.nargs)]
        out = kind(lib, inst.locals[0]["ty"])
        w = loc(lib, p)
        if tr.startswith("std::ops::") and tn in BIN and len(ks) == 2 and None not in ks and out not in (None, "f"):
            nops += 1

            def spec(r, op=BIN[tn], ks=ks, out=out, p=p):
                a, b = r.before(0), r.before(1)
                v = [same(r.st, comp(lib, r.ret, out, n), fop(op, comp(lib, a, ks[0], n), comp(lib, b, ks[1], n))) for n in (0, 1)]
                return conj(v), "%s computes %s" % (p, show(r.ret)[:300])
            decide(c, key, lib, p, spec, where=w, text="component-wise " + tn)
        elif tr.startswith("std::ops::") and tn.endswith("Assign") and tn[:-6] in BIN and len(ks) == 2 and None not in ks:
            nops += 1

            def spec(r, op=BIN[tn[:-6]], ks=ks, p=p):
                a, b, z = r.before(0), r.before(1), r.after(0)
                v = [same(r.st, comp(lib, z, ks[0], n), fop(op, comp(lib, a, ks[0], n), comp(lib, b, ks[1], n))) for n in (0, 1)]
                return conj(v), "%s computes %s" % (p, show(z)[:300])
            decide(c, key, lib, p, spec, where=w, text="component-wise " + tn)
        elif tr == "std::ops::Neg" and ks[0] not in (None, "f") and out not in (None, "f"):
            nops += 1

            def spec(r, ks=ks, out=out, p=p):
                v = [same(r.st, comp(lib, r.ret, out, n), fop("Neg", comp(lib, r.before(0), ks[0], n))) for n in (0, 1)]
                return conj(v), "%s computes %s" % (p, show(r.ret)[:300])
            decide(c, key, lib, p, spec, where=w, text="component-wise negation")
        elif tr in ("std::convert::From", "std::clone::Clone") and len(ks) == 1 and ks[0] not in (None, "f") and out not in (None, "f"):
            nops += 1

            def spec(r, ks=ks, out=out, p=p):
                v = [same(r.st, comp(lib, r.ret, out, n), comp(lib, r.before(0), ks[0], n)) for n in (0, 1)]
                return conj(v), "%s gives %s" % (p, show(r.ret)[:300])
            decide(c, key, lib, p, spec, where=w, text="same components")
        elif tr == "std::default::Default" and out not in (None, "f"):
            decide(c, key, lib, p, lambda r, out=out: (conj(same(r.st, comp(lib, r.ret, out, n), mk("float", 0.0)) for n in (0, 1)), show(r.ret)),
                   where=w, text="zero")
    c.floor("arithmetic operators and conversions", nops, 13)

    def one(p, spec, text, peel=3):
        if p not in lib.fns or lib.fns[p].get("root") not in lib.insts:
            c.undecided("fn:" + p, "src/geometry.rs", "no such function")
            return
        decide(c, "fn:" + p, lib, p, spec, where=loc(lib, p), text=text, peel=peel)

    def ret2(adt, x, y):
        return lambda r: (conj(same(r.st, comp(lib, r.ret, adt, n), (x, y)[n](r) if callable(x) else mk("float", (x, y)[n])) for n in (0, 1)),
                          "gives " + show(r.ret)[:200])
    for adt in (PT, VC):
        one(adt + "::new", ret2(adt, lambda r: f64(r.before(0)), lambda r: f64(r.before(1))), "components as given")
        one(adt + "::zero", ret2(adt, 0.0, 0.0), "zero")
        for n, m in ((0, "x"), (1, "y")):
            one(adt + "::" + m, lambda r, n=n, adt=adt: (same(r.st, r.ret, comp(lib, r.before(0), adt, n)), "gives " + show(r.ret)[:200]), "the component")
    one(VC + "::up", ret2(VC, 0.0, 1.0), "(0, 1)")
    one(VC + "::down", ret2(VC, 0.0, -1.0), "(0, -1)")

    def norm(r):
        x, y = (comp(lib, r.before(0), VC, n) for n in (0, 1))
        return same(r.st, r.ret, fop("sqrt", fop("Add", fop("Mul", x, x), fop("Mul", y, y)))), "norm computes " + show(r.ret)[:300]
    one(VC + "::norm", norm, "sqrt(x*x + y*y)")

    def rot(r):
        x, y = (comp(lib, r.before(0), VC, n) for n in (0, 1))
        a = fop("to_radians", f64(r.before(1)))
        co, si = fop("cos", a), fop("sin", a)
        w = (fop("Sub", fop("Mul", co, x), fop("Mul", si, y)), fop("Add", fop("Mul", si, x), fop("Mul", co, y)))
        return conj(same(r.st, comp(lib, r.ret, VC, n), w[n]) for n in (0, 1)), "rotate computes " + show(r.ret)[:400]
    one(VC + "::rotate", rot, "counter-clockwise rotation matrix of the angle in degrees")

    # paths
    pi = (fidx(lib, PA) or {}).get("points")
    if pi is None:
        c.undecided("paths", "src/geometry.rs", "Path has no field points")
        return c.finish()

    def pts(t):
        return typed(fld(t, 0, pi), "seq")

    def sized(r, got, want, what):
        v = sameseq(r.st, got, want)
        return v, "%s: %s" % (what, show(got)[:300])
    for p, f in sorted(lib.fns.items()):
        if f.get("root") not in lib.insts:
            continue
        inst = lib.insts[f["root"]]
        tr = (f.get("impl_trait") or "").split("<")[0]
        selfty = lib.types[f["impl_self"]].get("adt") if f.get("impl_self") is not None else None
        if selfty != PA:
            continue
        key = "path:" + strip_generics(p)
        w = loc(lib, p)
        if tr in ("std::ops::Add", "std::ops::Sub") and kind(lib, inst.locals[2]["ty"]) == VC:
            op = tr.split("::")[-1]

            def spec(r, op=op):
                a, v = pts(r.before(0)), r.before(1)
                b = typed(mk("bv", 800), "usize")
                e = elem(a, b)
                px, py = xy(lib, PT)
                body = [None, None]
                body[px] = fop(op, f64(fld(e, 0, px)), comp(lib, v, VC, 0))
                body[py] = fop(op, f64(fld(e, 0, py)), comp(lib, v, VC, 1))
                return sized(r, pts(r.ret), mapseq(a, b, mk("adt", PT, 0, *body)), "the translated path holds")
            decide(c, key, lib, p, spec, where=w, text="every point translated, same number and order")
        elif tr == "std::iter::IntoIterator":
            def spec(r):
                if r.ret.op == "it":
                    return sized(r, slice_(r.ret.a[0], r.ret.a[1], r.ret.a[2]), pts(r.before(0)), "iterates over")
                return None, show(r.ret)[:200]
            decide(c, key, lib, p, spec, where=w, text="all points in order")
        elif tr == "std::clone::Clone":
            decide(c, key, lib, p, lambda r: sized(r, pts(r.ret), pts(r.before(0)), "holds"), where=w, text="the same points")
        elif tr == "std::default::Default":
            decide(c, key, lib, p, lambda r: sized(r, pts(r.ret), EMPTY, "holds"), where=w, text="no points")
    one(PA + "::new", lambda r: sized(r, pts(r.ret), EMPTY, "holds"), "no points")
    one(PA + "::len", lambda r: (same(r.st, r.ret, len_(pts(r.before(0)))), "len gives " + show(r.ret)), "number of points")

    def isempty(r):
        n = len_(pts(r.before(0)))
        return iff(r.st, r.ret, eqi(n, ZERO)), "is_empty gives " + show(r.ret)
    one(PA + "::is_empty", isempty, "no points")

    def push(r):
        a, b = pts(r.before(0)), pts(r.after(0))
        v = [e for e in r.st.events() if e[0] == "user"]
        if b.op == "cat" and b.a[0] is a and len(b.a) == 2 and b.a[1].op == "lst" and len(b.a[1].a) == 1 and len(v) == 1:
            x = b.a[1].a[0]
            return (True if x.op == "sym" else None), ""
        if r.st.ask(eqi(len_(b), addc(len_(a), 1))) is False:
            return False, "push leaves " + show(b)[:200]
        return None, "push leaves " + show(b)[:200]
    one(PA + "::push", push, "one point appended")

    def opt(i):
        def spec(r):
            a = pts(r.before(0))
            i_ = i(r)
            inr = lt(i_, len_(a))
            if r.ret.op != "adt":
                return None, show(r.ret)
            if r.ret.a[1] == 0:
                return (True if r.st.ask(inr) is False else False if r.st.ask(inr) is True else None), "gives None"
            e = r.ret.a[2]
            if r.st.ask(inr) is not True:
                return None, show(r.ret)[:200]
            return same(r.st, e, elem(a, i_)), "gives " + show(e)[:200]
        return spec
    one(PA + "::get", opt(lambda r: typed(r.before(1), "usize")), "the point at the index, if there")
    one(PA + "::get_start", opt(lambda r: ZERO), "the first point, if there")

    def it(r):
        if r.ret.op == "it":
            return sized(r, slice_(r.ret.a[0], r.ret.a[1], r.ret.a[2]), pts(r.before(0)), "iterates over")
        return None, show(r.ret)[:200]
    one(PA + "::iter", it, "all points in order")
    return c.finish()


def iff(st, a, b):
    """does the boolean term a have the value of b?"""
    if a is b:
        return True
    out = True
    for v in (True, False):
        for s in st.assume(a, v):
            r = s.ask(b)
            if r is None:
                out = None
            elif r is not v:
                return False
    return out


# ---------------------------------------------------------------- bounds
def inf(sign):
    return mk("float", sign * float("inf"))


def check_C18(lib, bn):
    c = Check("C18", "proof",
              "Relational abstract interpretation of the bounds functions: the loop values at each exit are closed into folds (minimum, "
              "maximum, sum over nested index ranges) from the values on the back edges; each field of the returned box must be the fold "
              "over every point of every path. Width, height and centre are compared with their definitions by normal form.",
              ["coordinates are finite (not infinite and not NaN)", "floating point operations are compared up to rounding"])
    bi, pi, vi = fidx(lib, BB), fidx(lib, PA), xy(lib, PT)
    if not bi or not {"min_x", "max_x", "min_y", "max_y", "com"} <= set(bi) or not pi or "points" not in pi or not vi:
        c.undecided("types", "src/geometry.rs", "unknown representation of paths, points or boxes")
        return c.finish()

    def pts(t):
        return typed(fld(t, 0, pi["points"]), "seq")

    def px(t, n):
        return f64(fld(t, 0, vi[n]))

    def bb(t, n):
        return f64(fld(t, 0, bi[n]))

    def one(p, spec, text, small=None):
        if p not in lib.fns or lib.fns[p].get("root") not in lib.insts:
            c.undecided("fn:" + p, "src/geometry.rs", "no such function")
            return
        decide(c, "fn:" + p, lib, p, spec, where=loc(lib, p), text=text, small=small, deep=False)

    n = 0
    for p, f in sorted(lib.fns.items()):
        if f["name"] != "bounds" or f.get("root") not in lib.insts:
            continue
        t = lib.types[f["impl_self"]] if f.get("impl_self") is not None else {}
        inst = lib.insts[f["root"]]
        single = t.get("adt") == PA
        el = None
        if not single and t.get("k") in ("slice", "array"):
            el = lib.types[t["el"]]
        elif not single and t.get("adt") == "std::vec::Vec":
            el = lib.types[t["args"][0]]
        if not single and not (el and el.get("adt") == PA):
            continue
        n += 1

        def spec(r, single=single):
            return bounds(r, single)

        def bounds(r, single):
            a = r.before(0)
            st = r.st
            # concrete when the loops are unrolled
            S = pts(a) if single else typed(a, "seq")

            def each(g):
                """g(point) over all points"""
                if single:
                    return over(ZERO, len_(S), lambda i: g(elem(S, i)))
                return over(ZERO, len_(S), lambda j: over(ZERO, len_(pts(elem(S, j))), lambda i: g(elem(pts(elem(S, j)), i))))

            def F(op, n):
                return f64(mk("ffold", op, (each(lambda t: px(t, n)),)))
            count = len_(S) if single else typed(mk("ffold", "Add", (over(ZERO, len_(S), lambda j: len_(pts(elem(S, j)))),)), "usize")
            if r.ret.op != "adt":
                return None, "result not understood: " + show(r.ret)[:200]
            if r.peeled:
                return unrolled(r, a, single)
            mins = [F("min", 0), F("max", 0), F("min", 1), F("max", 1)]
            if r.ret.a[1] == 0:
                return nothing(r, single, S, mins), "bounds is None on a path where there are points"
            box = r.ret.a[2]
            v = []
            for m, w in zip(("min_x", "max_x", "min_y", "max_y"), mins):
                v.append((same(st, bb(box, m), w), "%s is %s" % (m, show(bb(box, m))[:300])))
            com = fld(box, 0, bi["com"])
            for k in (0, 1):
                w = fop("Div", F("Add", k), typed(mk("i2f", count), "f64"))
                v.append((same(st, px(com, k), w), "%s of the centre of mass is %s" % ("xy"[k], show(px(com, k))[:300])))
            for x, y in v:
                if x is not True:
                    return x, y
            if something(r, single, S, mins) is not True:
                return None, "not shown that there is a point when bounds are given"
            return True

        def inffact(r, mins, truth):
            """a test of the resolved extremes for infinity"""
            for fa in r.st.facts.all():
                g, tr = (fa.a[0], False) if fa.op == "not" else (fa, True)
                if g.op == "fclass" and g.a[0] in ("is_infinite", "is_finite"):
                    x = r.R(g.a[1])
                    if any(same(r.st, x, w) is True for w in mins) and (tr is truth) == (g.a[0] == "is_infinite"):
                        return True
                if g.op == "fcmp":
                    xs = [r.R(x) for x in g.a[1:]]
                    hit = [any(same(r.st, x, w) is True for w in mins) for x in xs]
                    if all(hit) and g.a[0] in ("lt", "le"):
                        # min_x <= max_x: there is a point
                        kinds = [[i % 2 for i, w in enumerate(mins) if same(r.st, x, w) is True][0] for x in xs]
                        if kinds == [0, 1] and tr is not truth or kinds == [1, 0] and tr is truth and g.a[0] == "lt":
                            return True
                    if any(hit) and any(x.op == "float" and abs(x.a[0]) == float("inf") for x in xs):
                        if g.a[0] == "eq" and tr is truth:
                            return True
                        if g.a[0] == "lt" and tr is not truth:
                            return True
            return None

        def total(r, truth):
            """a test of the number of points for zero"""
            for fa in r.st.facts.all():
                g, tr = (fa.a[0], False) if fa.op == "not" else (fa, True)
                if g.op == "eq0" or g.op == "le0" or (g.op == "fcmp" and g.a[0] == "eq"):
                    if tr is truth and any(x.op == "len" and x.a[0].op == "flatseq" for x in walk(g)):
                        return True
                    for x in leaves(g):
                        if x.op == "phi":
                            y = r.R(x)
                            if y.op == "ffold" and y.a[0] == "Add" and tr is truth:
                                return True
            return None

        def nothing(r, single, S, mins):
            if r.st.ask(eqi(len_(S), ZERO)) is True:
                return True
            if single and r.st.ask(eqi(len_(S), ZERO)) is False and inffact(r, mins, True) is not True:
                return False
            return True if inffact(r, mins, True) or total(r, True) else None

        def something(r, single, S, mins):
            if single and r.st.ask(le(ONE, len_(S))) is True:
                return True
            return True if inffact(r, mins, False) or total(r, False) or (not single and positive(r)) else None

        def positive(r):
            return any(x.op == "le0" and any(y.op == "phi" for y in leaves(x)) for x in r.st.facts.all())

        def unrolled(r, a, single):
            """the first passes: the points are known one by one"""
            st = r.st
            ps = [a]
            if not single:
                n = constn(st, len_(typed(a, "seq")))
                if n is None:
                    return None
                ps = [elem(typed(a, "seq"), INT(i)) for i in range(n)]
            xs = []
            for q in ps:
                n = constn(st, len_(pts(q)))
                if n is None:
                    return None
                xs += [elem(pts(q), INT(i)) for i in range(n)]
            if any(fa.op == "fclass" and fa.a[0] == "is_infinite" and not fa.a[1].op == "float" for fa in st.facts.all()) \
                    or any(fa.op == "not" and fa.a[0].op == "fclass" and fa.a[0].a[0] == "is_finite" for fa in st.facts.all()):
                return True        # not finite: outside the property
            for x in xs:
                for k in (0, 1):
                    for b in (fcmp("lt", inf(-1), px(x, k)), fcmp("lt", px(x, k), inf(1))):
                        if st.ask(b) is False:
                            return True        # not finite
            if r.ret.a[1] == 0:
                return (True, "") if not xs else (False, "None for %d point(s) in %d path(s)" % (len(xs), len(ps)))
            if not xs:
                return False, "bounds given for %d path(s) without any point" % len(ps)
            box = r.ret.a[2]
            for m, k, mx in (("min_x", 0, 0), ("max_x", 0, 1), ("min_y", 1, 0), ("max_y", 1, 1)):
                b = bb(box, m)
                w = px(xs[0], k)
                for x in xs[1:]:
                    w = fop("max" if mx else "min", w, px(x, k))
                if same(st, b, w) is True:
                    continue
                if b.op == "float":
                    return False, "%s is %s for %d point(s)" % (m, show(b), len(xs))
                if b not in [px(x, k) for x in xs]:
                    if b.op == "fld":
                        return False, "%s is %s, which is none of the %d points' coordinates" % (m, show(b), len(xs))
                    return None, "%s is %s" % (m, show(b)[:100])
                for x in xs:
                    le_ = fcmp("le", b, px(x, k)) if not mx else fcmp("le", px(x, k), b)
                    lt_ = fcmp("lt", px(x, k), b) if not mx else fcmp("lt", b, px(x, k))
                    if b is not px(x, k) and st.ask(le_) is not True and st.ask(lt_) is not False:
                        return False, "%s is %s although %s may be %s" % (m, show(b), show(px(x, k)), "larger" if mx else "smaller")
            com = fld(box, 0, bi["com"])
            for k in (0, 1):
                s = px(xs[0], k)
                for x in xs[1:]:
                    s = fop("Add", s, px(x, k))
                if same(st, px(com, k), fop("Div", s, mk("float", float(len(xs))))) is not True:
                    return same(st, px(com, k), fop("Div", s, mk("float", float(len(xs))))), "%s of the centre of mass of %d point(s) is %s" % ("xy"[k], len(xs), show(px(com, k))[:200])
            return True

        def constn(st, n):
            if n.op == "int":
                return n.a[0]
            for k in range(5):
                if st.ask(eqi(n, INT(k))) is True:
                    return k
            return None
        def small(vals):
            S = typed(vals[0], "seq")
            out = [le(len_(S), INT(2))]
            for i in (0, 1):
                q = pts(elem(S, INT(i)))
                out.append(le(len_(q), ONE))
                for k in (0, 1):
                    out += [fcmp("lt", inf(-1), px(elem(q, ZERO), k)), fcmp("lt", px(elem(q, ZERO), k), inf(1))]
            return out
        one(p, spec, small=None if single else small, text="tightest box over all points, mean as centre of mass, None exactly without points")
    c.floor("bounds functions", n, 2)

    def ab(x, y):
        return fop("abs", fop("Sub", x, y))
    for m, (lo, hi) in (("width", ("min_x", "max_x")), ("height", ("min_y", "max_y"))):
        def spec(r, lo=lo, hi=hi):
            a, b = bb(r.before(0), lo), bb(r.before(0), hi)
            x = same(r.st, r.ret, ab(b, a))
            if x is not True and same(r.st, r.ret, fop("Sub", b, a)) is True:
                return True
            return x, "gives " + show(r.ret)[:200]
        one(BB + "::" + m, spec, "%s - %s" % (hi, lo))

    def center(r):
        b = r.before(0)
        v = []
        for k, (lo, hi) in enumerate((("min_x", "max_x"), ("min_y", "max_y"))):
            v.append(same(r.st, px(r.ret, k), fop("Div", fop("Add", bb(b, lo), bb(b, hi)), mk("float", 2.0))))
        return conj(v), "gives " + show(r.ret)[:200]
    one(BB + "::center", center, "the middle of the box")
    for p in (BB + "::zero", "<%s as std::default::Default>::default" % BB):
        def spec(r):
            z = mk("float", 0.0)
            return conj([same(r.st, bb(r.ret, m), z) for m in ("min_x", "max_x", "min_y", "max_y")]), "gives " + show(r.ret)[:200]
        one(p, spec, "the box holding only the origin")
    return c.finish()
