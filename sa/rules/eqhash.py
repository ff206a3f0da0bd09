"""C14: equal values hash equally; equality is an equivalence; symbols are equal exactly when their
codes are, productions exactly when their whole heads are."""
from ..cc import CC
from ..facts import norm
from ..rel import clean, loc
from ..report import Check
from ..sym import analyse
from ..terms import *

EQ, HASH = "std::cmp::PartialEq", "std::hash::Hash"


def struct_val(eng, tyi, t, depth=0):
    """a value of this type with its fields spelled out, as far as they are the crate's own structs"""
    ty = eng.prog.types[tyi]
    if ty["k"] == "ref":
        return struct_val(eng, ty["to"], t, depth)
    if ty["k"] == "adt" and depth < 6:
        a = eng.prog.adts.get(ty["adt"])
        if a and a["kind"] == "Struct" and not ty.get("args"):
            return mk("adt", ty["adt"], 0, *[struct_val(eng, f["ty"], fld(t, 0, i), depth + 1) for i, f in enumerate(a["variants"][0]["fields"])])
    eng.typ(t, tyi)
    return t


def named(*names):
    """symbolic arguments: the values called so; a name None is an opaque `&mut`"""
    def args(eng, inst, st):
        out = []
        for i in range(inst.nargs):
            ty = inst.locals[i + 1]["ty"]
            t = eng.prog.types[ty]
            if names[i] is None:
                v = mk("sym", inst.name, "arg", i)
                if t["k"] == "ref" and t.get("mut"):
                    r = ("a", inst.name, i)
                    st.mem[r] = v
                    eng.rootty[r] = t["to"]
                    out.append(mk("mref", r, ()))
                else:
                    out.append(v)
                continue
            s = mk("sym", "value", names[i], "arg", 0)
            out.append(struct_val(eng, ty, s))
        return out
    return args


class Rel:
    """paths of a function that returns bool"""

    def __init__(self, run):
        self.run = run
        self.yes, self.no = [], []
        for st, v in run.res:
            fs = [(b, True) for b in st.facts.all()]
            if v.op == "bool":
                (self.yes if v.a[0] else self.no).append(fs)
            else:
                self.yes.append(fs + [(v, True)])
                self.no.append(fs + [(v, False)])


def ren(fs, m):
    return [(subst(b, m, raw=True), v) for b, v in fs]


def rename(lib, tyi, eng, frm, to):
    """leaf substitution: the parts of value `frm` become those of `to`"""
    m = {}
    for x, y in zip(frm, to):
        m[mk("sym", "value", x, "arg", 0)] = mk("sym", "value", y, "arg", 0)
    return m


def understood(fs):
    return all(clean(b) for b, v in fs)


def flat(v):
    if v.op == "tup":
        return [y for x in v.a for y in flat(x)]
    if v.op == "adt" and v.a[0] in STRUCTS:
        return [y for x in v.a[2:] for y in flat(x)]
    return [v]


def check_C14(lib, bn):
    c = Check("C14", "proof",
              "for every hashable type, on all pairs of paths of eq and hash: values that compare equal feed the same sequence to the hasher; eq is reflexive, symmetric and transitive; eq of Symbol and Production is equality of the code and of the whole head",
              ["std's own Eq and Hash implementations agree with each other"])
    eqs, hashes = {}, {}
    for p, f in lib.fns.items():
        if f.get("impl_self") is None or f.get("root") not in lib.insts:
            continue
        t = lib.types[f["impl_self"]]
        if t["k"] != "adt" or t["adt"] not in lib.adts:
            continue
        if f.get("impl_trait") == EQ and f["name"] == "eq":
            eqs.setdefault(t["adt"], p)
        if f.get("impl_trait") == HASH and f["name"] == "hash":
            hashes.setdefault(t["adt"], p)

    def relation(adt, a, b, p=None):
        r = analyse(lib, p or eqs[adt], args=named(a, b), tmax=30.0)
        c.fn(r.inst.name)
        return r

    done = 0
    for adt in sorted(hashes):
        if adt not in eqs:
            continue
        done += 1
        w = loc(lib, hashes[adt])
        we = loc(lib, eqs[adt])
        try:
            re_ = relation(adt, "A", "B")
            rh = analyse(lib, hashes[adt], args=named("A", None), tmax=30.0)
        except Exception as x:
            c.undecided("hash:" + adt, w, repr(x)[:100])
            continue
        c.fn(rh.inst.name)
        if re_.err or rh.err:
            c.undecided("hash:" + adt, w, str(re_.err or rh.err))
            continue
        roots = {mk("sym", "value", n, "arg", 0): lib.adts[adt]["ty"] for n in "ABC"}
        E = Rel(re_)
        toB = {mk("sym", "value", "A", "arg", 0): mk("sym", "value", "B", "arg", 0)}
        H = []
        hashok = True
        for st, v in rh.res:
            ev = [e for e in st.events() if e[0] == "hash"]
            if any(e[0] in ("loop", "opaque", "user") for e in st.events()):
                hashok = False
            H.append(([(b, True) for b in st.facts.all()], [x for e in ev for x in flat(e[2])]))
        verdict, why = True, ""
        if not hashok:
            verdict, why = None, "hash is not understood"
        for y in E.yes if hashok else ():
            for f1, s1 in H:
                for f2, s2 in H:
                    fs = y + f1 + ren(f2, toB)
                    s2b = [subst(x, toB, raw=True) for x in s2]
                    cc = CC(fs, lib, roots)
                    for x in s1 + s2b:
                        cc.add(x)
                    cc.close()
                    if not cc.consistent():
                        continue
                    if len(s1) == len(s2b) and all(cc.equal(x, z) for x, z in zip(s1, s2b)):
                        continue
                    surely = cc.simple() and understood(fs) and all(clean(x) for x in s1 + s2b)
                    t = [(show(x), show(z)) for x, z in zip(s1, s2b) if not cc.equal(x, z)]
                    why = "values that compare equal may hash differently: %s" % (str(t[:2]) if t else "sequences of %d and %d parts" % (len(s1), len(s2b)))
                    verdict = False if surely else verdict if verdict is False else None
                    if verdict is False:
                        break
                if verdict is False:
                    break
            if verdict is False:
                break
        c.judge3("hash:" + adt, verdict, w, why or "equal values hash equally (%d x %d paths)" % (len(E.yes), len(H)))

        # ---- equivalence relation
        def rel3(name, combos, text):
            verdict, why = True, ""
            for fs in combos:
                cc = CC(fs, lib, roots)
                if not cc.consistent():
                    continue
                if cc.simple() and understood(fs):
                    verdict, why = False, text + " under " + ", ".join(("" if v else "not ") + show(b)[:80] for b, v in fs[:6])
                    break
                verdict, why = None, text + "?"
            c.judge3("%s:%s" % (name, adt), verdict, we, why or "eq is " + name)
        A, B, C = (mk("sym", "value", n, "arg", 0) for n in "ABC")
        rel3("reflexive", [ren(n, {B: A}) for n in E.no], "a value may differ from itself")
        rel3("symmetric", [y + ren(n, {A: B, B: A}) for y in E.yes for n in E.no], "a == b but b != a")
        if len(E.yes) <= 8:
            rel3("transitive", [y + ren(y2, {A: B, B: C}) + ren(n, {B: C}) for y in E.yes for y2 in E.yes for n in E.no],
                 "a == b and b == c but a != c")
        ne = eqs[adt][:-4] + "::ne"
        if ne in lib.fns and lib.fns[ne].get("root") in lib.insts:
            N = Rel(relation(adt, "A", "B", ne))
            rel3("ne", [y + n for y in E.yes for n in N.yes] + [y + n for y in E.no for n in N.no], "== and != agree")

    # ---- what equality means
    def meaning(adt, parts, text):
        if adt not in eqs or adt not in lib.adts:
            c.undecided("meaning:" + adt, "", "no such type")
            return
        r = relation(adt, "A", "B")
        w = loc(lib, eqs[adt])
        if r.err:
            c.undecided("meaning:" + adt, w, r.err)
            return
        E = Rel(r)
        roots = {mk("sym", "value", n, "arg", 0): lib.adts[adt]["ty"] for n in "ABC"}
        a, b = (mk("sym", "value", n, "arg", 0) for n in "AB")
        want, inner = [], []

        def leafs(x, y, tyi):
            t = lib.types[tyi]
            d = lib.adts.get(t.get("adt")) if t["k"] == "adt" else None
            if d and d["kind"] == "Struct" and not t.get("args"):
                inner.append((x, y))
                for i, f in enumerate(d["variants"][0]["fields"]):
                    leafs(fld(x, 0, i), fld(y, 0, i), f["ty"])
            else:
                r.eng.typ(x, tyi)
                r.eng.typ(y, tyi)
                want.append((x, y))
        for p in parts:
            x, y, tyi = a, b, lib.adts[adt]["ty"]
            for n in p:
                fs = lib.adts[lib.types[tyi]["adt"]]["variants"][0]["fields"]
                i = [k for k, f in enumerate(fs) if f["n"] == n]
                if not i:
                    c.undecided("meaning:" + adt, w, "no field %s" % n)
                    return
                x, y, tyi = fld(x, 0, i[0]), fld(y, 0, i[0]), fs[i[0]]["ty"]
            leafs(x, y, tyi)
        verdict, why = True, ""
        for y in E.yes:
            cc = CC(y, lib, roots)
            for u, v in want:
                cc.add(u)
                cc.add(v)
            cc.close()
            if not cc.consistent():
                continue
            for u, v in want:
                if not cc.equal(u, v):
                    if cc.simple() and understood(y):
                        verdict, why = False, "values are equal without regard to %s" % show(u)
                    elif verdict is True:
                        verdict, why = None, "equality of %s not understood" % show(u)
        req = [(eq(u, v) if not isint(u) else eqi(u, v), True) for u, v in want] + [(mk("eq", u, v), True) for u, v in inner]
        for n in E.no:
            cc = CC(n + req, lib, roots)
            if not cc.consistent():
                continue
            if cc.simple() and understood(n):
                verdict, why = False, "values with equal %s may differ" % text
            elif verdict is True:
                verdict, why = None, "inequality not understood"
        c.judge3("meaning:" + adt, verdict, w, why or "equal exactly when %s" % text)
    meaning("symbols::Symbol", [("code",)], "the codes are equal")
    meaning("productions::Production", [("head",)], "the heads are equal")
    c.floor("hashable types", done, 4)
    return c.finish()
