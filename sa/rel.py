"""Comparing what a function computes with what it should: on every result path, in terms of the
arguments. Verdicts: True proved, False refuted, None not understood."""
import os
import time

from . import fnorm
from .fwit import FLOATLIT, example
from .loops import Resolver
from .sym import analyse, constructible, value
from .terms import *


BUDGET = 60.0       # seconds for the search for a refutation of one obligation that was not proved


def clean(t):
    """made of arguments, constants and known operations only"""
    for l in leaves(t):
        if l.op == "phi":
            return False
        if l.op == "sym" and "arg" not in l.a and "locked" not in l.a and "random" not in l.a:
            return False
    return not any(x.op in ("pure", "iterseq", "bottom", "uninit") for x in walk(t))


def same(st, a, b):
    """are two values equal? (floats: up to rounding)"""
    if a is b:
        return True
    if a.op == "adt" and b.op == "adt":
        if a.a[0] != b.a[0] or len(a.a) != len(b.a) and a.a[1] == b.a[1]:
            return None
        if a.a[1] != b.a[1]:
            return False
        return conj(same(st, x, y) for x, y in zip(a.a[2:], b.a[2:]))
    if a.op == "tup" and b.op == "tup":
        return False if len(a.a) != len(b.a) else conj(same(st, x, y) for x, y in zip(a.a, b.a))
    if isfloat(a) or isfloat(b):
        r = fnorm.same(a, b, st)
        if r is False and not (clean(a) and clean(b)):
            return None
        return r
    if a.op == "adt" and a.a[0] in STRUCTS:
        return conj(same(st, x, fld(b, a.a[1], i)) for i, x in enumerate(a.a[2:]))
    if b.op == "adt" and b.a[0] in STRUCTS:
        return same(st, b, a)
    if isint(a) or isint(b):
        v = st.ask(eqi(a, b))
        if v is not None:
            return v
        return False if clean(a) and clean(b) and not isint_atomlike(a, b) else None
    if isseq(a) or isseq(b):
        return sameseq(st, a, b)
    if st.ask(eq(a, b)) is True:
        return True
    if st.ask(eq(a, b)) is False:
        return False
    return None


def isint_atomlike(a, b):
    return True


def isfloat(t):
    return t.op in ("float", "fop", "i2f", "f2f", "ffold") or tyof.get(t) in ("f32", "f64")


def isseq(t):
    return t.op in ("lst", "cat", "mapseq", "flatseq", "slice", "rev", "upd", "repeat", "rangeseq", "enumseq") or tyof.get(t) == "seq"


def conj(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def constlen(st, s, mx=5):
    n = len_(s)
    if n.op == "int":
        return n.a[0]
    for k in range(mx + 1):
        if st.ask(eqi(n, INT(k))) is True:
            return k
    return None


def sameseq(st, a, b, eq_=None):
    eq_ = eq_ or same
    if a is b:
        return True
    if a.op == "slice" and b.op == "slice" and a.a[0] is b.a[0] and st.ask(eqi(a.a[1], b.a[1])) is True and st.ask(eqi(a.a[2], b.a[2])) is True:
        return True
    e = st.ask(eqi(len_(a), len_(b)))
    if e is False:
        return False if clean(a) and clean(b) else None
    n, m = constlen(st, a), constlen(st, b)
    if n is not None and m is not None:
        if n != m:
            return False if clean(a) and clean(b) else None
        return conj(eq_(st, elem(a, INT(i)), elem(b, INT(i))) for i in range(n))
    if e is not True:
        return None
    bv = typed(mk("bv", 950), "usize")
    x, y = elem(a, bv), elem(b, bv)
    if any(z.op == "elem" and z.a[0].op in ("flatseq", "cat") for z in walk(x)) or any(z.op == "elem" and z.a[0].op in ("flatseq", "cat") for z in walk(y)):
        return None
    s2 = st.copy()
    s2.facts = s2.facts.copy()
    s2.know(le(ZERO, bv))
    s2.know(lt(bv, len_(a)))
    return eq_(s2, x, y)


class Result:
    def __init__(self, run, st, ret, peeled):
        self.run = run
        self.st = st
        self.raw = ret
        self.R = Resolver(st)
        self.ret = self.R(ret)
        self.peeled = peeled

    def after(self, i):
        """what a `&mut` argument refers to afterwards"""
        return self.R(value(self.st, self.run.args[i], self.run.eng))

    def before(self, i):
        a = self.run.args[i]
        if a.op == "mref":
            return self.run.mem0[a.a[0]]
        return a


def decide(c, key, lib, path, spec, peel=3, where="", text="", small=None, deep=True, **kw):
    """spec(Result) -> verdict or (verdict, explanation) for every result path"""
    run = analyse(lib, path, **kw)
    c.fn(run.inst.name)
    if run.err:
        c.undecided(key, where, run.err)
        return None
    why = ""
    verd = True
    for st, v in run.res:
        r = _one(spec, run, st, v, False)
        if os.environ.get("VERIF_WHY"):
            print("  ", key[-40:], r)
        if r[0] is False:
            c.bad(key, where, r[1] or text)
            return False
        if r[0] is None:
            verd, why = None, r[1]
    if verd is True:
        c.ok(key, where, text + " (%d result paths)" % len(run.res))
        return True
    end = time.monotonic() + BUDGET
    for n in (2, peel) + (limits(run, peel) if deep else ()) if peel else ():
        if time.monotonic() > end:
            break
        more = dict(kw, tmax=25.0)
        if n == peel and small is not None:
            more["assume"] = lambda eng, inst, vals: small(vals) + (kw["assume"](eng, inst, vals) if kw.get("assume") else [])
        p = analyse(lib, path, peel=n, **more)
        for st, v in p.res:
            if time.monotonic() > end:
                break
            r = _one(spec, p, st, v, True)
            if os.environ.get("VERIF_WHY"):
                print("  peel", n, key[-40:], r)
            if r[0] is False:
                c.bad(key, where, "%s [seen on the first %d passes of its loops]" % (r[1] or text, n))
                return False
    if peel and deep and scaled(c, key, lib, path, spec, run, where, text, end, small, kw):
        return False
    c.undecided(key, where, why or text)
    return None


def scaled(c, key, lib, path, spec, run, where, text, end, small, kw):
    """A limit in the code (the only number in it larger than ten, and only compared with or counted to)
    is out of reach of the unrolled passes; what goes wrong past it does so for any limit, so the same code
    is judged with a limit of 2 and of 3 in its place. Both must be refuted."""
    big = [k for k in run.eng.bigs if k < 1 << 32]
    if len(big) != 1 or len(run.eng.bigs) != 1 or run.eng.arith:
        return False
    whys = []
    for k in (2, 3):
        more = dict(kw, tmax=25.0)
        if small is not None:
            more["assume"] = lambda eng, inst, vals: small(vals) + (kw["assume"](eng, inst, vals) if kw.get("assume") else [])
        p = analyse(lib, path, peel=k + 2, scale={big[0]: k}, **more)
        if p.eng.arith:
            return False
        for st, v in p.res:
            if time.monotonic() > end + 20:
                return False
            r = _one(spec, p, st, v, True)
            if os.environ.get("VERIF_WHY"):
                print("  scaled", k, key[-40:], r)
            if r[0] is False:
                whys.append(r[1] or text)
                break
        else:
            return False
    c.bad(key, where, "%s [with the limit %d in the code taken as %d, seen on the first %d passes of its loops]" % (whys[-1], big[0], k, k + 2))
    return True


def limits(run, peel):
    """a number of passes beyond the small numbers the code compares with"""
    ks = set()
    for st, v in run.res:
        for b in list(st.facts.all()) + [v]:
            for t in walk(b):
                if t.op == "int":
                    ks.add(t.a[0])
                elif t.op in ("lin",) and isinstance(t.a[0], int):
                    ks.add(abs(t.a[0]))
        if len(ks) > 50:
            break
    ks = [k for k in ks if peel <= k <= 10]
    return (max(ks) + 2,) if ks else ()


def _one(spec, run, st, v, peeled):
    try:
        r = spec(Result(run, st, v, peeled))
    except (AttributeError, IndexError, KeyError, TypeError, ValueError, RecursionError, AssertionError) as x:
        if os.environ.get("VERIF_DEBUG"):
            raise
        return None, "not understood: %r" % x
    if not isinstance(r, tuple):
        r = (r, "")
    if r[0] is False and constructible(run.eng.prog, run.inst, st) is False:
        return None, "in a case that no value made by the crate is in"
    return r


def rootpath(lib, p):
    f = lib.fns.get(p)
    return f is not None and f.get("root") in lib.insts


def loc(lib, p):
    sp = lib.fns[p]["span"]
    return "%s:%s" % (sp[0], sp[1])


def call(lib, path, vals, st=None, **kw):
    """a function applied to given values, under the facts of a state: its Run, or None"""
    if path not in lib.fns or lib.fns[path].get("root") not in lib.insts:
        return None

    def args(eng, inst, s):
        if st is not None:
            s.facts = st.facts.copy()
            s.mem.update(st.mem)
        return list(vals)
    kw.setdefault("tmax", 20.0)
    return analyse(lib, path, args=args, **kw)


def results(lib, path, vals, st=None):
    """[(state, value)] of the feasible result paths, None if not understood"""
    r = call(lib, path, vals, st)
    if r is None or r.err:
        return None
    return [(s, Resolver(s)(v)) for s, v in r.res]


# ---------------------------------------------------------------- implications
def getter(lib, path, x, st=None):
    """what an accessor returns for a value, None if it is not a plain part of it"""
    rs = results(lib, path, [x], st)
    if rs is None or len(rs) != 1:
        return None
    return rs[0][1]


def lits(st):
    return [(b, True) for b in st.facts.all() if b.op != "allq"]


ATOMS = ("has", "sym", "fld", "elem", "len", "discr", "call", "int", "bool", "str", "lin", "float", "hash")


def spine(t):
    """the parts of a term outside the arguments of calls"""
    yield t
    if t.op not in ("call", "sym"):
        for x in t.a:
            yield from nested(x)


def nested(x):
    if isinstance(x, T):
        yield from spine(x)
    elif isinstance(x, tuple):
        for y in x:
            yield from nested(y)


def plain(b):
    """a literal whose meaning is fully known: (in)equalities, order and variants of parts of the arguments"""
    if not clean(b):
        return False
    return all(t.op in ATOMS + ("le0", "eq0", "eq", "not", "and", "or", "indom", "notindom", "isv") or
               (t.op == "sym" and ("arg" in t.a or "free" in t.a or "locked" in t.a)) for t in spine(b))


def consistent(st, lib=None, roots=None):
    """False if the facts contradict each other; True if there is surely a case; None if not known"""
    from .cc import CC
    if st.facts.inconsistent():
        return False
    ls = lits(st)
    cc = CC(ls, lib, roots)
    # positions that are the same
    els = [t for t in cc.terms if t.op in ("elem", "char_at")]
    ch = False
    for n, x in enumerate(els):
        for y in els[:n]:
            if x is not y and x.op == y.op and x.a[0] is y.a[0] and st.ask(eqi(x.a[1], y.a[1])) is True:
                ch |= cc.merge(x, y)
    # questions asked about the same things in other words
    cs = [t for t in cc.terms if t.op == "call"]
    for n, x in enumerate(cs):
        for y in cs[:n]:
            if x is not y and x.a[0] == y.a[0] and len(x.a) == len(y.a) and not cc.equal(x, y) and \
                    all(a is b or same(st, a, b) is True for a, b in zip(x.a[1:], y.a[1:])):
                ch |= cc.merge(x, y)
    if ch:
        cc.close()
    if not cc.consistent():
        return False
    rest = [b for b, v in ls if not plain(b)]
    if not rest:
        return True
    if all(any(x.op in FLOATLIT for x in walk(b)) and clean(b) for b in rest) and example(rest, cc.equal) is not None:
        return True
    return None


def implies(st, goal, lib=None, roots=None):
    """do the facts of a state imply the goal? True, False (there is a case where they do not), None"""
    r = st.ask(goal)
    if r is True:
        return True
    v = True
    for s in st.assume(not_(goal)):
        c = consistent(s, lib, roots)
        if c is True:
            return False
        if c is None:
            v = None
    return v


def possible(st, goals, lib=None, roots=None):
    """can all the goals hold together here? True, False, None"""
    ss = [st]
    for g in goals:
        ss = [y for x in ss for y in x.assume(g)]
    v = False
    for s in ss:
        c = consistent(s, lib, roots)
        if c is True:
            return True
        if c is None:
            v = None
    return v


def instantiate(st, seq, i):
    """the quantified facts used at position i of a sequence"""
    s = st.copy()
    s.facts = s.facts.copy()
    for q in [l for l, v in s.facts.lits.items() if v and l.op == "allq"]:
        lo, hi, bv, disj = q.a
        at = set()
        for d in disj:
            for f in d:
                for x in walk(f):
                    if x.op == "elem" and (x.a[0] is seq or x.a[0].op == "slice" and x.a[0].a[0] is seq):
                        j = x.a[1] if x.a[0] is seq else add(x.a[1], x.a[0].a[1])
                        k = sub(j, bv)
                        if bv not in leaves(k):
                            at.add(sub(i, k))       # bv + k = i
                        else:
                            k = add(j, bv)
                            if bv not in leaves(k):
                                at.add(sub(k, i))   # k - bv = i
        for p in at or (i,):
            if s.facts.instance(p, q) is False:
                return None
    return s


def seqfacts(st, seq, i):
    """positions of equal sequences (and of prefixes and suffixes) made explicit at position i of seq"""
    s = st.copy()
    s.facts = s.facts.copy()
    for b, v in list(s.facts.lits.items()):
        if not v or b.op not in ("eq", "starts", "ends"):
            continue
        pairs = [(b.a[0], b.a[1], ZERO), (b.a[1], b.a[0], ZERO)] if b.op == "eq" else []
        if b.op == "starts":
            pairs = [(b.a[0], b.a[1], ZERO), (b.a[1], b.a[0], ZERO)]
        if b.op == "ends":
            d = sub(len_(b.a[0]), len_(b.a[1]))
            pairs = [(b.a[0], b.a[1], sub(ZERO, d)), (b.a[1], b.a[0], d)]
        for x, y, off in pairs:
            if x is seq:
                t = i
            elif x.op == "slice" and x.a[0] is seq:
                t = sub(i, x.a[1])
            else:
                continue
            u = add(t, off)
            if s.ask(le(ZERO, t)) is True and s.ask(lt(t, len_(x))) is True and s.ask(le(ZERO, u)) is True and s.ask(lt(u, len_(y))) is True:
                p, q = elem(x, t), elem(y, u)
                s.facts.add(eq(p, q))
                if p.op != "int":
                    s.facts.add(eqi(fld(p, 0, 0), fld(q, 0, 0)))
    return s


# ---------------------------------------------------------------- sequences of known length
SEQREL = ("eq", "starts", "ends")


def seqrel(b):
    return b.op in SEQREL and (isseq(b.a[0]) or isseq(b.a[1]))


def expand(st, same_elem):
    """states in which (in)equalities of sequences of constant length are spelled out position by
    position; None if some length is not constant"""
    out = [st]
    for b, v in list(st.facts.lits.items()):
        if not seqrel(b):
            continue
        x, y = b.a
        n, m = constlen(st, x), constlen(st, y)
        if n is None or m is None:
            return None
        if b.op == "eq" and n != m or b.op != "eq" and m > n:
            if v:
                return []
            goals = [[]]
        else:
            k = n - m if b.op == "ends" else 0
            pairs = [same_elem(elem(x, INT(k + i)), elem(y, INT(i))) for i in range(m)]
            goals = [pairs] if v else [[not_(p)] for p in pairs]
        nxt = []
        for s in out:
            for g in goals:
                ss = [s.copy()]
                ss[0].facts = s.facts.copy()
                ss[0].facts.lits.pop(b, None)
                for q in g:
                    ss = [z for w in ss for z in w.assume(q)]
                nxt += ss
        out = nxt
    return out


def seqholds(st, b, facts_at):
    """does an (in)equality of sequences follow? facts_at(state, i): the state with what is known
    about position i of the second one. True or None"""
    x, y = b.a
    if st.ask(eqi(len_(x), len_(y)) if b.op == "eq" else le(len_(y), len_(x))) is not True:
        return None
    i = typed(mk("sym", "free", "pos", "arg", 0), "usize")
    s = st.copy()
    s.facts = s.facts.copy()
    s.know(le(ZERO, i))
    s.know(lt(i, len_(y)))
    k = sub(len_(x), len_(y)) if b.op == "ends" else ZERO
    p, q = elem(x, add(k, i)), elem(y, i)
    s = facts_at(s, p, q)
    if s is None:
        return True
    return True if s.ask(eqi(fld(p, 0, 0), fld(q, 0, 0))) is True or s.ask(eq(p, q)) is True else None


# ---------------------------------------------------------------- positions of structured sequences
def pick(st, s, i, d=0):
    """element number i (a constant) of a sequence whose parts have known lengths, None if not known"""
    if d > 12:
        return None
    if s.op == "cat":
        for x in s.a:
            n = constlen(st, x, 8)
            if n is None:
                # may still lie in this part
                if st.ask(lt(INT(i), len_(x))) is True:
                    return pick(st, x, i, d + 1)
                return None
            if i < n:
                return pick(st, x, i, d + 1)
            i -= n
        return None
    if s.op == "slice":
        lo = s.a[1]
        if lo.op != "int":
            lo = next((INT(k) for k in range(6) if st.ask(eqi(lo, INT(k))) is True), lo)
        return pick(st, s.a[0], lo.a[0] + i, d + 1) if lo.op == "int" else None
    if s.op == "upd":
        v = st.ask(eqi(s.a[1], INT(i)))
        return s.a[2] if v is True else pick(st, s.a[0], i, d + 1) if v is False else None
    if s.op == "lst":
        return s.a[i] if i < len(s.a) else None
    return elem(s, INT(i))


def settled(st, t):
    """the term with constant positions of structured sequences looked up"""
    for _ in range(6):
        m = {}
        for x in walk(t):
            if x.op == "elem" and x.a[1].op == "int" and x.a[0].op in ("cat", "slice", "upd", "lst"):
                y = pick(st, x.a[0], x.a[1].a[0])
                if y is not None and y is not x:
                    m[x] = y
        if not m:
            break
        t = subst(t, m)
    return t


def settle(st):
    """the state with the facts so rewritten; None if they contradict each other"""
    out = st.copy()
    out.facts = st.facts.copy()
    for b, v in list(out.facts.lits.items()):
        if b.op == "allq":
            continue
        c = settled(st, b)
        if c is b:
            continue
        out.facts.lits.pop(b)
        ss = out.assume(c if v else not_(c))
        if not ss:
            return None
        if len(ss) > 1:
            return st
        out = ss[0]
        out.facts = out.facts.copy()
    return out


def eqcases(lib, ty, a, b, want, depth=3):
    """the ways in which two values of a type can be equal or different, as lists of conditions on
    their parts; None if the type is not understood"""
    t = lib.types[ty]
    if t["k"] in ("int", "uint", "bool", "char"):
        return [[eqi(a, b) if want else not_(eqi(a, b))]]
    if t["k"] != "adt" or depth < 0:
        return None
    if t["adt"] == "std::option::Option":
        x = eqcases(lib, t["args"][0], fld(a, 1, 0), fld(b, 1, 0), want, depth)
        if x is None:
            return None
        both = [[isv(a, 1), isv(b, 1)] + y for y in x]
        if want:
            return [[isv(a, 0), isv(b, 0)]] + both
        return [[isv(a, 1), isv(b, 0)], [isv(a, 0), isv(b, 1)]] + both
    if t["adt"].endswith("vec::Vec"):
        a, b = typed(a, "seq"), typed(b, "seq")
        same_ = eqi(len_(a), len_(b))
        if want:
            return [[same_, eq(a, b)]]
        out = [[not_(same_)]]
        for n in (1, 2):
            for k in range(n):
                xs = eqcases(lib, t["args"][0], elem(a, INT(k)), elem(b, INT(k)), False, depth - 1)
                if xs is None:
                    return None
                out += [[eqi(len_(a), INT(n)), same_, not_(eq(a, b))] + x for x in xs]
        return out
    d = lib.adts.get(t["adt"])
    if not d or len(d["variants"]) != 1 or not t.get("local", True):
        return None
    fs = [(i, f["ty"]) for i, f in enumerate(d["variants"][0]["fields"])]
    if want:
        out = [[eq(a, b)]]
        for i, f in fs:
            x = eqcases(lib, f, fld(a, 0, i), fld(b, 0, i), True, depth - 1)
            if x is None:
                return None
            out = [p + q for p in out for q in x]
        return out
    out = []
    for i, f in fs:
        x = eqcases(lib, f, fld(a, 0, i), fld(b, 0, i), False, depth - 1)
        if x is None:
            return None
        out += [[not_(eq(a, b))] + y for y in x]
    return out


def choices(st, alts, left=None):
    """states in which one way of each list of alternatives holds"""
    left = [120] if left is None else left
    if not alts:
        yield st
        return
    for way in alts[0]:
        ss = [st]
        for g in way:
            ss = [y for x in ss for y in x.assume(g)]
        for s in ss:
            s = settle(s)
            left[0] -= 1
            if left[0] < 0:
                return
            if s is not None and consistent(s) is not False:
                yield from choices(s, alts[1:], left)


def unrolled(st, s, mx=3):
    """the sequence with repetitions of constant number written out, None if not constant"""
    if s.op == "cat":
        xs = [unrolled(st, x, mx) for x in s.a]
        return None if any(x is None for x in xs) else cat(*xs)
    if s.op == "flatseq":
        n, b, body = s.a
        k = next((i for i in range(mx + 1) if st.ask(eqi(n, INT(i))) is True), None)
        if k is None:
            return None
        xs = [unrolled(st, subst(body, {b: INT(i)}), mx) for i in range(k)]
        return None if any(x is None for x in xs) else cat(EMPTY, *xs)
    if s.op == "mapseq":
        return s
    if s.op == "slice" and s.a[0].op in ("cat", "flatseq"):
        x = unrolled(st, s.a[0], mx)
        return None if x is None else slice_(x, s.a[1], s.a[2])
    return s


def counts_in(s):
    """numbers of repetitions a sequence depends on"""
    return [x.a[0] for x in walk(s) if x.op == "flatseq" and not any(l.op == "bv" for l in leaves(x.a[0]))]


def bases_in(s):
    if s.op == "cat":
        return [y for x in s.a for y in bases_in(x)]
    if s.op == "lst":
        return []
    if s.op == "slice":
        return bases_in(s.a[0])
    return [s]


def small_difference(st, got, want, differ, counts=(1, 2, 0), lens=(1, 0, 2), more=()):
    """a case of short sequences in which the two differ: text or None. differ(x, y) -> literal that
    holds if the elements differ"""
    from itertools import product
    ns = list(dict.fromkeys(counts_in(want) + counts_in(got)))
    if len(ns) > 2:
        return None
    for ks in product(counts, repeat=len(ns)):
        ss = [st]
        for n, k in zip(ns, ks):
            ss = [y for x in ss for y in x.assume(eqi(n, INT(k)))]
        for s in ss:
            if consistent(s) is False:
                continue
            w, g = unrolled(s, want), unrolled(s, got)
            if w is None or g is None:
                continue
            bs = [b for b in dict.fromkeys(bases_in(w) + bases_in(g)) if constlen(s, b) is None]
            if len(bs) > 4:
                continue
            for ls in product(lens, repeat=len(bs)):
                zs = [s]
                for b, k in zip(bs, ls):
                    zs = [y for x in zs for y in x.assume(eqi(len_(b), INT(k)))]
                for z in zs:
                    z = settle(z)
                    if z is None or consistent(z) is not True:
                        continue
                    m, n = constlen(z, g, 12), constlen(z, w, 12)
                    if m is None or n is None or not clean(g):
                        continue
                    if m != n:
                        return "%d elements instead of %d" % (m, n)
                    for i in range(n):
                        a, b = pick(z, g, i), pick(z, w, i)
                        if a is None or b is None or a is b:
                            continue
                        if possible(z, [differ(a, b)]) is True:
                            return "element %d is not the one it should be" % i
    return None
