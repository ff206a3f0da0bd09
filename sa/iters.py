"""Iterators of the standard library, as abstract values."""
from .terms import *

OPTION = "std::option::Option"
RESULT = "std::result::Result"


def SOME(x):
    return mk("adt", OPTION, 1, x)


NONE = mk("adt", OPTION, 0)


def OK(x):
    return mk("adt", RESULT, 0, x)


def ERR(x):
    return mk("adt", RESULT, 1, x)


ITOPS = {"it", "range", "enum", "map", "filter", "filtermap", "take", "takewhile", "skipwhile", "chain", "zip", "peek",
         "chars", "charidx", "itmut", "mapwhile", "flatmap", "lociter"}


def isiter(v):
    return v.op in ITOPS


def whole(seq):
    return mk("it", seq, ZERO, typed(len_(seq), "usize"))


def char_at(S, pos):
    if S.op == "slice":
        return char_at(S.a[0], add(S.a[1], pos))
    if S.op == "str" and pos.op == "int":
        b = S.a[0].encode()
        if 0 <= pos.a[0] < len(b):
            try:
                return INT(ord(b[pos.a[0]:].decode("utf-8", "ignore")[0]))
            except IndexError:
                return mk("bottom")
    return typed(mk("char_at", S, pos), "char")


REBUILD["char_at"] = char_at


def inext(eng, F, bb, tag, st, it):
    """[(state, iterator afterwards, item or None)]"""
    op = it.op
    if op == "mref":
        cur = eng.get(st, it.a[0], it.a[1])
        out = []
        for s, n, x in inext(eng, F, bb, tag, st, cur):
            s = s.copy()
            eng.set(s, it.a[0], it.a[1], n)
            out.append((s, it, x))
        return out
    if op == "it":
        seq, lo, hi = it.a
        out = []
        for s in st.assume(lt(lo, hi)):
            if any(l.op == "allq" for l in s.facts.lits):
                s = s.copy()
                s.facts = s.facts.copy()
                if s.facts.instance(lo) is False:
                    continue
            if seq.op == "splitseq" and lo is ZERO:
                out += split_first(eng, s, seq, hi)
            else:
                out.append((s, mk("it", seq, addc(lo, 1), hi), eltyped(elem(seq, lo), seq)))
        for s in st.assume(not_(lt(lo, hi))):
            out.append((s, mk("it", seq, hi, hi) if s.ask(eqi(lo, hi)) else it, None))
        return out
    if op == "itmut":
        ref, lo, hi = it.a
        out = []
        for s in st.assume(lt(lo, hi)):
            out.append((s, mk("itmut", ref, addc(lo, 1), hi), mk("mref", ref.a[0], ref.a[1] + (("i", lo),))))
        for s in st.assume(not_(lt(lo, hi))):
            out.append((s, it, None))
        return out
    if op == "range":
        lo, hi, ty = it.a
        out = []
        for s in st.assume(lt(lo, hi)):
            out.append((s, mk("range", addc(lo, 1), hi, ty), lo))
        for s in st.assume(not_(lt(lo, hi))):
            out.append((s, it, None))
        return out
    if op in ("chars", "charidx"):
        S, pos, end = it.a
        out = []
        for s in st.assume(lt(pos, end)):
            s = s.copy()
            c = char_at(S, pos)
            n = utf8len(c)
            np_ = add(pos, n)
            s.know(le(np_, end))
            s.know(bnd(S, np_))
            out.append((s, mk(op, S, np_, end), c if op == "chars" else mk("tup", pos, c)))
        for s in st.assume(not_(lt(pos, end))):
            out.append((s, it, None))
        return out
    if op == "enum":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "e", st, it.a[0]):
            if x is None:
                out.append((s, mk("enum", n, it.a[1]), None))
            else:
                out.append((s, mk("enum", n, addc(it.a[1], 1)), mk("tup", it.a[1], x)))
        return out
    if op == "map":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "m", st, it.a[0]):
            if x is None:
                out.append((s, mk("map", n, it.a[1]), None))
                continue
            for s2, v in eng.call_value(F, bb, it.a[1], [x], s, None, tag + "m"):
                out.append((s2, mk("map", n, it.a[1]), v))
        return out
    if op == "peek":
        return [(s, mk("peek", n), x) for s, n, x in inext(eng, F, bb, tag, st, it.a[0])]
    if op == "take":
        out = []
        for s in st.assume(eqi(it.a[1], ZERO)):
            out.append((s, it, None))
        for s in st.assume(not_(eqi(it.a[1], ZERO))):
            for s2, n, x in inext(eng, F, bb, tag + "t", s, it.a[0]):
                out.append((s2, mk("take", n, addc(it.a[1], -1)), x))
        return out
    if op == "takewhile":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "w", st, it.a[0]):
            if x is None:
                out.append((s, whole(EMPTY), None))
                continue
            for s2, b in eng.call_value(F, bb, it.a[1], [x], s, None, tag + "w"):
                for s3 in s2.assume(b):
                    out.append((s3, mk("takewhile", n, it.a[1]), x))
                for s3 in s2.assume(not_(b)):
                    out.append((s3, whole(EMPTY), None))
        return out
    if op == "mapwhile":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "w", st, it.a[0]):
            if x is None:
                out.append((s, mk("mapwhile", n, it.a[1]), None))
                continue
            for s2, v in eng.call_value(F, bb, it.a[1], [x], s, None, tag + "w"):
                for s3 in s2.assume(isv(v, 1)):
                    out.append((s3, mk("mapwhile", n, it.a[1]), fld(v, 1, 0)))
                for s3 in s2.assume(isv(v, 0)):
                    out.append((s3, mk("mapwhile", n, it.a[1]), None))
        return out
    if op == "chain":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "a", st, it.a[0]):
            if x is not None:
                out.append((s, mk("chain", n, it.a[1]), x))
            else:
                out += inext(eng, F, bb, tag + "b", s, it.a[1])
        return out
    if op == "zip":
        out = []
        for s, n, x in inext(eng, F, bb, tag + "a", st, it.a[0]):
            if x is None:
                out.append((s, mk("zip", n, it.a[1]), None))
                continue
            for s2, n2, y in inext(eng, F, bb, tag + "b", s, it.a[1]):
                out.append((s2, mk("zip", n, n2), None if y is None else mk("tup", x, y)))
        return out
    if op in ("filter", "filtermap", "skipwhile"):
        inner, f = it.a

        def step(s, x):
            r = []
            for s2, v in eng.call_value(F, bb, f, [x], s, None, tag + "f"):
                if op == "filtermap":
                    for s3 in s2.assume(isv(v, 1)):
                        r.append((("hit", fld(v, 1, 0)), s3))
                    r += [(None, s3) for s3 in s2.assume(isv(v, 0))]
                else:
                    good = v if op == "filter" else not_(v)
                    for s3 in s2.assume(good):
                        r.append((("hit", x), s3))
                    r += [(None, s3) for s3 in s2.assume(not_(good))]
            return r
        out = []
        for t, s, n, _ in run_loop(eng, F, bb, tag + "F", st, inner, {}, {}, lambda s, x, roots: step(s, x)):
            w = n if op == "skipwhile" and t is not None else mk(op, n, f)
            out.append((s, w, None if t is None else t[1]))
        return out
    if op == "lociter":
        return loc_next(eng, F, bb, tag, st, it)
    if op == "flatmap":
        return None_unknown(eng, F, bb, tag, st, it)
    return None_unknown(eng, F, bb, tag, st, it)


def None_unknown(eng, F, bb, tag, st, it):
    """an iterator the analysis does not understand: any item, or the end"""
    v = mk("sym", F.fid, st.ctx, bb, "item" + tag)
    n = mk("sym", F.fid, st.ctx, bb, "iter" + tag)
    eng.taints.add(v)
    eng.taints.add(n)
    eng.unmodelled["iterator " + it.op] = 1
    return [(st, it, v), (st, it, None)]


def eltyped(v, seq):
    return v


def split_first(eng, st, seq, hi):
    """first piece of a text split at a pattern"""
    s, pat = seq.a
    out = []
    for s2, i, plen in findpos(st, s, pat):
        if i is None:
            s2.know(eqi(hi, ONE))
            out.append((s2, mk("it", seq, ONE, hi), s))
        else:
            out.append((s2, mk("it", seq, ONE, hi), slice_(s, ZERO, i)))
    return out


def patlen(pat):
    if pat.op == "int" or tyof.get(pat) == "char":
        return utf8len(pat)
    if pat.op in ("clo", "fn", "lst"):
        return None
    return len_(pat)


def patterm(p):
    return STR(chr(p.a[0])) if p.op == "int" else p


def findpos(st, s, pat, back=False):
    """[(state, position or None, length of the match)]"""
    pat = patterm(pat)
    if s.op == "str" and pat.op == "str":
        b, p = s.a[0].encode(), pat.a[0].encode()
        i = b.rfind(p) if back else b.find(p)
        return [(st, INT(i) if i >= 0 else None, INT(len(p)))]
    i = typed(mk("rfindpos" if back else "findpos", s, pat), "usize")
    has = contains_str(s, pat)
    n = patlen(pat)
    if n is None:
        n = typed(mk("matchlen", s, pat), "usize")
    out = []
    for s2 in st.assume(has):
        s2 = s2.copy()
        s2.know(le(add(i, n), len_(s)))
        if pat.op in ("clo", "fn", "lst"):
            s2.know(le(ONE, n))
        s2.know(bnd(s, i))
        s2.know(bnd(s, add(i, n)))
        out.append((s2, i, n))
    for s2 in st.assume(not_(has)):
        out.append((s2.copy(), None, n))
    return out


def contains_str(s, pat):
    pat = patterm(pat)
    if s.op == "str" and pat.op == "str":
        return BOOL(pat.a[0] in s.a[0])
    if pat is ESTR:
        return TRUE
    return mk("contains", s, pat)


def loc_next(eng, F, bb, tag, st, it):
    """next of an iterator implemented in the crate, kept opaque: elements of its token sequence"""
    raise NotImplementedError


def run_loop(eng, F, bb, tag, st, it, vars_, types, step):
    """Drive an iterator: step(state, item, roots) -> [(exit tag or None, state)].
    Returns [(tag or None when exhausted, state, iterator afterwards, {variable: final value})]"""
    seqv = dict(vars_)
    seqv["it"] = it
    if it.op == "flatmap":
        return run_flat(eng, F, bb, tag, st, it, vars_, types, step)

    def body(s, roots):
        backs, exits = [], []
        s = s.copy()
        cur = s.mem[roots["it"]]
        for s1, n, x in inext(eng, F, bb, tag, s, cur):
            s1 = s1.copy()
            s1.mem[roots["it"]] = n
            if x is None:
                exits.append((("end",), s1))
                continue
            for t, s2 in step(s1, x, roots):
                if t is None:
                    backs.append(s2)
                else:
                    # payload terms travel in memory
                    s2 = s2.copy()
                    for k, w in enumerate(t[1:]):
                        s2.mem[("n", F.fid, bb, tag, "out%d" % k)] = w
                    exits.append((("hit", t[0], len(t) - 1), s2))
        return backs, exits
    out = []
    for t, s, vals in eng.native_loop(F, bb, tag, st, seqv, types, body):
        if t[0] == "end":
            tt = None
        else:
            pay = []
            for k in range(t[2]):
                pay.append(s.mem.pop(("n", F.fid, bb, tag, "out%d" % k), mk("uninit")))
            tt = (t[1],) + tuple(pay)
        out.append((tt, s, vals["it"] if vals["it"] is not None else it, vals))
    return out


def run_flat(eng, F, bb, tag, st, it, vars_, types, step):
    inner, f = it.a
    def ostep(s, x, roots):
        out = []
        for s1, y in (eng.call_value(F, bb, f, [x], s, None, tag + "g") if f is not UNIT else [(s, x)]):
            sub_ = into_iter(eng, s1, y, None)
            if sub_ is None:
                sub_ = whole(mk("iterseq", y))
            # inner loop works on the same variables
            def body(s2, r2):
                backs, exits = [], []
                s2 = s2.copy()
                for s3, n, z in inext(eng, F, bb, tag + "i", s2, s2.mem[r2["it"]]):
                    s3 = s3.copy()
                    s3.mem[r2["it"]] = n
                    if z is None:
                        exits.append((("end",), s3))
                        continue
                    for t, s4 in step(s3, z, roots):
                        if t is None:
                            backs.append(s4)
                        else:
                            exits.append((("hit", t), s4))
                return backs, exits
            for t, s2, vals in eng.native_loop(F, bb, tag + "i", s1, {"it": sub_}, {}, body):
                if t[0] == "end":
                    out.append((None, s2))
                else:
                    out.append((t[1], s2))
        return out
    return run_loop(eng, F, bb, tag + "o", st, inner, vars_, types, ostep)


# ---- conversion to sequences ---------------------------------------------
def pure(eng, F, bb, tag, st, it):
    """the remaining elements as a sequence term, or None when producing them has effects"""
    op = it.op
    if op == "it":
        return slice_(it.a[0], it.a[1], it.a[2])
    if op == "range":
        if not st.ask(le(it.a[0], it.a[1])):
            return None
        return typed(mk("rangeseq", it.a[0], it.a[1]), "seq")
    if op == "peek":
        return pure(eng, F, bb, tag, st, it.a[0])
    if op == "enum":
        b = pure(eng, F, bb, tag + "e", st, it.a[0])
        return None if b is None else typed(mk("enumseq", b, it.a[1]), "seq")
    if op == "map":
        b = pure(eng, F, bb, tag + "m", st, it.a[0])
        return None if b is None else pure_map(eng, F, bb, tag + "m", st, b, it.a[1])
    if op == "chain":
        a = pure(eng, F, bb, tag + "a", st, it.a[0])
        b = pure(eng, F, bb, tag + "b", st, it.a[1])
        return None if a is None or b is None else typed(cat(a, b), "seq")
    if op == "chars":
        S, p, e = it.a
        return typed(mk("charsof", slice_(S, p, e)), "seq")
    if op == "zip":
        a = pure(eng, F, bb, tag + "a", st, it.a[0])
        b = pure(eng, F, bb, tag + "b", st, it.a[1])
        if a is None or b is None:
            return None
        n = None
        if st.ask(le(len_(a), len_(b))):
            n = len_(a)
        elif st.ask(le(len_(b), len_(a))):
            n = len_(b)
        if n is None:
            return None
        v = mk("bv", 2000)
        tyof.setdefault(v, "usize")
        return typed(mapseq(mk("rangeseq", ZERO, n), v, mk("tup", elem(a, v), elem(b, v))), "seq")
    if op == "flatmap":
        b = pure(eng, F, bb, tag + "f", st, it.a[0])
        return None if b is None else pure_map(eng, F, bb, tag + "f", st, b, it.a[1], flat=True)
    if op == "take":
        b = pure(eng, F, bb, tag + "t", st, it.a[0])
        if b is None:
            return None
        if st.ask(le(it.a[1], len_(b))):
            return slice_(b, ZERO, it.a[1])
        if st.ask(le(len_(b), it.a[1])):
            return b
        return None
    return None


def pure_map(eng, F, bb, tag, st, seq, f, flat=False):
    eng.bvdepth = getattr(eng, "bvdepth", 0) + 1
    try:
        bv = mk("bv", 1000 + eng.bvdepth)
        tyof.setdefault(bv, "usize")
        s = st.copy()
        s.know(le(ZERO, bv))
        s.know(lt(bv, len_(seq)))
        save = eng.obl
        srec = list(eng.recs)
        eng.obl = []
        x = elem(seq, bv)
        mem0 = dict(s.mem)
        ev0 = s.ev
        um = dict(eng.unmodelled)
        res = eng.call_value(F, bb, f, [x], s, None, tag + "p") if f is not UNIT else [(s, x)]
        if flat and len(res) == 1:
            y = into_iter(eng, res[0][0], res[0][1], None)
            y = pure(eng, F, bb, tag + "q", res[0][0], y) if y is not None else None
            res = [(res[0][0], y)] if y is not None else []
        obls, eng.obl = eng.obl, save
        if len(res) != 1:
            eng.recs = srec
            return None
        s2, v = res[0]
        if s2.ev is not ev0 or any(s2.mem.get(k) is not w for k, w in mem0.items()):
            eng.recs = srec
            return None
        okl = leaves(x) | {bv} | leaves(f)
        for a in walk(f):
            if a.op == "mref":
                eng.recs = srec
                return None
        if any(l not in okl and l.op != "bv" for l in leaves(v)):
            eng.recs = srec
            return None
        if not all(o.ok for o in obls):
            eng.obl = save + obls
        else:
            eng.obl = save + obls
        if flat:
            return typed(flatseq(len_(seq), bv, v), "seq")
        return typed(mapseq(seq, bv, v), "seq")
    finally:
        eng.bvdepth -= 1


def into_iter(eng, st, v, tyi, mut=False):
    """iterator over a value, or None"""
    if isiter(v):
        return v
    if v.op == "mref":
        cur = eng.get(st, v.a[0], v.a[1])
        if isiter(cur):
            return v
        if tyi is not None:
            t = eng.prog.types[tyi]
            while t["k"] == "ref":
                t = eng.prog.types[t["to"]]
            if t["k"] == "param" or (t["k"] == "adt" and not is_seq_adt(t)):
                return None
        return mk("itmut", v, ZERO, typed(len_(cur), "usize"))
    if v.op == "adt" and v.a[0] == "std::ops::Range":
        return mk("range", v.a[2], v.a[3], tyof.get(v.a[3]) or tyof.get(v.a[2]) or "usize")
    if v.op == "adt" and v.a[0] == "std::ops::RangeInclusive":
        return mk("range", v.a[2], addc(v.a[3], 1), "usize")
    if v.op == "adt" and v.a[0] == "std::ops::RangeFrom":
        return mk("range", v.a[2], INT(2 ** 64 - 1), "usize")
    if v.op == "adt" and v.a[0] == OPTION:
        return whole(mk("lst", *v.a[2:]))
    if v.op in ("lst", "slice", "cat", "mapseq", "flatseq", "rev", "enumseq", "rangeseq", "upd", "words", "lines", "sorted", "iterseq", "join"):
        return whole(v)
    if tyi is not None:
        t = eng.prog.types[tyi]
        n = 0
        while t["k"] == "ref" and n < 4:
            t = eng.prog.types[t["to"]]
            n += 1
        if t["k"] in ("slice", "array"):
            typed(v, "seq")
            return whole(v)
        if t["k"] == "adt":
            if is_seq_adt(t):
                typed(v, "seq")
                return whole(v)
            if t["adt"] in ("std::collections::HashMap", "std::collections::BTreeMap"):
                return whole(typed(mk("mapitems", v), "seq"))
            if t["adt"] in ("std::collections::HashSet", "std::collections::BTreeSet"):
                return whole(typed(mk("setitems", v), "seq"))
            if t["adt"].startswith("std::ops::Range") or t["adt"] == OPTION:
                return None
            return whole(typed(mk("iterseq", v), "seq"))
        if t["k"] in ("param", "opaque", "alias", "dyn", "other", "projection"):
            return whole(typed(mk("iterseq", v), "seq"))
    return None


def is_seq_adt(t):
    return t["adt"] in ("std::vec::Vec", "std::vec::IntoIter", "std::slice::Iter", "std::collections::VecDeque", "std::collections::LinkedList") or \
        (t["adt"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"))
