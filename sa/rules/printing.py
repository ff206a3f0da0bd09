"""C31: what printing writes; what a production string holds."""
from .. import textnorm as tn
from ..loops import over
from ..rel import *
from ..report import Check
from ..terms import *

PS = "strings::ProductionString"
SYM_FMT = "<symbols::Symbol as std::fmt::Display>::fmt"
PS_FMT = "<strings::ProductionString as std::fmt::Display>::fmt"


def named(name, info=None):
    return name == "symbols::get_name"


def isname(x):
    return x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0] == "symbols::get_name"


def out_text(r, st=None):
    """what has been written behind what was there before"""
    m = r.before(1)
    t = r.after(1) if st is None else Resolver(st)(value(st, r.run.args[1], r.run.eng))
    if t is m:
        return EMPTY
    if t.op == "cat" and t.a[0] is m:
        return cat(*t.a[1:])
    if t.op == "cat" and t.a[0].op == "phi":
        return None
    return None


def failed(r):
    """the writer may have failed on this path: nothing is promised"""
    v = r.ret
    return v.op == "adt" and v.a[1] == 1


def atoms(lib):
    def atom(st, x):
        # the name of a symbol is what printing the symbol writes
        if isname(x):
            c = x.a[0].a[1]
            if c.op == "fld" and c.a[1] == 0 and c.a[2] == 0:
                return [("t", typed(mk("disp", c.a[0]), "str"))]
        return None
    return atom


def spec_symbol(lib):
    def spec(r):
        if failed(r):
            return True
        sym = r.run.args[0]
        code = getter(lib, "symbols::Symbol::code", sym)
        t = out_text(r)
        if code is None or t is None:
            return None, "the text is not known"
        ss = tn.segs(r.st, t)
        q = mk("call", "symbols::get_name", code)
        has = r.st.ask(isv(q, 1))
        if has is True:
            ok = len(ss) == 1 and ss[0][0] == "t" and ss[0][1] is fld(q, 1, 0)
            if ok:
                return True
            if all(s[0] == "s" for s in ss) or all(s[0] == "s" or isname(s[1]) or s[1].op == "disp" for s in ss if s[0] != "f") and not any(s[0] == "f" for s in ss):
                return False, "a symbol with a name is not printed as just its name but as " + tn.show_segs(ss)
            return None, tn.show_segs(ss)
        if has is False:
            vs = [s[1] for s in ss if s[0] != "s"]
            if len(vs) == 1 and vs[0].op == "disp" and vs[0].a[0] is code:
                return True
            if not vs:
                return False, "a symbol without a name is printed without its code"
            return None, tn.show_segs(ss)
        return None, "not known whether there is a name"
    return spec


def spec_string(lib):
    atom = atoms(lib)

    def spec(r):
        if failed(r):
            return True
        me = r.run.args[0]
        S = getter(lib, PS + "::symbols", me)
        if S is None:
            return None, "the symbols are not known"
        st = r.st
        n = tn.fixed(st, len_(S))
        if n.op != "int" and st.ask(le(ONE, n)) is None:
            v = []
            for g in (le(ONE, n), eqi(n, ZERO)):
                for s in st.assume(g):
                    if not s.facts.inconsistent():
                        v.append(one(r, s, S))
            bad = [x for x in v if x is not True]
            return bad[0] if bad else True
        return one(r, st, S)

    def one(r, st, S):
        t = out_text(r, st)
        if t is None:
            return None, "the text is not known"
        b = typed(mk("bv", 971), "usize")
        want = typed(mk("join", mapseq(S, b, typed(mk("disp", elem(S, b)), "str")), STR(" ")), "str")
        w = tn.segs(st, want, atom)
        g = tn.segs(st, t, atom)
        if w == g or tn.equal(st, w, g):
            return True
        why = "%s is printed as %s" % (tn.show_segs(w) or "nothing", tn.show_segs(g) or "nothing")
        concrete = all(s[0] == "s" or s[0] == "t" and s[1].op == "disp" for s in w + g)
        if concrete and clean(t) and all(plain(x) for x in st.facts.all() if x.op != "allq") and consistent(st) is True:
            return False, why
        return None, why
    return spec


def spec_seq(lib, want, what):
    """the symbols of the result (or of the changed argument) are the given ones"""
    def spec(r):
        if r.ret.op == "adt" and r.ret.a[0].endswith("Result") and r.ret.a[1] == 1:
            return True
        x, y = want(r)
        if x is None or y is None:
            return None, "the symbols are not known"
        v = sameseq(r.st, x, y)
        return v, what
    return spec


def symbols(lib, x):
    return getter(lib, PS + "::symbols", x)


def counts(s, hi):
    """is the number, as a sum, the length of the sequence?"""
    if hi.op != "ffold" or hi.a[0] != "Add" or s.op not in ("cat", "flatseq"):
        return False
    init, items = ZERO, []
    for x in s.a if s.op == "cat" else (s,):
        if x.op == "flatseq":
            n, v, body = x.a
            items.append(over(ZERO, n, lambda j: len_(subst(body, {v: j}))))
        else:
            init = add(init, len_(x))
    want = [init] + items
    return len(want) == len(hi.a[1]) and want[0] is hi.a[1][0] and sorted(x.id for x in items) == sorted(x.id for x in hi.a[1][1:])


def seqof(v):
    """the rest of an iterator as a sequence"""
    if v.op == "it":
        s, lo, hi = v.a[:3]
        if lo is ZERO and (hi is len_(s) or counts(s, hi)):
            return s
        return slice_(s, lo, hi)
    if v.op in ("ref", "box") and v.a:
        return seqof(v.a[0])
    if isseq(v):
        return v
    return None


def check_C31(lib, bn):
    c = Check("C31", "proof",
              "the text written by the printing functions, as a sequence of constants and names over the symbols printed (loops closed into repetitions), equals the names joined by single spaces; "
              "every way of building a production string holds the given symbols",
              ["a failing writer may leave a partial text", "formatting options (width, fill) of the caller are ignored by both functions"])
    n = 0
    if rootpath(lib, SYM_FMT):
        decide(c, "symbol", lib, SYM_FMT, spec_symbol(lib), where=loc(lib, SYM_FMT), text="a symbol is printed as its name, or its code if it has none", opaque=named)
        n += 1
    if rootpath(lib, PS_FMT):
        decide(c, "string", lib, PS_FMT, spec_string(lib), where=loc(lib, PS_FMT), text="the names of all symbols in order, separated by single spaces", opaque=named, peel=3)
        n += 1
    c.floor("printing functions", n, 2)
    P = "<strings::ProductionString as "
    for p, want, text in (
            (P + "std::convert::From<std::vec::Vec<symbols::Symbol>>>::from", lambda r: (symbols(lib, r.ret), r.run.args[0]), "holds the given symbols"),
            (P + "std::convert::From<symbols::Symbol>>::from", lambda r: (symbols(lib, r.ret), mk("lst", r.run.args[0])), "holds the given symbol"),
            (PS + "::push_symbol", lambda r: (symbols(lib, r.after(0)), cat(symbols(lib, r.before(0)), mk("lst", r.run.args[1]))), "has the symbol added at its end"),
            (PS + "::new", lambda r: (symbols(lib, r.ret), EMPTY), "is empty"),
            (PS + "::empty", lambda r: (symbols(lib, r.ret), EMPTY), "is empty"),
            (P + "std::default::Default>::default", lambda r: (symbols(lib, r.ret), EMPTY), "is empty"),
            (P + "std::clone::Clone>::clone", lambda r: (symbols(lib, r.ret), symbols(lib, r.run.args[0])), "holds the same symbols"),
            (P + "std::iter::IntoIterator>::into_iter", lambda r: (seqof(r.ret), symbols(lib, r.run.args[0])), "yields its symbols"),
            ("<&'a strings::ProductionString as std::iter::IntoIterator>::into_iter", lambda r: (seqof(r.ret), symbols(lib, r.run.args[0])), "yields its symbols"),
            (PS + "::iter", lambda r: (seqof(r.ret), symbols(lib, r.run.args[0])), "yields its symbols")):
        if rootpath(lib, p):
            decide(c, p, lib, p, spec_seq(lib, want, "a production string " + text + ": not so"), where=loc(lib, p), text="a production string " + text)

    def spec_len(r):
        S = symbols(lib, r.run.args[0])
        v = r.st.ask(eqi(r.ret, len_(S)))
        return (True if v else False if v is False and clean(r.ret) else None), "the length is not the number of symbols"

    def spec_index(r):
        S = symbols(lib, r.run.args[0])
        v = r.ret
        return (True if v is elem(S, r.run.args[1]) or v.op == "elem" and v.a[0] is S and r.st.ask(eqi(v.a[1], r.run.args[1])) is True else
                False if clean(v) and v.op == "elem" and v.a[0] is S and r.st.ask(eqi(v.a[1], r.run.args[1])) is False else None), "not the symbol at the position"
    for p, s in ((PS + "::len", spec_len), (P + "std::ops::Index<usize>>::index", spec_index)):
        if rootpath(lib, p):
            decide(c, p, lib, p, s, where=loc(lib, p), text="agrees with the symbols")
    return c.finish()
