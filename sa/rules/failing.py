"""C22: a step that fails makes the operation fail, and the error keeps its cause."""
import re
from ..rel import *
from ..report import Check
from ..sym import analyse
from ..terms import *
from .adding import reach_from

RES = "std::result::Result"
CRATE = "error::Error"
OUTSIDE = ("std::io::Error", "std::num::ParseIntError", "std::num::ParseFloatError")
HARMLESS = re.compile(r"std::fmt::Error|std::convert::Infallible|^!$")
ERROR = re.compile(r"(^|::|<)(Error|ParseIntError|ParseFloatError|TryFromIntError)(<|$)|::Error$|dyn std::error::Error|::\w*Error(<|$)")


def result_type(lib, inst):
    """the text of the error type of a function returning a result, None if it returns something else"""
    t = lib.types[inst.locals[0]["ty"]]
    if t["k"] != "adt" or t["adt"] != RES or len(t.get("args", ())) < 2:
        return None
    return lib.types[t["args"][1]].get("s", "")


def fallible(lib):
    """name of the instance -> error type, of the functions of this crate that can fail"""
    out = {}
    for name, i in lib.insts.items():
        if i.local and not i.j.get("closure"):
            e = result_type(lib, i)
            if e is not None and not HARMLESS.search(e) and ERROR.search(e) and not i.path.endswith("::fmt"):
                out[name] = e
    return out


def own_steps(lib, inst):
    """the error types of the calls in a function that can fail"""
    out = set()
    for bb in inst.reachable():
        t = inst.blocks[bb]["t"]
        if t["t"] == "call" and t.get("dt") is not None:
            d = lib.types[t["dt"]]
            if d["k"] == "adt" and d["adt"] == RES and len(d.get("args", ())) > 1:
                e = lib.types[d["args"][1]].get("s", "")
                if ERROR.search(e) and not HARMLESS.search(e):
                    out.add(e)
    return out


def text_of(q):
    return q.a[1] if q.op == "parse" else None


def mentions(t, q):
    return hasattr(t, "op") and any(x is q for x in walk(t))


def in_events(evs, q):
    for e in evs:
        if e[0] in ("loop", "acq", "rel"):
            continue
        for x in e[1:]:
            for y in x if isinstance(x, (tuple, list)) else (x,):
                if mentions(y, q):
                    return True
    return False


def known(t):
    """says nothing about a summarised state of a loop"""
    return not any(x.op in ("phi", "bottom", "uninit") for x in walk(t))


def failed(st, q):
    return st.ask(isv(q, 1))


def why(what, said):
    return "%s %s" % (re.sub(r"std::|core::", "", what), said)


def excused(q, what, evs, ret):
    """a word that is no number is used as a word; a step that failed is tried in another way"""
    t = text_of(q)
    if t is not None:
        if mentions(ret, t) and not mentions(ret, q):
            return True
        for e in evs:
            if e[0] == "res" and e[1] is not q and mentions(e[1], t) and not mentions(e[1], q):
                return True
            if e[0] in ("opaque", "user", "std", "push") and in_events([e], t) and not in_events([e], q):
                return True
    if q.op == "call":
        for e in evs:
            if e[0] == "res" and e[1].op == "call" and (e[1].a[0] == q.a[0] or e[1].a[1:] == q.a[1:]):
                return None
    return False


def written(e):
    """is a buffered writer handed to this call?"""
    def buf(t):
        return hasattr(t, "op") and (t.op == "mref" or any(x.op == "sym" and "io:bufwriter" in x.a for x in walk(t)))
    return any(buf(y) for x in e[2:] for y in (x if isinstance(x, (tuple, list)) else (x,)))


def ends(ret, st):
    """is this result a success? False if it is surely an error"""
    if ret.op == "adt":
        return ret.a[1] == 0
    f = st.ask(isv(ret, 1))
    return False if f is True else True if f is False else None


def judge(lib, st, ret, evs, peeled):
    """were all steps that can fail on this path taken seriously?"""
    good = ends(ret, st)
    verdict, text = True, ""
    if good is False:
        return True, ""
    for n, e in enumerate(evs):
        if e[0] != "res" or HARMLESS.search(e[3]) or not (ERROR.search(e[3])):
            continue
        q, what = e[1], e[2]
        f = failed(st, q)
        if f is False or mentions(ret, q) and f is None:
            continue
        x = excused(q, what, evs[n + 1:], ret)
        if x is True:
            continue
        s = st
        if f is None:
            ss = [y for y in st.assume(isv(q, 1))]
            if good is None:
                ss = [z for y in ss for z in y.assume(isv(ret, 0))]
        else:
            ss = [st] if good else [y for y in st.assume(isv(ret, 0))]
        c = [consistent(y, lib) for y in ss]
        if all(y is False for y in c):
            continue
        said = "can fail without the operation failing" if f is None else "failed, yet the operation succeeds"
        if x is None or mentions(ret, q) or in_events(evs[n + 1:], q) or not all(known(b) for b in st.facts.all()):
            verdict, text = None, why(what, said + "?")
            continue
        return False, why(what, said)
    for n, e in enumerate(evs):
        if e[0] == "io" and e[1] == "bufwriter" and not any(x[0] == "io" and x[1] in ("flush", "into_inner") for x in evs[n + 1:]):
            if any(x[0] in ("opaque", "user", "std") and written(x) for x in evs[n + 1:]):
                return None, "a buffer may not be emptied"
            return False, "what is left in a buffer is written when it is dropped, where failing goes unnoticed"
    return verdict, text


def own_events(st, rec):
    evs = list(st.events())
    for n in range(len(evs) - 1, -1, -1):
        if evs[n][0] == "loop" and evs[n][1] is rec:
            return evs[n + 1:]
    return []


def in_loops(lib, run):
    """a pass of a loop that goes on although a step in it failed"""
    found = True, ""
    for rec in run.eng.recs:
        for b in getattr(rec, "backs", ()):
            st, vals = b[2], b[3]
            evs = own_events(st, rec)
            stored = [x for x in vals.values() if hasattr(x, "op")]
            for n, e in enumerate(evs):
                if e[0] != "res" or HARMLESS.search(e[3]) or not ERROR.search(e[3]):
                    continue
                q = e[1]
                if failed(st, q) is False:
                    continue
                if excused(q, e[2], evs[n + 1:], UNIT) is True or any(mentions(x, text_of(q)) for x in stored if text_of(q) is not None):
                    continue
                if st.facts.inconsistent() or all(consistent(y, lib) is False for y in st.assume(isv(q, 1))):
                    continue
                if excused(q, e[2], evs[n + 1:], UNIT) is False and not in_events(evs[n + 1:], q) and unchanged(vals, rec):
                    return False, why(e[2], "fails in a loop that goes on and does not remember it")
                found = None, why(e[2], "fails in a loop that goes on?")
    return found


def unchanged(vals, rec):
    """nothing but what moves on with every pass differs between two passes"""
    def was(p, v):
        return v is p or v.op == "phi" and v.a[0] == p.a[0] and v.a[2:] == p.a[2:]

    def steps(p, v):
        c, d = lin_of(v)
        return c == 1 and len(d) == 1 and all(k == 1 and was(p, x) for x, k in d.items())
    for p, v in vals.items():
        if was(p, v):
            continue
        if not isint(p) or not all(steps(p, w[p]) for a, b, s, w in rec.backs if w is not None and p in w):
            return False
    return True


def lost_cause(r, evs, deep):
    """the error returned is not about the failure it stems from"""
    if ends(r.ret, r.st) is not False:
        return True, ""
    errs = [(n, e) for n, e in enumerate(evs) if e[0] == "res" and failed(r.st, e[1]) is True]
    if not errs:
        return True, ""
    n, e = errs[-1]
    q = e[1]
    outside = e[3] in OUTSIDE
    if not outside and not (e[3] == CRATE and deep(e[2])):
        return True, ""
    if excused(q, e[2], evs[n + 1:], r.ret) is not False:
        return True, ""
    if r.ret.op != "adt":
        return (True if r.ret is q else None), "the error returned for %s is not understood" % e[2]
    E = fld(q, 1, 0)
    got = r.ret.a[2]
    if got is E:
        return True, ""
    if any(x[0] in ("user", "opaque") and in_events([x], E) for x in evs[n + 1:]) and mentions(got, E):
        return True, ""       # converted by a function looked at elsewhere
    source, message = in_source(got, E), in_message(got, E)
    if source and message:
        return True, ""
    if not source and not message and not mentions(got, q) and not in_events([x for x in evs[n + 1:] if x[0] != "res"], q):
        return False, "the error returned when %s fails says nothing about that failure" % e[2]
    if not clean(got) or mentions(got, E) and not (source or message):
        return None, "the error returned for %s is not understood" % e[2]
    if not source and not message:
        return False, "the error returned when %s fails says nothing about that failure" % e[2]
    return False, "the error returned when %s fails has not that failure as its %s" % (e[2], "message" if source else "source")


def in_message(t, E):
    return any(x.op == "disp" and x.a[0] is E or x.op == "disp" and mentions(x.a[0], E) for x in walk(t))


def in_source(t, E):
    if t is E:
        return True
    if t.op == "disp":
        return False
    for x in t.a:
        if isinstance(x, T) and in_source(x, E):
            return True
        if isinstance(x, tuple) and any(isinstance(y, T) and in_source(y, E) for y in x):
            return True
    return False


SOURCE = "<error::Error as std::error::Error>::source"
SHOWN = "<error::Error as std::fmt::Display>::fmt"


def parts(lib):
    """(position of the message, position of the source) in the crate's error"""
    fs = lib.adts[CRATE]["variants"][0]["fields"]
    m = [n for n, f in enumerate(fs) if lib.types[f["ty"]].get("s") == "std::string::String"]
    s = [n for n, f in enumerate(fs) if "dyn std::error::Error" in lib.types[f["ty"]].get("s", "") and lib.types[f["ty"]].get("adt") == "std::option::Option"]
    return (m[0], s[0]) if len(m) == 1 and len(s) == 1 else None


def spec_source(n):
    def spec(r):
        have = fld(r.run.args[0], 0, n)
        given, got = r.st.ask(isv(have, 1)), True if r.ret.op == "adt" and r.ret.a[1] == 1 else False if r.ret.op == "adt" else r.st.ask(isv(r.ret, 1))
        if got is None:
            return (True if mentions(r.ret, have) and r.ret is have else None), "not known whether there is a source"
        if not got:
            if given is False:
                return True
            ss = [s for s in r.st.assume(isv(have, 1))]
            return (False if any(consistent(s) is not False for s in ss) and all(clean(b) for b in r.st.facts.all()) else None), "an error that holds its cause does not give it as its source"
        return (True if mentions(r.ret, fld(have, 1, 0)) else False if clean(r.ret) else None), "the source given is not the one held"
    return spec


def spec_shown(n):
    def spec(r):
        if ends(r.ret, r.st) is False:
            return True
        from .printing import out_text
        from .. import textnorm as tn
        t = out_text(r)
        if t is None:
            return None, "the text is not known"
        m = fld(r.run.args[0], 0, n)
        ss = tn.segs(r.st, t)
        if any(s[0] == "t" and (s[1] is m or s[1].op == "disp" and s[1].a[0] is m) for s in ss):
            return True
        return (False if all(s[0] == "s" for s in ss) else None), "an error is not shown with its message but as " + tn.show_segs(ss)
    return spec


def check_C22(lib, bn):
    c = Check("C22", "proof",
              "Error-flow analysis: every function that returns a result is analysed with its fallible callees abstracted to 'may succeed or fail'; on every result path and on every pass of every loop, "
              "a step that failed or whose outcome was never looked at must not be followed by success; an error caused by an input/output or number-parsing failure must hold that failure as source and message",
              ["a word that is not a number may be read as a symbol", "locks are not poisoned", "the writer of a caller's Formatter is not an operation of the crate"])
    cand = fallible(lib)
    roots = {}
    for p, d in sorted(lib.fns.items()):
        name = d.get("root")
        if name in cand:
            roots[p] = name
    steps = {name: own_steps(lib, i) for name, i in lib.insts.items() if i.local}
    inside = {name: set().union(*(steps.get(m, ()) for m in reach_from(lib, [i]))) for name, i in lib.insts.items() if i.local}
    yields = {name for name, s in inside.items() if any(t in OUTSIDE for t in s)}
    # functions in which nothing can fail and which make no error are not looked into
    calm = {name for name, s in inside.items() if not s and not lib.insts[name].j.get("closure") and
            not ERROR.search(lib.types[lib.insts[name].locals[0]["ty"]].get("s", ""))}
    runs = 0

    def spec_for(p):
        def deep(what):
            return what in yields

        def spec(r):
            evs = list(r.st.events())
            v, t = judge(lib, r.st, r.ret, evs, r.peeled)
            if v is False:
                return v, t
            if not r.peeled:
                w = in_loops(lib, r.run)
                if w[0] is False:
                    return w
                if w[0] is None:
                    v, t = w
            k, u = lost_cause(r, evs, deep)
            if k is False:
                return k, u
            if v is None or k is None:
                return None, t or u
            return True, ""
        return spec

    def opaque(me):
        return lambda name, info: (name in cand or name in calm) and name != me
    for p, name in roots.items():
        decide(c, p, lib, p, spec_for(p), peel=3, where=loc(lib, p), text="fails if a step in it fails, with the cause kept", opaque=opaque(name), track=True)
        runs += 1
    ps = parts(lib) if CRATE in lib.adts else None
    if ps:
        for p, f, text in ((SOURCE, spec_source(ps[1]), "the source held by an error is given"), (SHOWN, spec_shown(ps[0]), "an error is shown with its message")):
            if rootpath(lib, p):
                decide(c, p, lib, p, f, where=loc(lib, p), text=text)
    c.floor("operations that can fail", runs, 30)
    return c.finish()
