"""C04: the command line tool reports success only after everything has been done."""
import os

from ..rel import consistent, loc, rootpath
from ..report import Check, where
from ..sym import analyse
from ..terms import *

SAVE = "interpretation::svg::Svg::save_file"
STAGES = (("read", "the file is read and parsed"), ("derive", "the string is derived"), ("interpret", "the string is interpreted"), ("save", "the drawing is saved"))
ORDER = [s for s, _ in STAGES]
OWN = "rusty_systems::"
LIB = ("parser", "derive", "interpret", "save", "write", "parse")
RES = "std::result::Result"
DEBUG = os.environ.get("VERIF_WHY")


def stage_of(path):
    if not path.startswith(OWN) and not path.startswith("<" + OWN):
        return None
    n = path.split("::")[-1]
    if n in ("parse_file", "parse") and "parser" in path:
        return "read"
    return {"derive": "derive", "interpret": "interpret", "default_interpret": "interpret", "save_file": "save"}.get(n)


def called(v):
    """(path, args) of the call a value is the result of"""
    if v.op == "sym":
        p = next((x[4:] for x in v.a if isinstance(x, str) and x.startswith("ret:")), None)
        a = next((x for x in v.a if isinstance(x, T) and x.op == "args"), None)
        if p is not None:
            return p, (a.a if a is not None else ())
    return None


def iostep(v):
    if v.op == "sym":
        return next((x[3:] for x in v.a if isinstance(x, str) and x.startswith("io:")), None)
    return None


def parts(t):
    for y in t if isinstance(t, (tuple, list)) else (t,):
        if isinstance(y, (tuple, list)):
            yield from parts(y)
        elif isinstance(y, T):
            yield from walk(y)


def mentions(t, q):
    return any(x is q for x in parts(t))


def from_call(t, path):
    """does a value come from the result of a call of this function?"""
    return any(x.op == "sym" and (called(x) or ("",))[0] == path for x in parts(t))


def outcome(st, q):
    """0 succeeded, 1 failed, None not known"""
    if st.ask(isv(q, 0)) is True or st.ask(isv(q, 1)) is False:
        return 0
    if st.ask(isv(q, 1)) is True or st.ask(isv(q, 0)) is False:
        return 1
    return None


def steps(st, ret, stage_names):
    """the calls of the stages on a path: [(stage, path, args, result, outcome)], in order; outcome 0, 1 or None"""
    pool = list(st.facts.all()) + [ret]
    for e in st.events():
        if e[0] in ("std", "user", "io", "res"):
            pool += [x for x in e[1:3] if isinstance(x, (T, tuple))]
    syms = []
    for x in pool:
        for y in parts(x):
            if y.op == "sym" and not any(y is z for z in syms):
                syms.append(y)
    out = []
    for e in st.events():
        if e[0] in ("std", "user") and stage_of(e[1]):
            rs = [y for y in syms if called(y) and called(y)[0] == e[1]]
            if len(rs) > 1:
                rs = [y for y in rs if called(y)[1] == tuple(e[2])] or rs
            r = rs[0] if len(rs) == 1 else None
            o = None
            if r is not None:
                o = outcome(st, r)
            out.append((stage_of(e[1]), e[1], tuple(e[2]), r, o, len(rs)))
    return out


def ending(st, v):
    """[(state, 0 success / 1 failure / None not known)] of a value main returns"""
    if v.op == "adt" and v.a[0] == RES:
        if v.a[1] == 1:
            return [(st, 1)]
        return ending(st, v.a[2]) if len(v.a) > 2 and isint(v.a[2]) else [(st, 0)]
    if isint(v):
        x = st.ask(eqi(v, ZERO))
        if x is not None:
            return [(st, 0 if x else 1)]
        return [(s, 0) for s in st.assume(eqi(v, ZERO))] + [(s, 1) for s in st.assume(not_(eqi(v, ZERO)))]
    if v is UNIT:
        return [(st, 0)]
    if called(v):
        return [(st, outcome(st, v))]
    return [(st, None)]


def messages(st):
    return [e for e in st.events() if e[0] == "io" and e[1] == "eprint"]


def strange(st, names):
    """a call whose effects are not known, that may do a stage's work"""
    for e in st.events():
        if e[0] in ("std", "user"):
            if e[0] == "user" or e[1].startswith(OWN) or e[1].startswith("<" + OWN):
                if not stage_of(e[1]) and any(w in e[1].split("::")[-1].lower() for w in LIB):
                    return e[1]
            elif e[1].startswith(("std::fs", "std::io", "<std::fs", "<std::io", "std::process")):
                return e[1]
        if e[0] == "io" and e[1] in ("write", "open"):
            return e[1]
    return None


def leaks(st, q):
    """is an outcome handed to something that may look at it?"""
    return any(e[0] in ("std", "user") and any(mentions(x, q) for x in e[2]) and not stage_of(e[1]) and "Display" not in e[1] for e in st.events())


def output_path(bn):
    """field of the output file in the arguments: (position, count of the fields of that type)"""
    for k, a in bn.adts.items():
        for v in a["variants"]:
            ns = [f["n"] for f in v["fields"]]
            if "output" in ns and "file" in ns:
                return ns.index("output"), ns.index("file")
    return None


def rooted(t, pos):
    """is this path the given field of the arguments?  True, False (another field), None"""
    q = t
    while q.op in ("fld", "pure", "sym"):
        if q.op == "pure":
            if q.a[0].split("::")[-1] in ("to_path_buf", "as_path", "clone", "deref", "from", "into"):
                q = q.a[1]
                continue
            return None
        if q.op == "sym":
            return None
        chain, base = [], q
        while base.op == "fld":
            chain.append(base.a[-1])
            base = base.a[0]
        if base.op != "sym" or not called(base) or not called(base)[0].startswith("clap::"):
            return None
        return chain
    return None


def check_C04(lib, bn):
    c = Check("C04", "proof",
              "every way main of the command line tool can end is followed, from the arguments through reading, deriving, interpreting and saving: the status says success only where each of the four "
              "is known to have succeeded, works on the result of the one before, and the drawing goes to the requested output path with the extension svg; where one has failed the status says "
              "failure and something was written to standard error; no panic is reachable for any arguments and any outcome of the steps; and saving reports success only when the file was "
              "created and everything was written to it",
              ["clap ends the process itself, with a message and a failure status, for arguments it does not accept",
               "standard output and standard error can be written to (print! panics otherwise)",
               "that the library's own steps do not panic, and fail when a step in them fails, is decided by C01-C03 and C22"])
    mains = [i for n, i in bn.insts.items() if i.path == "main"]
    if not mains:
        c.undecided("main", "", "no main function found")
        return c.finish()
    main = mains[0]
    r = analyse(bn, main, tmax=120, track=True)
    if r.err:
        c.undecided("main", "", "main: " + str(r.err))
        return c.finish()
    c.fn(*[n for n, i in bn.insts.items() if i.local])
    at = loc(bn, "main") if "main" in bn.fns else "src/bin/lsystem/main.rs"
    # ---- no panic
    seen = set()
    for o in r.bad() + r.vague():
        k = "panic:%s:%s" % (o.kind, inside(bn, o))
        v = panics(bn, o)
        if v is True or (k, v) in seen:
            continue
        seen.add((k, v))
        (c.undecided if v is None else c.bad)(k, inside(bn, o), "the tool can panic (%s) where %s" % (o.kind, " and ".join(show(l)[:120] for l in o.state.facts.all() if outside(l)) or "it comes there"))
    c.ok("panics", at, "%d places of the tool that could panic examined" % len(r.eng.obl))
    # ---- the ways it ends
    paths = []
    for st, v in r.res:
        for s, e in ending(st, v):
            if consistent(s, bn) is not False:
                paths.append((s, v, e, steps(s, v, None)))
    # the question that leads to interpretation: what is known about the command on all paths that read
    reading = [p for p in paths if any(x[0] == "read" for x in p[3])]

    def of_command(l):
        return l.op == "indom" and any(x.op == "sym" and (called(x) or ("",))[0].startswith("clap::") for x in walk(l)) and not any(
            x.op == "pure" for x in walk(l)) and not any(x.op == "sym" and called(x) and not called(x)[0].startswith("clap::") for x in walk(l))
    key = None
    for p in reading:
        ls = {l for l in p[0].facts.all() if of_command(l)}
        key = ls if key is None else key & ls
    if not reading or not key:
        c.undecided("command", at, "not known which command interprets a file")
        return c.finish()
    work = [p for p in paths if all(p[0].ask(l) is not False for l in key)]
    pos = output_path(bn)
    n = 0
    for s, v, e, ss in work:
        n += 1
        tag = "+".join("%s:%s" % (x[0], {0: "ok", 1: "failed", None: "?"}[x[4]]) for x in ss) or "nothing"
        k = "end:" + tag
        odd = strange(s, None)
        if e is None:
            c.undecided(k, at, "the status after %s is not known" % tag)
            continue
        done = {x[0]: x for x in ss}
        failed = [x for x in ss if x[4] == 1]
        # several attempts at one stage: the last counts
        failed = [x for x in failed if done[x[0]] is x]
        if e == 1:
            if messages(s):
                c.ok(k, at, "failure, and something is said about it")
            elif v.op == "adt" and v.a[0] == RES:
                c.ok(k, at, "failure, and main returns the error")
            elif odd or any(ev[0] in ("std", "user") and any(w in ev[1].lower() for w in ("print", "report", "write", "log")) for ev in s.events()) \
                    or any(ev[0] == "io" and ev[1] not in ("print", "create") for ev in s.events()):
                c.undecided(k, at, "failure; not known whether something is said about it")
            else:
                c.bad(k, at, "the tool ends with failure (%s) and says nothing on standard error" % tag)
            continue
        if failed:
            c.bad(k, at, "the tool ends with success, although %s failed" % failed[0][1])
            continue
        verdict, why = True, "success only after everything has been done"
        for stage, text in STAGES:
            x = done.get(stage)
            if x is None:
                if stage == "save":
                    ios = [ev for ev in s.events() if ev[0] == "io" and ev[1] in ("create", "write_all", "writefile", "write_fmt")]
                    if any(ev[1] != "create" for ev in ios):
                        w = [ev for ev in ios if ev[1] != "create"]
                        oks = [y for ev in s.events() if ev[0] == "res" and iostep(ev[1]) for y in [outcome(s, ev[1])]]
                        verdict, why = (None, "saved by other means") if not oks or not all(y == 0 for y in oks) or not w or verdict is not True else (verdict, why)
                        continue
                verdict, why = (None, "%s may do it" % odd) if odd else (False, "the tool can end with success without that %s" % text)
                break
            if x[4] is None:
                if x[3] is None and x[5] > 1 or x[3] is not None and leaks(s, x[3]):
                    verdict, why = None, "not known whether %s succeeded" % x[1]
                else:
                    verdict, why = False, "the tool can end with success without %s having succeeded: its result is not looked at" % x[1]
                break
        if verdict is True:
            for a, b in (("read", "derive"), ("derive", "interpret"), ("interpret", "save")):
                x, y = done.get(a), done.get(b)
                if x and y and not mentions(y[2], x[3]):
                    unk = any(z.op == "phi" or z.op == "sym" and any(isinstance(u, str) and u.startswith("after") for u in z.a) for z in parts(y[2]))
                    verdict, why = None if unk or odd else False, "%s is not given the result of %s" % (y[1], x[1])
        if verdict is True and "save" in done:
            verdict, why = saved_to(s, done["save"][2], pos)
        c.judge3(k, verdict, at, why)
        if DEBUG:
            print(k, verdict, why)
    saving(c, lib)
    c.cov["ends of the tool examined"] = n
    c.floor("functions of the tool", len([1 for n_, i in bn.insts.items() if i.local]), 1)
    return c.finish()


MAYBE = ("extension", "to_str", "parent", "file_name", "file_stem")


def outside(l):
    """a fact about what comes from outside: an argument, a path, or the outcome of a step"""
    return any(x.op == "pure" or x.op == "sym" and (called(x) or iostep(x)) for x in walk(l))


def inside(bn, o):
    """the place in the tool's own code from which a panic is reached"""
    for nm in (o.inst,) + tuple(reversed([x if isinstance(x, str) else str(x) for x in (o.stack or ())])):
        i = bn.insts.get(nm)
        if i is not None and i.local and i.path in bn.fns:
            return "%s (%s)" % (loc(bn, i.path), i.path)
    return "the tool"


def heads(t):
    """the parts of a term, calls taken as they are"""
    yield t
    if t.op != "sym":
        for x in t.a:
            if isinstance(x, T):
                yield from heads(x)


def panics(bn, o):
    """True it does not, False it can, None not known"""
    ss = [o.state] if o.cond is FALSE or not isinstance(o.cond, T) else o.state.assume(not_(o.cond))
    verdict = True
    for st in ss:
        if consistent(st, bn) is False:
            continue
        ls = [l for l in st.facts.all()]
        if any(blank(x) for l in ls for x in walk(l)):
            verdict = None
            continue
        for l in ls:
            for x in heads(l):
                if x.op in ("phi", "bottom", "uninit", "allq", "exq") or x.op == "sym" and not (called(x) or iostep(x) or "arg" in x.a):
                    return None
                if x.op == "sym" and called(x) and not (stage_of(called(x)[0]) or called(x)[0].startswith("clap::")):
                    return None
            if l.op in ("indom", "notindom") and l.a[0].op == "pure" and l.a[0].a[0].split("::")[-1] not in MAYBE:
                return None
        return False
    return verdict


def saved_to(s, args, pos):
    """is the drawing written to the output path, with the extension svg?"""
    good = "success only after everything has been done, the drawing is at the output path"
    if len(args) < 2 or pos is None:
        return None, "the output path is not known"
    t = args[1]
    svg = STR("svg")
    t = strip(t)
    if t.op == "pure" and t.a[0].endswith("::with_extension"):
        if t.a[2] is not svg:
            return (False if t.a[2].op == "str" else None), "the extension is made %s" % show(t.a[2])
        base, forced = strip(t.a[1]), True
    else:
        base, forced = t, False
    ch = rooted(base, pos)
    if ch is None:
        if base.op == "pure" and base.a[0].split("::")[-1] in ("with_file_name", "file_name", "file_stem", "parent"):
            return None, "the output path is changed: " + show(base)[:80]
        return (False if base.op == "str" else None), "written to %s" % show(base)[:80]
    which = field_of(base)
    if which is not None and which != pos[0]:
        return False, "written to another argument than the output path"
    if forced:
        return True, good
    lits = [l for l in s.facts.all()]
    mine = lambda l: any(y.op == "pure" and len(y.a) > 1 and strip(y.a[1]) is base for y in walk(l))
    for l in lits:
        if l.op == "eq" and any(x is svg for x in l.a) and any(x.op == "pure" and x.a[0].endswith("to_ascii_lowercase") and blank(x.a[1]) or blank(x) for x in l.a):
            return True, "does not happen: no extension is not svg"
        if l.op == "not" and l.a[0].op == "pure" and l.a[0].a[0].endswith("is_empty") and any(blank(x) for y in l.a[0].a[1:] for x in walk(y)):
            return True, "does not happen: no extension is empty"
        if l.op == "eq" and any(x is svg for x in l.a) and (mine(l) or any(y is base for y in walk(l))):
            return True, good
        if l.op == "pure" and "eq_ignore_ascii_case" in l.a[0] and any(y is svg for y in walk(l)) and mine(l):
            return True, good
    looked = [l for l in lits if mine(l)]
    for w in ("png", "txt", "xml", "svgz"):
        if looked and all(holds(l, w) is True for l in looked):
            return False, "the output path is used as it is, also when its extension is %s" % w
    if any(blank(x) for l in lits for x in walk(l)):
        return None, "not known what is found out about an extension that is not there"
    none = [l for l in looked if l.op == "indom" and l.a[0].op == "pure" and l.a[0].a[0].endswith("::extension") and l.a[1] == (0,)]
    if none:
        return False, "an output path without an extension is used as it is"
    if not looked or any(l.op == "not" and any(x is svg for x in walk(l)) for l in looked):
        return False, "the output path is used as it is, also when its extension is not svg"
    return None, "not known that the extension is svg"


def strip(t):
    while t.op == "pure" and t.a[0].split("::")[-1] in ("to_path_buf", "as_path", "as_ref", "clone"):
        t = t.a[1]
    return t


def holds(l, ext):
    """is this true of a path with that extension?"""
    def word(t):
        if t.op == "str":
            return t.a[0] if isinstance(t.a[0], str) else None
        if t.op == "pure" and t.a[0].split("::")[-1] in ("to_ascii_lowercase", "to_str", "to_string_lossy", "extension", "to_owned"):
            return ext
        if t.op == "fld":
            return word(t.a[0])
        return None
    if l.op == "not":
        x = holds(l.a[0], ext)
        return None if x is None else not x
    if l.op == "indom" and l.a[0].op == "pure" and l.a[0].a[0].split("::")[-1] in ("extension", "to_str"):
        return 1 in l.a[1]
    if l.op == "eq":
        a, b = word(l.a[0]), word(l.a[1])
        return None if a is None or b is None else a == b
    if l.op == "pure":
        ws = [word(x) for x in l.a[1:]]
        if l.a[0].endswith("is_empty"):
            return None if None in ws else ws[0] == ""
        if l.a[0].endswith("eq_ignore_ascii_case"):
            return None if None in ws or len(ws) != 2 else ws[0].lower() == ws[1].lower()
    return None


def blank(t):
    """the empty text given in place of an extension that is not there"""
    return t is STR("") or t.op == "sym" and (called(t) or ("",))[0].endswith("Default::default")


def field_of(t):
    """index of the field of the arguments that a value lies in"""
    chain = []
    while t.op == "fld":
        chain.append(t.a[-1])
        t = t.a[0]
    chain.reverse()
    # parse() . command . variant field 0 . field of the arguments
    return chain[2] if len(chain) > 2 and chain[0] == 1 and chain[1] == 0 else None


def saving(c, lib):
    """Svg::save_file reports success only when the file was created and all was written"""
    if SAVE not in lib.fns:
        c.undecided("saving", "", "no function saves a drawing")
        return
    ii = [i for nm, i in lib.insts.items() if i.path == SAVE]
    if not ii:
        c.undecided("saving", "", "saving is not instantiated")
        return
    inst = ii[0]
    r = analyse(lib, inst, opaque=lambda nm, info: nm.endswith("::to_svg") or nm.endswith("::svg"), tmax=60, track=True)
    at = loc(lib, SAVE)
    if r.err:
        c.undecided("saving", at, str(r.err))
        return
    c.fn(SAVE)
    for st, v in r.res:
        if consistent(st, lib) is False:
            continue
        ev = [e for e in st.events() if e[0] == "io"]
        rs = [e[1] for e in st.events() if e[0] == "res"]
        kinds = [e[1] for e in ev]
        k = "saving:" + ",".join(kinds)
        if v.op == "adt" and v.a[1] == 1 or outcome(st, v) == 1:
            c.ok(k + ":failure", at, "a failure is reported")
            continue
        lost = [q for q in rs if iostep(q) and not (q is v or outcome(st, q) == 0)]
        unk = [x for x in kinds if x not in ("create", "write_all", "writefile", "write_fmt", "flush", "sync", "bufwriter", "write", "sync_all")]
        for q in lost:
            if outcome(st, q) == 1 or not any(y is q for e in st.events() if e[0] in ("std", "user") for y in parts(e[2])):
                if iostep(q) in ("flush", "sync", "sync_all"):
                    c.undecided(k, at, "the outcome of %s is not looked at" % iostep(q))
                else:
                    c.bad(k, at, "saving reports success although %s may have failed" % iostep(q))
                break
        else:
            if unk or any(e[0] == "loop" for e in st.events()):
                c.undecided(k, at, "written in a way that is not known: %s" % ",".join(kinds))
            elif "writefile" in kinds or ("write_all" in kinds or "write_fmt" in kinds) and "create" in kinds:
                tgt = [e for e in ev if e[1] in ("create", "writefile")]
                arg = r.args[1]
                if all(mentions(e[2][0], arg) or e[2][0] is arg for e in tgt):
                    c.ok(k, at, "success only when the file was created and everything written to it")
                elif all(any(x.op == "sym" and "arg" in x.a for x in parts(e[2][0])) or e[2][0].op == "str" for e in tgt) and not r.eng.taints:
                    c.bad(k, at, "the file written is not the one asked for: %s" % show(tgt[0][2][0])[:100])
                else:
                    c.undecided(k, at, "the file written: %s" % show(tgt[0][2][0])[:100])
            elif "write" in kinds:
                c.bad(k, at, "a single write may write only a part, and success is reported all the same")
            elif any(e[0] in ("std", "user") for e in st.events()):
                c.undecided(k, at, "not known to write the file")
            else:
                c.bad(k, at, "success is reported without a file having been written")
