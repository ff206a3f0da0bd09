"""C33: loops and iterators make progress, calls descend."""
import itertools
import os
import re
import time

from .. import fwit, textwit
from ..facts import norm, strip_generics
from ..graph import Graph
from ..loops import Resolver
from ..rel import clean, consistent, same
from ..report import Check, where
from ..sym import TypeInvariants, analyse, base_adt, value
from ..terms import *

BLOCK = re.compile(r"^std::(thread::(park|sleep|yield_now)|sync::(Condvar::wait\w*|Barrier::wait|mpsc::Receiver::(recv|iter))|io::(stdin|Stdin::\w+)|thread::JoinHandle::join|process::Child::wait)$")
ENDLESS = re.compile(r"^std::(ops::RangeFrom<|iter::(Cycle|Repeat|RepeatWith|Successors|FromFn)<)")
THROUGH = re.compile(r"^std::iter::(Map|Filter|FilterMap|Enumerate|Cloned|Copied|Skip|SkipWhile|Inspect|StepBy|Peekable|Fuse|FlatMap|Flatten|Scan|Chain|Rev)<")
DRAIN = {"collect", "count", "last", "fold", "sum", "product", "for_each", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "partition", "unzip", "extend",
         "from_iter", "reduce"}


# ---------------------------------------------------------------- measures
def numbers(v, path=(), depth=0):
    """(path, number) of the parts of a value that count something: integers, booleans, lengths"""
    if v is None or depth > 5:
        return
    ty = tyof.get(v)
    if v.op == "int" or ty in ("usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "u128", "i128") or v.op in ("lin", "len"):
        yield path, v, ty
        return
    if v.op == "bool" or ty == "bool":
        yield path, v, "bool"
        return
    if ty in ("str", "seq") or v.op in ("lst", "cat", "slice", "mapseq", "str", "upd", "rev"):
        yield path + ("len",), len_(v), "usize"
        return
    if v.op in ("adt", "tup", "clo", "some") or v.op in ITERS:
        if v.op == "adt" and not (v.a[0] in STRUCTS):
            yield path + ("variant",), INT(v.a[1]), "usize"
        for k, x in enumerate(v.a):
            if isinstance(x, T):
                yield from numbers(x, path + (k,), depth + 1)


ITERS = ("it", "itmut", "range", "enum", "map", "filter", "filtermap", "take", "takewhile", "skip", "skipwhile", "chain", "zip",
         "peek", "revit", "flatmap", "chars", "charidx", "splitit", "inspect", "stepby", "bytesit", "scan", "mapwhile")


def asint(st, x, ty):
    if ty == "bool":
        v = st.ask(x) if x.op != "bool" else x.a[0]
        return None if v is None else INT(1 if v else 0)
    return x


def invariant(t, key):
    return not any(l.op == "phi" and (key is None or l.a[0] == key) for l in leaves(t))


def bounded_above(st, old, key, changing):
    """is a number bounded by something that stays the same in the loop?"""
    if old.op == "int":
        return True
    for b in st.facts.all():
        if b.op != "le0":
            continue
        t = b.a[0]
        if t.op == "lin":
            co = {x: k for x, k in t.a[1]}
        else:
            co = {t: 1}
        if co.get(old, 0) > 0 and all(x is old or not changing(x) for x in co):
            return True
    return False


class Edge:
    def __init__(self, a, b, st, old, new):
        self.a, self.b, self.st = a, b, st
        self.old, self.new = old, new     # {name: (term, type)}


def ranked(edges, changing, unsigned=("usize", "u8", "u16", "u32", "u64", "u128", "bool")):
    """do the passes make progress? lexicographic combination of measures: (True, names) or (False, why)"""
    left = list(edges)
    used = []
    names = sorted({n for e in edges for n in set(e.old) & set(e.new)}, key=str)
    while left:
        # passes that cannot follow each other for ever
        left = [e for e in left if reaches(left, e.b, e.a)]
        if not left:
            break
        hit = None
        for n in names:
            for direction in ("down", "up"):
                strict, ok = [], True
                for e in left:
                    if n not in e.old or n not in e.new:
                        ok = False
                        break
                    (x, tx), (y, ty) = e.old[n], e.new[n]
                    x, y = asint(e.st, x, tx), asint(e.st, y, ty)
                    if x is None or y is None:
                        ok = False
                        break
                    lo, hi = (y, x) if direction == "down" else (x, y)
                    if lo is hi:
                        continue
                    if e.st.ask(lt(lo, hi)) is True:
                        if direction == "down" and tx not in unsigned and not (x.op == "int" and y.op == "int") and e.st.ask(le(ZERO, x)) is not True:
                            ok = False
                            break
                        if direction == "up" and tx != "bool" and not (x.op == "int" and y.op == "int") and not bounded_above(e.st, x, None, changing) \
                                and not bounded_above(e.st, y, None, changing):
                            ok = False
                            break
                        strict.append(e)
                    elif e.st.ask(le(lo, hi)) is not True:
                        ok = False
                        break
                if ok and strict:
                    hit = (n, direction, strict)
                    break
            if hit:
                break
        if not hit:
            return False, "no measure found for %d of %d ways round" % (len(left), len(edges))
        used.append("%s %s" % (hit[0], hit[1]))
        left = [e for e in left if e not in hit[2]]
    return True, used


def reaches(edges, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [e.b for e in edges if e.a == x]
    return False


# ---------------------------------------------------------------- cases that surely exist
def isbase(t):
    return t.op == "sym" and "arg" in t.a or t.op == "fld" and isbase(t.a[0])


def basesof(t, out):
    if isbase(t):
        out.add(t)
        return True
    if t.op in ("phi", "call", "sym"):
        return False
    return all(basesof(x, out) for x in t.a if isinstance(x, T))


def surely(st, lib):
    """is there a case in which the facts hold? True or None: a text and a fresh position in it"""
    if consistent(st, lib) is True:
        return True
    if st.facts.inconsistent():
        return None
    # what other functions are asked for can succeed
    ls = [b for b in st.facts.all() if not (b.op == "indom" and b.a[0].op == "call" and b.a[1] == (0,))]
    bs = set()
    if any(b.op == "allq" for b in ls) or not all(basesof(b, bs) for b in ls):
        return None
    texts = [b for b in bs if tyof.get(b) == "str" or any(x.op in ("char_at", "bnd", "slice", "starts", "ends", "contains", "chars") and x.a[0] is b for y in ls for x in walk(y))]
    if len(texts) != 1:
        return None
    env = {}
    for b in bs - set(texts):
        if tyof.get(b) == "bool" or any(y is b or y.op == "not" and y.a[0] is b for y in ls):
            env[b] = False
        elif tyof.get(b) == "usize":
            env[b] = 0
        else:
            return None
    for b in ls:
        if b in env and env[b] is not True or b.op == "not" and env.get(b.a[0]) is True:
            return None
    chars = []
    for b in ls:
        for x in walk(b):
            if x.op in ("indom", "notindom"):
                chars += [chr(k) for k in x.a[1] if isinstance(k, int) and 32 < k < 0x3000]
    # the rarer ones say more
    chars = sorted(set(chars), key=lambda k: (chars.count(k), k))[:4]
    alphabet = chars + ["a", " ", "\u00e9"]
    ls.sort(key=size)
    pieces = textwit.constants(*ls)
    if pieces and any(x.op in ("lines", "words", "starts", "contains", "eq") for b in ls for x in walk(b)):
        parts = [q for k in pieces[:4] for q in (k, k + " a")] + ["a"]
        for n in range(1, 4):
            for w in itertools.product(parts, repeat=n):
                if fits(ls, env, texts[0], "\n".join(w)):
                    return True
    for n in range(1, 6):
        for w in itertools.product(alphabet[:7 if n < 4 else 4 if n < 5 else 3], repeat=n):
            if fits(ls, env, texts[0], "".join(w)):
                return True
    return None


def fits(ls, env, text, s):
    e = dict(env)
    e[text] = s.encode()
    try:
        return all(textwit.ev(b, e) is True for b in ls)
    except (textwit.Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError):
        return False


def size(b):
    return len(show(b))


# ---------------------------------------------------------------- loops
def flat(mem, R=None):
    out = {}
    for r, v in mem.items():
        for p, x, ty in numbers(v):
            out[(str(r),) + p] = (x, ty)
    return out


def edges_of(rec):
    out = []
    for a, b, st, vals in rec.backs:
        if not isinstance(vals, dict):
            return None
        out.append(Edge(a.n, b.n, st, flat(a.tmpl), flat(st.mem)))
    return out


def external(st, since):
    """something happens in the pass whose effect is not part of the values followed"""
    for e in list(st.events())[since:]:
        if e[0] in ("user", "std", "rng", "io", "atomic", "opaque", "acq", "hash", "cellset"):
            return True
    return False


def stuck(rec, lib):
    """a first pass of the loop that changes nothing: True if there surely is one"""
    n0 = len(list(rec.s0.events())) if hasattr(rec.s0, "events") else 0
    for a, b, st, vals in rec.backs:
        if a.n != 0 or b.n != 0 or a.init is None or not isinstance(vals, dict):
            continue
        if any(e[0] in ("user", "std", "rng", "io", "atomic", "opaque", "acq", "hash", "cellset") for e in list(st.events())[n0:]):
            continue
        m = {p: v for p, v in a.init.items()}
        new = {p: subst(v, m) for p, v in vals.items()}
        ss = [rec.s0]
        for f in st.facts.all():
            if f.op == "allq":
                continue
            ss = [y for x in ss for y in x.assume(subst(f, m))]
        for s in ss:
            if not all(new[p] is m[p] or same(s, new[p], m[p]) is True for p in m):
                continue
            if surely(s, lib) is True:
                return True, s
    return None


def again(r, rec, lib):
    """a later pass that changes nothing"""
    end = time.monotonic() + 60
    for name, sp, keep, a, b in r.eng.passes:
        if rec is not None and (name != rec.inst or sp != rec.where) or time.monotonic() > end:
            continue
        if external(b, len(list(a.events()))):
            continue
        if all(keep is None or not keep(k) or k in b.mem and (b.mem[k] is v or same(b, b.mem[k], v) is True) for k, v in a.mem.items()):
            if surely(b, lib) is True:
                return sp or ("", "")
    return None


def mirloops(inst):
    L = inst.loops()
    return set(L) if L else set()


def outside(lib, nm, own):
    n = strip_generics(nm)
    return n in lib.fns and n != own and not n.startswith(own + "::{closure")


def elsewhere(lib, nm, i):
    """a function of another module"""
    n = strip_generics(nm)
    return n in lib.fns and not n.startswith(strip_generics(i.path).rsplit("::", 1)[0] + "::")


def nothing(eng, inst, vals):
    """assumption: lists that are given are empty"""
    return [eqi(len_(v), ZERO) for n, v in enumerate(vals) if eng.prog.types[inst.locals[n + 1]["ty"]]["k"] == "ref"
            and eng.prog.types[eng.prog.types[inst.locals[n + 1]["ty"]]["to"]]["k"] == "slice"]


def closures(lib, g, i, nested):
    """closures with loops that the function makes"""
    own = strip_generics(i.path) + "::{closure"
    return {n for n in nested if strip_generics(n).startswith(own)}


def covers(r, i, more):
    got = {strip_generics(rec.inst) for rec in r.eng.recs}
    return all(strip_generics(n) in got for n in ({i.name} if mirloops(i) else set()) | more)


# ---------------------------------------------------------------- the check
def check_C33(lib, bn):
    c = Check("C33", "proof",
              "for every loop of the crate, each way round it (back edges of the abstract interpretation with loop invariants) strictly moves a "
              "lexicographic measure of integers, flags, positions and lengths towards a bound that stays the same in the loop; every next() of the crate's own "
              "iterators that returns an item moves such a measure of the iterator; calls that can come back to the same function descend to a part of their argument "
              "or of their type; no endless std iterator is consumed whole and nothing waits for others",
              ["std's operations on finite collections terminate", "iterators, stores and conversions supplied by the user are finite", "no deadlock (C08)",
               "reference-counted drawings are not cyclic: they have no interior mutability (C10)"])
    fwit.BEYOND[:] = [True]
    g = Graph(lib)
    roots = [lib.insts[f["root"]] for p, f in sorted(lib.fns.items()) if f.get("root") in lib.insts and f["reachable"]]
    seen = g.reach(roots)
    insts = [g.insts[k] for k in sorted(seen)]
    c.cov["functions"] = len(insts)
    c.floor("functions reachable from public ones", len(insts), 150)
    TI = TypeInvariants(lib)
    # ---- (1) loops
    nl = 0
    nested = {x.name for x in insts if x.local and x.j.get("closure") and mirloops(x)}
    for i in insts:
        hs = mirloops(i)
        if not i.local or i.j.get("closure") or not (hs or closures(lib, g, i, nested)):
            continue
        c.fn(strip_generics(i.name))
        key = "loop:" + strip_generics(i.name)
        sp = None
        if hs:
            sp = i.blocks[min(hs)]["t"].get("sp") or (i.blocks[min(hs)]["st"] or [{}])[0].get("sp")
        w = "%s:%s" % (sp[0], sp[1]) if sp else ""
        # calls of other functions may change whatever they can reach
        r = analyse(lib, i, tmax=20.0, pure=False, opaque=lambda nm, info=None, own=strip_generics(i.path): outside(lib, nm, own))
        if not r.err and all(proved(rec) for rec in r.eng.recs) and covers(r, i, closures(lib, g, i, nested)):
            nl += len(hs)
            c.ok(key, w, "every way round its loops makes progress, whatever the functions called do")
            continue
        r = analyse(lib, i, tmax=40.0)
        if not r.err and not all(proved(rec) for rec in r.eng.recs):
            for n in range(i.nargs):
                adt, t = base_adt(lib, i.locals[n + 1]["ty"])
                if adt and len(t.get("variants") or []) == 1:
                    TI.infer(adt, t)
            r2 = analyse(lib, i, assume=TI.assume, tmax=40.0)
            r = r if r2.err else r2
        nl += len(hs)
        if r.err:
            at = None
            for kw in (dict(peel=2, assume=nothing), dict(peel=3, assume=nothing), dict(peel=3, opaque=lambda nm, info=None: elsewhere(lib, nm, i)), dict(peel=1), dict(peel=2)):
                p = analyse(lib, i, tmax=20.0, passes=True, **kw)
                at = at or again(p, None, lib)
                if os.environ.get("VERIF_WHY"):
                    print("   ", key, sorted(kw), p.err, len(p.eng.passes), at)
                if at:
                    break
            if at:
                c.bad(key, w, "%s: a pass of the loop at %s changes nothing, so it is made for ever" % (strip_generics(i.name), "%s:%s" % (at[0], at[1])))
            else:
                c.undecided(key, w, r.err)
            continue
        if not covers(r, i, closures(lib, g, i, nested)):
            c.undecided(key, w, "a loop that is not reached by the analysis")
            continue
        verd, why, later = True, [], {}
        for rec in r.eng.recs:
            es = edges_of(rec)
            if es is None:
                ok, how = False, "not understood"
            else:
                ok, how = proved(rec), ""
            if ok:
                continue
            s = stuck(rec, lib)
            for n in () if s else (2, 5):
                # the same for the passes that come later
                if n not in later:
                    later[n] = analyse(lib, i, assume=TI.assume, tmax=40.0, peel=n, passes=True)
                if again(later[n], rec, lib):
                    s = True
                    break
            if s:
                verd = False
                why.append("%s: a pass of the loop at %s changes nothing, so it is made for ever" % (strip_generics(rec.inst), show_sp(rec)))
                break
            verd = None
            why.append("no measure found for the loop in %s at %s" % (strip_generics(rec.inst), show_sp(rec)))
            if os.environ.get("VERIF_WHY"):
                for e in es or []:
                    print("   ", rec.key, e.a, e.b, {k: (show(v[0])[:60], show(e.new[k][0])[:80]) for k, v in e.old.items() if k in e.new and v[0] is not e.new[k][0]})
        c.judge3(key, verd, w, "; ".join(why) if why else "%d loops, every way round makes progress" % len(hs))
    c.cov["loops"] = nl
    c.floor("loops", nl, 10)
    # ---- (2) the crate's own iterators
    ni = 0
    for p, f in sorted(lib.fns.items()):
        if f["name"] not in ("next", "next_back") or not re.match(r"(std|core)::iter::(Iterator|DoubleEndedIterator)", f.get("impl_trait") or ""):
            continue
        i = lib.insts.get(f.get("root"))
        if i is None:
            continue
        ni += 1
        c.fn(p)
        progress(c, lib, i, "next:" + strip_generics(p), where(f["span"]), TI)
    c.cov["iterators"] = ni
    # ---- (3) calls that come back
    recursion(c, lib, g, insts)
    # ---- (4) endless iterators, waiting
    for i in insts:
        bad = False
        for x in g.calls(i):
            sp = x.term.get("sp") or ["", ""]
            w = "%s:%s" % (sp[0], sp[1])
            if BLOCK.match(x.path):
                bad = True
                c.bad("waits:" + strip_generics(i.name), w, "%s waits for something else to happen (%s)" % (i.path, x.path))
            if x.info["k"] == "fndef" and x.path.split("::")[-1] in DRAIN and "self" in x.info:
                s = lib.types[x.info["self"]]["s"]
                e = endless(s)
                if e:
                    bad = True
                    c.bad("endless:" + strip_generics(i.name), w, "%s consumes all of an iterator that does not end: %s" % (i.path, s[:120]))
        if not bad:
            c.ok("steady:" + strip_generics(i.name), "", "no waiting, no endless iterator consumed")
    return c.finish()


def endless(s):
    for _ in range(12):
        if ENDLESS.match(s):
            return not s.startswith(("std::iter::FromFn<", "std::iter::Successors<"))
        m = THROUGH.match(s)
        if not m:
            return False
        s = s[m.end():]
    return False


def show_sp(rec):
    w = rec.where
    try:
        return "%s:%s" % (w[0], w[1])
    except (TypeError, IndexError, KeyError):
        return str(w)


def proved(rec):
    r = getattr(rec, "_ranked", None)
    if r is None:
        es = edges_of(rec)
        if es is None:
            r = (False, "not understood")
        else:
            mine = set()
            for q in rec.parts:
                mine |= set(q.phis)

            def changing(t):
                return any(l in mine for l in leaves(t))
            r = ranked(es, changing)
        rec._ranked = r
    return r[0]


def progress(c, lib, i, key, w, TI):
    def run(assume=None, **kw):
        return analyse(lib, i, assume=assume, tmax=40.0, **kw)

    def edges(r):
        es = []
        inner = False
        before = flat({("self",): r.mem0[r.args[0].a[0]]}) if r.args[0].op == "mref" else {}
        for st, v in r.res:
            v = Resolver(st)(v)
            if v.op == "adt" and v.a[1] == 0:
                continue        # no item
            if v.op != "adt" and st.ask(mk("indom", v, (0,))) is True:
                continue
            es.append((Edge(0, 0, st, {}, {}), st, v))
        return es
    adt, t = base_adt(lib, i.locals[1]["ty"])
    if adt and len(t.get("variants") or []) == 1:
        TI.infer(adt, t)
    r = run(TI.assume)
    if r.err:
        return c.undecided(key, w, r.err)
    if r.args[0].op != "mref":
        return c.undecided(key, w, "not an iterator behind a reference")
    root = r.args[0].a[0]
    flds = [(n, fd) for n, fd in enumerate(t["variants"][0]["fields"])] if adt else []
    base = r.mem0[root]
    es, vague = [], None
    for st, v in r.res:
        v = Resolver(st)(v)
        if v.op == "adt" and v.a[1] == 0:
            continue
        now = Resolver(st)(value(st, r.args[0], r.eng))
        old, new = {}, {}
        for n, fd in flds:
            k = r.eng.scalar(fd["ty"])
            x, y = typed(fld(base, 0, n), k), fld(now, 0, n)
            if k in ("usize", "u8", "u16", "u32", "u64", "bool", "isize", "i32", "i64"):
                old[(n,)], new[(n,)] = (x, k), (y, k)
            elif k in ("str", "seq"):
                old[(n, "len")], new[(n, "len")] = (len_(x), "usize"), (len_(y), "usize")
            else:
                # the rest of a std iterator: its position
                for (p1, a1, t1) in numbers(y):
                    new[(n,) + p1] = (a1, t1)
                for (p1, a1, t1) in numbers(x):
                    old[(n,) + p1] = (a1, t1)
        inner = any(e[0] in ("user", "std") and str(e[1]).endswith(("::next", "::next_back")) for e in st.events())
        es.append((Edge(0, 0, st, old, new), st, v, now, inner))
    mine = set()

    def changing(t_):
        return any(y is base and any(z.op == "fld" and z.a[0] is base and z.a[2] in moved for z in walk(t_)) for y in walk(t_))
    moved = {n for n, fd in flds if any(not (same(e[1], fld(e[3], 0, n), fld(base, 0, n)) is True) for e in es)}
    split = []
    for e in es:
        split += cases(e[0])
    ok, how = ranked(split, changing)
    if ok:
        return c.ok(key, w, "%d ways to return an item, each moves %s" % (len(es), how))
    if os.environ.get("VERIF_WHY"):
        for e in split:
            print("   ", key, {k: (show(v[0])[:80], show(e.new[k][0])[:160]) for k, v in e.old.items() if k in e.new})
    for e, st, v, now, inner in es:
        if inner or any(x[0] in ("rng", "io", "atomic", "opaque", "acq", "user") for x in st.events()):
            continue
        if v.op == "adt" and v.a[1] == 1 and same(st, now, base) is True and clean(now) and surely(st, lib) is True:
            return c.bad(key, w, "an item is returned and the iterator is as before, so it never ends: %s" % show(v)[:120])
    # the same, with the passes of its loops followed
    p = run(TI.assume, peel=3)
    end = time.monotonic() + 60
    for st, v in p.res:
        if time.monotonic() > end:
            break
        v = Resolver(st)(v)
        now = Resolver(st)(value(st, p.args[0], p.eng))
        if any(x[0] in ("rng", "io", "atomic", "opaque", "acq", "user") for x in st.events()):
            continue
        if v.op == "adt" and v.a[1] == 1 and same(st, now, p.mem0[p.args[0].a[0]]) is True and clean(now) and surely(st, lib) is True:
            return c.bad(key, w, "an item is returned and the iterator is as before, so it never ends: %s" % show(v)[:120])
    return c.undecided(key, w, "no measure found")


def cases(e):
    """an item may be returned in several cases: flags known either way"""
    out = [e]
    for n, (x, ty) in e.old.items():
        if ty != "bool":
            continue
        nxt = []
        for f in out:
            for which in (f.old[n][0], f.new[n][0]):
                if which.op == "bool" or f.st.ask(which) is not None:
                    continue
            if f.old[n][0].op != "bool" and f.st.ask(f.old[n][0]) is None:
                for lit in (f.old[n][0], not_(f.old[n][0])):
                    for s in f.st.assume(lit):
                        nxt.append(Edge(f.a, f.b, s, f.old, f.new))
            else:
                nxt.append(f)
        out = nxt
        nxt = []
        for f in out:
            y = f.new[n][0]
            if y.op != "bool" and f.st.ask(y) is None:
                for lit in (y, not_(y)):
                    for s in f.st.assume(lit):
                        nxt.append(Edge(f.a, f.b, s, f.old, f.new))
            else:
                nxt.append(f)
        out = nxt
    return out


def counted(lib, eng, ty, x, depth=0):
    """the numbers in a value of a known type"""
    t = lib.types[ty]
    while t["k"] == "ref":
        ty = t["to"]
        t = lib.types[ty]
    k = eng.scalar(ty)
    if k is not None and tyof.get(x) is None and x.op not in ("adt", "tup"):
        typed(x, k)
    got = list(numbers(x))
    if got or t["k"] != "adt" or len(t.get("variants") or []) != 1 or depth > 2:
        return got
    return [((n,) + q, v, w) for n, fd in enumerate(t["variants"][0]["fields"]) for q, v, w in counted(lib, eng, fd["ty"], fld(x, 0, n), depth + 1)]


# ---------------------------------------------------------------- recursion
def components(nodes, succ):
    """strongly connected components with a cycle"""
    import sys
    sys.setrecursionlimit(20000)
    idx, low, st, on, out = {}, {}, [], set(), []

    def visit(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        for w in succ.get(v, ()):
            if w not in idx:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in succ.get(v, ()):
                out.append(comp)
    for v in nodes:
        if v not in idx:
            visit(v)
    return out


def recursion(c, lib, g, insts):
    succ = {}
    byname = {i.name: i for i in insts}
    for i in insts:
        for x in g.calls(i):
            virtual = x.info.get("rkind") == "virtual"
            # a call through a type parameter goes to another, smaller type
            # printing something prints the local values in it
            prints = x.path.split("::")[-1] in ("new_display", "new_debug", "to_string", "join")
            more = x.extra if (virtual or x.target is not None or prints) else [y for y in x.extra if y.j.get("closure")]
            if x.info["k"] == "fndef" and x.target is None and not virtual and x.info.get("rkind") == "unresolved":
                more = []
            for t in ([x.target] if x.target else []) + more:
                if t.name in byname:
                    succ.setdefault(i.name, set()).add(t.name)
    comps = components([i.name for i in insts], succ)
    inside = {n for comp in comps for n in comp}
    for comp in comps:
        names = set(comp)
        traits = {(lib.fns.get(norm(byname[n].path)) or {}).get("name") or byname[n].path.split("::")[-1] for n in comp}
        for n in sorted(comp):
            i = byname[n]
            if i.j.get("closure"):
                continue
            key = "recursion:" + strip_generics(n)
            back = {strip_generics(z) for z in names}
            r = analyse(lib, i, opaque=lambda nm, info=None: strip_generics(nm) in back, tmax=20.0, pure=False)
            if r.err:
                r = analyse(lib, i, opaque=lambda nm, info=None: strip_generics(nm) in back or strip_generics(nm) in lib.fns, tmax=20.0, pure=False)
            c.fn(strip_generics(n))
            f = lib.fns.get(strip_generics(n)) or {}
            w = where(f["span"]) if f.get("span") else ""
            if r.err:
                c.undecided(key, w, r.err)
                continue
            given = [value(r.st0, x, r.eng) for x in r.args]
            calls, verd, why = 0, True, ""
            edges, moved = [], set()
            for st, at, e in calls_in(r):
                if not (e[0] == "opaque" and strip_generics(e[1]) in back or e[0] == "user" and str(e[1]).split("::")[-1] in traits):
                    continue
                calls += 1
                args = [Resolver(at)(value(at, x, r.eng)) if isinstance(x, T) else x for x in e[2]]
                if any(descends(x, y) for x in args for y in given):
                    continue
                mine = e[0] == "opaque" and (e[1] == n or strip_generics(e[1]) == strip_generics(n))
                eqs = mine and len(args) == len(given) and all(a is b or same(at, a, b) is True for a, b in zip(args, given))
                if eqs and st is at and consistent(st, lib) is True:
                    verd, why = False, "%s calls itself with the arguments it was given" % i.path
                    break
                if mine and len(comp) == 1 and len(args) == len(given):
                    old, new = {}, {}
                    for k, (x, y) in enumerate(zip(given, args)):
                        if not (x is y or same(at, x, y) is True):
                            moved.add(k)
                        old.update({(k,) + q: (v, t) for q, v, t in counted(lib, r.eng, i.locals[k + 1]["ty"], x)})
                        new.update({(k,) + q: (v, t) for q, v, t in counted(lib, r.eng, i.locals[k + 1]["ty"], y)})
                    edges.append(Edge(0, 0, at, old, new))
                    continue
                verd, why = None, "a call of %s is not shown to descend" % e[1]
            for st, v in r.res:
                for y in [z for t in list(st.mem.values()) + [v] for z in walk(t)]:
                    if y.op not in ("disp", "dbg") or not f.get("impl_trait"):
                        continue
                    a = next(z for z in y.a if isinstance(z, T))
                    calls += 1
                    if any(descends(a, z) for z in given):
                        continue
                    if given and (a is given[0] or same(st, a, given[0]) is True) and f["name"] == "fmt" and surely(st, lib) is True:
                        verd, why = False, "%s prints what it was given by printing it" % i.path
                    elif verd is not False and tyof.get(a) not in ("str",):
                        verd, why = None, "printing %s is not shown to end" % show(a)[:60]
            if verd is True and edges:
                changed = {l for k in moved for l in leaves(given[k])}
                ok, how = ranked(edges, lambda t: any(l in changed for l in leaves(t)))
                if not ok:
                    verd, why = None, "a call of itself is not shown to move towards an end"
            if verd is True and not calls:
                verd, why = None, "the calls that come back are not understood"
                if not r.res and not r.eng.recs:
                    # never returns
                    verd, why = False, "%s has no way to return without calling itself" % i.path
            c.judge3(key, verd, w, why or "%d calls back, each for a part of what was given" % calls)
    for i in insts:
        if i.name not in inside:
            c.ok("acyclic:" + strip_generics(i.name), "", "no call comes back")


def calls_in(r):
    seen = set()

    def of(st, top):
        for e in st.events():
            yield (top, st, e)
            if e[0] == "loop" and id(e[1]) not in seen:
                seen.add(id(e[1]))
                for b in e[1].backs:
                    yield from of(b[2], top)
    for st, v in r.res:
        yield from of(st, st)
    for rec in r.eng.recs:
        if id(rec) not in seen:
            seen.add(id(rec))
            for b in rec.backs:
                yield from of(b[2], None)


def descends(x, y):
    """is x a proper part of y?"""
    t = x
    n = 0
    while isinstance(t, T) and t.op in ("fld", "elem", "f2f") and n < 20:
        t = t.a[0]
        n += 1
        if t is y:
            return True
    return False
