"""C19: the turtle's commands."""
import itertools
import os
import time
from .. import rel, textwit as tw
from ..rel import *
from ..report import Check
from ..sym import analyse
from ..terms import *
from .geometry import PA, PT, VC, comp, f64, fop
from .printing import symbols

TURTLE = "interpretation::abop::AbopTurtleInterpretation"
RUN = "<%s as interpretation::Interpretation>::interpret" % TURTLE
COMMANDS = ("Forward", "Move", "+", "-", "[", "]")
RES = "std::result::Result"


def flt(x):
    return mk("float", x)


def text(t):
    """the constant text of a term"""
    return t.a[0] if t.op == "str" else None


def lookups(st):
    """name -> results of asking the caller's symbols for it"""
    out = {}
    seen = set()
    for b in st.facts.all():
        for x in walk(b, seen):
            if x.op == "sym" and any(str(y).endswith("::get_symbol") for y in x.a):
                for y in x.a:
                    if hasattr(y, "op") and y.op == "args":
                        for z in y.a:
                            if text(z) is not None:
                                out.setdefault(text(z), [])
                                if x not in out[text(z)]:
                                    out[text(z)].append(x)
    return out


class Setting:
    """the terms of one path: codes of the commands, the turn"""

    def __init__(self, lib, st, slf):
        self.lib = lib
        self.look = lookups(st)
        self.code = {}
        for n in COMMANDS:
            xs = self.look.get(n)
            s = fld(xs[0], 1, 0) if xs else mk("sym", "lookup", n, "arg")
            self.code[n] = self.codeof(s)
        d = getter(lib, TURTLE + "::delta", slf, st)
        self.turn = None if d is None else f64(mk("f2f", "f64", d))

    def codeof(self, s):
        return typed(fld(s, 0, 0), "int")

    def known(self, st):
        """facts: all commands are known and distinct"""
        out = [not_(eqi(self.code[a], self.code[b])) for a, b in itertools.combinations(COMMANDS, 2)]
        return out

    def cases(self, st, sym):
        """[(state, command or None)] of a symbol"""
        c = self.codeof(sym)
        out = []
        for n in COMMANDS:
            ss = st.assume(eqi(c, self.code[n]))
            for m in COMMANDS:
                if m != n:
                    ss = [z for y in ss for z in y.assume(not_(eqi(c, self.code[m])))]
            out += [(s, n) for s in ss]
        ss = [st]
        for n in COMMANDS:
            ss = [z for y in ss for z in y.assume(not_(eqi(c, self.code[n])))]
        return out + [(s, None) for s in ss]


class Turtle:
    """what the vocabulary says: position, heading, remembered ones, current line, lines"""

    def __init__(self, pos, head, stack, line, lines):
        self.pos, self.head, self.stack, self.line, self.lines = pos, head, stack, line, lines

    def step(self, lib, st, cmd, turn):
        """[(state, turtle)], None in place of the turtle where nothing is said"""
        P = lambda x, y: mk("adt", PT, 0, x, y)
        if cmd is None:
            return [(st, self)]
        p, h = self.pos, self.head
        if cmd in ("Forward", "Move"):
            q = P(*(fop("Add", comp(lib, p, PT, n), comp(lib, h, VC, n)) for n in (0, 1)))
            if cmd == "Forward":
                return [(st, Turtle(q, h, self.stack, cat(self.line, mk("lst", q)), self.lines))]
            return [(s, Turtle(q, h, self.stack, mk("lst", q), ls)) for s, ls in self.finish(st)]
        if cmd == "[":
            return [(st, Turtle(p, h, cat(self.stack, mk("lst", mk("tup", p, h))), self.line, self.lines))]
        if cmd == "]":
            out = [(s, None) for s in st.assume(eqi(len_(self.stack), ZERO))]
            for s in st.assume(le(INT(1), len_(self.stack))):
                t = elem(self.stack, addc(len_(self.stack), -1))
                q, g = fld(t, 0, 0), fld(t, 0, 1)
                rest = slice_(self.stack, ZERO, addc(len_(self.stack), -1))
                out += [(z, Turtle(q, g, rest, mk("lst", q), ls)) for z, ls in self.finish(s)]
            return out
        a = fop("to_radians", turn)
        if cmd == "-":
            a = fop("to_radians", fop("Neg", turn))
        x, y = (comp(lib, h, VC, n) for n in (0, 1))
        c, s = fop("cos", a), fop("sin", a)
        g = mk("adt", VC, 0, fop("Sub", fop("Mul", c, x), fop("Mul", s, y)), fop("Add", fop("Mul", s, x), fop("Mul", c, y)))
        return [(st, Turtle(p, g, self.stack, self.line, self.lines))]

    def finish(self, st):
        """[(state, lines)] when the current line ends"""
        two = le(INT(2), len_(self.line))
        return [(s, cat(self.lines, mk("lst", mk("adt", PA, 0, self.line)))) for s in st.assume(two)] + [(s, self.lines) for s in st.assume(not_(two))]


def samepoint(lib, st, a, b, adt):
    return conj(same(st, comp(lib, a, adt, n), comp(lib, b, adt, n)) for n in (0, 1))


# ---------------------------------------------------------------- proof
def roles(rec):
    """assignments of loop variables to the turtle's parts, per partition"""
    if len(rec.parts) != 1:
        return []
    q = rec.parts[0]
    ph = list(q.phis)

    def init(p):
        return (q.init or {}).get(p)
    zero = [p for p in ph if init(p) is not None and init(p).op == "adt" and init(p).a[0] == PT]
    heads = [p for p in ph if init(p) is not None and init(p).op == "adt" and init(p).a[0] == VC]
    empty = [p for p in ph if init(p) is EMPTY]
    one = [p for p in ph if init(p) is not None and init(p).op == "lst" and len(init(p).a) == 1]
    out = []
    for p, h, s, ls, l in itertools.product(zero, heads, empty, empty, one):
        if s is not ls:
            out.append((q, p, h, s, l, ls))
    return out


def position(run, rec, seq):
    """the loop variable that walks over the string"""
    q = rec.parts[0]
    for p, v in (q.init or {}).items():
        if p in q.phis and isint(p) and v is ZERO and all(vals is not None and st.ask(eqi(vals.get(p, p), addc(p, 1))) is True for a, b, st, vals in rec.backs):
            return p
    return None


def proof(lib, run):
    """(True/None, why, assignment): every pass does what the symbol says"""
    got = run.__dict__.get("_turtle")
    if got is None:
        got = run.__dict__["_turtle"] = _proof(lib, run)
    return got


def _proof(lib, run):
    seq = symbols(lib, run.args[2])
    if seq is None:
        return None, "the symbols of the string are not known", None
    why = "no loop over the string"
    for rec in run.eng.recs:
        for r in roles(rec):
            p = position(run, rec, seq)
            if p is None:
                continue
            ok, w = passes(lib, run, rec, r, p, seq)
            if ok:
                return True, "", (rec, r, p, seq)
            why = w
    return None, why, None


def passes(lib, run, rec, r, at, seq):
    q, p, h, s, l, ls = r
    st0 = rec.s0
    # the beginning: at the origin, heading up, nothing remembered, one line of one point
    i = q.init
    z = comp(lib, i[p], PT, 0), comp(lib, i[p], PT, 1)
    if any(same(st0, x, flt(0.0)) is not True for x in z):
        return False, "the turtle does not start at the origin"
    hx, hy = comp(lib, i[h], VC, 0), comp(lib, i[h], VC, 1)
    if same(st0, hx, flt(0.0)) is not True or hy.op != "float" or not hy.a[0] > 0:
        return False, "the turtle does not start heading up"
    if samepoint(lib, st0, elem(i[l], ZERO), i[p], PT) is not True:
        return False, "the first line does not start at the turtle"
    for a, b, st, vals in rec.backs:
        if vals is None:
            return False, "a pass is not understood"
        g = Setting(lib, st, run.args[0])
        if g.turn is None:
            return False, "the angle is not known"
        sts = [st]
        for f in g.known(st):
            sts = [y for x in sts for y in x.assume(f)]
        now = {x: vals.get(x, x) for x in (p, h, s, l, ls)}
        for s1 in sts:
            for s2, cmd in g.cases(s1, elem(seq, at)):
                for s3, t in Turtle(p, h, s, l, ls).step(lib, s2, cmd, g.turn):
                    if t is None:
                        continue
                    v = [samepoint(lib, s3, now[p], t.pos, PT), samepoint(lib, s3, now[h], t.head, VC), same(s3, now[s], t.stack),
                         same(s3, now[l], t.line), same(s3, now[ls], t.lines)]
                    if conj(v) is not True:
                        names = ("position", "heading", "remembered positions", "current line", "lines")
                        return False, "%s: the %s" % (cmd or "another symbol", names[next(k for k, x in enumerate(v) if x is not True)])
    return True, ""


def unknown_symbol(st, only=None):
    """was a symbol not found on this path?"""
    for n, xs in lookups(st).items():
        if (only is None or n in only) and any(st.ask(isv(x, 0)) is True for x in xs):
            return True
    return False


def spec(lib):
    def one(r):
        ok, why, m = proof(lib, r.run)
        if ok is not True:
            return None, why
        st, v = r.st, r.raw
        if v.op != "adt" or v.a[0] != RES:
            return None, "the result is not known"
        rec, (q, p, h, s, l, ls), at, seq = m
        inside = any(e[0] == "loop" and e[1] is rec for e in st.events())
        if v.a[1] == 1:
            if not inside:
                return (True, "") if unknown_symbol(st) else (None, "fails before the first symbol")
            if st.ask(lt(at, len_(seq))) is True:
                g = Setting(lib, st, r.run.args[0])
                if st.ask(eqi(g.codeof(elem(seq, at)), g.code["]"])) is True and st.ask(eqi(len_(s), ZERO)) is True:
                    return True
            return (True, "") if unknown_symbol(st) else (None, "fails at a symbol")
        if not inside or st.ask(le(len_(seq), at)) is not True:
            return None, "ends before the end of the string"
        got = v.a[2]
        for s2, want in Turtle(p, h, s, l, ls).finish(st):
            if same(s2, got, want) is True:
                continue
            alt = cat(ls, mk("lst", mk("adt", PA, 0, l)))
            if s2.ask(le(len_(l), INT(1))) is True and same(s2, got, alt) is True:
                continue
            return None, "the last line is not kept"
        return True, ""
    return one


# ---------------------------------------------------------------- refutation on short strings
def spec_short(lib, start):
    def one(r):
        st, v = r.st, r.ret
        if v.op != "adt" or v.a[0] != RES:
            return None, ""
        seq = symbols(lib, r.run.args[2])
        n = None if seq is None else constlen(st, seq, 4)
        if n is None:
            if v.a[1] == 1 and not unknown_symbol(st):
                # fails for every string that is long enough
                for k in (1, 2, 3, 4):
                    for z in st.assume(eqi(len_(seq), INT(k))):
                        x = simulate(r, z, v, seq, k)
                        if x[0] is False:
                            return x
            return None, ""
        return simulate(r, st, v, seq, n)

    def simulate(r, st, v, seq, n):
        g = Setting(lib, st, r.run.args[0])
        if g.turn is None:
            return None, ""
        ss = [st]
        for f in g.known(st):
            ss = [y for x in ss for y in x.assume(f)]
        zero = mk("adt", PT, 0, flt(0.0), flt(0.0))
        todo = [(s, Turtle(zero, mk("adt", VC, 0, flt(0.0), flt(start)), EMPTY, mk("lst", zero), EMPTY), ()) for s in ss]
        for i in range(n):
            new = []
            for s, t, w in todo:
                for s2, cmd in g.cases(s, elem(seq, INT(i))):
                    for s3, u in t.step(lib, s2, cmd, g.turn):
                        if u is not None:
                            new.append((s3, u, w + (cmd or "other",)))
            todo = new
            if len(todo) > 60:
                return None, ""
        und = False
        for s, t, w in todo:
            for s2, lines in t.finish(s):
                if v.a[1] == 1:
                    if unknown_symbol(s2) or not feasible(s2):
                        und = True
                        continue
                    return False, "the string %s cannot be drawn" % " ".join(w)
                x = differs(s2, v.a[2], lines)
                if x is True:
                    return False, "the string %s is drawn as %s instead of %s" % (" ".join(w), show(v.a[2])[:200], show(lines)[:200])
                if x is None:
                    und = True
        return (None if und else True), ""

    def feasible(st):
        """are all conditions about the symbols, their codes, the lookups?"""
        for b in st.facts.all():
            for l in leaves(b):
                if l.op == "phi":
                    return False
                if l.op == "sym" and not ("arg" in l.a):
                    return False
            if any(x.op in ("call", "fop", "fcmp", "cast", "pure", "has") for x in walk(b)):
                return False
        return True

    def differs(st, got, want):
        if not feasible(st):
            return None
        k, m = constlen(st, got, 8), constlen(st, want, 8)
        if k is None or m is None:
            return None
        a = []
        for i in range(k):
            x = elem(got, INT(i))
            y = points(x)
            c = None if y is None else constlen(st, y, 9)
            if c is None:
                return None
            if c >= 2:
                a.append((y, c))
        b = [(y, constlen(st, y, 9)) for y in (points(elem(want, INT(i))) for i in range(m))]
        if any(c is None for y, c in b):
            return None
        if [c for y, c in a] != [c for y, c in b]:
            return True
        und = False
        for (x, c), (y, c) in zip(a, b):
            for i in range(c):
                z = samepoint(lib, st, elem(x, INT(i)), elem(y, INT(i)), PT)
                if z is False:
                    return True
                und = und or z is None
        return None if und else False

    def points(x):
        if x.op == "adt" and x.a[0] == PA:
            return x.a[2]
        return None
    return one


def step_of(lib):
    """the length of a step: that of the first heading"""
    run = analyse(lib, RUN)
    for rec in run.eng.recs:
        for q in rec.parts:
            for x in (q.init or {}).values():
                if x.op == "adt" and x.a[0] == VC and comp(lib, x, VC, 1).op == "float":
                    return comp(lib, x, VC, 1).a[0]
    return 5.0


SHAPES = ("?", "F?", "??", "?F?", "[?]F", "[F?]F", "F?F?F", "F[?]F", "FM[F?]", "[?F]F", "[[?]?]F", "FF?+F", "+F?F", "[M?]F", "F[F?F]F", "[[F]F]?F")
LETTER = {"F": "Forward", "M": "Move", "+": "+", "-": "-", "[": "[", "]": "]"}


def shaped(lib, g, shape):
    """assumption: the string consists of these commands, or any symbol"""
    def assume(eng, inst, vals):
        seq = symbols(lib, vals[2])
        out = [eqi(len_(seq), INT(len(shape)))] + g.known(None)
        for i, x in enumerate(shape):
            if x != "?":
                out.append(eqi(g.codeof(elem(seq, INT(i))), g.code[LETTER[x]]))
        return out
    return assume


def reach_case(st, r, at, seq, g):
    """are the conditions of a pass met by some string? They may speak of the numbers of remembered
    positions, points and lines and of the symbol itself only"""
    q, p, h, s, l, ls = r
    a, b, c = len_(s), len_(l), len_(ls)
    lits, consts = [], {0, 1, 2, 3}
    for f in st.facts.all():
        ok = all(x in (s, l, ls, at) or x.op != "phi" for x in leaves(f))
        if any(x.op in ("fop", "fcmp", "fclass", "fnan") for x in walk(f)) or not ok:
            return None
        if f.op in ("le0", "eq0") or f.op == "not" and f.a[0].op in ("le0", "eq0"):
            k, d = lin_of(f.a[0] if f.op != "not" else f.a[0].a[0])
            if set(d) <= {a, b, c, at, len_(seq)}:
                lits.append(f)
                if len(d) == 1:
                    consts |= {abs(k) + e for e in (-1, 0, 1)}
    cs = sorted(x for x in consts if 0 <= x < 1 << 31)
    out = []
    for x, y, z in itertools.product(cs, [v for v in cs if v], cs):
        n = x + (y - 1) + 2 * z
        for m in (n, n + 1, n + 7):
            env = {a: x, b: y, c: z, at: m, len_(seq): m + 1}
            try:
                if all(tw.ev(f, env) is True for f in lits):
                    out.append((x, y, z, m))
                    break
            except tw.Unknown:
                return None
    # the smallest and the ones with most lines
    return list(dict.fromkeys(out[:3] + sorted(out, key=lambda v: (-min(v[2], 2), -min(v[0], 2), -min(v[1], 3), v))[:3])) or None


def free_of(st, st0):
    z = st.copy()
    z.facts = st0.facts.copy()
    return z


def instance(n, r, at, real):
    """values of the turtle's parts with given numbers of remembered positions, points and lines"""
    q, p, h, s, l, ls = r

    def pt(k, i, adt=PT):
        return mk("adt", adt, 0, f64(mk("sym", k, i, "x", "arg")), f64(mk("sym", k, i, "y", "arg")))
    m = dict(real)
    m[s] = mk("lst", *(mk("tup", pt("at", i), pt("to", i, VC)) for i in range(n[0])))
    m[l] = mk("lst", *([pt("on", i) for i in range(n[1] - 1)] + [real[p]]))
    m[ls] = mk("lst", *(mk("adt", PA, 0, mk("lst", pt("a", i), pt("b", i))) for i in range(n[2])))
    m[at] = INT(n[3])
    return m


def wrong_pass(lib, run):
    """a pass that does something else than the symbol says, in a situation that strings lead to, while
    the command is right in other situations: text or None"""
    seq = symbols(lib, run.args[2])
    if seq is None:
        return None
    st0 = run.st0
    for rec in run.eng.recs:
        for r in roles(rec):
            at = position(run, rec, seq)
            if at is None:
                continue
            q, p, h, s, l, ls = r
            hy = comp(lib, q.init[h], VC, 1)
            if hy.op != "float":
                continue
            good, bad, unknown = set(), [], False
            for a, b, st, vals in rec.backs:
                if vals is None:
                    unknown = True
                    break
                g = Setting(lib, st, run.args[0])
                if g.turn is None:
                    unknown = True
                    break
                # a heading the turtle has after a turn, a position it can have
                t = fop("to_radians", g.turn)
                some = mk("adt", VC, 0, fop("Mul", fop("Neg", fop("sin", t)), hy), fop("Mul", fop("cos", t), hy))
                real = {h: some, p: mk("adt", PT, 0, comp(lib, some, VC, 0), fop("Add", comp(lib, some, VC, 1), hy))}
                now = {x: vals.get(x, x) for x in (p, h, s, l, ls)}
                sts = [st]
                for f in g.known(st):
                    sts = [y for x in sts for y in x.assume(f)]
                for s1 in sts:
                    for s2, cmd in g.cases(s1, elem(seq, at)):
                        for s3, w in Turtle(p, h, s, l, ls).step(lib, s2, cmd, g.turn):
                            if w is None:
                                continue

                            def cmp(z, m):
                                f = (lambda x: subst(x, m)) if m else lambda x: x
                                return [samepoint(lib, z, f(now[p]), f(w.pos), PT), samepoint(lib, z, f(now[h]), f(w.head), VC),
                                        same(z, f(now[s]), f(w.stack)), same(z, f(now[l]), f(w.line)), same(z, f(now[ls]), f(w.lines))]
                            if conj(cmp(s3, None)) is True:
                                good.add(cmd)
                                continue
                            n = reach_case(s3, r, at, seq, g)
                            if n is None:
                                unknown = True
                                continue
                            v = []
                            for k in n:
                                v = cmp(free_of(s3, st0), instance(k, r, at, real))
                                if False in v:
                                    break
                            if False in v:
                                names = ("position", "heading", "remembered positions", "current line", "lines")
                                bad.append((cmd, names[v.index(False)]))
                            else:
                                unknown = True
            if os.environ.get("VERIF_WHY"):
                print("   passes", good, bad, unknown)
            for cmd, what in bad:
                if good >= set(COMMANDS) | {None}:
                    return "%s does not change the %s as it should in some situations" % (cmd or "another symbol", what)
    return None


def decide_turtle(c, lib):
    where, text = loc(lib, RUN), "every symbol does what the vocabulary says"
    run = analyse(lib, RUN)
    c.fn(run.inst.name)
    if run.err:
        c.undecided(RUN, where, run.err)
        return
    why, f = "", spec(lib)
    for st, v in run.res:
        r = rel._one(f, run, st, v, False)
        if os.environ.get("VERIF_WHY"):
            print("  ", r)
        if r[0] is not True:
            why = r[1] or text
    if not why:
        c.ok(RUN, where, text + " (%d result paths)" % len(run.res))
        return
    w = wrong_pass(lib, run)
    if w is not None:
        c.bad(RUN, where, w)
        return
    f = spec_short(lib, step_of(lib))
    g = None
    for st, v in run.res:
        x = Setting(lib, st, run.args[0])
        if all(n in x.look for n in COMMANDS):
            g = x
    end = time.monotonic() + 240
    for shape in SHAPES:
        if time.monotonic() > end:
            break
        n = len(shape) + 1
        if g is None and set(shape) != {"?"}:
            continue
        p = analyse(lib, RUN, peel=n, tmax=40.0, assume=shaped(lib, g, shape) if g is not None else None)
        if os.environ.get("VERIF_WHY"):
            print("   shape", shape, len(p.res), p.err)
        for st, v in p.res:
            r = rel._one(f, p, st, v, True)
            if r[0] is False:
                c.bad(RUN, where, r[1])
                return
    c.undecided(RUN, where, why or text)


def check_C19(lib, bn):
    c = Check("C19", "proof",
              "Transition-table analysis: the loop over the string is summarised as a table (condition on the symbol -> new position, heading, remembered positions, current line, lines), each entry compared, as normal "
              "forms of terms, with what the vocabulary says of the command; the beginning, the end of the string and every failure are compared likewise",
              ["the caller's symbols give each command a code of its own", "floating point operations are compared up to rounding"])
    if not rootpath(lib, RUN):
        c.floor("interpretation", 0, 1)
        return c.finish()
    decide_turtle(c, lib)
    c.floor("interpretation", 1, 1)
    return c.finish()
