"""C27: what every line of a plant description does."""
import itertools
import os
import time
from .. import rel
from ..sym import analyse
from .. import textwit as tw
from ..models import trimmed
from ..rel import *
from ..report import Check
from ..terms import *
from .deriving import SETTINGS, field

PARSE = "interpretation::abop::parser::parse"
FILE = "interpretation::abop::parser::parse_file"
INTERP = "interpretation::abop::AbopTurtleInterpretation"
RES = "std::result::Result"
COUNT = ("n", "N")
ANGLE = ("d", "D", "delta", "\u2202")

KEYS = ("n", "N", "d", "D", "delta", "\u2202", "x", "", "ns", "Delta", "-n", "n n", "iterations")
VALUES = ("6", "22.5", "", "abc", "-1", "1e1", "3 4", "1=2", "90", "+7", "0", "400", "-400", "1e3", "2.5", "200")
OTHERS = ("initial: X", "  initial:X Forward", "initial:", "initial: Move # first", "initial: a:b", "Forward -> Forward Forward", "X -> Forward",
          "X -> Forward # grows", "X < Forward > X -> X", "# n = 3", "# initial: Y", "", "   ", "#", "A -> initial: B", "A -> b:c", "initials -> X", "X", "->",
          "n 6", "delta 3", "X -> 0.5 Forward", "# a # b", "initial: X#start", "X -> Forward # n = 3", "X -> Move#m", "X -> Forward\tX", "X -> Forward#n=3", "initial: X # a = b", "# n = 3 # 4", "width = 2 # 3", "width = 2", "X -> [ # ]", "\u00e4 -> \u2202", "-> X", "initial -> X")


def corpus():
    out = []
    for k in KEYS:
        for v in VALUES:
            out.append("%s = %s" % (k, v))
    out += ["n=4", " delta=1.5  # turn", "n = 8 # initial: X", "\tn =9", "n = 3#three", "delta = 4#x = 5", "N = 5  # 2", "D = 9 # X -> Forward"]
    return out[:0] + list(OTHERS) + out


def line_spec(s):
    """what a line means: (kind, value)"""
    t = s.split("#")[0].strip(tw.WS)
    if not t:
        return ("nothing", None)
    if t.startswith("initial"):
        if "=" in t:
            return ("unspecified", None)
        if t.startswith("initial:"):
            return ("axiom", t[8:].strip(tw.WS))
        if t[7:].lstrip(tw.WS).startswith(":"):
            return ("unspecified", None)
    if "=" in t:
        if "->" in t:
            return ("unspecified", None)
        k, v = (x.strip(tw.WS) for x in t.split("=", 1))
        if k in COUNT:
            x = tw.number("usize", v.encode())
            return ("error", t) if x is None else ("n", x)
        if k in ANGLE:
            x = tw.number("f32", v.encode())
            return ("error", t) if x is None else ("delta", x)
        return ("error", t)
    return ("add", t)


def whole_spec(lines):
    """(number, angle, axiom, rules) | None if it is an error | "unspecified"; None parts: not said"""
    n = d = ax = None
    adds = []
    ks = [line_spec(s) for s in lines]
    if any(k == "unspecified" for k, v in ks):
        return "unspecified"
    for k, v in ks:
        if k == "error":
            return None
        if k == "n":
            n = v
        elif k == "delta":
            d = v
        elif k == "axiom":
            ax = v
        elif k == "add":
            adds.append(v)
    if ax is None or not adds:
        return None
    return n, d, ax, adds


# ---------------------------------------------------------------- what a path does
def opaques(name, info=None):
    return "add_production" in name or "parse_prod_string" in name or name.endswith("::system")


def isadd(e):
    return e[0] == "opaque" and "add_production" in e[1] and len(e[2]) > 1


def result(v):
    """(interpretation, system, parsed axiom) of a success, None of a failure"""
    if v.op != "adt" or v.a[0] != RES:
        return None
    if v.a[1] == 1:
        return "err"
    t = v.a[2]
    if t.op != "tup" or len(t.a) != 3:
        return None
    return t.a


def axiom_text(x):
    """the text a parsed string is parsed from"""
    if x.op == "fld" and x.a[0].op == "call" and "parse_prod_string" in x.a[0].a[0] and x.a[1:] == (0, 0):
        return x.a[0].a[1]
    return None


def failed(st):
    """did a step fail on this path that makes the whole fail (a rule, the axiom, the system)"""
    for e in st.events():
        if e[0] == "opaque" and opaques(e[1]):
            v = mk("call", e[1], *e[2])
            if st.ask(isv(v, 1)) is not False:
                return True
    return False


# ---------------------------------------------------------------- the loop over the lines
class Lines:
    """the loop over the lines of the text: its record and the sequence of lines"""

    def __init__(self, lib, run):
        self.ok = False
        self.why = "no loop over the lines"
        arg = run.args[0]
        self.arg = arg
        for rec in run.eng.recs:
            for a, b, st, vals in rec.backs:
                s = self.seq(st)
                if s is not None and any(p in leaves(t) for t in self.elems(st, s) for p in a.phis):
                    self.rec, self.S = rec, s
                    self.ok = self.setup(lib, run)
                    return

    def seq(self, st):
        for b in st.facts.all():
            for x in walk(b):
                if x.op == "elem" and x.a[0].op == "lines":
                    t = x.a[0].a[0]
                    if t is self.arg or t.op == "trim" and t.a[1] is self.arg:
                        return x.a[0]
        return None

    def elems(self, st, s):
        out = []
        for b in st.facts.all():
            for x in walk(b):
                if x.op == "elem" and x.a[0] is s and x not in out:
                    out.append(x)
        return out

    def setup(self, lib, run):
        rec = self.rec
        # the position in the sequence of lines
        self.pos = {}
        for q in rec.parts:
            c = [p for p, v in (q.init or {}).items() if v is ZERO] if q.init else list(q.phis)
            c = [p for p in q.phis if any(p in leaves(x.a[1]) for a, b, st, vals in rec.backs if a is q for x in self.elems(st, self.S))]
            if len(c) != 1:
                self.why = "the position in the text is not one variable"
                return False
            self.pos[q] = c[0]
        for a, b, st, vals in rec.backs:
            if st is None or vals is None:
                self.why = "a pass is not understood"
                return False
            v = vals.get(self.pos[b])
            if v is None or st.ask(eqi(v, addc(self.pos[a], 1))) is not True:
                self.why = "a pass does not go on to the next line"
                return False
        self.entries = [q for q in rec.parts if q.init]
        for q in self.entries:
            if q.init.get(self.pos[q]) is not ZERO:
                self.why = "the first line is not the first one"
                return False
        # values of the result, per partition
        self.view = {q: {} for q in rec.parts}
        self.sys = set()
        for st, v in run.res:
            t = result(v)
            if t is None:
                self.why = "a result is not understood"
                return False
            if t == "err":
                continue
            q = self.part(st)
            if q is None:
                self.why = "a success without reading lines"
                return False
            w = (getter(lib, INTERP + "::n", t[0], st), getter(lib, INTERP + "::delta", t[0], st), axiom_text(t[2]))
            if any(x is None for x in w):
                self.why = "the settings of the result are not known"
                return False
            old = self.view[q]
            for k, x in zip(("n", "delta", "axiom"), w):
                if old.setdefault(k, x) is not x:
                    self.why = "several kinds of results"
                    return False
            self.sys.add(t[1])
        if len(self.sys) != 1:
            self.why = "the system of the result is not known"
            return False
        self.sys = self.sys.pop()
        for q in rec.parts:
            for k in ("n", "delta"):
                if k not in self.view[q]:
                    c = {self.named(q, w[k]) for w in self.view.values() if k in w}
                    c.discard(None)
                    if len(c) != 1:
                        self.why = "a setting is not kept in one variable"
                        return False
                    self.view[q][k] = c.pop()
        # partitions that an axiom (a rule) has certainly, certainly not been seen in
        self.seen = {}
        for kind in ("axiom", "add"):
            yes = set(q for q in rec.parts if q not in self.entries)
            no = set(rec.parts)
            self.seen[kind] = (yes, no)
        # settings that are never read before an axiom: the axiom of a partition without one is absent
        return True

    def named(self, q, t):
        """the same variable in another partition"""
        if t.op != "phi":
            return t if not any(l.op == "phi" for l in leaves(t)) else None
        return next((p for p in q.phis if p.a[2:] == t.a[2:]), None)

    def part(self, st):
        w = None
        for e in st.events():
            if e[0] == "loop" and e[1] is self.rec:
                w = next((q for q in self.rec.parts if q.n == e[2]), None)
        return w

    def events(self, st):
        """what happened since the head of the loop"""
        out = []
        for e in st.events():
            if e[0] == "loop" and e[1] is self.rec:
                out = []
            else:
                out.append(e)
        return out

    def line(self, q):
        return elem(self.S, self.pos[q])


def text_cases(st, L):
    """[(state, text of the line without comment)]"""
    out = []
    for s in st.assume(mk("contains", L, STR("#"))):
        out.append((s, trimmed(slice_(L, ZERO, typed(mk("findpos", L, STR("#")), "int")))))
    for s in st.assume(not_(mk("contains", L, STR("#")))):
        out.append((s, trimmed(L)))
    return out


def split_at(T, sep):
    p = typed(mk("findpos", T, STR(sep)), "int")
    return trimmed(slice_(T, ZERO, p)), trimmed(slice_(T, addc(p, 1), len_(T)))


def cases(st, L):
    """[(state, kind, term)] of a line on a path"""
    out = []
    for s0, T in text_cases(st, L):
        empty = eqi(len_(T), ZERO)
        out += [(s, "nothing", None) for s in s0.assume(empty)]
        for s1 in s0.assume(not_(empty)):
            has, ini = mk("contains", T, STR("=")), mk("starts", T, STR("initial:"))
            for s2 in s1.assume(has):
                if s2.ask(ini) is True:
                    continue
                name, v = split_at(T, "=")
                rest = [s2]
                for k in COUNT + ANGLE:
                    ty = "usize" if k in COUNT else "f32"
                    for s in (z for y in rest for z in y.assume(eq(name, STR(k)))):
                        p = mk("parse", ty, v)
                        out += [(z, "error", T) for z in s.assume(isv(p, 1))]
                        out += [(z, "n" if k in COUNT else "delta", fld(p, 0, 0)) for z in s.assume(isv(p, 0))]
                    rest = [z for y in rest for z in y.assume(not_(eq(name, STR(k))))]
                out += [(s, "error", T) for s in rest]
            for s2 in s1.assume(not_(has)):
                for s in s2.assume(ini):
                    out.append((s, "axiom", split_at(T, ":")[1]))
                out += [(s, "add", T) for s in s2.assume(not_(ini))]
    return out


def sameterm(st, a, b):
    return a is b or st.ask(eq(a, b)) is True


def transition(m, a, b, st, vals):
    """is a pass that goes on what the line says? True/None; records whether it sets axiom or adds"""
    L = m.line(a)
    adds = [e for e in m.events(st) if isadd(e)]
    if failed_since(m, st):
        return None, "a pass goes on although a step failed"
    now = {}
    for k in ("n", "delta", "axiom"):
        t = m.view[b].get(k)
        now[k] = None if t is None else subst(t, {p: v for p, v in vals.items()})
    for s, kind, x in cases(st, L):
        if kind == "error":
            return None, "a bad line does not stop the reading"
        for k in ("n", "delta", "axiom"):
            if kind == k:
                if now[k] is None or not sameterm(s, now[k], x):
                    return None, "%s is not set as the line says" % k
            else:
                old = m.view[a].get(k)
                if old is None and now[k] is None:
                    continue
                if old is None or now[k] is None or not sameterm(s, old, now[k]):
                    return None, "%s is changed by another line" % k
        want = [x] if kind == "add" else []
        if len(adds) != len(want):
            return None, "%d rules are added by a line instead of %d" % (len(adds), len(want))
        for e, w in zip(adds, want):
            if e[2][0] is not m.sys and not (e[2][0].op == "mref") or not sameterm(s, trimmed(e[2][1]), w):
                return None, "the rule added is not the line"
    return True, ""


def failed_since(m, st):
    for e in m.events(st):
        if e[0] == "opaque" and opaques(e[1]) and st.ask(isv(mk("call", e[1], *e[2]), 0)) is not True:
            return True
    return False


def kinds_of(m, a, st):
    """kinds of lines a pass is taken for"""
    return {k for s, k, x in cases(st, m.line(a))}


def analyse_passes(lib, run):
    got = run.__dict__.get("_plant")
    if got is not None:
        return got
    m = Lines(lib, run)
    why = m.why
    ok = m.ok
    if ok:
        rec = m.rec
        took = []
        for a, b, st, vals in rec.backs:
            v, t = transition(m, a, b, st, vals)
            if v is not True:
                ok, why = False, t
                break
            took.append((a, b, st, vals, kinds_of(m, a, st)))
        if ok:
            m.took = took
            for kind in ("axiom", "add"):
                # no: only such lines lead out of it
                no = set(rec.parts)
                yes = {q for q in rec.parts if q not in m.entries}
                ch = True
                while ch:
                    ch = False
                    for a, b, st, vals, ks in took:
                        if b in no and (kind in ks or a not in no):
                            no.discard(b)
                            ch = True
                        if b in yes and (ks != {kind} and a not in yes):
                            yes.discard(b)
                            ch = True
                m.seen[kind] = (yes, no)
            # a counter of rules: grows with every rule and only then
            m.counters = []
            names = set.intersection(*[{p.a[2:] for p in q.phis} for q in rec.parts])
            for nm in names:
                ph = {q: next(p for p in q.phis if p.a[2:] == nm) for q in rec.parts}
                if not all(isint(p) for p in ph.values()) or any(q.init.get(ph[q]) is not ZERO for q in m.entries):
                    continue
                good = True
                for a, b, st, vals, ks in took:
                    v = vals.get(ph[b])
                    if v is None:
                        good = False
                    elif ks == {"add"}:
                        good = good and st.ask(eqi(v, addc(ph[a], 1))) is True
                    elif "add" not in ks:
                        good = good and st.ask(eqi(v, ph[a])) is True
                    else:
                        good = False
                if good:
                    m.counters.append(ph)
    run.__dict__["_plant"] = (m, ok, why)
    return m, ok, why


def known_seen(m, st, q, kind):
    """has there been such a line when the loop is left here? True/False/None"""
    yes, no = m.seen[kind]
    if q in yes:
        return True
    if q in no:
        return False
    if kind == "add":
        for ph in m.counters:
            if st.ask(le(INT(1), ph[q])) is True:
                return True
            if st.ask(le(ph[q], ZERO)) is True:
                return False
    return None


def spec_loop(lib):
    def spec(r):
        m, ok, why = analyse_passes(lib, r.run)
        if not ok:
            return None, why
        st, t = r.st, result(r.raw)
        q = m.part(st)
        fail = failed(st)
        if q is None:
            if t == "err":
                if fail or st.ask(eqi(len_(trimmed(m.arg)), ZERO)) is True or st.ask(eqi(len_(m.S), ZERO)) is True:
                    return True
                return None, "rejected before a line is read"
            return None, "accepted without reading the lines"
        if st.ask(le(len_(m.S), m.pos[q])) is True:
            ax, ad = known_seen(m, st, q, "axiom"), known_seen(m, st, q, "add")
            if t == "err":
                if fail or ax is False or ad is False:
                    return True
                return None, "rejected at the end for another reason"
            if ax is True and ad is True and not fail and (t[1] is m.sys):
                return True
            return None, "accepted although the axiom or a rule may be missing"
        if t != "err":
            return None, "accepted before all lines are read"
        if failed_since(m, st):
            return True
        if all(k == "error" for s, k, x in cases(st, m.line(q))):
            return True
        return None, "rejected at a line that is right"
    return spec


# ---------------------------------------------------------------- refutation
def mentioned(b, x):
    return any(y is x for y in walk(b))


def holds(b, env):
    """True/False/None"""
    try:
        v = tw.ev(b, env)
    except (tw.Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
        return None
    return v if isinstance(v, bool) else None


def free(b):
    """is the literal only about whether a step succeeded"""
    if b.op in ("indom", "notindom", "isv"):
        return b.a[0].op == "call"
    if b.op == "not":
        return free(b.a[0])
    return False


def differs(lib, r, lines):
    """how the outcome of a path for a given text differs from what the lines say: text or None"""
    st, t = r.st, result(r.ret)
    if t is None:
        return None
    want = whole_spec(lines)
    if want == "unspecified":
        return None
    show = repr("\n".join(lines))
    if t == "err":
        if want is not None and not failed(st):
            return "the description %s is rejected" % show
        return None
    if want is None:
        return "the description %s is accepted" % show
    if any(e[0] == "opaque" and opaques(e[1]) and st.ask(isv(mk("call", e[1], *e[2]), 1)) is True for e in st.events()):
        return "a description is accepted although one of its parts was rejected"
    env = {r.run.args[0]: "\n".join(lines).encode()}

    def val(x):
        try:
            return tw.ev(x, env)
        except (tw.Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
            return None
    n, d, ax, adds = want
    for k, w, g in (("n", n, getter(lib, INTERP + "::n", t[0], st)), ("delta", d, getter(lib, INTERP + "::delta", t[0], st))):
        if w is not None and g is not None:
            g = val(g)
            if g is not None and g != w and not (g != g and w != w):
                return "%s is %s for the description %s" % (k, g, show)
    a = axiom_text(t[2])
    a = val(a) if a is not None else None
    if isinstance(a, bytes) and a.decode().split() != ax.split():
        return "the axiom is %r for the description %s" % (a.decode(), show)
    got = [val(e[2][1]) for e in st.events() if isadd(e)]
    if all(isinstance(x, bytes) for x in got):
        if [x.decode().split() for x in got] != [x.split() for x in adds]:
            return "the rules added are %s for the description %s" % ([x.decode() for x in got], show)
    return None


ALL = corpus()


def spec_peeled(lib):
    def spec(r):
        st, arg = r.st, r.run.args[0]
        if result(r.ret) is None:
            return None, ""
        ls = [b for b in st.facts.all() if not free(b)]
        if any(l.op == "phi" for b in ls for l in leaves(b)):
            return None, ""
        seqs = {x.a[0] for b in ls for x in walk(b) if x.op == "elem" and x.a[0].op == "lines"} | {x for b in ls for x in walk(b) if x.op == "lines"}
        if len(seqs) > 1:
            return None, "the lines are taken from several texts"
        S = next(iter(seqs), None)
        k = 0
        if S is not None:
            k = next((i for i in range(4) if st.ask(eqi(len_(S), INT(i))) is True), None)
        ns = [k] if k is not None else [1, 2, 3]
        memo = r.run.__dict__.setdefault("_cand", {})
        for n in ns:
            cands = []
            for i in range(n):
                L = elem(S, INT(i))
                mine = [b for b in ls if mentioned(b, L) and not any(mentioned(b, elem(S, INT(j))) for j in range(n) if j != i)]
                c = []
                for s in ALL:
                    good = True
                    for b in mine:
                        h = memo.get((b, s))
                        if h is None:
                            h = memo[b, s] = (holds(b, {L: s.encode()}),)
                        if h[0] is not True:
                            good = False
                            break
                    if good:
                        c.append(s)
                # one line of each meaning
                keep = {}
                for s in c:
                    kd, v = line_spec(s)
                    keep.setdefault((kd, str(v), "#" in s, "=" in s, "\t" in s), s)
                cands.append(list(keep.values())[:12])
            for combo in itertools.product(*cands):
                text = "\n".join(combo)
                env = {arg: text.encode()}
                d = differs(lib, r, list(combo))
                if d is None:
                    continue
                if all(holds(b, env) is True for b in ls):
                    return False, d
        return None, ""
    return spec


SHAPES = [((), 1), ("?", 2), ("a?", 3), ("?r", 3), ("ar?", 4), ("a?r", 4), ("?ar", 4), ("ra?", 4), ("ar??", 5), ("?a?r", 5)]


def shaped(shape):
    """assumption: the text has these lines: an axiom, a rule, or any line"""
    def assume(eng, inst, vals):
        out = []
        for S in (mk("lines", trimmed(vals[0])),):
            out.append(eqi(len_(S), INT(len(shape))))
            for i, k in enumerate(shape):
                L = elem(S, INT(i))
                T = trimmed(L)
                if k in "ar":
                    out += [not_(mk("contains", L, STR("#"))), not_(mk("contains", T, STR("="))), not_(eqi(len_(T), ZERO))]
                    ini = mk("starts", T, STR("initial:"))
                    out += [ini] if k == "a" else [not_(ini)]
        return out
    return assume


def decide_parse(c, lib):
    """proof of the table of passes, else a short text that is read otherwise"""
    where, text = loc(lib, PARSE), "every line does what it says"
    run = analyse(lib, PARSE, opaque=opaques)
    c.fn(run.inst.name)
    if run.err:
        c.undecided(PARSE, where, run.err)
        return
    why, spec = "", spec_loop(lib)
    bad = None
    for st, v in run.res:
        r = rel._one(spec, run, st, v, False)
        if os.environ.get("VERIF_WHY"):
            print("  ", r)
        if r[0] is not True:
            bad, why = True, r[1]
    if not bad:
        c.ok(PARSE, where, text + " (%d result paths)" % len(run.res))
        return
    end = time.monotonic() + 300
    spec = spec_peeled(lib)
    for shape, n in SHAPES:
        if time.monotonic() > end:
            break
        p = analyse(lib, PARSE, peel=n, opaque=opaques, assume=shaped(shape), tmax=40.0)
        if os.environ.get("VERIF_WHY"):
            print("   shape", shape, len(p.res), p.err)
        for st, v in p.res:
            r = rel._one(spec, p, st, v, True)
            if r[0] is False:
                c.bad(PARSE, where, r[1])
                return
    c.undecided(PARSE, where, why or text)


def spec_file(r):
    """reading a file is reading its text"""
    v = r.ret
    if v.op == "adt" and v.a[0] == RES and v.a[1] == 1:
        # rejected: the reading failed
        bad = any(e[0] == "io" and any(r.st.ask(isv(x, 0)) is False for x in calls_of(r.st, e)) for e in r.st.events())
        return True if bad else None, "a file is rejected for another reason"
    if v.op == "call" and v.a[0].endswith("parser::parse") and len(v.a) == 2:
        x = v.a[1]
        if x.op == "fld" and x.a[0].op == "sym" and "io:read" in str(x.a[0].a):
            return True
        base = [y for y in walk(x) if y.op == "fld" and y.a[0].op == "sym" and "io:read" in str(y.a[0].a)]
        if len(set(base)) == 1:
            ls = [b for b in r.st.facts.all() if mentioned(b, base[0])]
            for a, b in itertools.product(ALL, repeat=2):
                text = a + "\n" + b
                env = {base[0]: text.encode()}
                if not all(holds(f, env) is True for f in ls):
                    continue
                try:
                    got = tw.ev(x, env).decode()
                except (tw.Unknown, UnicodeDecodeError, AttributeError, IndexError, TypeError, ValueError):
                    continue
                w = [line_spec(y) for y in (a, b)]
                g = [line_spec(y) for y in got.split("\n")]
                if [y for y in w if y[0] != "nothing"] != [y for y in g if y[0] != "nothing"] and ("unspecified", None) not in w:
                    return False, "the file %r is read as %r" % (text, got)
        return None, "the text parsed is not the content of the file"
    return None, "the result is not that of parsing"


def calls_of(st, e):
    """the results of input operations that are known on a path"""
    return {y for b in st.facts.all() for y in walk(b) if y.op == "sym" and any("io:" in str(z) for z in y.a)}


def spec_settings(lib):
    def spec(r):
        n, x = getter(lib, INTERP + "::n", r.run.args[0], r.st), field(lib, SETTINGS, "max_iterations", r.ret)
        if n is None or x is None:
            return None, "the settings are not known"
        return same(r.st, x, n), "the number of iterations is %s" % show(x)
    return spec


def spec_wrapped(r):
    if r.ret.op == "sym" and any(str(x).startswith("ret:") and str(x).endswith("::run_settings") for x in r.ret.a):
        return True
    return None, "the settings are not those of the wrapped interpretation"


def check_C27(lib, bn):
    c = Check("C27", "proof",
              "Line-dispatch analysis: the reading loop of the plant parser is summarised as a transition table (condition on the line -> settings changed, axiom set, rules added, error); every entry of the table is compared "
              "with the meaning of the line, every success needs an axiom and a rule and all lines read in order, every rejection a bad line, a missing part or a step that failed",
              ["lines with both 'initial' or an arrow and '=' are not specified", "trimming the whole text removes only blank space around lines, which is trimmed anyway",
               "number grammar of std"])
    if rootpath(lib, PARSE):
        decide_parse(c, lib)
    for p, f, kw, text in ((FILE, spec_file, dict(opaque=lambda n, i=None: n == PARSE), "a file means what its text means"),
                           ("<%s as interpretation::Interpretation>::run_settings" % INTERP, spec_settings(lib), {}, "the turtle's settings ask for n iterations"),
                           ("<interpretation::svg::SvgPathInterpretation<T> as interpretation::Interpretation>::run_settings", spec_wrapped, {},
                            "a drawing asks for the iterations of the interpretation it draws")):
        if rootpath(lib, p):
            decide(c, p, lib, p, f, where=loc(lib, p), text=text, **kw)
    c.floor("parser", int(rootpath(lib, PARSE)), 1)
    return c.finish()
