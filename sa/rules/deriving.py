"""C23: one derivation step; C26: n derivation steps."""
from itertools import product

from ..loops import Resolver
from ..rel import *
from ..report import Check
from ..terms import *
from .matching import HEAD, PROD, asked, free, never, under

BODY = PROD + "body"


def parts(name, info=None):
    """whether a rule applies and which body it uses stay questions"""
    return asked(name) or name == BODY


class Step:
    """what one step makes of each position"""

    def __init__(self, lib, string, ps):
        self.lib, self.string, self.ps = lib, string, ps
        self.S = getter(lib, "strings::ProductionString::symbols", string)
        self.n = len_(ps)
        self.memo = {}

    def M(self, j, p):
        k = ("M", j, p)
        if k not in self.memo:
            self.memo[k] = self._M(j, p)
        return self.memo[k]

    def _M(self, j, p):
        r = call(self.lib, PROD + "matches", [elem(self.ps, j), self.string, p], opaque=asked)
        if r is None or r.err or len(r.res) != 1 or r.res[0][1].op != "call":
            return None
        return r.res[0][1]

    def body(self, k):
        """(result of choosing the body of rule k, its symbols)"""
        if k not in self.memo:
            self.memo[k] = self._body(k)
        return self.memo[k]

    def _body(self, k):
        r = call(self.lib, BODY, [elem(self.ps, k)], opaque=parts)
        if r is None or r.err or len(r.res) != 1:
            r = None
        # the call itself, as the callers see it
        b = typed(mk("call", BODY, elem(self.ps, k)), None) if r is None or r.res[0][1].op != "call" else r.res[0][1]
        s = getter(self.lib, "productions::ProductionBody::string", fld(b, 0, 0))
        return b, (None if s is None else getter(self.lib, "strings::ProductionString::symbols", s))

    def applied(self, st, p):
        """the positions of rules that are known to apply at p"""
        out = []
        for b, v in st.facts.lits.items():
            if v and b.op == "call":
                for x in walk(b):
                    if x.op == "elem" and x.a[0] is self.ps and self.M(x.a[1], p) is b and x.a[1] not in out:
                        out.append(x.a[1])
        return out

    def expected(self, st, p):
        """states with what is right for position p: (state, rule or None)"""
        j = free("j")
        for k in self.applied(st, p):
            if never(st, self.ps, j, [le(ZERO, j), lt(j, k), self.M(j, p)]):
                return k
        if never(st, self.ps, j, [le(ZERO, j), lt(j, self.n), self.M(j, p)]):
            return False
        return None


def accumulators(step, R):
    """values that grow, on every pass over the string, by what is right for that position"""
    good, why = {}, ""
    for key, (rec, pn) in R.recs.items():
        i = R.info(key, pn)
        if not i or i[3] is None:
            continue
        rec, q, ent, pos, c0, selfs = i
        same_pos = [x for x in q.phis if isint(x) and ent.get(x) is not None and all(v.get(x) is addc(x, 1) for s, v in selfs)]
        for A in q.phis:
            if A in same_pos or A not in ent or not isseqish(ent[A]):
                continue
            if c0 is not ZERO or constlen(R.st, ent[A]) != 0:
                continue
            bad = None
            for s, v in selfs:
                bad = wrong_pass(step, s, v, A, q, [x for x in same_pos if ent[x] is ZERO])
                if bad:
                    break
            if bad:
                why = bad
            else:
                good[A] = pos
    return good, why


def isseqish(t):
    return isseq(t) or t.op == "phi"


def wrong_pass(step, s, v, A, q, positions):
    x = v.get(A)
    if x is None:
        return "the result is not known after a pass"
    for p in positions:
        k = step.expected(s, p)
        if k is None:
            continue
        if k is False:
            y = Resolver(s, set(q.phis))(x)
            for p2 in positions:
                if y is cat(A, mk("lst", elem(step.S, p2))):
                    return None
            return "where no rule applies the symbol is not just kept"
        b, sym = step.body(k)
        if sym is None or s.ask(isv(b, 0)) is not True:
            return "the chosen body is not used"
        y = Resolver(s, set(q.phis) | {l for l in leaves(k) if l.op == "phi"})(x)
        if y is cat(A, sym):
            return None
        return "where a rule applies its body is not just inserted"
    return "a pass for which it is not known which rule is the first to apply"


def spec_step(lib):
    steps = {}

    def spec(r):
        string, ps = r.run.args
        step = steps.get((string, ps))
        if step is None:
            step = steps[string, ps] = Step(lib, string, ps)
        if step.S is None or step.M(ZERO, ZERO) is None:
            return None, "whether a rule applies is not one question"
        v = r.raw
        if v.op != "adt" or v.a[0] != "std::result::Result":
            return None, "neither a string nor an error"
        if r.peeled:
            return small_step(step, r)
        if v.a[1] == 1:
            for j in {x.a[1] for x in walk(v) if x.op == "elem" and x.a[0] is ps}:
                b, _ = step.body(j)
                if r.st.ask(isv(b, 1)) is True:
                    return True
            return None, "an error that is not that of choosing a body"
        out = getter(lib, "strings::ProductionString::symbols", v.a[2], r.st)
        if out is None:
            return None, "not a string"
        if constlen(r.st, step.S) == 0 and constlen(r.st, out) == 0:
            return True
        good, why = accumulators(step, r.R)
        for A, pos in good.items():
            if r.st.ask(eqi(pos, len_(step.S))) is True and (out is A or constlen(r.st, out) == 0 and r.st.ask(eqi(len_(A), ZERO)) is True):
                return True
        return None, why or "not known to be the concatenation of the replacements"
    return spec


def small_step(step, r):
    """a short string and a short list of rules for which the path returns something else"""
    ps, S = step.ps, step.S
    v = r.ret
    for n in range(4):
        for m in range(3):
            for s in under(r.st, [eqi(len_(S), INT(n)), eqi(step.n, INT(m))]):
                w = wrong_result(step, s, v, n, m, 0, [])
                if w:
                    return False, w
    return None, "not known to be the concatenation of the replacements"


def wrong_result(step, s, v, n, m, p, chosen):
    """chosen: for each position before p the symbols it becomes"""
    if consistent(s) is False:
        return None
    if p == n:
        if v.a[1] == 1:
            return "an error although no body failed to be chosen, for a string of %d symbols and %d rules" % (n, m) if consistent(s) is True else None
        out = getter(step.lib, "strings::ProductionString::symbols", v.a[2], s)
        if out is None:
            return None
        unknown = [x for x in dict.fromkeys(chosen) if constlen(s, x) is None]
        for lens in product((1, 0, 2), repeat=len(unknown)):
            for z in under(s, [eqi(len_(x), INT(k)) for x, k in zip(unknown, lens)]):
                want = [elem(x, INT(i)) for x in chosen for i in range(constlen(z, x))]
                got = constlen(z, out)
                if got is None:
                    continue
                if got != len(want):
                    if consistent(z) is True and clean(out):
                        return "%d symbols instead of %d, for a string of %d symbols and %d rules" % (got, len(want), n, m)
                    continue
                g = [eqi(fld(elem(out, INT(i)), 0, 0), fld(w, 0, 0)) for i, w in enumerate(want)]
                if any(not clean(x) for x in g):
                    continue
                for i, x in enumerate(g):
                    if possible(z, [not_(x)]) is True:
                        return "symbol %d of the result is not that of the body or string it should come from, for a string of %d symbols and %d rules" % (i, n, m)
        return None
    for j in range(m + 1):
        goals = [not_(step.M(INT(i), INT(p))) for i in range(j)] + ([step.M(INT(j), INT(p))] if j < m else [])
        for z in under(s, goals):
            if j == m:
                w = wrong_result(step, z, v, n, m, p + 1, chosen + [mk("lst", elem(step.S, INT(p)))])
                if w:
                    return w
                continue
            b, sym = step.body(INT(j))
            if sym is None:
                return None
            for y in z.assume(isv(b, 0)):
                w = wrong_result(step, y, v, n, m, p + 1, chosen + [sym])
                if w:
                    return w
            for y in z.assume(isv(b, 1)):
                if v.a[1] == 0 and consistent(y) is True:
                    return "a result although choosing a body failed, for a string of %d symbols and %d rules" % (n, m)
    return None


def check_C23(lib, bn):
    c = Check("C23", "proof",
              "on every result path of derive_once, for any string and list of rules: the result is empty at first and grows, on the pass for each position, in order, by the symbols of the body of the first rule that applies to the original string there, or by the symbol itself if none does; errors stem from choosing a body",
              ["which rule applies: C24, C25; which body is chosen is not part of this property"])
    p = "system::derive_once"
    if not rootpath(lib, p):
        c.undecided("step", "", "no derive_once")
        return c.finish()
    decide(c, "step", lib, p, spec_step(lib), peel=3, where=loc(lib, p),
           text="the result is the concatenation of what each position becomes", opaque=parts)
    return c.finish()


ONCE = "system::derive_once"


def once(name, info=None):
    return name == ONCE


def field(lib, tyname, fname, x):
    a = lib.adts.get(tyname)
    if a is None:
        return None
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f["n"] == fname:
            return fld(x, 0, i)
    return None


def views(st):
    return [e for e in st.events() if e[0] == "acq"]


def step_of(t):
    """(string before, rules) if t is the successful result of a step"""
    if t.op == "fld" and t.a[1:] == (0, 0) and t.a[0].op == "call" and t.a[0].a[0] == ONCE:
        return t.a[0].a[1], t.a[0].a[2]
    return None


def is_view(ps, run, st):
    """the list of rules given, or the one list seen under the lock"""
    if len(run.args) > 1 and ps is run.args[1]:
        return True
    v = views(st)
    return len(v) == 1 and ps is v[0][2]


def spec_times(lib, count):
    """count(run) -> number of steps"""
    def spec(r):
        string = r.run.args[0] if r.run.inst.nargs and not r.run.inst.name.startswith("system::System::") else r.run.args[1]
        n = count(r.run)
        S = getter(lib, "strings::ProductionString::symbols", string)
        if n is None or S is None:
            return None, "the number of steps or the string is not accessible"
        typed(n, "usize")
        v = r.raw if not r.peeled else r.ret
        if r.raw.op == "call":
            # the result of a step handed on as it is
            c = r.raw
            if c.a[1] is string and is_view(c.a[2], r.run, r.st) and r.st.ask(eqi(n, ONE)) is True:
                return True
            if c.a[0] == ONCE and c.a[1] is string and clean(c.a[1]) and r.peeled:
                return False, "one step whatever the number"
            return None, "a step handed on"
        if v.op != "adt" or v.a[0] != "std::result::Result":
            return None, "neither a string nor an error"
        if r.peeled:
            return small_times(r, v, string, S, n, lib)
        good = iterates(r, string)
        if v.a[1] == 1:
            for x in walk(v):
                if x.op == "call" and x.a[0] == ONCE and r.st.ask(isv(x, 1)) is True and is_view(x.a[2], r.run, r.st):
                    for A, pos in good.items():
                        if x.a[1] is A and r.st.ask(lt(pos, n)) is True:
                            return True
                    if x.a[1] is string and r.st.ask(le(ONE, n)) is True:
                        return True
            return None, "an error that is not that of a step"
        x = v.a[2]
        out = getter(lib, "strings::ProductionString::symbols", x, r.st)
        if constlen(r.st, S) == 0 and out is not None and constlen(r.st, out) == 0:
            return True
        if x is string and r.st.ask(eqi(n, ZERO)) is True:
            return True
        for A, pos in good.items():
            if x is A and r.st.ask(eqi(pos, n)) is True:
                return True
            if out is not None and r.st.ask(eqi(len_(fld(A, 0, 0)), ZERO)) is True and constlen(r.st, out) == 0:
                return True
            if step_of(x) and step_of(x)[0] is A and is_view(step_of(x)[1], r.run, r.st) and r.st.ask(eqi(addc(pos, 1), n)) is True:
                return True
        return None, "not known to be the result of exactly the requested number of steps"
    return spec


def iterates(r, string):
    """values that are, on every pass, the result of a step on the one before: value -> passes"""
    good = {}
    for key, (rec, pn) in r.R.recs.items():
        i = r.R.info(key, pn)
        if not i:
            continue
        rec, q, ent, pos, c0, selfs = i
        if not selfs:
            continue
        counters = [p for p in q.phis if isint(p) and p in ent and all(v.get(p) is addc(p, 1) for s, v in selfs)]
        down = [p for p in q.phis if isint(p) and p in ent and all(v.get(p) is addc(p, -1) for s, v in selfs)]
        for A in q.phis:
            # a whole string, or the one field of it
            if A not in ent:
                continue
            full = A
            if ent[A] is not string:
                continue
            ok = True
            for s, v in selfs:
                x = step_of(v.get(A))
                b = v.get(A)
                if x is None or x[0] is not full or not is_view(x[1], r.run, s) or s.ask(isv(b.a[0], 0)) is not True:
                    ok = False
            if ok:
                for p in counters:
                    good[A] = sub(p, ent[p])
                for p in down:
                    good.setdefault(A, sub(ent[p], p))
    return good


def small_times(r, v, string, S, n, lib):
    for m in range(6):
        for s in under(r.st, [eqi(n, INT(m)), le(ONE, len_(S))]):
            if consistent(s) is not True:
                continue
            if len(views(s)) > 1:
                return False, "the rules are looked at anew in the middle of a derivation of %d steps" % m
            if v.a[1] == 1:
                continue
            x, k, odd = v.a[2], 0, False
            while step_of(x):
                b = step_of(x)
                odd |= not is_view(b[1], r.run, s)
                x, k = b[0], k + 1
            if x is not string or odd:
                continue
            out = getter(lib, "strings::ProductionString::symbols", v.a[2], s)
            if out is not None and s.ask(eqi(len_(out), ZERO)) is True:
                continue
            if k != m:
                return False, "the result of %d steps where %d were requested" % (k, m)
    return None, "not known to be the result of exactly the requested number of steps"


SETTINGS = "system::RunSettings"
TURTLE = "interpretation::abop::AbopTurtleInterpretation"


def check_C26(lib, bn):
    c = Check("C26", "proof",
              "on every result path of derive and System::derive, for any string, rules and number: the loop value is the string at first and on each pass the result of one step on itself under the same rules, the pass count at the exit is the requested number; an error is that of a step; System::derive_once is one step; settings hold the number they were made for, 10 by default",
              ["a step is derive_once (C23)", "locks are not poisoned", "a step on the empty string gives the empty string (C23)"])
    floor = 0
    for p, i in (("system::derive", 2), ("system::System::derive", 2)):
        if not rootpath(lib, p):
            continue
        floor += 1
        decide(c, p, lib, p, spec_times(lib, lambda run, i=i: field(lib, SETTINGS, "max_iterations", run.args[i])), peel=3, where=loc(lib, p),
               text="the result of exactly max_iterations steps, each on the previous one's result, under one view of the rules", opaque=once)
    p = "system::System::derive_once"
    if rootpath(lib, p):
        floor += 1
        decide(c, p, lib, p, spec_one(lib), peel=2, where=loc(lib, p), text="the result of exactly one step", opaque=once)
    c.floor("deriving functions", floor, 2)
    # settings
    for p, want in ((SETTINGS + "::for_max_iterations", lambda r: r.run.args[0]),
                    ("<%s as std::convert::From<usize>>::from" % SETTINGS, lambda r: r.run.args[0]),
                    ("<%s as std::default::Default>::default" % SETTINGS, lambda r: INT(10)),
                    ("<%s as interpretation::Interpretation>::run_settings" % TURTLE, lambda r: field(lib, TURTLE, "n", r.run.args[0])),
                    ("<%s as std::clone::Clone>::clone" % SETTINGS, lambda r: field(lib, SETTINGS, "max_iterations", r.run.args[0]))):
        if not rootpath(lib, p):
            continue

        def spec(r):
            x = field(lib, SETTINGS, "max_iterations", r.ret)
            w = want(r)
            if x is None or w is None:
                return None, "settings have no number of iterations"
            typed(x, "usize")
            typed(w, "usize")
            y = same(r.st, x, w)
            return y, "" if y else "settings for another number of iterations: %s" % show(x)[:80]
        decide(c, p, lib, p, spec, peel=2, where=loc(lib, p), text="settings hold the requested number of iterations")
    return c.finish()


def spec_one(lib):
    def spec(r):
        string = r.run.args[1]
        S = getter(lib, "strings::ProductionString::symbols", string)
        v = r.raw
        if v.op == "call" and v.a[0] == ONCE:
            if v.a[1] is string and is_view(v.a[2], r.run, r.st):
                return True
            return None, "not a step on the string"
        if v.op == "adt" and v.a[1] == 1:
            e = [x for x in walk(v) if x.op == "call" and x.a[0] == ONCE]
            return (True if e and e[0].a[1] is string and r.st.ask(isv(e[0], 1)) is True else None), "an error that is not that of a step"
        if v.op == "adt" and v.a[1] == 0:
            out = getter(lib, "strings::ProductionString::symbols", v.a[2], r.st)
            if constlen(r.st, S) == 0 and out is not None and constlen(r.st, out) == 0:
                return True
            x, k = v.a[2], 0
            while step_of(x):
                x, k = step_of(x)[0], k + 1
            if x is string and k == 1:
                return True
            if x is string and clean(r.ret) and not (out is not None and r.st.ask(eqi(len_(out), ZERO)) is True) and any(consistent(s) is True for s in under(r.st, [le(ONE, len_(S))])):
                return False, "the result of %d steps" % k
        return None, "not known to be the result of one step"
    return spec
