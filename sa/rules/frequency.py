"""C32: bodies are chosen with the frequencies their chances state."""
import os
import re
import struct
from itertools import product

from ..facts import norm
from ..fwit import FLOATLIT, ev
from ..graph import Graph
from ..loops import Resolver
from ..rel import call, clean, getter, loc, results
from ..report import Check, where
from ..sym import analyse
from ..terms import *

PROD, PB = "productions::Production", "productions::ProductionBody"
BODY = PROD + "::body"
SEEDED = re.compile(r"(SeedableRng::(seed_from_u64|from_seed)|StepRng::new|mock::)")
EPS = 1e-4


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def given(n, ty=None):
    return typed(mk("sym", n, "arg", 0), ty)


def pushed(lib, prod, body, st):
    """the rule after add_body: [(state, rule)]"""
    path = PROD + "::add_body"
    f = lib.fns.get(path)
    if f is None or f.get("root") not in lib.insts:
        return None
    ref = ("a", "frequency", 0)

    def args(eng, inst, s):
        s.facts = st.facts.copy()
        s.mem.update(st.mem)
        s.mem[ref] = prod
        ty = lib.types[inst.locals[1]["ty"]]["to"]
        eng.rootty[ref] = ty
        eng.hint[(ref, ())] = ty
        return [mk("mref", ref, ()), body]
    r = analyse(lib, path, args=args, tmax=20.0)
    if r.err:
        return None
    return [(s, Resolver(s)(s.mem[ref])) for s, _ in r.res]


def made(lib, kinds, st):
    """a rule with bodies of these kinds (True: with a chance set): (state, rule, strings, chances)"""
    head = given("head")
    strings = [given("body%d" % i) for i in range(len(kinds))]
    chances = [given("chance%d" % i, "f32") if k else None for i, k in enumerate(kinds)]
    for x in chances:
        if x is not None:
            st.know(fcmp("le", mk("float", 0.0), x))
            st.know(fcmp("le", x, mk("float", 1.0)))
    rule = None
    for i, k in enumerate(kinds):
        rs = results(lib, PB + ("::try_with_chance" if k else "::new"), [chances[i], strings[i]] if k else [strings[i]], st)
        if rs is None:
            return None
        rs = [(s, v.a[2] if k else v) for s, v in rs if not k or v.op == "adt" and v.a[1] == 0]
        if len(rs) != 1:
            return None
        st, b = rs[0]
        rs = results(lib, PROD + "::new", [head, b], st) if rule is None else pushed(lib, rule, b, st)
        if rs is None or len(rs) != 1:
            return None
        st, rule = rs[0]
    return st, rule, strings, chances


class Path:
    """a way through the choice: what it needs of the chances and of each number drawn, and what it chooses"""

    def __init__(self, lits, index, ranges):
        self.index = index
        self.plain, self.byvar = [], {}
        self.vague = None
        for b in lits:
            vs = {l for l in leaves(b) if l.op == "sym" and "random" in l.a}
            if not vs:
                self.plain.append(b)
            elif len(vs) == 1:
                self.byvar.setdefault(vs.pop(), []).append(b)
            else:
                self.vague = "a condition on two random numbers"
        self.ranges = ranges

    def probability(self, env):
        """(chance of going this way, None if not known)"""
        for b in self.plain:
            v = ev(b, env, None)
            if v is False:
                return 0.0
            if v is None:
                if relevant(b):
                    return None
        p = 1.0
        for v, bs in self.byvar.items():
            r = measure(v, bs, env)
            if r is None:
                return None
            p *= r
        return p


def relevant(b):
    return any(x.op in FLOATLIT for x in walk(b))


base_facts = {}


def measure(v, bs, env):
    """the part of the numbers drawn for which the conditions hold"""
    base = base_facts.get(v)
    if base is None:
        return None
    kind = base[0]
    if kind == "bool":
        p = ev(base[1], env, None)
        if p is None:
            return None
        r = 0.0
        for val, q in ((True, p), (False, 1 - p)):
            e = dict(env)
            e[v] = val
            vs = [ev(b, e, None) for b in bs]
            if False in vs:
                continue
            if None in vs:
                return None
            r += q
        return r
    lo, hi = ev(base[1], env, None), ev(base[2], env, None)
    if lo is None or hi is None or not lo < hi:
        return None
    cuts = {lo, hi}
    for b in bs:
        for t in walk(b):
            if t.op == "fcmp":
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if any(l is v for l in walk(x)):
                        if any(l is v for l in walk(y)):
                            return None
                        c = ev(y, env, None)
                        if c is None:
                            return None
                        c = solve(x, v, c, env)
                        if c is None:
                            return counted(v, bs, env, lo, hi)
                        cuts.add(min(max(c, lo), hi))
    cs = sorted(cuts)
    r = 0.0
    for a, b in zip(cs, cs[1:]):
        if b - a < 1e-7:
            continue
        e = dict(env)
        e[v] = f32((a + b) / 2)
        vs = [ev(x, e, None) for x in bs]
        if False in vs:
            continue
        if None in vs:
            return None
        r += b - a
    return r / (hi - lo)


def counted(v, bs, env, lo, hi, n=2000):
    """the part of the numbers drawn, by looking at many of them"""
    got = 0
    for i in range(n):
        e = dict(env)
        e[v] = f32(lo + (hi - lo) * (i + 0.5) / n)
        vs = [ev(x, e, None) for x in bs]
        if False in vs:
            continue
        if None in vs:
            return None
        got += 1
    counting.add(v)
    return got / n


counting = set()


def solve(x, v, c, env):
    """the value of v for which x is c, for x a chain of simple operations"""
    while x is not v:
        if x.op == "f2f":
            x = next(y for y in x.a if isinstance(y, T))
            continue
        if x.op != "fop" or len(x.a) < 2:
            return None
        if x.a[0] in ("Neg", "neg"):
            x, c = x.a[1], -c
            continue
        if x.a[0] not in ("Add", "Sub", "Mul", "Div") or len(x.a) != 3:
            return None
        l, r = x.a[1], x.a[2]
        inl = any(y is v for y in walk(l))
        if inl and any(y is v for y in walk(r)):
            return None
        k = ev(r if inl else l, env, None)
        if k is None:
            return None
        o = x.a[0]
        if o == "Add":
            c = c - k
        elif o == "Sub":
            c = c + k if inl else k - c
        elif o == "Mul":
            if k == 0:
                return None
            c = c / k
        elif inl:
            c = c * k
        else:
            if c == 0:
                return None
            c = k / c
        x = l if inl else r
    return c


def vectors(n, extra):
    """chances to be tried for n bodies with a chance set"""
    eighths = [0.0, 0.125, 0.25, 0.5, 0.75, 1.0] + extra if n < 3 else [0.0, 0.125, 0.25, 0.5, 0.625] + extra[:4]
    for xs in product(eighths, repeat=n):
        if sum(xs) <= 1.0:
            yield xs


def shape(c, lib, kinds, where_):
    """one combination of bodies with and without chances"""
    from ..engine import State
    from ..absdom import Facts
    name = "".join("c" if k else "-" for k in kinds)
    key = "frequency:" + name
    m = made(lib, kinds, State({}, Facts(), None))
    if m is None:
        return c.undecided(key, where_, "how a rule with these bodies is made is not understood")
    st, rule, strings, chances = m
    r = call(lib, BODY, [rule], st, peel=len(kinds) + 1, tmax=60.0)
    if r is None or r.err:
        return c.undecided(key, where_, "not analysed: %s" % (r.err if r else "no such function"))
    paths, vague = [], None
    for s, v in r.res:
        v = Resolver(s)(v)
        idx = "error"
        if v.op != "adt" or v.a[1] not in (0, 1):
            vague = "a result that is not understood"
            continue
        if v.a[1] == 0:
            t = getter(lib, PB + "::string", v.a[2], s)
            idx = next((i for i, x in enumerate(strings) if x is t), None)
        if idx is None:
            vague = "which body is chosen is not understood: %s" % show(v)[:120]
            if any(l.op == "phi" for l in leaves(v)) and s.facts.inconsistent():
                vague = None
            continue
        once = set()
        for e in s.events():
            if e[0] == "rng" and len(e) > 3:
                if e[3] in once:
                    vague = "numbers drawn in a loop"
                once.add(e[3])
                base_facts[e[3]] = e[4]
            if e[0] == "loop" and any(x[0] == "rng" for b in e[1].backs for x in b[2].events()):
                vague = "random numbers drawn in a loop"
        paths.append(Path([b for b in s.facts.all() if b.op != "allq"], idx, None))
    if not paths:
        return c.undecided(key, where_, "no result path")
    ks = sorted({f32(t.a[0]) for p in paths for b in p.plain + sum(p.byvar.values(), []) for t in walk(b)
                 if t.op == "float" and 0.0 < t.a[0] < 1.0})
    extra = [k for k in ks if k not in (0.125, 0.25, 0.5, 0.75)][:4]
    extra += [f32(k / 2) for k in extra[:2]]
    tried, unknown = 0, vague or next((p.vague for p in paths if p.vague), None)
    sets = [x for x in chances if x is not None]
    for xs in vectors(len(sets), extra):
        total = sum(xs)
        free_ = len(kinds) - len(sets)
        if not free_ and abs(total - 1.0) > 1e-6:
            continue
        env = dict(zip(sets, xs))
        got = {}
        ok = True
        for p in paths:
            q = p.probability(env)
            if q is None:
                ok = False
                break
            got[p.index] = got.get(p.index, 0.0) + q
        if not ok or abs(sum(got.values()) - 1.0) > (0.01 if counting else EPS):
            unknown = unknown or "how often each body is chosen is not understood"
            if os.environ.get("VERIF_WHY"):
                print("   ", name, xs, ok, got)
            continue
        tried += 1
        it = iter(xs)
        for i, k in enumerate(kinds):
            want = next(it) if k else (1.0 - total) / free_
            if abs(got.get(i, 0.0) - want) > (0.02 if counting else EPS) and not unknown:
                return c.bad(key, where_, "of a rule with the chances %s, body %d is chosen with chance %.4f instead of %.4f"
                             % (described(kinds, xs), i + 1, got.get(i, 0.0), want))
    if unknown or not tried:
        return c.undecided(key, where_, unknown or "nothing tried")
    c.cov["distributions"] = c.cov.get("distributions", 0) + tried
    return c.ok(key, where_, "%d result paths, distribution computed for %d combinations of chances" % (len(paths), tried))


def described(kinds, xs):
    it = iter(xs)
    return " ".join("%g" % next(it) if k else "(none)" for k in kinds)


def check_C32(lib, bn):
    c = Check("C32", "other",
              "abstract interpretation of choosing a body, for rules with one to four bodies built by their constructors: every result path gives conditions on the "
              "numbers drawn and on the chances; the measure of the drawn numbers that lead to each body is computed from the comparison "
              "thresholds and must be the stated chance, or an equal share of the rest; no generator with a fixed seed",
              ["rand's gen_range, gen and gen_bool draw uniformly and independently", "chances up to rounding; rules whose chances leave nothing for bodies without one, or do not sum up to one, say nothing more",
               "rules with more than four bodies behave like those with up to four"])
    if BODY not in lib.fns or lib.fns[BODY].get("root") not in lib.insts:
        c.undecided("fn:" + BODY, "", "not found")
        return c.finish()
    w = loc(lib, BODY)
    c.fn(BODY, PB + "::new", PB + "::try_with_chance", PROD + "::add_body", PROD + "::new")
    top = 4 if os.environ.get("VERIF_TIER") == "thorough" else 3
    for n in range(1, top + 1):
        for kinds in product((True, False), repeat=n):
            if n == 1 and kinds[0]:
                continue
            shape(c, lib, kinds, w)
    if top == 3:
        for kinds in ((True,) * 4, (False,) * 4, (True, False, True, False), (False, True, False, True)):
            shape(c, lib, kinds, w)
    g = Graph(lib)
    seen = g.reach([lib.insts[f["root"]] for p, f in lib.fns.items() if f.get("root") in lib.insts and f["name"] in ("body", "derive", "derive_once")])
    bad = False
    for k in sorted(seen):
        for x in g.calls(g.insts[k]):
            if SEEDED.search(x.path):
                bad = True
                const = all("c" in a for a in x.term["a"])
                sp = x.term.get("sp") or ["", ""]
                text = "a generator with a given seed (%s) in %s, reached by %s" % (x.path, k[1], g.chain(seen, k))
                (c.bad if const else c.undecided)("seed:" + k[1], "%s:%s" % (sp[0], sp[1]), text)
    if not bad:
        c.ok("seed", w, "no generator with a fixed seed in %d functions" % len(seen))
    c.floor("functions that choose", len(seen), 5)
    return c.finish()
