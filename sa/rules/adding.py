"""C12: accepted rules are kept; C13: their symbols are known; C09: what is refused changes nothing."""
from itertools import islice, product

from .. import textwit
from ..loops import Resolver
from ..rel import *
from ..report import Check
from ..terms import *
from .deriving import field
from .matching import free, never, under
from .printing import seqof, symbols

ADD = "::add_production"
SYS_ADD = "<system::System as productions::ProductionStore>::add_production"
SYS_SYM = "<system::System as symbols::SymbolStore>::add_symbol"
SYS_GET = "<system::System as symbols::SymbolStore>::get_symbol"
CELL_ADD = "<std::cell::RefCell<std::vec::Vec<productions::Production>> as productions::ProductionStore>::add_production"
CELL_SYM = "<std::cell::RefCell<std::collections::HashSet<u32>> as symbols::SymbolStore>::add_symbol"
CELL_GET = "<std::cell::RefCell<std::collections::HashSet<u32>> as symbols::SymbolStore>::get_symbol"
PARSE_ADD = "parser::parse_and_add_production"
ITER = "symbols::iterator::SymbolIterable>::all_symbols_iter"
P_ITER = "<productions::Production as " + ITER
MUT = ("push", "setins", "mapins", "maprm", "rearranged", "cellset")


def iters(name, info=None):
    """which symbols an object has stays a question (it is decided separately)"""
    return name.endswith("::all_symbols_iter")


def parsing(name, info=None):
    return iters(name) or name in ("parser::parse_production", "symbols::get_code")


# ---------------------------------------------------------------- parts of a production
class Parts:
    def __init__(self, lib):
        self.lib = lib
        a = lib.adts.get("productions::Production")
        self.h = self.b = None
        for i, f in enumerate(a["variants"][0]["fields"] if a else ()):
            t = lib.types[f["ty"]]
            if t["k"] == "adt" and t["adt"] == "productions::ProductionHead":
                self.h = i
            elif t["k"] == "adt" and t["adt"].endswith("vec::Vec"):
                self.b = i

    def ok(self):
        return self.h is not None and self.b is not None

    def head(self, p):
        return fld(p, 0, self.h)

    def bodies(self, p):
        return typed(fld(p, 0, self.b), "seq")


def payload(st, ret):
    """what the conversion of the argument gave"""
    for e in st.events():
        if e[0] == "user" and e[1].endswith("TryInto::try_into"):
            break
    else:
        return None
    for t in [ret] + list(st.facts.all()):
        for x in walk(t):
            if x.op == "fld" and x.a[1:] == (0, 0) and x.a[0].op == "sym" and any(isinstance(y, str) and "try_into" in y for y in x.a[0].a):
                return x
    return None


def lists(r):
    """the lists seen under a lock: [(guard, before, after)]"""
    out = []
    for e in r.st.events():
        if e[0] == "acq" and (tyof.get(e[2]) == "seq" or isseq(e[2])):
            out.append((e[1], e[2], r.run.eng.get(r.st, e[1].a[1].a[0], ())))
    return out


def gave(v):
    """(value, None) of a success, (None, error) of a failure"""
    if v.op != "adt" or v.a[0] != "std::result::Result":
        return None
    return (v.a[2], None) if v.a[1] == 0 else (None, v.a[2])


# ---------------------------------------------------------------- C12
def spec_stored(lib, merging):
    pp = Parts(lib)

    def spec(r):
        g = gave(r.raw)
        if g is None:
            return None, "neither a production nor an error"
        if g[1] is not None:
            return True
        P = payload(r.st, r.raw)
        ls = lists(r)
        if P is None or not ls:
            return None, "the production given or the list of rules is not known"
        typed(pp.bodies(P), "seq")
        ch = [x for x in ls if x[2] is not x[1]]
        if len(ch) > 1:
            return None, "the list is changed more than once"
        guard, L, F = ch[0] if ch else ls[-1]
        if r.peeled:
            return small_stored(pp, r, g[0], L, r.R(F), P, merging)
        if not ch:
            return None, "the list is not changed"
        st = r.st
        j = free("j")
        same_head = lambda x: eq(pp.head(P), pp.head(x))
        n = len_(L)
        if F.op == "cat" and F.a[0] is L and len_(cat(*F.a[1:])) is ONE:
            y = elem(cat(*F.a[1:]), ZERO)
            if same(st, y, P) is not True:
                return None, "what is appended is not the production given"
            if merging and not never(st, L, j, [le(ZERO, j), lt(j, n), same_head(elem(L, j))]):
                return None, "appended, but not known that no rule has an equal head"
            if is_stored(pp, st, g[0], L, F, n, P):
                return True
            return None, "the production returned is not known to be the stored one"
        if F.op == "upd" and F.a[0] is L:
            k = F.a[1]
            X = Resolver(st, [l for l in leaves(k) if l.op == "phi"])(F.a[2])
            o = elem(L, k)
            if st.ask(same_head(o)) is not True:
                return None, "the rule changed is not known to have an equal head"
            if same(st, pp.head(X), pp.head(o)) is not True:
                return None, "the head of a stored rule is changed"
            if sameseq(st, pp.bodies(X), cat(pp.bodies(o), pp.bodies(P))) is not True:
                return None, "the bodies are not those stored followed by those given"
            if is_stored(pp, st, g[0], L, F, k, P):
                return True
            return None, "the production returned is not known to be the stored one"
        return None, "the list is neither appended to nor changed at one place"
    return spec


def is_stored(pp, st, x, L, F, k, P):
    """the value is the rule at position k of the new list"""
    if x is elem(F, k) or same(st, x, elem(F, k)) is True:
        return True
    if x.op != "elem" or x.a[0] is not F:
        return False
    m = x.a[1]
    for goal in ([lt(m, k)], [lt(k, m), lt(m, len_(F))]):
        for s in under(st, goal):
            s = s.copy()
            s.facts = s.facts.copy()
            for q in (m, k):
                if F.op == "cat":
                    old = s.ask(lt(q, len_(L)))
                    s.facts.add(eq(pp.head(elem(F, q)), pp.head(elem(L, q) if old is True else P))) if old is not None else None
                else:
                    s.facts.add(eq(pp.head(elem(F, q)), pp.head(elem(L, q))))
            for sq, q in ((L, m), (L, k), (F, m), (F, k)):
                t = instantiate(s, sq, q)
                if t is None:
                    break
                s = t
            else:
                if consistent(s) is not False:
                    return False
    return True


def small_stored(pp, r, x, L, F, P, merging):
    """short lists of rules with pairwise different heads for which the path stores something else"""
    for n in range(3):
        for s in under(r.st, [eqi(len_(L), INT(n))]):
            rules = [elem(L, INT(i)) for i in range(n)]
            distinct = [not_(eq(pp.head(a), pp.head(b))) for i, a in enumerate(rules) for b in rules[:i]]
            parts = merging and by_parts(pp, s, [P] + rules)
            if parts is None:
                continue
            for k in range(n + 1) if merging else [n]:
                goals = distinct + [not_(eq(pp.head(P), pp.head(y))) for y in rules[:k]] if merging else []
                if k < n and merging:
                    goals = goals + [eq(pp.head(P), pp.head(rules[k]))]
                if parts:
                    zs = islice(choices(s, [parts(g) for g in goals]), 6)
                else:
                    zs = under(s, goals)
                for z in zs:
                    z = settle(z)
                    if z is None or consistent(z) is not True:
                        continue
                    w = wrong_list(pp, z, x, L, F, P, rules, k, n)
                    if w:
                        return False, w
    return None, "not known to be kept"


def by_parts(pp, st, rules):
    """the path asks about parts of heads: equality is then spelled out part by part"""
    st = settle(st)
    if st is None:
        return None
    hs = {pp.head(x) for x in rules}
    if not any(x.op == "fld" and x.a[0] in hs for f in st.facts.all() for x in walk(f)):
        return False
    a = pp.lib.adts["productions::Production"]["variants"][0]["fields"][pp.h]["ty"]

    def parts(g):
        want = g.op != "not"
        a_, b_ = (g if want else g.a[0]).a[:2]
        return eqcases(pp.lib, a, a_, b_, want) or [[g]]
    return parts


def wrong_list(pp, z, x, L, F, P, rules, k, n):
    case = "for a list of %d rules %s" % (n, "none with an equal head" if k == n else "of which number %d has an equal head" % k)
    F = settled(z, F)
    x = settled(z, x)
    m = constlen(z, F)
    if m is None or not clean(F):
        return None
    want = n + 1 if k == n else n
    if m != want:
        return "%d rules afterwards instead of %d, %s" % (m, want, case)
    for i in range(want):
        y = pick(z, F, i)
        if y is None:
            return None
        if i == n:
            w = different(pp, z, y, P, [pp.bodies(P)], pp.head(P))
        elif i == k:
            w = different(pp, z, y, rules[i], [pp.bodies(rules[i]), pp.bodies(P)], pp.head(rules[i]))
        else:
            w = different(pp, z, y, rules[i], [pp.bodies(rules[i])], pp.head(rules[i]))
        if w:
            return "rule %d: %s, %s" % (i, w, case)
    got, st_ = x, pick(z, F, k)
    if clean(got) and got is not st_:
        w = different(pp, z, got, st_, [pp.bodies(st_)], pp.head(st_))
        if w:
            return "the production returned is not the stored one: %s, %s" % (w, case)
    return None


def apart(z, a, b):
    """can the two surely differ here?"""
    if a is b:
        return False
    v = same(z, a, b)
    if v is True:
        return False
    if v is False and clean(a) and clean(b):
        return consistent(z) is True
    return possible(z, [not_(eq(a, b))]) is True


def different(pp, z, y, old, bodies, head):
    if y is old and len(bodies) == 1:
        return None
    if apart(z, pp.head(y), head):
        return "another head"
    B = pp.bodies(y)
    if B is cat(*bodies):
        return None
    for lens in product((1, 2), repeat=len(bodies)):
        for s in under(z, [eqi(len_(b), INT(n)) for b, n in zip(bodies, lens)]):
            if consistent(s) is not True:
                continue
            got = constlen(s, B, 8)
            if got is None:
                continue
            want = [elem(b, INT(i)) for b, n in zip(bodies, lens) for i in range(n)]
            if got != len(want):
                return "%d bodies instead of %d" % (got, len(want))
            for i, w in enumerate(want):
                if apart(s, elem(B, INT(i)), w):
                    return "body %d is not the one it should be" % i
    return None


def spec_merge(lib, adds_body):
    pp = Parts(lib)

    def spec(r):
        p = r.before(0)
        q = r.after(0) if r.run.args[0].op == "mref" else r.ret
        g = mk("lst", r.run.args[1]) if adds_body else pp.bodies(r.run.args[1])
        typed(pp.bodies(p), "seq")
        if same(r.st, pp.head(q), pp.head(p)) is not True:
            return (False if clean(q) and apart(r.st, pp.head(q), pp.head(p)) else None), "the head is changed"
        want = cat(pp.bodies(p), g)
        v = sameseq(r.st, pp.bodies(q), want)
        if v is None and r.peeled and clean(q):
            w = different(pp, r.st, q, p, [pp.bodies(p), g], pp.head(p)) if not adds_body else None
            if w:
                return False, w
        return v, "the bodies are not those it had followed by those given"
    return spec


def writers(lib, pred):
    """functions that open the store for writing themselves: [(function, call site)]"""
    out = []
    for name, inst in lib.insts.items():
        if not inst.local:
            continue
        for b in inst.reachable():
            t = inst.blocks[b]["t"]
            if t["t"] == "call":
                f = lib.types[t["f"]]
                if pred(f):
                    out.append((name, "%s:%s" % tuple(t["sp"][:2]) if t.get("sp") else ""))
    return out


def guarded(lib, elem_ty):
    """is it a call that gives write access to a guarded store of such values?"""
    def pred(f):
        p = f.get("path") or ""
        if not p.split("::")[-1] in ("write", "lock", "borrow_mut", "get_mut", "try_write", "into_inner", "replace", "take", "swap") or not any(x in p for x in ("RwLock", "Mutex", "RefCell")):
            return False
        return any(inside(lib, t, elem_ty) for t in f.get("targs", ()))
    return pred


def inside(lib, ty, name, d=0):
    t = lib.types[ty]
    if t["k"] == "adt":
        if t["adt"] == name:
            return True
        if d > 2:
            return False
        return any(isinstance(a, int) and inside(lib, a, name, d + 1) for a in t.get("args", ()))
    return t.get("s") == name or t["k"] == name


def reach_from(lib, roots):
    """names of everything callable from some instances, closures and functions passed on included"""
    from ..graph import Graph
    g = lib.__dict__.setdefault("_graph", None) or Graph(lib)
    lib.__dict__["_graph"] = g
    return {k[1] for k in g.reach(roots)}


def check_C12(lib, bn):
    c = Check("C12", "proof",
              "on every path on which adding succeeds: the list behind the lock afterwards is the list before with the given production appended, and then no rule before had an equal head, or with the bodies of the given one appended to those of a rule with an equal head; the value returned is that rule; merging and adding bodies keep head and order",
              ["no two rules of the list have equal heads (kept by add_production itself)", "poisoned locks are not considered"])
    n = 0
    if not Parts(lib).ok():
        c.undecided("production", "", "a production is not a head and a list of bodies")
        return c.finish()
    for p, merging in ((SYS_ADD, True), (CELL_ADD, False)):
        if rootpath(lib, p):
            n += 1
            decide(c, p, lib, p, spec_stored(lib, merging), where=loc(lib, p), peel=3, opaque=lambda name, info: iters(name) or name.startswith(SYS_SYM),
                   text="the rule is appended or merged, and nothing else changes")
    c.floor("stores", n, 1)
    for p, ab in (("productions::Production::merge", False), ("productions::Production::add_body", True)):
        if rootpath(lib, p):
            decide(c, p, lib, p, spec_merge(lib, ab), where=loc(lib, p), text="keeps the head and its bodies, in order, and appends those given")
    # nothing else writes to the list of rules of a system
    named = lambda p: lib.insts[p].path
    known = reach_from(lib, [lib.insts[lib.fns[p]["root"]] for p in (SYS_ADD, CELL_ADD) if rootpath(lib, p)])
    known = {named(n) for n in known}
    ws = [w for w in writers(lib, guarded(lib, "productions::Production"))]
    for name, sp in ws:
        if named(name) in known or ".closure" in name or lib.insts[name].j.get("closure"):
            c.ok("writer:" + name, sp, "opens the list of rules for writing as part of adding a production")
            continue
        other_writer(c, lib, name, sp)
    return c.finish()


def other_writer(c, lib, name, sp):
    r = analyse(lib, lib.insts[name])
    if r.err:
        c.undecided("writer:" + name, sp, r.err)
        return
    v = True
    for st, ret in r.res:
        for e in st.events():
            if e[0] == "acq" and (tyof.get(e[2]) == "seq" or isseq(e[2])):
                L, F = e[2], Resolver(st)(r.eng.get(st, e[1].a[1].a[0], ()))
                if F is L or F.op == "cat" and F.a[0] is L:
                    continue
                if constlen(st, F) == 0 and consistent(st) is True and possible(st, [le(ONE, len_(L))]) is True:
                    c.bad("writer:" + name, sp, "the list of rules is emptied")
                    return
                v = None
    c.judge3("writer:" + name, v, sp, "opens the list of rules for writing without losing a rule")


# ---------------------------------------------------------------- C13
def contexts(lib, st, h):
    """the states in which it is known which contexts a head has"""
    ss = [st]
    for g in ("pre_context", "post_context"):
        nxt = []
        for s in ss:
            o = getter(lib, "productions::ProductionHead::" + g, h, s)
            if o is None or s.ask(isv(o, 1)) is not None:
                nxt.append(s)
                continue
            nxt += s.assume(isv(o, 1)) + s.assume(not_(isv(o, 1)))
        ss = nxt
    return ss


def spec_iter(lib, want, head=None):
    what = "the symbols iterated over are not those of the object in reading order"

    def one(r, st):
        x, y = seqof(r.ret), want(r, st)
        if x is None or y is None:
            return None, "the symbols are not known"
        v = sameseq(st, x, y)
        if v is None and (x is y or show(x) == show(y)):
            v = True
        if v is False and consistent(st) is not True:
            v = None
        if v is None:
            w = small_difference(st, x, y, lambda a, b: not_(eqi(fld(a, 0, 0), fld(b, 0, 0))))
            if w and r.peeled:
                return False, what + ": " + w
        return v, what

    def spec(r):
        v, why = True, what
        for st in contexts(lib, r.st, head(r)) if head else [r.st]:
            if consistent(st) is False:
                continue
            a, b = one(r, st)
            if a is False:
                return False, b
            if a is None:
                v, why = None, b
        return v, why
    return spec


def head_symbols(lib, st, h):
    """context before, target, context after: a sequence per known case, None if not known"""
    out = []
    pre = getter(lib, "productions::ProductionHead::pre_context", h, st)
    post = getter(lib, "productions::ProductionHead::post_context", h, st)
    t = getter(lib, "productions::ProductionHead::target", h, st)
    if pre is None or post is None or t is None:
        return None
    for x, one in ((pre, False), (t, True), (post, False)):
        if one:
            out.append(mk("lst", x))
            continue
        v = st.ask(isv(x, 1))
        if v is None:
            return None
        if v:
            s = symbols(lib, fld(x, 1, 0))
            if s is None:
                return None
            out.append(s)
    return out


def body_symbols(lib, b):
    s = getter(lib, "productions::ProductionBody::string", b)
    return None if s is None else symbols(lib, s)


def production_symbols(lib, st, p):
    pp = Parts(lib)
    h = head_symbols(lib, st, pp.head(p))
    if h is None:
        return None
    bv = typed(mk("bv", 960), "usize")
    B = pp.bodies(p)
    s = body_symbols(lib, elem(B, bv))
    if s is None:
        return None
    return cat(*h, flatseq(len_(B), bv, s))


def visited(st, adds, given=(), mine=()):
    """symbols known to have been added on the path: one by one, and all of a sequence"""
    R = Resolver(st, given)
    one, al = [], []
    evs = st.events()
    if given:
        evs = after_loop(evs, given)
    for e in evs:
        if e[0] == "loop":
            a = passes(st, R, e[1], e[2], adds, mine)
            al += a
        else:
            x = adds(st, e)
            if x is not None:
                one.append(x)
    held = getattr(adds, "held", None)
    if held:
        one += [x for x in held(st, mine) if not any(x is y for y in one)]
    return one, al


def after_loop(evs, given):
    keys = {p.a[0] for p in given}
    at = -1
    for i, e in enumerate(evs):
        if e[0] == "loop" and e[1].key in keys:
            at = i
    return evs[at + 1:]


def passes(st, R, rec, pn, adds, mine=()):
    i = R.info(rec.key, pn)
    if not i:
        return []
    rec, q, ent, pos, c0, selfs = i
    out = []
    poss = [x for x in q.phis if isint(x) and ent.get(x) is ZERO and selfs and all(v.get(x) is addc(x, 1) for s, v in selfs)]
    mine = set(mine) | (adds.contents(st) if hasattr(adds, "contents") else set())
    mine |= {x for x, v in ent.items() if v in mine}
    per = [visited(s, adds, list(q.phis), mine) for s, v in selfs]
    if not per:
        return []
    for p in poss:
        # one symbol on every pass
        common = [x for x in per[0][0] if all(any(y is x for y in o) for o, a in per[1:])]
        for x in common:
            if x.op == "elem" and x.a[1] is p and not any(l in q.phis for l in leaves(x.a[0])) and st.ask(le(len_(x.a[0]), p)) is True:
                out.append(x.a[0])
        # a sequence on every pass
        common = [x for x in per[0][1] if all(any(y is x for y in a) for o, a in per[1:])]
        for S in common:
            if p in leaves(S) and not any(l in q.phis and l is not p for l in leaves(S)):
                for y in walk(S):
                    if y.op == "elem" and y.a[1] is p and p not in leaves(y.a[0]) and st.ask(le(len_(y.a[0]), p)) is True:
                        b = typed(mk("bv", 961), "usize")
                        out.append(flatseq(len_(y.a[0]), b, subst(S, {p: b})))
    return out


def pieces(S):
    if S.op == "cat":
        return [y for x in S.a for y in pieces(x)]
    return [S]


class Wanted:
    """what has to be visited: the symbols of a production"""

    def __init__(self, lib, st, P):
        self.lib, self.st, self.P = lib, st, P
        self.pp = Parts(lib)
        self.whole = mk("call", P_ITER, P)

    def covered(self, one, al):
        al = [y for S in al for y in pieces(S)]
        if any(self.isiter(S, "productions::Production", self.P) for S in al):
            return True
        h = self.pp.head(self.P)
        B = self.pp.bodies(self.P)
        hs = any(self.isiter(S, "productions::ProductionHead", h) for S in al)
        if not hs:
            hs = True
            for st in contexts(self.lib, self.st, h):
                w = head_symbols(self.lib, st, h)
                hs = hs and w is not None and all(self.has(x, one, al) for x in w)
        bv = typed(mk("bv", 961), "usize")
        bs = self.has_bodies(al, B, bv)
        return hs and bs

    def has(self, S, one, al):
        if S.op == "lst":
            return all(any(x is y for y in one) or any(T_.op == "lst" and x in T_.a for T_ in al) for x in S.a)
        return any(x is S or sameseq(self.st, x, S) is True for x in al)

    def has_bodies(self, al, B, bv):
        for S in al:
            if S.op in ("flatseq",):
                n, b, body = S.a
                j = free("body")
                y = subst(body, {b: j})
                if self.st.ask(eqi(n, len_(B))) is not True:
                    continue
                if self.isiter(y, "productions::ProductionBody", elem(B, j)) or y is body_symbols(self.lib, elem(B, j)):
                    return True
                s = getter(self.lib, "productions::ProductionBody::string", elem(B, j))
                if s is not None and self.isiter(y, "strings::ProductionString", s):
                    return True
        return False

    def isiter(self, S, ty, x):
        return S.op == "call" and S.a[0] == "<%s as %s" % (ty, ITER) and (S.a[1] is x or same(self.st, S.a[1], x) is True)

    def missing(self, one):
        """a symbol of the production that is surely not among those visited"""
        st = self.st
        W = typed(self.whole, "seq")
        pos = {x.a[1].a[0] for x in one if x.op == "elem" and x.a[0] is W and x.a[1].op == "int"}
        uses = any(x.op == "elem" and x.a[0] is W for x in one) or any(W in walk(f) for f in st.facts.all())
        if not all(clean(x) for x in one):
            return None
        if uses:
            # the whole sequence is walked: is one of its positions left out?
            for k in range(4):
                if k not in pos and possible(st, [lt(INT(k), len_(W))] + [not_(eqi(fld(elem(W, INT(k)), 0, 0), fld(x, 0, 0))) for x in one]) is True:
                    return "symbol %d of the production is not added" % k
            return None
        if any(not self.known(x) for x in one):
            return None
        b = elem(self.pp.bodies(self.P), ZERO)
        s = body_symbols(self.lib, b)
        if s is not None:
            g = [le(ONE, len_(self.pp.bodies(self.P))), le(ONE, len_(s))]
            if not any(x.op == "elem" and b in walk(x) for x in one) and not any(b in walk(f) for f in st.facts.all()) and \
                    possible(st, g + [not_(eqi(fld(elem(s, ZERO), 0, 0), fld(x, 0, 0))) for x in one]) is True:
                return "the symbols of the bodies are not added"
        return None

    def known(self, x):
        """a symbol of the head"""
        return x.op == "elem" and x.a[0].op == "call" and x.a[0].a[0] == "<productions::ProductionHead as " + ITER or self.pp.head(self.P) in walk(x)


def adds_to(lock, code):
    """events that put a symbol in the set behind a lock"""
    def adds(st, e):
        if e[0] == "setins":
            for x in st.events():
                if x[0] == "acq" and x[1].a[1] is e[1] and x[1].a[2] is lock:
                    k = e[2]
                    if k.op == "fld" and k.a[1:] == code:
                        return k.a[0]
        return None

    def contents(st):
        return {e[2] for e in st.events() if e[0] == "acq" and e[1].a[2] is lock}

    def held(st, mine):
        """symbols found in the set already"""
        mine = set(mine) | contents(st)
        out = []
        for f in st.facts.all():
            if f.op == "has" and f.a[0] in mine and f.a[1].op == "fld" and f.a[1].a[1:] == code:
                out.append(f.a[1].a[0])
        return out
    adds.held, adds.contents = held, contents
    return adds


def user_adds(store):
    def adds(st, e):
        if e[0] == "user" and e[1] == "symbols::SymbolStore::add_symbol" and e[2][0] is store:
            return e[2][1]
        return None
    return adds


def spec_known(lib, lock_of, production, user=None):
    """on success every symbol of the production is in the set"""
    code = codefield(lib)

    def spec(r):
        P = production(r)
        ok = succeeded(r)
        if ok is False:
            return True
        if ok is None or P is None:
            return None, "the production or the outcome is not known"
        adds = user(r) if user else adds_to(lock_of(r), code)
        w = Wanted(lib, r.st, P)
        if r.peeled and any(e[0] == "loop" for e in r.st.events()):
            one, al = visited(r.st, adds)
            return (True if w.covered(one, al) else None), "not known that every symbol is added"
        one, al = visited(r.st, adds)
        one = [r.R(x) for x in one]
        if w.covered(one, al):
            return True
        if r.peeled and not r.run.eng.unmodelled:
            st = settle(r.st)
            m = None if st is None else Wanted(lib, st, P).missing([settled(st, x) for x in one])
            if m:
                return False, m
        return None, "not known that every symbol of the production is added"
    return spec


def succeeded(r):
    v = r.raw
    g = gave(v)
    if g is not None:
        return g[1] is None
    # the outcome of a store handed on as it is
    if v.op == "sym":
        return True
    return None


def codefield(lib):
    a = lib.adts.get("symbols::Symbol")
    return (0, 0) if a and len(a["variants"][0]["fields"]) == 1 else None


def lock_read(lib, p):
    """the set in which a symbol is looked up, as a function of the store"""
    r = analyse(lib, p, opaque=parsing)
    if r.err:
        return None, None
    ls = {e[1].a[2] for st, v in r.res for e in st.events() if e[0] == "acq"}
    return (ls.pop(), r) if len(ls) == 1 else (None, r)


def spec_lookup(lib):
    code = codefield(lib)

    def spec(r):
        v = r.ret
        name = r.run.args[1]
        q = mk("call", "symbols::get_code", name)
        if v.op != "adt" or not v.a[0].endswith("Option"):
            return None, "neither a symbol nor none"
        acq = [e for e in r.st.events() if e[0] == "acq"]
        if r.st.ask(isv(q, 1)) is True:
            return (True if v.a[1] == 0 else None), "a symbol although the name has no code"
        if len(acq) != 1:
            return None, "the set of symbols is not looked at once"
        k = fld(q, 0, 0)
        has = contained(r.st, acq[0][2], k)
        if v.a[1] == 1:
            s = v.a[2]
            if r.st.ask(eqi(typed(fld(s, *code), "u32"), k)) is not True:
                return None, "another symbol"
            return (True if has else None), "a symbol that is not known to be in the set"
        return (True if has is False else False if has is True and clean(k) and consistent(r.st) is True else None), "none although the symbol is in the set"
    return spec


def contained(st, S, k):
    for f in st.facts.all():
        g, v = (f.a[0], False) if f.op == "not" else (f, True)
        if g.op in HAS and S in walk(g) and any(x is k for x in walk(g)):
            return v
    for f in st.facts.all():
        if f.op in ("indom", "notindom", "eq", "eq0", "isv", "le0"):
            for x in walk(f):
                if x.op in HAS and S in x.a and any(y is k for y in x.a):
                    v = st.ask(isv(x, 1))
                    if v is not None:
                        return v
    return None


HAS = ("has",)


def check_C13(lib, bn):
    c = Check("C13", "proof",
              "the iterators over the symbols of strings, heads, bodies and productions are the expected sequences; on every successful path of adding a production, loops from the first to the last position of these sequences insert each element's code into the set behind the lock in which symbols are looked up; lookups return what is in the set",
              ["a user-supplied symbol store keeps what it is given", "poisoned locks are not considered"])
    n = 0
    if codefield(lib) is None or not Parts(lib).ok():
        c.undecided("symbol", "", "a symbol is not one code, or a production not a head and bodies")
        return c.finish()
    pp = Parts(lib)
    for ty, want, head in (("strings::ProductionString", lambda r, st: symbols(lib, r.run.args[0]), None),
                           ("productions::ProductionBody", lambda r, st: body_symbols(lib, r.run.args[0]), None),
                           ("productions::ProductionHead", lambda r, st: (lambda h: None if h is None else cat(*h))(head_symbols(lib, st, r.run.args[0])), lambda r: r.run.args[0]),
                           ("productions::Production", lambda r, st: production_symbols(lib, st, r.run.args[0]), lambda r: pp.head(r.run.args[0]))):
        p = "<%s as %s" % (ty, ITER)
        if rootpath(lib, p):
            n += 1
            decide(c, p, lib, p, spec_iter(lib, want, head), where=loc(lib, p), text="yields the symbols of the object in reading order")
    c.floor("iterators over symbols", n, 1)
    n = 0
    for add, sym, get in ((SYS_ADD, SYS_SYM, SYS_GET), (CELL_ADD, CELL_SYM, CELL_GET)):
        if not (rootpath(lib, sym) and rootpath(lib, get)):
            continue
        lk, run = lock_read(lib, get)
        if lk is None:
            c.undecided(get, loc(lib, get), "the set in which symbols are looked up is not known")
            continue
        decide(c, get, lib, get, spec_lookup(lib), where=loc(lib, get), opaque=parsing, text="a symbol is found exactly if its code is in the set", peel=0)
        store = run.args[0]

        def lock_of(r, lk=lk, store=store):
            return subst(lk, {store: r.run.args[0]})
        decide(c, sym, lib, sym, spec_inserted(lib, lock_of), where=loc(lib, sym), text="a symbol added is put in the set in which symbols are looked up", peel=2, opaque=parsing)
        n += 1
        if add == SYS_ADD and rootpath(lib, add):
            decide(c, add, lib, add, spec_known(lib, lock_of, lambda r: payload(r.st, r.raw)), where=loc(lib, add), opaque=iters, peel=3,
                   text="every symbol of the production is put in the set in which symbols are looked up")
            n += 1
    if rootpath(lib, PARSE_ADD):
        def parsed(r):
            return fld(typed(mk("call", "parser::parse_production", r.run.args[2]), None), 0, 0)
        decide(c, PARSE_ADD, lib, PARSE_ADD, spec_known(lib, None, parsed, lambda r: user_adds(r.run.args[0])), where=loc(lib, PARSE_ADD), opaque=parsing, peel=3,
               text="every symbol of the production is added to the symbol store")
        n += 1
    c.floor("functions that add symbols", n, 1)
    return c.finish()


def spec_inserted(lib, lock_of):
    code = codefield(lib)

    def spec(r):
        g = gave(r.raw)
        if g is None:
            return None, "neither a symbol nor an error"
        if g[1] is not None:
            return True
        P = payload(r.st, r.raw)
        if P is None:
            return None, "the symbol given is not known"
        one, al = visited(r.st, adds_to(lock_of(r), code))
        if any(x is P for x in one) and g[0] is P:
            return True
        if any(x is P for x in one):
            return None, "the symbol returned is not the one given"
        acq = [e for e in r.st.events() if e[0] == "acq" and e[1].a[2] is lock_of(r)]
        if not one and not any(e[0] in ("loop", "opaque", "std") for e in r.st.events()) and not r.run.eng.unmodelled:
            if any(contained(r.st, e[2], fld(P, *code)) is True for e in acq):
                return True
            if consistent(r.st) is True:
                return False, "a symbol is accepted without being put in the set"
        return None, "not known that the symbol is put in the set"
    return spec


# ---------------------------------------------------------------- C09
def mutations(st, run):
    """[(number, event)] of what changes a store, and where user code runs"""
    out = []
    for n, e in enumerate(st.events()):
        if e[0] in MUT and shared(e[1]):
            out.append((n, "change", e))
        elif e[0] == "user":
            out.append((n, "user", e))
        elif e[0] == "loop":
            out.append((n, "loop", e))
    return out


def shared(ref):
    """is it something behind a lock or a cell?"""
    return ref.op == "mref" and isinstance(ref.a[0], tuple) and ref.a[0][0] in ("g", "cell", "a")


STORE = ("symbols::SymbolStore::add_symbol", "productions::ProductionStore::add_production")


def kinds(run, st, depth=0):
    """what happens on a path, in order: 'user' and 'change' steps, loops as sets of such"""
    out = []
    for e in st.events():
        if e[0] in MUT and shared(e[1]):
            out.append(("change", e))
        elif e[0] == "user":
            out.append(("store" if e[1] in STORE else "user", e))
        elif e[0] == "loop":
            body = []
            for a, b, s, v in e[1].backs:
                evs = s.events()
                at = max((i for i, x in enumerate(evs) if x[0] == "loop" and x[1] is e[1]), default=-1)
                for x in evs[at + 1:]:
                    if x[0] in MUT and shared(x[1]):
                        body.append(("change", x))
                    elif x[0] == "user":
                        body.append(("store" if x[1] in STORE else "user", x))
                    elif x[0] == "loop" and depth < 3:
                        body += [y for y in loop_kinds(x[1], depth + 1)]
            out += body
            if any(k == "change" for k, _ in body):
                out += [x for x in body if x[0] == "user"]      # comes round again
    return out


def loop_kinds(rec, depth):
    out = []
    for a, b, s, v in rec.backs:
        evs = s.events()
        at = max((i for i, x in enumerate(evs) if x[0] == "loop" and x[1] is rec), default=-1)
        for x in evs[at + 1:]:
            if x[0] in MUT and shared(x[1]):
                out.append(("change", x))
            elif x[0] == "user":
                out.append(("store" if x[1] in STORE else "user", x))
            elif x[0] == "loop" and depth < 3:
                out += loop_kinds(x[1], depth + 1)
    return out


def spec_refused(lib):
    def spec(r):
        g = gave(r.raw)
        ks = kinds(r.run, r.st)
        changed = [e for k, e in ks if k == "change"]
        ls = [(e[1], e[2], r.run.eng.get(r.st, e[1].a[1].a[0], ())) for e in r.st.events() if e[0] == "acq"]
        # user code in the middle of a change
        seen = None
        for k, e in ks:
            if k == "change":
                seen = e
            elif k == "user" and seen is not None:
                if r.run.eng.unmodelled or not understood(r.st):
                    return None, "user code may run after a change"
                return False, "%s, which is code of the user, runs after the store has been changed" % e[1]
        if g is None and r.raw.op == "sym":
            return True             # the outcome of a store handed on as it is
        if g is None:
            return None, "neither a success nor an error"
        if g[1] is None:
            return True
        stores = [e for k, e in ks if k == "store"]
        if stores and not any(x.op == "sym" and any(isinstance(y, str) and y.startswith("ret:") and y[4:] in STORE for y in x.a) for x in leaves(g[1])):
            sure = (understood(r.st) or malformed(r.st, r.run.args[2])) and not r.run.eng.unmodelled and refusal(g[1])
            return (False if sure else None), "the production is refused after the stores have been given something"
        diff = [x for x in ls if x[2] is not x[1] and r.R(x[2]) is not x[1]]
        if not changed and not diff:
            return True
        if diff and not changed and all(sameseq(r.st, r.R(x[2]), x[1]) is True for x in diff if isseq(x[1]) or tyof.get(x[1]) == "seq"):
            return True
        if changed and not r.run.eng.unmodelled and understood(r.st):
            return False, "an error although the store has been changed (%s)" % changed[0][0]
        return None, "an error after a change"
    return spec


def refusal(e):
    """the error of parsing the text"""
    return any(x.op == "call" and x.a[0] == "parser::parse_production" for x in walk(e))


# texts that are refused (see C16, C29), with good parts
MALFORMED = ("A B -> C", "A -> 5 B", "A B C -> D E F", "A < B C -> D", "A -> 2 B C ; D", "A", "A B", "", " ", "-> C", "A B > C -> 5", "A B -> C -> D", "A < B C > D -> 5 E")


def malformed(st, text):
    """does the path surely occur for some malformed text?"""
    ls = [b for b in st.facts.all() if b.op != "allq"]
    if any(l.op == "phi" for b in ls for l in leaves(b)) or consistent(st) is False:
        return False
    return textwit.example(ls, text, MALFORMED) is not None


def understood(st):
    """does the path surely occur?"""
    if any(l.op == "phi" for f in st.facts.all() for l in leaves(f)):
        return False
    return consistent(st) is True


def check_C09(lib, bn):
    c = Check("C09", "proof",
              "on every path on which adding a production or symbol ends in an error nothing behind the locks or cells is changed; on no path does code of the user (conversions) run after the first change",
              ["allocation does not fail", "poisoned locks are not considered", "with stores supplied by the user an error of theirs is handed on"])
    n = 0
    for p in (SYS_ADD, SYS_SYM, CELL_ADD, CELL_SYM, PARSE_ADD):
        if rootpath(lib, p):
            n += 1
            decide(c, p, lib, p, spec_refused(lib), where=loc(lib, p), opaque=parsing, peel=2, text="what is refused changes nothing")
    c.floor("functions that add", n, 2)
    return c.finish()
