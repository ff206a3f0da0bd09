"""C24: which rule applies; C25: what it means that a rule applies."""
from itertools import product

from ..rel import *
from ..report import Check
from ..terms import *

HEAD = "productions::ProductionHead::"
PROD = "productions::Production::"


def free(name, ty="usize"):
    return typed(mk("sym", "free", name, "arg", 0), ty)


def asked(name, info=None):
    """the question whether a rule applies, kept as a question"""
    return name.startswith(HEAD + "matches")


def under(st, goals):
    ss = [st]
    for g in goals:
        ss = [y for x in ss for y in x.assume(g)]
    return ss


def never(st, seq, j, goals):
    """the goals cannot hold together, using the quantified facts at position j"""
    for s in under(st, goals[:2]):
        s = instantiate(s, seq, j)
        if s is None:
            continue
        for t in under(s, goals[2:]):
            if consistent(t) is not False:
                return False
    return True


def spec_first(lib):
    def spec(r):
        ps, string, index = r.run.args[0], r.run.args[1], r.run.args[2]
        n = len_(ps)

        def M(j):
            rs = call(lib, PROD + "matches", [elem(ps, j), string, index], opaque=asked)
            if rs is None or rs.err or len(rs.res) != 1:
                return None
            b = rs.res[0][1]
            return b if b.op == "call" else None
        j = free("j")
        mj = M(j)
        if mj is None:
            return None, "what it means that a rule applies is not one question"
        v = r.ret
        if v.op != "adt":
            return None, "neither a rule nor none"
        if not len(v.a) > 2:
            if never(r.st, ps, j, [le(ZERO, j), lt(j, n), mj]):
                return True
            if r.peeled:
                for k in range(4):
                    m = M(INT(k))
                    if possible(r.st, [lt(INT(k), n), m]) is True:
                        return False, "no rule is used although rule number %d may apply" % k
            return None, "none, but not known that no rule applies"
        x = v.a[2]
        k = x.a[1] if x.op == "elem" and x.a[0] is ps else None
        if k is None:
            for b in r.st.facts.all():
                pass
            return None, "not one of the rules"
        mk_ = M(k)
        ok = r.st.ask(mk_) is True
        if ok and never(r.st, ps, j, [le(ZERO, j), lt(j, k), mj]):
            return True
        if r.peeled:
            if not ok and possible(r.st, [not_(mk_)]) is True:
                return False, "a rule that does not apply is used"
            for i in range(4):
                if possible(r.st, [lt(INT(i), k), M(INT(i))]) is True:
                    return False, "a rule is used although rule number %d, added earlier, may apply" % i
        return None, "not known to be the first that applies"
    return spec


class Adjacent:
    """what C25 says, as conditions over a head, a string and a position"""

    def __init__(self, lib, head, string, index, parts):
        self.lib, self.head, self.string, self.index, self.parts = lib, head, string, index, parts
        self.top = 5
        self.S = getter(lib, "strings::ProductionString::symbols", string)
        pre = getter(lib, HEAD + "pre_context", head)
        post = getter(lib, HEAD + "post_context", head)
        self.target = getter(lib, HEAD + "target", head)
        self.ctx = []
        self.ok = None not in (self.S, pre, post, self.target)
        if not self.ok:
            return
        n = len_(self.S)
        for opt, left in ((pre, True), (post, False)):
            if ("pre" if left else "post") not in parts:
                continue
            seq = getter(lib, "strings::ProductionString::symbols", fld(opt, 1, 0))
            if seq is None:
                self.ok = False
                return
            off = sub(index, len_(seq)) if left else add(index, ONE)
            room = le(len_(seq), index) if left else le(add(add(index, ONE), len_(seq)), n)
            self.ctx.append((opt, seq, off, room))

    def code(self, sym):
        return fld(sym, 0, 0)

    def eqsym(self, a, b):
        return eqi(self.code(a), self.code(b))

    def here(self):
        """the conditions without quantifiers"""
        r = [le(ZERO, self.index), lt(self.index, len_(self.S))]
        if "target" in self.parts:
            r.append(self.eqsym(elem(self.S, self.index), self.target))
        return r

    def states(self, st):
        """states of a path, split by which contexts there are"""
        out = [(st, ())]
        for c in self.ctx:
            nxt = []
            for s, have in out:
                for v in (1, 0):
                    for z in s.assume(isv(c[0], v)) if v else s.assume(not_(isv(c[0], 1))):
                        nxt.append((z, have + ((c,) if v else ())))
            out = nxt
        return out

    def at(self, st, have, i_of):
        """everything the contexts say about the elements that occur in the facts of a state"""
        s = st.copy()
        s.facts = s.facts.copy()
        for opt, seq, off, room in have:
            pos = set()
            for b in list(s.facts.all()) + list(i_of):
                for x in walk(b):
                    if x.op != "elem":
                        continue
                    if x.a[0] is seq:
                        pos.add(x.a[1])
                    elif x.a[0] is self.S:
                        pos.add(sub(x.a[1], off))
            for p in pos:
                if any(l.op == "bv" for l in leaves(p)):
                    continue
                if s.ask(le(ZERO, p)) is True and s.ask(lt(p, len_(seq))) is True:
                    s.know(self.eqsym(elem(seq, p), elem(self.S, add(off, p))))
        return s

    def must(self, st):
        """does the path imply that it matches? True/None"""
        for s, have in self.states(st):
            if consistent(s) is False:
                continue
            for g in self.here() + [c[3] for c in have]:
                if implies(s, g) is not True:
                    return None
            for opt, seq, off, room in have:
                i = free("i")
                t = s.copy()
                t.facts = s.facts.copy()
                t.know(le(ZERO, i))
                t.know(lt(i, len_(seq)))
                t = instantiate(t, seq, i)
                if t is None:
                    continue
                t = seqfacts(seqfacts(t, seq, i), self.S, add(off, i))
                if implies(t, self.eqsym(elem(seq, i), elem(self.S, add(off, i)))) is not True:
                    return None
        return True

    def cannot(self, st):
        """does the path exclude that it matches? True/None"""
        for s0, have in self.states(st):
            for s in under(s0, self.here() + [c[3] for c in have]):
                neg = [b.a[0] for b in s.facts.all() if b.op == "not" and seqrel(b.a[0])]
                s = self.at(s, have, neg)
                if consistent(s) is False:
                    continue
                if any(seqholds(s, b, lambda z, p, q: self.at(z, have, [p, q])) for b in neg):
                    continue
                return None
        return True

    def small(self, st, wrong, beyond=()):
        """a case with short contexts in which the path is taken though it is (wrong=True) a
        mismatch, or (wrong=False) a match"""
        sizes = [c for c in self.ctx]
        for s0, have in self.states(st):
            for lens in product(range(4), repeat=len(have)):
                goals = [eqi(len_(c[1]), INT(k)) for c, k in zip(have, lens)]
                for n in range(5):
                    for ix in range(5) if wrong or "pre" in self.parts and "post" in self.parts else range(n):
                        for s in under(s0, goals + [eqi(len_(self.S), INT(n)), eqi(self.index, INT(ix))]):
                            if self.case(s, have, lens, n, ix, wrong):
                                return "string of %d symbols, position %d, contexts %s" % (n, ix, list(lens))
            # a context longer than a limit in the code
            for k in beyond:
                for j, c in enumerate(have):
                    lens = tuple(k if i == j else 0 for i in range(len(have)))
                    n, ix = k + 1, (k if c is self.ctx[0] and "pre" in self.parts else 0)
                    goals = [eqi(len_(d[1]), INT(m)) for d, m in zip(have, lens)]
                    self.top = k + 2
                    for s in under(s0, goals + [eqi(len_(self.S), INT(n)), eqi(self.index, INT(ix))]):
                        if self.case(s, have, lens, n, ix, wrong):
                            return "string of %d symbols, position %d, contexts %s" % (n, ix, list(lens))
                    self.top = 5
        return None

    def case(self, s, have, lens, n, ix, wrong):
        ss = expand(s, self.eqsym)
        if not ss:
            return False
        room = ix < n
        pairs = [self.eqsym(elem(self.S, INT(ix)), self.target)] if "target" in self.parts else []
        for c, k in zip(have, lens):
            left = c is self.ctx[0] and "pre" in self.parts
            off = ix - k if left else ix + 1
            if off < 0 or off + k > n:
                room = False
            else:
                pairs += [self.eqsym(elem(c[1], INT(i)), elem(self.S, INT(off + i))) for i in range(k)]
        if wrong:
            if not room:
                goals = [[]]
                if ix >= n and not ("pre" in self.parts and "post" in self.parts):
                    return False
            else:
                goals = [[not_(p)] for p in pairs]
        else:
            if not room:
                return False
            goals = [pairs]
        return any(possible(self.fixed(z), g) is True for z in ss for g in goals)

    def fixed(self, s):
        """the positions in the facts as numbers"""
        m = {}
        t = s.copy()
        t.facts = s.facts.copy()
        for b in list(t.facts.all()):
            for x in walk(b):
                if x.op == "elem" and x.a[1].op != "int" and x not in m:
                    for k in range(self.top):
                        if t.ask(eqi(x.a[1], INT(k))) is True:
                            m[x] = elem(x.a[0], INT(k))
        for x, y in m.items():
            t.know(self.eqsym(x, y))
        return t


def spec_adjacent(lib, parts, negate=False):
    def spec(r):
        a = Adjacent(lib, r.run.args[0], r.run.args[1], r.run.args[2], parts)
        if not a.ok:
            return None, "the parts of a head or string are not accessible"
        inside = [] if len(parts) == 3 else [lt(a.index, len_(a.S))]
        v = r.raw
        for truth in (True, False):
            for s in r.st.assume(v, truth):
                for s in under(s, inside):
                    if (a.must if truth else a.cannot)(s) is True:
                        continue
                    if r.peeled:
                        w = a.small(s, truth, [k - 1 for k in limits(r.run, 3)])
                        if w:
                            return False, "%s for a %s: %s" % ("true" if truth else "false", "mismatch" if truth else "match", w)
                    return None, "%s, but not known to be %s" % ("true" if truth else "false", "a match" if truth else "a mismatch")
        return True
    return spec


def check_C24(lib, bn):
    c = Check("C24", "proof",
              "on every result path of find_matching, for any list of rules, string and position: a rule is returned only if the question whether it applies was answered yes and was answered no for every rule before it; none is returned only if it was answered no for all",
              ["whether a rule applies is what ProductionHead::matches says (C25)"])
    p = "system::find_matching"
    if not rootpath(lib, p):
        c.undecided("first", "", "no find_matching")
        return c.finish()
    decide(c, "first", lib, p, spec_first(lib), peel=3, where=loc(lib, p),
           text="the rule returned is the first of the list that applies", opaque=asked)
    return c.finish()


def check_C25(lib, bn):
    c = Check("C25", "proof",
              "on every result path of ProductionHead::matches, pre_matches, post_matches and Production::matches: true implies position inside the string, target there, and every symbol of each context equal to the adjacent one; false excludes that; for contexts and strings of any length (quantified facts of the comparing loops, instantiated at an arbitrary position)",
              ["two symbols are equal when their codes are (C14)"])
    n = 0
    for f, parts in (("ProductionHead::matches", ("pre", "target", "post")), ("Production::matches", ("pre", "target", "post")),
                     ("ProductionHead::pre_matches", ("pre",)), ("ProductionHead::post_matches", ("post",))):
        p = "productions::" + f
        if not rootpath(lib, p):
            continue
        n += 1
        if f == "Production::matches":
            r = analyse(lib, p, opaque=asked)
            c.fn(r.inst.name)
            h = getter(lib, PROD + "head", r.args[0])
            v = r.res[0][1] if len(r.res) == 1 and not r.err else None
            if v is None or v.op != "call":
                c.undecided(f, loc(lib, p), "not just the question to the head")
                continue
            right = [h, r.args[1], r.args[2]]
            got = list(v.a[1:])
            c.judge3(f, True if got == right else False if all(clean(x) for x in got) and h is not None else None, loc(lib, p),
                     "a rule applies where its head does")
            continue
        decide(c, f, lib, p, spec_adjacent(lib, parts), peel=3, where=loc(lib, p),
               text="true exactly for a match with the adjacent symbols")
    c.floor("matching functions", n, 2)
    return c.finish()
