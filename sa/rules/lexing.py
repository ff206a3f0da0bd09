"""C30: tokens are pieces of the text and together contain everything but whitespace."""
from ..iters import char_at
from ..terms import utf8len
from ..rel import *
from ..report import Check
from ..terms import *

NEXT = "<parser::iterator::TokenIterator<'a> as std::iter::Iterator>::next"
ITER = "parser::iterator::TokenIterator"


def fieldsof(lib, adt):
    for t in lib.types:
        if t["k"] == "adt" and t["adt"] == adt and t.get("variants"):
            return [lib.types[f["ty"]] for f in t["variants"][0]["fields"]]
    return None


def strlike(lib, t):
    return t["k"] == "ref" and lib.types[t["to"]]["k"] == "str" or t["k"] == "adt" and t["adt"] == "std::string::String"


def layout(lib):
    """(text, position, flag or None) field numbers of the token iterator"""
    fs = fieldsof(lib, ITER)
    if fs is None:
        return None
    r = []
    for f in (lambda t: strlike(lib, t), lambda t: t["k"] == "uint", lambda t: t["k"] == "bool"):
        k = [i for i, t in enumerate(fs) if f(t)]
        if len(k) > 1 or not k and len(r) < 2:
            return None
        r.append(k[0] if k else None)
    return tuple(r)


def tokentext(lib, tok):
    fs = fieldsof(lib, "parser::token::Token")
    k = [i for i, t in enumerate(fs or ()) if strlike(lib, t)]
    return fld(tok, 0, k[0]) if len(k) == 1 else None


KNOWN = ("cls", "char_at", "bnd", "len", "le0", "eq0", "not", "and", "or", "indom", "notindom", "eq", "slice", "str", "int", "lin", "sym",
         "fld", "utf8len", "starts", "ends", "bool", "isv", "discr")


class Cover:
    """does every character of a region of the text have a class? Proved by walking: known characters,
    known pieces, and regions that loops have walked over (by induction over their passes)"""

    def __init__(self, R, text):
        self.T = text
        self.recs = {}
        self.memo = {}
        self.learn(R)
        self.budget = 400

    def learn(self, R):
        self.recs.update(R.recs)

    def region(self, s):
        """(from, to) when s is a piece of the text"""
        if s is self.T:
            return ZERO, len_(self.T)
        if s.op == "slice" and s.a[0] is self.T:
            return s.a[1], s.a[2]
        return None

    def cls(self, st, c, white):
        """does the character c have the class? True, False, None"""
        w = st.ask(mk("cls", "is_whitespace", c))
        if w is not None:
            return w is white
        return None

    def chars(self, st):
        """[(character, its position)]"""
        r = {}
        for f in st.facts.all():
            for x in walk(f):
                if x.op == "char_at" and x.a[0] is self.T:
                    r[x] = x.a[1]
                elif x.op == "phi" and tyof.get(x) == "char" and x not in r:
                    q = self.whereis(x)
                    if q is not None:
                        r[x] = q
        return list(r.items())

    def whereis(self, c):
        """the position of the character a loop carries, when it is always the one at another value it
        carries (up to a constant distance)"""
        if c in self.memo:
            return self.memo[c]
        self.memo[c] = None
        rec = self.recs.get(c.a[0], (None,))[0]
        q = next((x for x in rec.parts if x.n == c.a[1]), None) if rec else None
        if q is None:
            return None
        arr = ([q.init] if q.init is not None else []) + [v for a, b, s, v in rec.backs if b is q]
        if any(v is None for v in arr):
            return None
        for x in q.phis:
            if not isint(x) or x is c:
                continue
            d = set()
            for v in arr:
                e = v.get(c)
                if e is c and v.get(x) is x:
                    continue
                if e is None or v.get(x) is None or e.op != "char_at" or e.a[0] is not self.T:
                    break
                d.add(sub(e.a[1], v[x]))
            else:
                if len(d) == 1:
                    k = d.pop()
                    if not any(l.op == "phi" and l.a[0] == c.a[0] for l in leaves(k)):
                        self.memo[c] = add(x, k)
                        break
        return self.memo[c]

    def steps(self, st, a, white):
        """positions that can be reached from a through characters of the class"""
        out = []
        for c, at in self.chars(st):
            if st.ask(eqi(at, a)) is True and self.cls(st, c, white) is True:
                out.append(add(a, utf8len(c)))
                if st.ask(le(c, INT(127))) is True:
                    out.append(add(a, ONE))
        for b, v in st.facts.lits.items():
            if v and b.op in ("eq", "starts"):
                for x, y in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                    if y.op == "str" and isinstance(y.a[0], str) and y.a[0] and all(z.isspace() is white for z in y.a[0]):
                        g = self.region(x)
                        if g and st.ask(eqi(g[0], a)) is True:
                            out.append(add(a, INT(len(y.a[0].encode()))))
        return out

    def mids(self, st, b):
        r = [b]
        for c, at in self.chars(st):
            if at not in r:
                r.append(at)
        for f in st.facts.all():
            if f.op == "bnd" and f.a[0] is self.T and f.a[1] not in r:
                r.append(f.a[1])
        return r

    def loopvar(self, b):
        return [p for p in leaves(b) if p.op == "phi" and p.a[0] in self.recs]

    def at_part(self, b, key, m, n):
        """the position b of partition m, said with the values of partition n"""
        mp = {}
        for p in leaves(b):
            if p.op == "phi" and p.a[0] == key and p.a[1] == m.n:
                q = next((x for x in n.phis if x.a[2:] == p.a[2:]), None)
                if q is None:
                    return None
                mp[p] = q
        return subst(b, mp)

    def cover(self, st, a, b, white, hyps=(), seen=(), deep=0):
        self.budget -= 1
        if self.budget < 0 or deep > 8:
            return None
        if st.ask(le(b, a)) is True:
            return True
        if (a, b) in seen:
            return None
        seen = seen + ((a, b),)
        for x, y in hyps:
            if st.ask(eqi(a, x)) is True and y is not a:
                if y is b or self.cover(st, y, b, white, hyps, seen, deep + 1):
                    return True
        for n in self.steps(st, a, white):
            if st.ask(le(n, b)) is True and (n is b or self.cover(st, n, b, white, hyps, seen, deep + 1)):
                return True
        for m in self.mids(st, b):
            if self.loopvar(m) and (m is b or st.ask(le(m, b)) is True) and m is not a and self.induct(st, a, m, white, hyps, deep):
                if m is b or self.cover(st, m, b, white, hyps, seen, deep + 1):
                    return True
        return None

    def induct(self, st, a, b, white, hyps, deep):
        """[a, b) by induction over a loop whose values b is made of"""
        for key in dict.fromkeys(p.a[0] for p in self.loopvar(b)):
            rec, pn = self.recs[key]
            m = next((q for q in rec.parts if q.n == pn), None)
            if m is None or any(p.op == "phi" and p.a[0] == key for p in leaves(a)):
                continue
            if any((key, b) == x for x in getattr(self, "busy", ())):
                continue
            self.busy = getattr(self, "busy", ()) + ((key, b),)
            try:
                if self._induct(st, a, b, white, hyps, deep, key, rec, m):
                    return True
            finally:
                self.busy = self.busy[:-1]
        return None

    def _induct(self, st, a, b, white, hyps, deep, key, rec, m):
        at = {}
        for q in rec.parts:
            at[q.n] = self.at_part(b, key, m, q)
        base = True
        for q in rec.parts:
            if q.init is not None:
                if at[q.n] is None:
                    return None
                b0 = subst(at[q.n], {p: v for p, v in q.init.items()})
                if not self.cover(st, a, b0, white, hyps, (), deep + 1):
                    base = False
        if not base:
            return None
        for f, t, s, v in rec.backs:
            if at[t.n] is None:
                return None
            if v is None:
                return None
            b1 = subst(at[t.n], v)
            hy = hyps + (((a, at[f.n]),) if at[f.n] is not None else ())
            self.learn(Resolver(s))
            start = at[f.n] if at[f.n] is not None else a
            if s.ask(eqi(start, b1)) is True:
                continue
            if not self.cover(s, a, b1, white, hy, (), deep + 1):
                return None
        return True

    def beyond(self, st, x, y):
        """x < y by induction over the loop y is made of"""
        for key in dict.fromkeys(p.a[0] for p in self.loopvar(y)):
            if any(p.op == "phi" and p.a[0] == key for p in leaves(x)):
                continue
            rec, pn = self.recs[key]
            m = next((q for q in rec.parts if q.n == pn), None)
            at = {q.n: self.at_part(y, key, m, q) for q in rec.parts} if m else {}
            if not at or any(v is None for v in at.values()):
                continue
            if all(q.init is None or st.ask(lt(x, subst(at[q.n], dict(q.init)))) is True for q in rec.parts) and \
                    all(v is not None and self.after(s, x, at[f.n], subst(at[t.n], v)) for f, t, s, v in rec.backs):
                return True
        return None

    def after(self, s, x, y, y2):
        z = s.copy()
        z.facts = s.facts.copy()
        z.know(lt(x, y))
        return z.ask(lt(x, y2)) is True

    def refute(self, st, a, b, white):
        """is there a character of the wrong class in a region of understood positions?"""
        for n in range(12):
            if st.ask(lt(a, b)) is not True:
                if possible(st, [lt(a, b)]) is not True:
                    return None
            c = char_at(self.T, a)
            k = self.cls(st, c, white)
            if k is False:
                return True
            if k is None:
                w = mk("cls", "is_whitespace", c)
                for s in under(st, [lt(a, b), not_(w) if white else w]):
                    if not s.facts.inconsistent():
                        return True
                return None
            nx = self.steps(st, a, white)
            if not nx:
                return None
            a = nx[0]
        return None


def under(st, goals):
    ss = [st]
    for g in goals:
        ss = [y for x in ss for y in x.assume(g)]
    return ss


def understood(st, *ts):
    return all(unphied(t) for t in ts)


def unphied(t):
    return not any(l.op == "phi" for l in leaves(t))


def spec_next(lib, lay):
    ti, pi, fi = lay

    def spec(r):
        it = r.before(0)
        st = r.st
        T, cur = fld(it, 0, ti), fld(it, 0, pi)
        flag = fld(it, 0, fi) if fi is not None else FALSE
        af = value(st, r.run.args[0], r.run.eng)
        T2, cur2 = fld(af, 0, ti), fld(af, 0, pi)
        flag2 = fld(af, 0, fi) if fi is not None else FALSE
        v = r.raw
        if consistent(st) is False:
            return True
        if T2 is not T:
            return None, "the text of the iterator changes"
        if v.op != "adt":
            return None, "neither a token nor none"
        end = len_(T)
        full = r.peeled and understood(st, v, af) and all(x.op in KNOWN for f in st.facts.all() for x in walk(f))
        C = Cover(r.R, T)

        def region(a, b, white, what):
            if a is b or C.cover(st, a, b, white):
                return True, ""
            if full and C.refute(st, a, b, white):
                return False, what
            C.budget = 400
            return None, "not known: " + what
        if len(v.a) == 2:
            return region(cur, end, True, "the tokens end although there is more text")
        tt = tokentext(lib, v.a[2])
        if tt is None:
            return None, "the text of a token is not known"
        fb = st.ask(flag) if flag not in (TRUE, FALSE) else flag is TRUE
        if tt.op == "str" and tt.a[0] == "" or tt is EMPTY:
            x = y = None
        else:
            g = C.region(tt)
            if g is None:
                if tt.op == "str":
                    return False, "the token %r is not a piece of the text" % tt.a[0]
                return None, "a token that is no piece of the text"
            x, y = g
        verd = []
        nonempty = x is not None and st.ask(lt(x, y))
        if x is not None and nonempty is False and st.ask(le(y, x)) is False:
            return True     # cannot happen
        if x is not None and nonempty is not True and C.beyond(st, x, y):
            nonempty = True
        if x is None or nonempty is False:
            if fb is not True:
                return (False if full and possible(st, [not_(flag)]) is True else None), "an empty token before the end of the text"
            verd.append(region(cur, cur2, True, "the end marker swallows text") if cur2 is not cur else (True, ""))
            f2 = flag2 if flag2 in (TRUE, FALSE) else None
            if flag2 is TRUE or st.ask(flag2) is True:
                return False, "the end marker is repeated for ever"
            if flag2 is not FALSE and st.ask(flag2) is not False:
                verd.append((None, "the end marker may be repeated"))
        else:
            if nonempty is not True:
                if full and possible(st, [le(y, x)]) is True:
                    return False, "an empty token inside the text"
                verd.append((None, "the token may be empty"))
            if fb is True:
                return None, "text after the end marker"
            verd.append(region(cur, x, True, "text before a token is skipped"))
            verd.append(region(x, y, False, "a token contains whitespace"))
            if st.ask(le(y, cur2)) is not True:
                if full and possible(st, [lt(cur2, y)]) is True:
                    return False, "part of a token is read again"
                verd.append((None, "the next position may lie before the end of the token"))
            verd.append(region(y, cur2, True, "text after a token is skipped"))
            set_ = flag2 is TRUE or flag2 is not FALSE and st.ask(flag2) is not False and st.ask(eq(flag2, flag)) is not True and flag2 is not flag
            if set_ and st.ask(le(end, cur2)) is not True:
                verd.append((False if full and possible(st, [lt(cur2, end)] + ([] if flag2 is TRUE else [flag2])) is True else None, "an empty token before the end of the text"))
        for x in verd:
            if x[0] is False:
                return x
        for x in verd:
            if x[0] is None:
                return x
        return True
    return spec


def spec_new(lib, lay):
    ti, pi, fi = lay

    def spec(r):
        v = r.ret
        ok = same(r.st, fld(v, 0, ti), r.run.args[0])
        if ok is not True:
            return None, "the text is not the given one"
        z = r.st.ask(eqi(fld(v, 0, pi), ZERO))
        f = fld(v, 0, fi) if fi is not None else FALSE
        if z is False or f is TRUE:
            return False, "tokenising does not start at the beginning of the text"
        if f is not FALSE:
            return None, "flag"
        return z, ""
    return spec


# ---------------------------------------------------------------- one symbol per token
def named(name, info=None):
    return name == "symbols::get_code"


def kinds(lib):
    """(field of the kind in a token, number of the terminator)"""
    fs = fieldsof(lib, "parser::token::Token")
    for i, t in enumerate(fs or ()):
        if t["k"] == "adt" and t["adt"] == "parser::token::TokenKind":
            for n, v in enumerate(t["variants"]):
                if v["n"].lower().startswith("termin"):
                    return i, n
    return None


def spec_parse(lib):
    ki, term = kinds(lib)

    def spec(r):
        v = r.ret
        st = r.st
        if v.op != "adt":
            return None, "not a result"
        if v.a[1] == 1:
            return True
        S = getter(lib, "strings::ProductionString::symbols", v.a[2])
        if S is None:
            return None, "the symbols of the string are not known"
        # the sequence of tokens
        tok = []
        for f in list(st.facts.all()) + [S] + [e[2] for e in st.events() if e[0] == "opaque"]:
            for x in walk_all(f):
                if x.op == "iterseq" and x not in tok:
                    tok.append(x)
        for e in st.events():
            if e[0] == "loop":
                for f, t, s, vs in e[1].backs:
                    for z in (vs or {}).values():
                        for x in walk_all(z):
                            if x.op == "iterseq" and x not in tok:
                                tok.append(x)
        if not tok:
            # nothing was read
            return None, "tokens not seen"
        if len(tok) != 1:
            return None, "several token sequences"
        tok = tok[0]
        src = tok.a[0]
        new = getter(lib, ITER + "::<'a>::new", r.run.args[0]) or getter(lib, ITER + "::new", r.run.args[0])
        if new is not src:
            lay = layout(lib)
            if lay is None or src.op != "adt":
                return None, "the tokens of something else"
            if not (fld(src, 0, lay[0]) is r.run.args[0] and fld(src, 0, lay[1]) is ZERO):
                return None, "the tokens of something else"

        def isterm(i):
            return isv(fld(elem(tok, i), 0, ki), term)

        def sym(i):
            return fld(fld(mk("call", "symbols::get_code", tokentext(lib, elem(tok, i))), 0, 0), 0, 0)

        def issym(s, x, i):
            """x is the symbol of token i"""
            want = mk("call", "symbols::get_code", tokentext(lib, elem(tok, i)))
            for y in walk_all(x):
                if y.op == "call" and y.a[0] == "symbols::get_code":
                    if y is want:
                        return True
                    z = y.a[1]
                    if z.op == "fld" and z.a[0].op == "elem" and z.a[0].a[0] is tok:
                        return s.ask(eqi(z.a[0].a[1], i))
                    return None
            return None
        n = len_(tok)
        k = constlen(st, S) if r.peeled else None
        if k is not None and unphied(S):
            for i in range(k):
                q = issym(st, elem(S, INT(i)), INT(i))
                if q is not True:
                    return q, "symbol number %d is not that of token number %d" % (i, i)
                if possible_kind(st, isterm(INT(i))):
                    return False, "a symbol is read after the terminator"
            if st.ask(isterm(INT(k))) is True or st.ask(le(n, INT(k))) is True:
                return True
            for s in under(st, [lt(INT(k), n), not_(isterm(INT(k)))]):
                if not s.facts.inconsistent():
                    return False, "token number %d has no symbol although no terminator came before" % k
            return None, ""
        if S.op == "mapseq" and S.a[0] is tok:
            b = S.a[1]
            if issym(st, S.a[2], b) is not True:
                return None, "not one symbol for each token"
            j = typed(mk("sym", "free", "j", "arg", 0), "usize")
            s = st.copy()
            s.facts = s.facts.copy()
            s.know(le(ZERO, j))
            s.know(lt(j, n))
            s = instantiate(s, tok, j)
            if s is None or s.ask(isterm(j)) is False:
                return True
            return None, "tokens after a terminator"
        # appended to on every pass of a loop
        l = S
        if l.op == "phi":
            i = r.R.info(l.a[0], l.a[1])
            if i and i[3] is not None:
                rec, q, ent, p, c0, selfs = i
                if ent.get(l) is EMPTY and c0 is ZERO and all(
                        v2.get(l) is not None and v2[l].op == "cat" and len(v2[l].a) == 2 and v2[l].a[0] is l and v2[l].a[1].op == "lst" and len(v2[l].a[1].a) == 1
                        and issym(s2, v2[l].a[1].a[0], p) is True and s2.ask(isterm(p)) is False for s2, v2 in selfs):
                    if st.ask(isterm(p)) is True or st.ask(le(n, p)) is True:
                        return True
                    return None, "not known why reading stops"
        return None, "the symbols are not understood"
    return spec


def possible_kind(st, b):
    if st.ask(b) is False:
        return False
    return any(not s.facts.inconsistent() for s in st.assume(b))


def walk_all(t):
    if isinstance(t, T):
        yield from walk(t)
    elif isinstance(t, (tuple, list)):
        for x in t:
            yield from walk_all(x)


def check_C30(lib, bn):
    c = Check("C30", "proof",
              "tokenising as a relation between the positions before and after each token: the skipped regions are whitespace, the token is a non-empty region without whitespace "
              "(loop regions by induction over the passes), the end marker only at the end; parsing a string takes one symbol per token up to the first terminator",
              ["the text of a token iterator is not changed between two tokens (the field is public)",
               "std::str::char_indices, slicing and char::is_whitespace behave as documented"])
    lay = layout(lib)
    if NEXT not in lib.fns or lay is None:
        c.undecided("tokens", "", "the token iterator is laid out in an unknown way")
    else:
        decide(c, "next", lib, NEXT, spec_next(lib, lay), where=loc(lib, NEXT), text="every token is the next piece of the text without whitespace", peel=5)
    for p in lib.fns:
        if p.endswith("TokenIterator::<'a>::new") and rootpath(lib, p) and lay:
            decide(c, "new", lib, p, spec_new(lib, lay), where=loc(lib, p), text="tokenising starts at the beginning")
    p = "parser::parse_prod_string"
    if rootpath(lib, p) and kinds(lib):
        decide(c, "parse", lib, p, spec_parse(lib), where=loc(lib, p), text="one symbol for every token before the first terminator", opaque=named, peel=4)
    else:
        c.undecided("parse", "", "no function reads production strings")
    c.floor("functions that tokenise and parse", len([q for q in (NEXT, p) if q in lib.fns]), 1)
    return c.finish()
