"""C28: the vocabulary of the turtle, systems of families, families as defined."""
import itertools
from ..absdom import Facts
from ..models import EMPTYMAP, trimmed
from ..rel import *
from ..report import Check
from ..sym import analyse
from ..terms import *
from ..facts import norm
from . import turtle
from .deriving import field
from ..textwit import Unknown, ev
from .registers import TEXTS, holds, sametext

FAM = "system::family::SystemFamily"
BLD = "system::family::Builder"
DSC = "system::family::SymbolDescription"
VOCAB = "interpretation::abop::abop_family"
SYSTEM = "<%s as interpretation::Interpretation>::system" % turtle.TURTLE
OF = "system::System::of_family"
GET = "system::family::get_or_init_family"
RES = "std::result::Result"
LISTS = ("terminals", "productions")


def adt_of(t, name):
    return t.op == "adt" and t.a[0] == name


def own_from_iter(lib):
    """the crate's own way of making a map of descriptions, if there is one"""
    for p, f in lib.fns.items():
        if f.get("impl_trait") and norm(f["impl_trait"]).split("<")[0] == "std::iter::FromIterator" and f["name"] == "from_iter" and "SymbolDescription" in p:
            return p
    return None


def pair(lib, x):
    """(key, value) that an element of a collected sequence gives"""
    if x.op == "tup" and len(x.a) == 2:
        return x.a
    if own_from_iter(lib):
        return field(lib, DSC, "name", x), x
    return None


def entries(lib, st, m):
    """[(key, value)] of a map, in order of insertion; None if not known"""
    if m is EMPTYMAP:
        return []
    if m.op == "mapput":
        e = entries(lib, st, m.a[0])
        return None if e is None else e + [(m.a[1], m.a[2])]
    if m.op == "mapof":
        n = constlen(st, m.a[0], 12)
        if n is None:
            return None
        out = []
        for i in range(n):
            x = pick(st, m.a[0], i)
            p = pair(lib, x) if x is not None else None
            if p is None or p[0] is None:
                return None
            out.append(p)
        return out
    return None


def part(lib, x, name, adt=FAM):
    return field(lib, adt, name, x)


def understood(st):
    return not any(l.op == "phi" or l.op == "sym" and "arg" not in l.a and "locked" not in l.a for f in st.facts.all() for l in leaves(f))


# ---------------------------------------------------------------- the vocabulary
def asked_names(lib):
    """({name: places}, problem): every name the interpretation looks for"""
    run = analyse(lib, turtle.RUN)
    if run.err:
        return None, run.err
    out = {}
    sts = [st for st, v in run.res]
    for rec in run.eng.recs:
        sts += [st for a, b, st, vals in rec.backs if st is not None]
    for st in sts:
        for n in turtle.lookups(st):
            out.setdefault(n, 0)
        for e in st.events():
            if e[0] in ("user", "opaque") and str(e[1]).endswith("::get_symbol"):
                t = turtle.text(e[2][-1])
                if t is None:
                    return None, "a name looked for is not a constant"
                out[t] = out.get(t, 0) + 1
    return out, ""


def vocabulary(c, lib):
    names, why = asked_names(lib)
    where = loc(lib, VOCAB)
    if names is None:
        c.undecided(VOCAB, where, why)
        return
    c.floor("names the interpretation looks for", len(names), 1)
    for peel in (0, 60):
        run = analyse(lib, VOCAB, peel=peel)
        c.fn(run.inst.name)
        known = not run.err and bool(run.res)
        missing = set()
        for st, v in run.res:
            fam = v
            es = []
            for l in LISTS:
                m = part(lib, fam, l)
                e = entries(lib, st, m) if m is not None else None
                if e is None:
                    known = False
                else:
                    es += e
            if known:
                got = [turtle.text(k) for k, x in es]
                if None in got:
                    known = False
                else:
                    missing |= set(names) - set(got)
        if known:
            for n in sorted(names):
                c.judge(n not in missing, "%s %r" % (VOCAB, n), where, "the symbol %r, which %s looks for, is%s defined by the family" % (n, turtle.RUN, " not" if n in missing else ""))
            return
    c.undecided(VOCAB, where, run.err or "the vocabulary is not known")


def spec_system(lib):
    """the system of the interpretation is one of the family defined by abop_family"""
    want = analyse(lib, VOCAB)

    def spec(r):
        if want.err or len(want.res) != 1:
            return None, "the vocabulary is not known"
        fam = want.res[0][1]
        v = r.raw
        calls = [e for e in r.st.events() if e[0] == "opaque" and e[1].split("::<")[0] == OF]
        if v.op == "call" and str(v.a[0]).split("::<")[0] == OF:
            given = v.a[1]
        elif len(calls) == 1:
            given = calls[0][2][0]
        elif v.op == "adt" and v.a[0] == RES and v.a[1] == 0 and not calls and not any(l.op in ("phi", "sym") and "locked" not in l.a for l in leaves(v)) and not r.run.eng.unmodelled:
            return False, "the system of the interpretation is not made of its family"
        else:
            return None, "no system of a family"
        if given.op == "adt" and given.a[0] == FAM:
            x = [same(r.st, fld(given, 0, i), y) for i, y in enumerate(fam.a[2:])]
            if conj(x) is True:
                return True
            names = [e for l in LISTS for e in (entries(lib, r.st, part(lib, given, l)) or [(None, None)])]
            if all(k is not None and turtle.text(k) is not None for k, e in names):
                have = {turtle.text(k) for k, e in names}
                need = {turtle.text(k) for l in LISTS for k, e in entries(lib, r.st, part(lib, fam, l)) or ()}
                if need - have:
                    return False, "the family the system is made of lacks %r" % sorted(need - have)[0]
                return True
            return None, "the family given is not known"
        key = given.a[1] if given.op == "mapget" else given
        if given.op in ("mapget",) and turtle.text(key) is not None:
            name = part(lib, fam, "name")
            if name is not None and turtle.text(name) is not None:
                if turtle.text(name) != turtle.text(key):
                    return None, "the family is looked up as %r but defined as %r" % (turtle.text(key), turtle.text(name))
                return True
        if turtle.text(given) is not None:
            return (None, "the family is only looked up")
        return None, "the family is not known"
    return spec


# ---------------------------------------------------------------- systems of families
def the_family(lib, st):
    """the family the argument turned out to be"""
    for e in st.events():
        if e[0] in ("user", "opaque") and str(e[1]).split("::<")[0].endswith("::into_family"):
            break
    else:
        return None, None
    seen = set()
    for f in st.facts.all():
        for x in walk(f, seen):
            if x.op == "sym" and any(str(y).endswith("into_family") for y in x.a):
                return fld(x, 0, 0), x
            if x.op == "call" and str(x.a[0]).split("::<")[0].endswith("::into_family"):
                return fld(x, 0, 0), x
    return None, None


def added(st):
    """[(system, name, result)] in order: the symbols added on a path"""
    return [e for e in st.events() if e[0] == "opaque" and "::add_symbol" in e[1]]


def add_symbol(name, info=None):
    return name.split("::<")[0].endswith(("::add_symbol", "::get_symbol"))


def asked_of(st, want):
    """[(position among the events, name, result)] of asking the system for a symbol"""
    out = []
    for n, e in enumerate(st.events()):
        if e[0] == "opaque" and e[1].split("::<")[0].endswith("::get_symbol"):
            res = mk("call", e[1], *e[2])
            v = {True: 1, False: 0}.get(st.ask(isv(res, 1)))
            if want is None or v == want:
                out.append((n, e[2][-1], v))
    return out


def store_semantics(st):
    """states in which the answers of a system that began empty are those of what was added to it"""
    out = [st]
    evs = list(st.events())
    for n, x, v in asked_of(st, None):
        before = [e[2][-1] for e in evs[:n] if e[0] == "opaque" and "::add_symbol" in e[1]]
        if v == 1:
            out = [z for y in out for b in before for z in y.assume(eq(x, b))]
        elif v == 0:
            for b in before:
                out = [z for y in out for z in y.assume(not_(eq(x, b)))]
        else:
            return None
    return out


def failing_add(st):
    """did adding a symbol fail?"""
    for f in st.facts.all():
        for x in walk(f):
            if x.op == "call" and "::add_symbol" in str(x.a[0]) and st.ask(isv(x, 1)) is True:
                return True
    return False


def spec_of(lib):
    def spec(r):
        st, v = r.st, r.raw
        fam, res = the_family(lib, st)
        if v.op != "adt" or v.a[0] != RES or fam is None:
            return None, "the result is not known"
        if v.a[1] == 1:
            if st.ask(isv(res, 1)) is True or failing_add(st):
                return True
            if not understood_of(st):
                return None, "fails for a reason of its own"
            x = consistent(st)
            return (False if x is True else None), "no system although the family is known and its symbols can be added"
        seqs = [typed(mk("mapvals", part(lib, fam, l)), "seq") for l in LISTS]
        if not r.peeled:
            if any(e[0] == "acq" for e in st.events()):
                return None, "the system is read besides its symbols"
            xs = [x for n, x, k in asked_of(st, None)]
            if len(xs) != len(set(xs)):
                return None, "a symbol is asked for more than once"
            for s in seqs:
                if not visited(lib, r, s):
                    return None, "not known that every symbol is added"
            return True
        return missing_add(lib, r, seqs)
    return spec


def understood_of(st):
    for f in st.facts.all():
        for l in leaves(f):
            if l.op == "phi":
                return False
        for x in walk(f):
            if x.op in ("pure", "iterseq"):
                return False
            if x.op == "sym" and "arg" not in x.a and not any(str(y).endswith("into_family") for y in x.a):
                return False
    return True


def name_of(lib, x):
    return field(lib, DSC, "name", x)


def visited(lib, r, s):
    """is the name of every element of the sequence added?"""
    st = r.st
    R = r.R
    for e in st.events():
        if e[0] != "loop":
            continue
        rec = e[1]
        q = rec.parts[e[2]] if isinstance(e[2], int) else rec.parts[0]
        if len(rec.parts) != 1:
            continue
        q = rec.parts[0]
        for p, i0 in (q.init or {}).items():
            if p not in q.phis or not isint(p) or i0 is not ZERO:
                continue
            # what the elements passed are: the position walks over a sequence that contains s
            ok, hi, whole_ = True, None, None
            for a, b, bs, vals in rec.backs:
                if vals is None or bs.ask(eqi(vals.get(p, p), addc(p, 1))) is not True:
                    ok = False
                    break
                inside = events_of(bs, rec)
                w = None
                for x in inside:
                    if x[0] == "opaque" and "::add_symbol" in x[1]:
                        w = over(lib, bs, x[2][-1], p, s) or w
                for n, x, k in asked_of(bs, 1):
                    if any(y[0] == "opaque" and y[2][-1] is x for y in inside):
                        w = over(lib, bs, x, p, s) or w
                if w is None:
                    ok = False
                    break
                if whole_ is not None and whole_ is not w:
                    ok = False
                    break
                whole_ = w
            if ok and whole_ is not None and st.ask(le(len_(whole_), p)) is True:
                return True
    return False


def events_of(st, rec):
    ev = list(st.events())
    for i in range(len(ev) - 1, -1, -1):
        if ev[i][0] == "loop" and ev[i][1] is rec:
            return ev[i + 1:]
    return []


def over(lib, st, name, p, s):
    """the sequence, containing s, whose element p has this name"""
    for x in walk(name):
        if x.op == "elem" and x.a[1] is p and name is name_of(lib, x):
            w = x.a[0]
            if w is s or w.op == "cat" and any(y is s for y in w.a):
                return w
    return None


def feasible(st, seqs):
    """consistent(), the values of the family's maps taken as any values"""
    m = {s: typed(mk("sym", "values", i, "arg"), tyof.get(s)) for i, s in enumerate(seqs)}
    for x in seqs:
        if x.op == "mapvals":
            m[mk("maplen", x.a[0])] = len_(m[x])
    out = st.copy()
    out.facts = Facts()
    for b in st.facts.all():
        if b.op == "allq":
            return None
        if any(x.op == "call" and str(x.a[0]).split("::<")[0].endswith("::get_symbol") for x in walk(b)):
            continue        # said by store_semantics()
        ss = out.assume(subst(settled(st, b), m))
        if len(ss) != 1:
            return False if not ss else None
        out = ss[0]
    return consistent(out)


def missing_add(lib, r, seqs):
    st = r.st
    if not understood_of(st):
        return None, ""
    if any(e[0] == "acq" for e in st.events()):
        return None, ""
    base = store_semantics(st)
    if base is None:
        return None, ""
    names = [e[2][-1] for e in added(st)]
    for n in ((1, 1), (0, 1), (1, 0), (2, 0), (0, 2), (1, 2), (2, 2), (2, 1)):
        ss = base
        for s, k in zip(seqs, n):
            ss = [z for y in ss for z in y.assume(eqi(len_(s), INT(k)))]
        mine = [name_of(lib, elem(s, INT(i))) for s, k in zip(seqs, n) for i in range(k)]
        for s, k in zip(seqs, n):
            for i, j in itertools.combinations(range(k), 2):
                ss = [z for y in ss for z in y.assume(not_(eq(name_of(lib, elem(s, INT(i))), name_of(lib, elem(s, INT(j))))))]
        for s1 in ss:
            s2 = settle(s1)
            if s2 is None or consistent(s2) is False:
                continue
            got = [settled(s2, x) for x in names]
            if not all(x in mine for x in got):
                continue
            for w in mine:
                s3 = [s2]
                for x in got:
                    s3 = [z for y in s3 for z in y.assume(not_(eq(x, w)))] if x is not w else []
                if any(feasible(z, seqs) is True for z in s3):
                    return False, "a system of a family with %d terminals and %d production symbols does not know one of them" % n
    return None, ""


# ---------------------------------------------------------------- families as defined
def samename(st, got, want, arg):
    """True, False (an example text), None"""
    x = sametext(st, got, want, arg)
    return x if x is True or x is None else False


def spec_with(lib, mine):
    other = LISTS[1 - LISTS.index(mine)]

    def spec(r):
        st, v = r.st, r.ret
        b0 = r.before(0)
        if v.op == "adt" and v.a[0] != BLD or v.op not in ("adt", "sym"):
            return None, "the builder is not known"
        o = same(st, part(lib, v, other, BLD), part(lib, b0, other, BLD))
        got, old = part(lib, v, mine, BLD), part(lib, b0, mine, BLD)
        if got is None or old is None:
            return None, "the lists of the builder are not known"
        typed(old, "seq")
        name, given = text_of(r, 1), r.before(2)
        some = st.ask(isv(given, 1))
        alts = [st] if some is not None else [s for x in (0, 1) for s in st.assume(isv(given, x))]
        out = []
        for s in alts:
            out.append(one(r, s, got, old, name, given))
        if o is not True:
            if o is False and understood(st):
                return False, "the other kind of symbols changes"
            return None, "not known whether the other kind of symbols stays"
        return conj(out), "what is added is not the symbol as given"

    def one(r, s, got, old, name, given):
        if got.op == "cat" and got.a[0] is old and len_(cat(*got.a[1:])) is ONE:
            x = elem(cat(*got.a[1:]), ZERO)
        elif got is old:
            return False if understood(s) and feasible(s, [name]) is True else None
        else:
            return None
        if x.op != "adt" or x.a[0] != DSC:
            return None
        a = samename(s, part(lib, x, "name", DSC), name, name)
        d = part(lib, x, "description", DSC)
        if s.ask(isv(given, 1)) is True:
            t = view(fld(given, 1, 0))
            b = s.ask(isv(d, 1))
            if b is True:
                b = samename(s, fld(d, 1, 0), t, t)
            elif b is False:
                b = False if any(t in set(walk(f)) for f in s.facts.all()) is False else example_for(s, t)
        else:
            b = s.ask(isv(d, 0))
        return conj((a, b))
    return spec


def example_for(st, t):
    lits = [f for f in st.facts.all() if t in set(walk(f))]
    return False if any(all(holds(f, {t: x.encode()}) for f in lits) for x in TEXTS) else None


def plainly(st):
    """no conditions on what is given, but its being there"""
    return all(f.op in ("indom", "notindom", "isv") or not any(l.op == "sym" and "arg" in l.a for l in leaves(f)) or f.op == "le0" for f in st.facts.all())


def view(x):
    return typed(mk("view", x), "str") if tyof.get(x) != "str" else x


def text_of(r, i):
    """the text of an `AsRef<str>` argument"""
    a = r.before(i)
    return a if tyof.get(a) == "str" else view(a)


def spec_build(lib):
    def spec(r):
        st, v = r.st, r.raw
        name, b0 = text_of(r, 1), r.before(0)
        blank = eqi(len_(trimmed(name)), ZERO)
        if v.op != "adt" or v.a[0] != RES:
            return None, "the result is not known"
        if v.a[1] == 1:
            if st.ask(blank) is True:
                return True
            return wrong(st, name, False, "a family with the name %r cannot be defined")
        if st.ask(blank) is not False:
            x = wrong(st, name, True, "a family with the blank name %r can be defined")
            return x
        fam = v.a[2]
        n = samename(st, part(lib, fam, "name"), name, name)
        out = [n] + [listed(r, part(lib, fam, l), typed(part(lib, b0, l, BLD), "seq")) for l in LISTS]
        y = conj(out)
        return y, "the family does not have %s it was defined with" % ("the name" if n is not True else "the symbols")

    def wrong(st, name, blank, text):
        if not understood(st):
            return None, text % "?"
        for x in TEXTS + ["\u2003", "\t\n", "Fam", "a b", "\u00e9", "x" * 300]:
            if (not x.strip()) != blank:
                continue
            if all(holds(f, {name: x.encode()}) and not any(y.op in ("has", "call", "mapget") for y in walk(f)) for f in st.facts.all() if name in set(walk(f))) and \
                    consistent(st) is not False:
                rest = [f for f in st.facts.all() if name not in set(walk(f))]
                if all(plainfact(f) for f in rest):
                    return False, text % x
        return None, text % "?"

    def plainfact(f):
        return f.op in ("indom", "notindom", "isv", "le0")

    def listed(r, m, s):
        """is the map that of the list's symbols by name?"""
        st = r.st
        if m is None:
            return None
        if m.op == "mapof":
            q = m.a[0]
            if q is s:
                return True if own_from_iter(lib) else None
            if st.ask(eqi(len_(q), len_(s))) is True:
                j = typed(mk("bv", 961), "usize")
                z = st.copy()
                z.facts = st.facts.copy()
                z.know(le(ZERO, j))
                z.know(lt(j, len_(s)))
                p = pair(lib, elem(q, j))
                x = elem(s, j)
                if p is not None and same(z, p[0], name_of(lib, x)) is True and same(z, p[1], x) is True:
                    return True
        verd = None
        for k in (1, 0, 2):
            for z in st.assume(eqi(len_(s), INT(k))):
                z = settle(z)
                if z is None or consistent(z) is False or not understood(z):
                    continue
                es = entries(lib, z, settled(z, r.R(m)))
                if es is None:
                    continue
                want = [elem(s, INT(i)) for i in range(k)]
                if k == 2:
                    zz = z.assume(not_(eq(name_of(lib, want[0]), name_of(lib, want[1]))))
                    if not zz:
                        continue
                    z = zz[0]
                if len(es) != len(want) and len({id(a) for a, b in es}) == len(es):
                    return False
                if len(es) == len(want):
                    for perm in itertools.permutations(es):
                        x = conj(conj((same(z, a, name_of(lib, w)), same(z, b, w))) for (a, b), w in zip(perm, want))
                        if x is not False:
                            break
                    else:
                        return False
        return verd
    return spec


def merged(key, name):
    """two names with the same key"""
    if key is name or any(l.op in ("phi", "sym") and l not in set(leaves(name)) for l in leaves(key)):
        return None
    seen = {}
    for t in ["a", "A", " a", "a ", "ab", "a b", "aa", "\u00e9", "\u00c9", "a1", "abcdefghijkl", "abcdefghijkm", "["]:
        try:
            k = ev(key, {name: t.encode()})
        except (Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
            return None
        if k in seen:
            return seen[k], t
        seen[k] = t
    return None


def spec_from_iter(lib):
    """the map made of descriptions has each under its name"""
    def spec(r):
        st, v = r.st, r.raw
        if r.peeled:
            return small(r)
        m = v
        if m.op == "mapof":
            src = {x for x in walk(m) if x.op == "iterseq"}
            if len(src) == 1:
                q, src = m.a[0], src.pop()
                if st.ask(eqi(len_(q), len_(src))) is True:
                    j = typed(mk("bv", 962), "usize")
                    z = st.copy()
                    z.facts = st.facts.copy()
                    z.know(le(ZERO, j))
                    z.know(lt(j, len_(src)))
                    x, w = elem(q, j), elem(src, j)
                    if x.op == "tup" and len(x.a) == 2 and same(z, x.a[0], name_of(lib, w)) is True and same(z, x.a[1], w) is True:
                        return True
        if m.op != "phi":
            return None, "the map is not made by walking over the descriptions"
        for e in st.events():
            if e[0] != "loop":
                continue
            rec = e[1]
            if len(rec.parts) != 1 or m not in rec.parts[0].phis or rec.parts[0].init.get(m) is not EMPTYMAP:
                continue
            q = rec.parts[0]
            for p, i0 in q.init.items():
                if p in q.phis and isint(p) and i0 is ZERO:
                    s = None
                    ok = True
                    for a, b, bs, vals in rec.backs:
                        x = vals and vals.get(m)
                        if x is not None and x.op == "mapput" and x.a[0] is m and x.a[2].op == "elem" and x.a[2].a[1] is p:
                            w = merged(x.a[1], name_of(lib, x.a[2]))
                            if w:
                                return False, "symbols named %r and %r become one" % w
                        if x is None or bs.ask(eqi(vals.get(p, p), addc(p, 1))) is not True:
                            ok = False
                            break
                        if x.op == "mapput" and x.a[0] is m and x.a[2].op == "elem" and x.a[2].a[1] is p and same(bs, x.a[1], name_of(lib, x.a[2])) is True and s in (None, x.a[2].a[0]):
                            s = x.a[2].a[0]
                        elif x is m and s is not None and bs.ask(mk("has", m, name_of(lib, elem(s, p)))) is True:
                            pass        # one of several descriptions of a symbol
                        else:
                            ok = False
                            break
                    if ok and s is not None and s.op == "iterseq" and st.ask(le(len_(s), p)) is True:
                        return True
        return None, "not every description is put under its name"

    def small(r):
        st = r.st
        s = None
        for f in list(st.facts.all()) + [r.ret]:
            for x in walk(f):
                if x.op == "iterseq":
                    s = x
        if s is None:
            return None, ""
        for f in st.facts.all():
            if any(l.op == "phi" or l.op == "sym" and "arg" not in l.a and not any(str(y).endswith("into_iter") for y in l.a) for l in leaves(f)):
                return None, ""
        n = constlen(st, s, 4)
        es = entries(lib, st, r.ret)
        if n is None or es is None or consistent(st) is False:
            return None, ""
        want = [elem(s, INT(i)) for i in range(n)]
        ss = [st]
        for a, b in itertools.combinations(want, 2):
            ss = [z for y in ss for z in y.assume(not_(eq(name_of(lib, a), name_of(lib, b))))]
        for z in ss:
            if len(es) != len(want):
                return False, "of %d descriptions %d are kept" % (len(want), len(es))
            x = conj(conj((same(z, a, name_of(lib, w)), same(z, b, w))) for (a, b), w in zip(es, want))
            if x is False:
                return False, "a description is kept under another name"
        return None, ""
    return spec


def spec_view(lib, names):
    """the symbols of a family: those of the given kinds"""
    def spec(r):
        v, f = r.ret, r.before(0)
        ms = [part(lib, f, n) for n in LISTS]
        seqs = [typed(mk("mapvals", m), "seq") for m in ms]
        s = None
        if v.op == "it":
            s = v.a[0]
        if s is None or len(v.a) < 3 or v.a[1] is not ZERO or r.st.ask(eqi(v.a[2], len_(s))) is not True:
            return small(r, v, seqs)
        parts = list(s.a) if s.op == "cat" else [s]
        want = [x for x, n in zip(seqs, LISTS) if n in names]
        if sorted(map(id, parts)) == sorted(map(id, want)):
            return True
        st = r.st
        if not understood(st):
            return None, "the symbols given are not known"
        for a, b in itertools.product((0, 1, 2, 3, 64, 300), repeat=2):
            env = {}
            for m, q, k in zip(ms, seqs, (a, b)):
                env.update({len_(q): k, mk("maplen", m): k})
            try:
                if all(ev(f, env) is True for f in st.facts.all()):
                    n = sum(ev(len_(x), env) for x in parts)
                    w = sum(k for k, x in zip((a, b), LISTS) if x in names)
                    if n != w:
                        return False, "of the symbols of a family with %d terminals and %d production symbols %d are given instead of %d" % (a, b, n, w)
            except (Unknown, IndexError, TypeError, ValueError, AttributeError):
                return None, "the symbols given are not known"
        return None, "the symbols given are not known"

    def small(r, v, seqs):
        return None, "the symbols given are not known"
    return spec


def spec_define(lib):
    def spec(r):
        v = r.ret
        if v.op != "adt" or v.a[0] != BLD:
            return None, ""
        return conj(part(lib, v, l, BLD) is EMPTY or (False if part(lib, v, l, BLD) is not None and part(lib, v, l, BLD).op == "lst" else None) for l in LISTS), "a definition does not begin without symbols"
    return spec


def spec_name(lib):
    def spec(r):
        return same(r.st, r.ret, part(lib, r.before(0), "name")), "not the name of the family"
    return spec


def check_C28(lib, bn):
    c = Check("C28", "proof",
              "Table comparison: the names the interpretation looks up on any path against the names the family's definition ends up with; relational abstract interpretation of the making of systems of families "
              "(every symbol of both kinds visited and added) and of the definition of families (each step appends the symbol as given, the family has the symbols by name, blank names are refused)",
              ["when a symbol is defined twice, either description may stay", "std's maps and iterators behave as documented"])
    n = 0
    for p in (turtle.RUN, VOCAB):
        n += bool(rootpath(lib, p))
    c.floor("interpretation and vocabulary", n, 2)
    if n == 2:
        vocabulary(c, lib)
    todo = [(SYSTEM, spec_system(lib) if n == 2 else None, dict(opaque=lambda name, i=None: name.split("::<")[0] == OF, peel=0), "the interpretation's system is one of the ABOP family"),
            (OF, spec_of(lib), dict(opaque=add_symbol), "a system of a family knows all its symbols"),
            (BLD + "::with_terminal", spec_with(lib, "terminals"), {}, "a terminal is added as given"),
            (BLD + "::with_production", spec_with(lib, "productions"), {}, "a production symbol is added as given"),
            (BLD + "::build", spec_build(lib), {}, "the family has the name and the symbols it was defined with"),
            (FAM + "::define", spec_define(lib), {}, "a definition begins without symbols"),
            (FAM + "::name", spec_name(lib), {}, "the name of a family"),
            (FAM + "::terminals", spec_view(lib, LISTS[:1]), {}, "the terminals of a family"),
            (FAM + "::productions", spec_view(lib, LISTS[1:]), {}, "the production symbols of a family"),
            (FAM + "::symbols", spec_view(lib, LISTS), {}, "all symbols of a family")]
    k = 0
    for p, f, kw, text in todo:
        if f is None or not rootpath(lib, p):
            continue
        k += 1
        decide(c, p, lib, p, f, where=loc(lib, p), text=text, **kw)
    f = own_from_iter(lib)
    if f:
        decide(c, f, lib, f, spec_from_iter(lib), where=loc(lib, f), text="every description is kept under its name")
    c.floor("operations on families", k, 8)
    return c.finish()
