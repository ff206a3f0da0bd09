"""C05, C06, C07: the registers of names, codes and families.

A register is only ever seen through a guard; what other threads did meanwhile is the content found by
the next guard, which is unknown. What a guarded section does for every content it may find holds for
every interleaving of such sections."""
import json

from ..graph import Graph
from ..models import mk_has, mapget
from ..rel import *
from ..report import Check
from ..sym import analyse
from ..terms import *
from ..textwit import Unknown, around, ev
from .adding import gave

GET_CODE, GET_NAME = "symbols::get_code", "symbols::get_name"
FAM = "system::family::"
TEXTS = ["a", " a", "a ", " a b ", "A", "aA", "a-b", "\t a", "é", "", " ", "#", "x\ny", "\u00a0z", "a" * 70]


# ---------------------------------------------------------------- what a path does to the registers
class Section:
    """one guard of a path"""

    def __init__(self, run, st, at, e):
        self.g, self.before, self.at = e[1], e[2], at
        self.mode, self.ref, self.lock = e[1].a[0], e[1].a[1], e[1].a[2]
        self.rel = next((i for i, x in enumerate(st.events()) if x[0] == "rel" and x[1] is e[1]), None)
        self.after = run.eng.get(st, self.ref.a[0], ())
        self.st = st

    def puts(self):
        """[(map, key, value)] in order, None if more than single insertions happened to the map"""
        out, m = [], self.after
        while m is not self.before:
            if m.op != "mapput":
                return None
            out.append(m.a)
            m = m.a[0]
        return out[::-1]

    def lost(self):
        return any(x.op == "mapless" for x in walk(self.after))


def sections(r, lock=None):
    return [Section(r.run, r.st, i, e) for i, e in enumerate(r.st.events()) if e[0] == "acq" and (lock is None or e[1].a[2] is lock)]


def locks(lib, p, mode=None):
    """the locks a function takes itself or through others"""
    if not rootpath(lib, p):
        return set()
    r = analyse(lib, p)
    if r.err:
        return set()
    return {e[1].a[2] for st, v in r.res for e in st.events() if e[0] == "acq" and (mode is None or e[1].a[0] == mode)}


def sametext(st, a, b, *texts, names=False):
    """True if two texts are the same, an example text for which they differ, None"""
    if a is b or st.ask(eq(a, b)) is True:
        return True
    lits = list(st.facts.all())
    for s in TEXTS + around(a, b, *lits):
        if names and (not s or s != s.strip()):
            continue        # what is registered is a name without surrounding whitespace
        env = {t: s.encode() for t in texts}
        if not all(holds(f, env) for f in lits):
            continue
        try:
            x, y = ev(a, env), ev(b, env)
        except (Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
            continue
        if x != y:
            return s
    return None


def holds(f, env):
    """conditions about anything else are free"""
    try:
        return ev(f, env) is True
    except (Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
        return not any(t in env for t in walk(f)) or any(x.op in ("has", "call", "isv", "mapget") for x in walk(f))


def surely(f, arg, t):
    try:
        return ev(f, {arg: t.encode()}) is True
    except (Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, AttributeError):
        return any(x.op in ("has", "isv") for x in walk(f)) or arg not in list(walk(f)) and not any(l.op == "phi" for l in leaves(f))


def known(st):
    return consistent(st) is not False and not any(l.op == "phi" for f in st.facts.all() for l in leaves(f))


def foreseen(k):
    """made of arguments, contents of registers and whatever the caller's own functions return"""
    return all(l.op != "phi" and (l.op != "sym" or "arg" in l.a or "locked" in l.a or "callret" in l.a) for l in leaves(k))


def only_adds(r, s, what):
    """the guarded section adds new keys and nothing else"""
    st = r.st
    if s.lost():
        return (False, "%s are removed from the register" % what) if known(st) else (None, "something is removed")
    ps = s.puts()
    if ps is None:
        return None, "not known what happens to the register"
    for m, k, v in ps:
        h = st.ask(mk_has(m, k))
        if h is False:
            continue
        if v is mapget(m, k):
            continue
        if s.mode == "w" and known(st) and foreseen(k):
            return False, "an entry is written although the register may have one for that key already (not looked up under the same guard)"
        return None, "not known whether the key is new"
    return True, ""


# ---------------------------------------------------------------- codes
def uses(lib, name):
    return [n for n, i in sorted(lib.insts.items()) if i.local and '"%s"' % name in json.dumps(i.blocks)]


class Codes:
    def __init__(self, lib):
        self.lib = lib
        self.names = locks(lib, GET_NAME)
        self.codes = locks(lib, GET_CODE) - self.names
        self.ok = len(self.names) == 1 and len(self.codes) == 1
        if self.ok:
            self.name, self.code = next(iter(self.names)), next(iter(self.codes))


def normal(name):
    return mk("trim", "trim", name)


def handed(r, K):
    """(code handed out, section and entry that make it known); None if the call fails"""
    g = gave(r.ret)
    return g


def spec_code(K):
    def spec(r):
        st = r.st
        arg = r.run.args[0]
        N = normal(arg)
        ss = sections(r, K.code)
        for s in ss:
            v = only_adds(r, s, "codes")
            if v[0] is not True:
                return v
        g = gave(r.ret)
        if g is None:
            return None, "neither a code nor an error"
        for s in ss:
            for m, k, v in s.puts():
                w = sametext(st, k, N, arg)
                if w is not True:
                    return (None if w is None or not clean(k) else False), "the code of %r is registered under another name than the one without surrounding whitespace" % w
        if g[0] is None:
            if st.ask(le(len_(typed(N, "str")), ZERO)) is True:
                return True
            w = next((t for t in TEXTS if t.strip() and all(surely(f, arg, t) for f in st.facts.all())), None)
            return (False if w and known(st) else None), "an error although %r is a name" % w
        x = g[0]
        if x.op == "mapget":
            m, k = x.a
            if not any(y is s.before for y in walk(m) for s in ss):
                return None, "a code from elsewhere"
            w = sametext(st, k, N, arg)
            if w is not True:
                return (None if w is None or not clean(k) else False), "the name %r is looked up as something else" % w
            return (True if st.ask(mk_has(m, k)) is True else None), "not known that the name is registered"
        put = [(s, m, k, v) for s in ss for m, k, v in s.puts() if v is x or same(st, v, x) is True]
        if not put:
            ps = [q for s in ss for q in s.puts()]
            if known(st) and clean_code(x) and (not ps or all(clean_code(v) for m, k, v in ps)):
                return False, "a code is handed out that is not the one registered for the name" if ps else "a code is handed out that is not registered for the name"
            return None, "not known that the code is registered"
        return unique(K.lib, r, x, put[0][0])
    return spec


def clean_code(x):
    return not any(l.op == "phi" for l in leaves(x))


def number(t, y, v):
    """the value of a term for a value of the counter, None if it depends on anything else"""
    if t is y:
        return v
    if t.op == "int":
        return t.a[0]
    if t.op == "lin":
        r = t.a[0]
        for z, k in t.a[1]:
            n = number(z, y, v)
            if n is None:
                return None
            r += k * n
        return r & 0xFFFFFFFF
    if t.op == "iop" and len(t.a) == 3:
        a, b = number(t.a[1], y, v), number(t.a[2], y, v)
        if a is None or b is None or t.a[0] in ("Rem", "Div") and b == 0:
            return None
        f = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Rem": lambda: a % b, "Div": lambda: a // b,
             "Shl": lambda: a << (b & 31) & 0xFFFFFFFF, "Shr": lambda: a >> (b & 31), "Mul": lambda: a * b & 0xFFFFFFFF}.get(t.a[0])
        return f() if f else None
    return None


def meets(evs, x):
    """two values of the counter that give the same code, if it is computed from the counter alone"""
    ys = {e[4] for e in evs if e[0] == "atomic" and len(e) > 4 and e[1].startswith("fetch_") and any(z is e[4] for z in walk(x))}
    if len(ys) != 1:
        return None
    y = ys.pop()
    seen = {}
    for v in sorted({100 + n for n in range(300)} | {100 + (1 << n) for n in range(31)} | {100 + 10 ** n for n in range(9)} | {101 + (1 << n) for n in range(31)}):
        t = number(x, y, v)
        if t is None:
            return None
        if t in seen:
            return seen[t], v
        seen[t] = v
    return None


def unique(lib, r, x, sec):
    """no other call can have handed out the same number"""
    c, d = lin_of(x)
    evs = r.st.events()
    if all(l.op != "sym" or "arg" in l.a for l in leaves(x)) and not any(y.op in ("maplen", "pure", "call") for y in walk(x)):
        return False, "the new code depends on nothing but the name: two names can get the same code"
    if len(d) != 1 or abs(next(iter(d.values()))) != 1 or next(iter(d)).op not in ("maplen", "sym"):
        w = meets(evs, x)
        if w:
            return False, "the values %d and %d of the counter give the same code" % w
    if len(d) != 1 or abs(next(iter(d.values()))) != 1:
        return None, "not known that the new code is unused"
    y = next(iter(d))
    if y.op == "maplen":
        inside = any(z is sec.before for z in walk(y))
        return (True if inside else None), "a code derived from the number of codes"
    at = next((i for i, e in enumerate(evs) if e[0] == "atomic" and len(e) > 4 and e[4] is y), None)
    if at is None:
        return None, "not known that the new code is unused"
    e = evs[at]
    st_ = e[2]
    others = [n for n in uses(lib, st_.a[0] if st_.op == "static" else "?") if lib.insts[n].path not in ("symbols::get_code",)]
    if st_.op != "static" or others_write(lib, others, st_, r):
        return None, "the counter is used elsewhere as well"
    if e[1] in ("fetch_add", "fetch_sub"):
        k = e[3][0]
        if k.op != "int":
            return None, "the step of the counter is not known"
        if k.a[0] == 0:
            return False, "the counter is not moved: two names get the same code"
        if any(z[0] == "atomic" and z[1] in ("store", "swap", "fetch_min", "fetch_max", "fetch_and") and z[2] is st_ for z in evs):
            return None, "the counter is set as well"
        return True
    if e[1] == "load":
        later = [(i, z) for i, z in enumerate(evs) if i > at and z[0] == "atomic" and z[2] is st_ and z[1] != "load"]
        if not later:
            return (False if known(r.st) else None), "the counter is read but not moved: two names get the same code"
        i, z = later[0]
        if z[1] == "store" and sec.mode == "w" and sec.at < at and (sec.rel is None or i < sec.rel) and lin_of(sub(z[3][0], y))[0] != 0 and not lin_of(sub(z[3][0], y))[1]:
            return True
        if z[1] in ("store", "fetch_add") and not any(s.mode == "w" and s.at < at and (s.rel is None or i < s.rel) for s in sections(r)):
            return False, "the counter is read and moved in two steps without a lock: two threads get the same code"
    return None, "not known that the new code is unused"


def others_write(lib, names, st_, r):
    for n in names:
        if ".closure" in n or lib.insts[n].j.get("closure"):
            continue
        q = analyse(lib, lib.insts[n])
        if q.err:
            return True
        for s, v in q.res:
            for e in s.events():
                if e[0] == "atomic" and e[2] is st_ and e[1] not in ("load", "fetch_add"):
                    return True
    return False


def spec_named(K):
    """a code becomes visible only when its name is"""
    def spec(r):
        st = r.st
        arg = r.run.args[0] if r.run.inst.path == GET_CODE else None
        N = normal(arg) if arg is not None else None
        evs = st.events()
        names = sections(r, K.name)
        for s in names:
            v = only_adds(r, s, "names")
            if v[0] is not True and not fresh_key(r, s):
                return v
        for s in sections(r, K.code):
            ps = s.puts()
            if ps is None:
                return None, "not known what happens to the register of codes"
            for m, k, code in ps:
                if code is mapget(m, k):
                    continue
                hit = None
                for n in names:
                    for m2, k2, v2 in n.puts() or ():
                        if k2 is code or same(st, k2, code) is True:
                            at = [i for i, e in enumerate(evs) if e[0] == "mapins" and e[1].a[0] == n.ref.a[0] and (e[2] is k2)]
                            hit = (n, v2, at[0] if at else n.at if n.rel is None else n.rel)
                if hit is None:
                    if any(n.puts() is None for n in names) or not known(st) or not clean_code(code):
                        return None, "not known that the name is recorded"
                    if any(not clean_code(k2) for n in names for m2, k2, v2 in n.puts()):
                        return None, "not known that the name is recorded"
                    return False, "the code is registered but its name is not recorded"
                n, v2, at = hit
                want = N if N is not None else k
                w = sametext(st, v2, want, arg) if arg is not None else (True if v2 is want else None)
                if w is not True:
                    return (None if w is None else False), "the name recorded for the code of %r is another one" % w
                if s.rel is not None and at > s.rel:
                    return False, "the code is visible to other threads before its name is recorded"
        return True
    return spec


def fresh_key(r, s):
    """the keys are numbers just drawn: no entry can be there"""
    ps = s.puts()
    if not ps:
        return False
    fresh = {e[4] for e in r.st.events() if e[0] == "atomic" and len(e) > 4}
    return all(any(l in fresh for l in leaves(k)) for m, k, v in ps)


def spec_get(lock, key=lambda r: r.run.args[0], what="name"):
    """the entry of the register, or nothing if there is none"""
    def spec(r):
        st = r.st
        v = r.ret
        ss = sections(r, lock)
        for s in ss:
            if s.after is not s.before:
                a = only_adds(r, s, what)
                return (False if a[0] is False else None), "looking something up changes the register: " + a[1]
        if not ss and v.op == "adt" and v.a[1] == 0 and known(st) and consistent(st) is True:
            return False, "none without a look at the register"
        if len(ss) != 1:
            return None, "the register is not looked at once"
        m, k = ss[0].before, key(r)
        if v.op != "adt" or not v.a[0].endswith("Option"):
            if st.ask(isv(v, 1)) is None and v.op not in ("mapget",):
                return None, "not known what is returned"
        h = st.ask(mk_has(m, k))
        if v.op == "adt" and v.a[1] == 0:
            if h is False:
                return True
            if h is True:
                e = mapget(m, k)
                w = next((t for t in TEXTS if t and t == t.strip() and all(surely(f, e, t) for f in st.facts.all())), None)
                return (False if w and known(st) else None), "none although there is an entry"
            ks = [f for f in st.facts.all() for f in walk(f) if f.op == "has" and f.a[0] is m]
            for f in ks:
                w = sametext(st, f.a[1], k, *texts_of(k))
                if isinstance(w, str):
                    return False, "%r is looked up as something else" % w
            if not ks and known(st) and consistent(st) is True:
                return False, "none whatever the register says"
            return None, "none, but not known that there is no entry"
        if v.op == "adt" and v.a[1] == 1:
            x = v.a[2]
            want = mapget(m, k)
            if x is want and h is True:
                return True
            if x.op == "mapget" and x.a[0] is m:
                w = sametext(st, x.a[1], k, *texts_of(k))
                if isinstance(w, str):
                    return False, "%r is looked up as something else" % w
                return None, "not known which entry is returned"
            w = sametext(st, x, want, want, names=True)
            if isinstance(w, str) and known(st):
                return False, "the entry %r is returned as something else" % w
            return None, "not known what is returned"
        return None, "not known what is returned"
    return spec


def texts_of(k):
    return [x for x in walk(k) if x.op == "view" or x.op == "sym"] or [k]


def ask_code(name, info=None):
    return name == GET_CODE


def ask_name(name, info=None):
    return name == GET_NAME


def spec_build(lib, text):
    """a symbol made of a name has the code of that name"""
    def spec(r):
        t = text(r)
        g = gave(r.ret)
        calls = [e for e in r.st.events() if e[0] == "opaque" and e[1] == GET_CODE]
        if g is None or len(calls) != 1:
            if g is not None and g[0] is not None and not calls and known(r.st):
                return False, "a symbol although its name was not looked up"
            return None, "not known which symbol is made"
        k = calls[0][2][0]
        q = mk("call", GET_CODE, k)
        w = sametext(r.st, normal(k), normal(t), t)
        if w is not True:
            return (None if w is None else False), "the symbol for %r is made of another name" % w
        if g[0] is None:
            return (True if r.st.ask(isv(q, 1)) is True else False if r.st.ask(isv(q, 0)) is True and known(r.st) else None), "an error although the name has a code"
        if r.st.ask(isv(q, 0)) is not True:
            return (False if r.st.ask(isv(q, 1)) is True else None), "a symbol although the name has no code"
        got = fld(g[0], 0, 0)
        if got is fld(q, 0, 0) or r.st.ask(eqi(got, fld(q, 0, 0))) is True:
            return True
        return (False if clean(got) and consistent(r.st) is True else None), "the symbol has another code than its name"
    return spec


def spec_from_code(r):
    q = mk("call", GET_NAME, r.run.args[0])
    g = gave(r.ret)
    if g is None:
        return None, "neither a symbol nor an error"
    has = r.st.ask(isv(q, 1))
    if g[0] is None:
        return (True if has is False else False if has is True and known(r.st) else None), "an error although the code has a name"
    got = fld(g[0], 0, 0)
    if has is not True:
        return (False if has is False and known(r.st) else None), "a symbol for a code without a name"
    if got is r.run.args[0] or r.st.ask(eqi(got, r.run.args[0])) is True:
        return True
    return (False if clean(got) and consistent(r.st) is True else None), "a symbol of another code"


def spec_name(r):
    q = mk("call", GET_NAME, typed(fld(r.run.args[0], 0, 0), "u32"))
    v = r.ret
    if v is q or same(r.st, v, q) is True:
        return True
    if v.op == "adt":
        h = r.st.ask(isv(q, 1))
        if v.a[1] == 0:
            return (True if h is False else False if h is True and known(r.st) else None), "no name although there is one"
        w = sametext(r.st, v.a[2], fld(q, 1, 0), fld(q, 1, 0), names=True)
        return (True if w is True else False if isinstance(w, str) and known(r.st) else None), "the name %r comes out as another one" % w
    return None, "not known which name"


def spec_shown(r):
    q = mk("call", GET_NAME, typed(fld(r.run.args[0], 0, 0), "u32"))
    h = r.st.ask(isv(q, 1))
    if h is False:
        return True
    if h is not True:
        return None, "not known whether there is a name"
    b, a = r.before(1), r.after(1)
    want = cat(b, typed(fld(q, 1, 0), "str"))
    if a is want:
        return True
    g = gave(r.ret)
    if g is not None and g[0] is None:
        return True
    w = sametext(r.st, a, want, b, fld(q, 1, 0), names=True)
    return (False if isinstance(w, str) and known(r.st) else None), "the name %r is shown as something else" % w


def other_sections(c, lib, lks, known_roots, what, spec=None):
    """functions that take the locks for writing and are not reached from the ones decided above"""
    g = Graph(lib)
    from .adding import reach_from
    seen = {lib.insts[n].path for n in reach_from(lib, [lib.insts[lib.fns[p]["root"]] for p in known_roots if rootpath(lib, p)])}
    names = {"static " + x.a[0] for l in lks for x in walk(l) if x.op == "static"}
    n = 0
    for name, i in sorted(lib.insts.items()):
        if not i.local:
            continue
        for cc, l, m in g.direct_acq(i):
            if l not in names or m == "once":
                continue
            n += 1
            key = "section:%s:%s" % (i.path, m)
            at = "%s:%s" % tuple(cc.term["sp"][:2]) if cc.term.get("sp") else ""
            if i.path in seen or m == "r":
                c.ok(key, at, "reads only" if m == "r" else "decided with " + ", ".join(p for p in known_roots))
                continue
            r = analyse(lib, i)
            c.fn(name)
            if r.err:
                c.undecided(key, at, r.err)
                continue
            v, why = True, ""
            for st, ret in r.res:
                R = Result(r, st, ret, False)
                for lk in lks:
                    for s in sections(R, lk):
                        a = only_adds(R, s, what)
                        if a[0] is False or v is True and a[0] is None:
                            v, why = a
                    if spec and v is True:
                        a = spec(R)
                        v, why = a if isinstance(a, tuple) else (a, "")
                if v is False:
                    break
            c.judge3(key, v, at, why or "adds new entries and nothing else")
    return n


def check_C05(lib, bn):
    c = Check("C05", "proof",
              "For every guarded section on the register of codes, whatever content it finds: entries are only added, under keys that "
              "are absent under that same guard, and the key is the trimmed name. The code handed out is the entry found under the "
              "trimmed name or the one added; a new one comes from one indivisible step of a counter nothing else sets (or is drawn "
              "under the write guard). Symbols made of names carry the code of the name.",
              ["poisoned locks are not considered", "fewer than 2^32 names are registered"])
    K = Codes(lib)
    if not K.ok:
        c.undecided(GET_CODE, "", "the registers of codes and names are not two locks")
        return c.finish()
    decide(c, GET_CODE, lib, GET_CODE, spec_code(K), where=loc(lib, GET_CODE), text="found or added under the trimmed name, and new codes are unused")
    n = other_sections(c, lib, [K.code], [GET_CODE], "codes")
    c.floor("sections on the register of codes", n, 1)
    makers(c, lib)
    return c.finish()


MAKERS = [("symbols::Symbol::build", lambda r: mk("view", r.run.args[0])),
          ("<symbols::Symbol as std::convert::TryFrom<&str>>::try_from", lambda r: r.run.args[0]),
          ("<symbols::Symbol as std::convert::TryFrom<std::string::String>>::try_from", lambda r: r.run.args[0]),
          ("<symbols::Symbol as std::str::FromStr>::from_str", lambda r: r.run.args[0])]


def makers(c, lib):
    for p, t in MAKERS:
        if rootpath(lib, p):
            decide(c, p, lib, p, spec_build(lib, t), where=loc(lib, p), opaque=ask_code, text="the code of the name, or an error if there is none")


def check_C06(lib, bn):
    c = Check("C06", "proof",
              "Wherever a code is added to the register of codes, its name is added to the register of names before the guard on the "
              "register of codes is given back, on every path; nothing else changes the register of names; looking up the name of a "
              "code gives exactly the entry; names of symbols, their display and symbols made of codes use that lookup.",
              ["poisoned locks are not considered"])
    K = Codes(lib)
    if not K.ok:
        c.undecided(GET_CODE, "", "the registers of codes and names are not two locks")
        return c.finish()
    decide(c, GET_CODE, lib, GET_CODE, spec_named(K), where=loc(lib, GET_CODE), text="the name is recorded before the code can be seen")
    decide(c, GET_NAME, lib, GET_NAME, spec_get(K.name), where=loc(lib, GET_NAME), text="exactly the entry of the register")
    n = other_sections(c, lib, [K.name, K.code], [GET_CODE, GET_NAME], "names", spec_named(K))
    c.floor("sections on the registers", n, 2)
    p = "symbols::Symbol::name"
    if rootpath(lib, p):
        decide(c, p, lib, p, spec_name, where=loc(lib, p), opaque=ask_name, text="the registered name")
    p = "<symbols::Symbol as std::fmt::Display>::fmt"
    if rootpath(lib, p):
        decide(c, p, lib, p, spec_shown, where=loc(lib, p), opaque=ask_name, text="shown by its name if it has one")
    p = "<symbols::Symbol as std::convert::TryFrom<u32>>::try_from"
    if rootpath(lib, p):
        decide(c, p, lib, p, spec_from_code, where=loc(lib, p), opaque=ask_name, text="a symbol exactly for codes that have a name")
    return c.finish()


# ---------------------------------------------------------------- families
REG, BREG, INIT, GET, EXISTS = FAM + "register", FAM + "Builder::register", FAM + "get_or_init_family", FAM + "get_family", FAM + "family_exists"


def family_name(lib, f):
    a = lib.adts.get("system::family::SystemFamily")
    for i, x in enumerate(a["variants"][0]["fields"]) if a else ():
        if x["n"] == "name":
            return typed(fld(f, 0, i), "str")
    return None


def keys_of(lib, lock):
    """the key under which each operation looks a name up, or stores it, for the same name"""
    out = {}
    for p, name in ((REG, lambda r: family_name(lib, r.run.args[0])), (BREG, lambda r: mk("view", r.run.args[1])),
                    (INIT, lambda r: mk("view", r.run.args[0])), (GET, lambda r: mk("view", r.run.args[0]))):
        if not rootpath(lib, p):
            continue
        run = analyse(lib, p)
        if run.err:
            continue
        t = typed(mk("sym", "the name", "arg", 0), "str")
        ks = set()
        for st, v in run.res:
            r = Result(run, st, v, False)
            nm = name(r)
            for s in sections(r, lock):
                for m, k, _ in s.puts() or ():
                    ks.add(subst(k, {nm: t}))
                for f in st.facts.all():
                    for x in walk(f):
                        if x.op == "has" and x.a[0] is s.before:
                            ks.add(subst(x.a[1], {nm: t}))
        out[p] = (t, ks, run)
    return out


def spec_reg(lib, lock):
    """a success registers a new family, a failure nothing"""
    def spec(r):
        st = r.st
        ss = sections(r, lock)
        for s in ss:
            v = only_adds(r, s, "families")
            if v[0] is not True:
                return v
        g = gave(r.ret)
        if g is None:
            return None, "neither a family nor an error"
        ps = [(s, m, k, v) for s in ss for m, k, v in s.puts()]
        if g[0] is None:
            if ps:
                return (False if known(st) else None), "a family is registered although registering fails"
            return True
        if not ps:
            return (False if known(st) else None), "registering succeeds although nothing is registered"
        x = g[0]
        if any(v is x or same(st, v, x) is True for s, m, k, v in ps):
            return True
        if x.op == "mapget":
            return None, "not known that the family returned is the one registered"
        return None, "not known that the family returned is the one registered"
    return spec


def spec_init(lib, lock):
    def spec(r):
        st = r.st
        ss = sections(r, lock)
        for s in ss:
            v = only_adds(r, s, "families")
            if v[0] is not True:
                return v
        x = mapget(*r.ret.a) if r.ret.op == "mapget" else r.ret
        ps = [(s, m, k, v) for s in ss for m, k, v in s.puts()]
        if x.op == "mapget" and any(x.a[0] is s.before for s in ss):
            return (True if st.ask(mk_has(*x.a)) is True else None), "not known that there is such a family"
        if any(v is x or same(st, v, x) is True for s, m, k, v in ps):
            return True
        if not ps and clean_code(x) and known(st) and any(e[0] == "user" and e[1] == "call" for e in st.events()):
            return False, "the family initialised is handed out without being registered"
        if ps and known(st) and clean_code(x) and all(clean_code(v) for s, m, k, v in ps) and x.op == "sym" and all(v.op == "sym" for s, m, k, v in ps):
            return False, "the family handed out is not the one registered"
        return None, "not known that the family returned is the one registered"
    return spec


def spec_exists(lib, lock):
    def spec(r):
        q = [e for e in r.st.events() if e[0] == "opaque" and e[1].startswith(GET)]
        if len(q) != 1:
            return None, "not decided by one lookup"
        t = mk("call", q[0][1], *q[0][2])
        v = r.ret
        h = r.st.ask(isv(t, 1))
        if v.op == "bool":
            if h is None:
                return None, "not known"
            return (v.a[0] == h if known(r.st) else None), "a family exists exactly if it can be looked up"
        return (True if v is isv(t, 1) or r.st.ask(eq(v, isv(t, 1))) is True else None), "not known"
    return spec


CELLS = ("std::cell::", "std::sync::RwLock", "std::sync::Mutex", "std::sync::atomic::", "std::sync::OnceLock", "std::sync::Once")


def changeable(lib, ty, path=(), seen=None):
    """a part that can be changed through a shared reference"""
    seen = set() if seen is None else seen
    t = lib.types[ty]
    if ty in seen:
        return None
    seen.add(ty)
    if t["k"] == "adt":
        if t["adt"].startswith(CELLS):
            return ".".join(path) or t["s"]
        d = lib.adts.get(t["adt"])
        for v in d["variants"] if d and t.get("local", True) else ():
            for f in v["fields"]:
                x = changeable(lib, f["ty"], path + (f["n"],), seen)
                if x:
                    return x
        for a in t.get("args", ()):
            if isinstance(a, int):
                x = changeable(lib, a, path, seen)
                if x:
                    return x
    elif t["k"] in ("tuple", "array", "slice", "ref"):
        for a in ([t["to"]] if t["k"] == "ref" else t["el"] if isinstance(t["el"], list) else [t["el"]]):
            x = changeable(lib, a, path, seen)
            if x:
                return x
    elif t["k"] == "dyn":
        return None
    return None


def check_C07(lib, bn):
    c = Check("C07", "proof",
              "For every guarded section on the register of families, whatever content it finds: entries are only added, under names "
              "that are absent under that same guard. A registration that succeeds adds the family it returns, one that fails adds "
              "none; get-or-initialise returns the entry found or added; a lookup returns exactly the entry; all operations use the "
              "same key for the same name; no part of a family can be changed through a shared reference.",
              ["poisoned locks are not considered"])
    lks = locks(lib, GET)
    if len(lks) != 1:
        c.undecided(GET, "", "the register of families is not one lock")
        return c.finish()
    lock = next(iter(lks))
    for p, sp in ((REG, spec_reg(lib, lock)), (BREG, spec_reg(lib, lock)), (INIT, spec_init(lib, lock)),
                  (GET, spec_get(lock, lambda r: mk("view", r.run.args[0]), "families"))):
        if rootpath(lib, p):
            decide(c, p, lib, p, sp, where=loc(lib, p), text="registers only what is new, and returns what is registered")
    if rootpath(lib, EXISTS):
        decide(c, EXISTS, lib, EXISTS, spec_exists(lib, lock), where=loc(lib, EXISTS), opaque=lambda n, i: n.startswith(GET) and i.path != INIT if hasattr(i, "path") else n.startswith(GET), text="true exactly if the lookup finds one")
    n = other_sections(c, lib, [lock], [REG, BREG, INIT, GET], "families")
    c.floor("sections on the register of families", n, 3)
    ks = keys_of(lib, lock)
    base = ks.get(GET)
    for p, (t, kk, run) in sorted(ks.items()):
        v, why = True, "the same key for the same name"
        for k in kk:
            for q in base[1] if base else ():
                w = sametext(run.res[0][0], k, q, t)
                if w is True:
                    continue
                if t not in leaves(k) and foreseen(k) and any(l.op == "sym" and "callret" in l.a for l in leaves(k)):
                    v, why = False, "a family is kept under another name than the one asked for"
                    continue
                v, why = (False, "the name %r is kept under another key than it is looked up" % w) if isinstance(w, str) and clean(k) else (None if v is True else v, "not known which key is used")
        c.judge3("key:" + p, v if kk and base and base[1] else None, loc(lib, p), why)
    a = lib.adts.get("system::family::SystemFamily")
    if a:
        bad = None
        for f in a["variants"][0]["fields"]:
            bad = bad or changeable(lib, f["ty"], (f["n"],))
        c.judge(bad is None, "frozen", "src/system/family.rs", "the part %s of a family can be changed through a shared reference" % bad if bad else "no part of a family can be changed through a shared reference")
    return c.finish()
