"""C20, C21: the text of drawings."""
import os
import re
from .. import fnorm, rel, textnorm as tn, textwit as tw
from ..rel import *
from ..report import Check
from ..sym import analyse
from ..terms import *
from ..absdom import Facts
from .deriving import field

ELEMENT = "SvgElement"
TRANSFORM = "SvgTransformEl"
INTERP = "<interpretation::svg::SvgPathInterpretation<T> as interpretation::Interpretation>::interpret"
SAVE = "interpretation::svg::Svg::save_file"
NAME = re.compile(r"[A-Za-z_:][-A-Za-z0-9_:.]*")
ENTITY = re.compile(r"&(amp|lt|gt|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);")
BADCHARS = [i for i in range(32) if i not in (9, 10, 13)] + [0xFFFE, 0xFFFF]


class Ill(Exception):
    """the text is not well-formed"""


class Unk(Exception):
    """not understood"""


class Inline(Exception):
    """a function whose text is not that of an attribute's value has to be looked into"""


def impls(lib, trait, method):
    return sorted(p for p, f in lib.fns.items() if f.get("impl_trait") and f["impl_trait"].split("::")[-1] == trait and f["name"] == method and f.get("root") in lib.insts)


def textfn(lib):
    """functions of this crate from one text to a text"""
    out = set()
    for p, f in lib.fns.items():
        if f.get("impl_trait") or f.get("root") not in lib.insts or len(f["in"]) != 1:
            continue
        a = lib.types[f["in"][0]]
        if a["k"] == "ref":
            a = lib.types[a["to"]]
        if a["s"] in ("str", "std::string::String") and re.match(r"(std::string::String|std::borrow::Cow<.*str>)$", lib.types[f["out"]]["s"]):
            out.add(p)
    return out


# ---------------------------------------------------------------- values of attributes
def unsafe(s, q):
    """why a text is no value of an attribute in such quotes"""
    for i, x in enumerate(s):
        if x == "<":
            return "contains <"
        if q is not None and x == q:
            return "contains " + q
        if x == "&" and not ENTITY.match(s, i):
            return "contains a bare &"
        if ord(x) in BADCHARS:
            return "contains a character that no XML document may contain"
    return None


def bases(t):
    """the texts a text is made from"""
    if t.op in ("fld", "sym", "elem", "call", "phi"):
        return {t}
    return set().union(*[bases(x) for x in t.a if isinstance(x, T)]) if t.a else set()


def tries(q):
    s = ["<", q or '"', "&", "\x01", "a<b", "a%sb" % (q or '"'), "&lt;", "a", "\uffff"]
    return s + [x + x for x in s[:4]] + ["é<", "url(#a)", "a&b"]


def holds_on(st, b, s):
    """do all facts about a text hold for this one? (facts about other things are checked by the caller)"""
    for f in st.facts.all():
        if not any(x is b for x in walk(f)):
            continue
        try:
            if f.op == "allq" or tw.ev(f, {b: s.encode()}) is not True:
                return False
        except (tw.Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError, KeyError):
            return False
    return True


def witness(st, t, q):
    """a caller's text for which this text may not stand in an attribute"""
    bs = bases(t)
    if len(bs) != 1:
        return None
    b = next(iter(bs))
    if not clean(b) or b.op in ("call", "phi") or isint(b):
        return None
    for s in tries(q):
        if not holds_on(st, b, s):
            continue
        try:
            out = tw.ev(t, {b: s.encode()}).decode()
        except (tw.Unknown, UnicodeDecodeError, AttributeError, IndexError, TypeError, ValueError, KeyError):
            continue
        why = unsafe(out, q)
        if why:
            return s, why
    return None


class Escapers:
    """functions that make any text a value of an attribute"""

    def __init__(self, lib):
        self.lib = lib
        self.cands = textfn(lib)
        self.inlined = set()
        self.memo = {}
        self.used = set()

    def opaque(self, name, info=None):
        p = name.split("::<")[0] if name not in self.cands else name
        return p in self.cands and p not in self.inlined

    def verdict(self, f, q):
        """(True | False | None, explanation)"""
        if (f, q) not in self.memo:
            self.memo[f, q] = self.decide(f, q)
        self.used.add((f, q))
        return self.memo[f, q]

    def decide(self, f, q):
        run = analyse(self.lib, f, opaque=lambda n, i=None: n != f and self.opaque(n, i))
        if run.err:
            return None, run.err
        why = None
        for st, v in run.res:
            r = Result(run, st, v, False)
            try:
                self.safe(run, r, r.ret if not any(x.op == "phi" for x in walk(r.ret)) else v, q)
            except (Unk, Ill) as x:
                why = str(x)
        if why is None:
            return True, ""
        for n in (2, 3):
            p = analyse(self.lib, f, peel=n, tmax=25.0)
            for st, v in p.res:
                r = Result(p, st, v, True)
                w = witness(st, r.ret, q)
                if w:
                    return False, "given %r, %s returns a text that %s" % (w[0], f, w[1])
        return None, why

    def safe(self, run, r, t, q):
        """the text is one for sure"""
        st = r.st
        arg = run.args[0]
        if t.op == "strop":
            cs, x = set(), t
            while x is not arg:
                if x.op != "strop" or x.a[0] != "replace" or x.a[2].op not in ("int", "str") or x.a[3].op != "str":
                    raise Unk("not a chain of replacements")
                k = x.a[2].a[0]
                if not isinstance(k, int) and len(k) != 1:
                    raise Unk("not a chain of replacements of single characters")
                cs.add(chr(k) if isinstance(k, int) else k)
                x = x.a[1]
            # such a chain treats every character on its own
            for k in cs | set(tries(q)[:4]) | {"a"} | set(map(chr, BADCHARS)):
                try:
                    out = tw.ev(t, {arg: k.encode()}).decode()
                except (tw.Unknown, UnicodeDecodeError, TypeError, ValueError) as x:
                    raise Unk("not a chain of known replacements")
                why = unsafe(out, q)
                if why:
                    raise Ill("%r becomes %r" % (k, out))
            return
        for s in tn.segs(st, t):
            self.piece(run, st, s, q)

    def piece(self, run, st, s, q):
        if s[0] == "s":
            why = unsafe(s[1], q)
            if why:
                raise Ill("adds a text that " + why)
            return
        if s[0] == "f":
            for x in s[2]:
                self.piece(run, tn.inside(st, s[1]), x, q)
            return
        if s[0] == "j":
            for x in s[2] + s[3]:
                self.piece(run, tn.inside(st, s[1]), x, q)
            return
        t = s[1]
        if t.op == "phi":
            return self.loop(run, st, t, q)
        if t.op == "chr":
            for k in [ord("<"), ord("&")] + ([ord(q)] if q else []) + BADCHARS:
                if st.ask(eqi(t.a[0], INT(k))) is not False:
                    raise Unk("keeps %r" % chr(k))
            return
        if t.op == "disp" and isnumber(t.a[0]):
            return
        if t.op == "call" and t.a[0] in self.cands and self.verdict(t.a[0], q)[0] is True:
            return
        raise Unk("the text %s" % show(t)[:80])

    def loop(self, run, st, phi, q):
        """a text grown in a loop: what it starts with and what every pass adds"""
        key, n = phi.a[0], phi.a[1]
        recs = {e[1].key: e[1] for e in st.events() if e[0] == "loop"}
        rec = recs.get(key)
        if rec is None:
            raise Unk("loop not seen")
        # the same variable in every partition of the loop
        mine = {p for x in rec.parts for p in x.phis if p.a[2:] == phi.a[2:]}
        if phi not in mine:
            raise Unk("loop not seen")
        for x in rec.parts:
            p = next((y for y in x.phis if y in mine), None)
            init = x.init.get(p) if p is not None and isinstance(x.init, dict) else None
            if init is None or init.op == "phi":
                if len(rec.parts) == 1:
                    raise Unk("start of the text not known")
                continue
            for s in tn.segs(rec.s0, init):
                self.piece(run, rec.s0, s, q)
        for a, b, s, vals in rec.backs:
            if vals is None:
                raise Unk("pass not known")
            for p, v in vals.items():
                if p not in mine:
                    continue
                xs = tn.segs(s, v)
                if xs and xs[0][0] == "t" and xs[0][1] in mine:
                    xs = xs[1:]
                for y in xs:
                    if y[0] == "t" and y[1].op == "phi":
                        raise Unk("several texts are grown")
                    self.piece(run, s, y, q)


def isnumber(x):
    return isint(x) and tyof.get(x) != "char" or isfloat(x)


# ---------------------------------------------------------------- reading XML
class Reader:
    """reads a symbolic text as XML: a tree of elements, or the reason why it is none"""

    def __init__(self, st, esc, items, sure=True):
        self.st, self.esc, self.items, self.i, self.sure = st, esc, items, 0, sure

    @staticmethod
    def items_of(segs):
        out = []
        for s in segs:
            if s[0] == "s":
                out += list(s[1])
            else:
                out.append(s)
        return out

    def peek(self, n=0):
        return self.items[self.i + n] if self.i + n < len(self.items) else None

    def ahead(self, s):
        return self.items[self.i:self.i + len(s)] == list(s)

    def ill(self, why):
        raise (Ill if self.sure else Unk)(why)

    def document(self, prolog=False):
        nodes = self.content(None, prolog)
        if self.peek() is not None:
            self.ill("an end tag without its start tag")
        roots = [n for n in nodes if n[0] != "text"]
        if any(n[0] == "rep" for n in roots):
            raise Unk("a number of elements at the outermost level")
        if len(roots) != 1:
            self.ill("%d elements instead of one" % len(roots))
        return roots[0]

    def content(self, inside, prolog=False):
        nodes = []
        while True:
            x = self.peek()
            if x is None:
                if inside is not None and inside != "*":
                    self.ill("<%s> is not closed" % inside)
                return nodes
            if x == "<":
                if self.peek(1) == "/":
                    if inside is None or inside == "*":
                        return nodes
                    self.i += 2
                    n = self.name()
                    if n != inside:
                        self.ill("<%s> is closed by </%s>" % (inside, n))
                    self.space()
                    self.expect(">")
                    return nodes
                if self.ahead("<?"):
                    if self.i != 0 or inside is not None:
                        self.ill("an XML declaration within the document")
                    if not prolog:
                        raise Unk("an XML declaration")
                    self.skip("?>")
                    continue
                if self.ahead("<!--"):
                    self.i += 4
                    body = self.skip("-->")
                    if "--" in body:
                        self.ill("-- in a comment")
                    continue
                if self.ahead("<!"):
                    raise Unk("a declaration")
                nodes.append(self.element())
                continue
            if x == "&":
                self.entity()
                continue
            if isinstance(x, str):
                if ord(x) in BADCHARS:
                    self.ill("a character that no XML document may contain")
                if inside is None and x not in " \t\r\n":
                    self.ill("text outside of the outermost element")
                self.i += 1
                continue
            if x[0] == "f":
                sub = Reader(tn.inside(self.st, x[1]), self.esc, self.items_of(x[2]), False)
                ns = sub.content("*")
                if sub.peek() is not None:
                    raise Unk("tags closed in a loop")
                if inside is None and not ns:
                    raise Unk("text in a loop")
                nodes.append(("rep", x[1], ns))
                self.i += 1
                continue
            if x[0] == "j":
                raise Unk("joined elements")
            k, t = self.kind(x[1])
            if k == "elem":
                nodes.append(("el", t))
            elif k in ("num", "attr", "safe"):
                if inside is None:
                    self.ill("text outside of the outermost element")
            elif k == "fn":
                self.function(t, None)
            else:
                self.raw(t, None)
            self.i += 1

    def element(self):
        self.i += 1
        if isinstance(self.peek(), tuple):
            raise Unk("the name of a tag")
        n = self.name()
        attrs = []
        while True:
            sp = self.space()
            x = self.peek()
            if x is None:
                self.ill("<%s is not closed" % n)
            if x == "/":
                self.i += 1
                self.expect(">")
                return ("tag", n, attrs, [])
            if x == ">":
                self.i += 1
                return ("tag", n, attrs, self.content(n))
            if isinstance(x, tuple):
                if x[0] != "t":
                    raise Unk("attributes in a loop")
                k, t = self.kind(x[1])
                if k == "fn":
                    raise Inline(t.a[0])
                if k == "num":
                    self.ill("a number among the attributes of <%s>" % n)
                if k == "elem":
                    self.ill("an element among the attributes of <%s>" % n)
                if k == "attr":
                    self.ill("a transformation among the attributes of <%s>" % n)
                self.raw(t, '"')
                raise Unk("text among the attributes")
            if not sp:
                self.ill("attributes of <%s> are not separated" % n)
            a = self.name()
            self.space()
            self.expect("=", "attribute %s has no value" % a)
            self.space()
            q = self.peek()
            if isinstance(q, tuple):
                if q[0] == "t" and q[1].op == "dispas" and q[1].a[0] == "new_debug" and isstr(q[1].a[1]) and clean(q[1].a[1]) and holds_on(self.st, q[1].a[1], '<"'):
                    self.ill("the value of %s is written for debugging: a caller's text that contains < or \" is not escaped" % a)
                if q[0] == "t" and self.kind(q[1])[0] in ("num", "safe"):
                    self.ill("the value of %s is not quoted" % a)
                raise Unk("the value of %s" % a)
            if q not in ('"', "'"):
                self.ill("the value of %s is not quoted" % a)
            self.i += 1
            if any(b == a for b, _ in attrs):
                self.ill("attribute %s twice in <%s>" % (a, n))
            attrs.append((a, self.value(q)))

    def value(self, q):
        at = self.i
        while True:
            x = self.peek()
            if x is None:
                if q is None:
                    return self.items[at:self.i]
                self.ill("the value of an attribute does not end")
            if x == q:
                self.i += 1
                return self.items[at:self.i - 1]
            if x == "<":
                self.ill("< in the value of an attribute")
            if x == "&":
                self.entity()
                continue
            if isinstance(x, str):
                if ord(x) in BADCHARS:
                    self.ill("a character that no XML document may contain")
                self.i += 1
                continue
            if x[0] in ("f", "j"):
                for part in x[2:]:
                    Reader(tn.inside(self.st, x[1]), self.esc, self.items_of(part), False).fragment(q)
                self.i += 1
                continue
            k, t = self.kind(x[1])
            if k == "elem":
                self.ill("an element in the value of an attribute")
            elif k == "fn":
                self.function(t, q)
            elif k == "raw":
                self.raw(t, q)
            self.i += 1

    def fragment(self, q):
        """part of a value"""
        while self.peek() is not None:
            if self.peek() == q:
                raise Unk("a quote within a loop")
            self.value_part(q)

    def value_part(self, q):
        x = self.items[self.i]
        sub = Reader(self.st, self.esc, [x] if x != "&" else self.items[self.i:], self.sure)
        if x == "&":
            sub.entity()
            self.i += sub.i
            return
        sub.value(None) if x != q else None
        if isinstance(x, tuple) and x[0] == "t":
            k, t = self.kind(x[1])
            if k == "fn":
                self.function(t, q)
            elif k == "raw":
                self.raw(t, q)
        self.i += 1

    # the pieces
    def kind(self, t):
        if t.op == "disp" and isnumber(t.a[0]) or t.op == "fmtspec" and self.kind(t.a[0])[0] == "num" or t.op == "dispas" and isnumber(t.a[1]):
            return "num", t
        if t.op == "disp" and isstr(t.a[0]):
            return self.kind(t.a[0])
        if t.op == "sym":
            for x in t.a:
                if str(x).startswith("ret:") and str(x).endswith("::to_svg"):
                    return "elem", t
                if str(x).startswith("ret:") and str(x).endswith("::to_transform"):
                    return "attr", t
        if t.op == "call":
            if str(t.a[0]).endswith("::to_svg"):
                return "elem", t
            if str(t.a[0]).endswith("::to_transform"):
                return "attr", t
            if t.a[0] in self.esc.cands:
                return "fn", t
        return "raw", t

    def function(self, t, q):
        """a text made by a function of one text"""
        v, why = self.esc.verdict(t.a[0], q)
        if v is True:
            return
        if v is False:
            if t.a[1].op == "str":
                raise Inline(t.a[0])
            # is that text possible here?
            if clean(t.a[1]) and t.a[1].op in ("fld", "sym", "elem") and all(holds_on(self.st, t.a[1], s) for s in tries(q)[:1]):
                self.ill(why)
            raise Unk(why)
        raise Inline(t.a[0])

    def raw(self, t, q):
        w = witness(self.st, t, q)
        if w:
            self.ill("the text %s is written as it is: given %r, what is written %s" % (show(t)[-60:], w[0], w[1]))
        raise Unk("the text %s" % show(t)[:80])

    def name(self):
        s = ""
        while isinstance(self.peek(), str) and NAME.fullmatch(s + self.peek()):
            s += self.peek()
            self.i += 1
        if isinstance(self.peek(), str) and ord(self.peek()) > 127 or isinstance(self.peek(), tuple):
            raise Unk("a name")
        if not s:
            self.ill("%r where a name should be" % self.peek())
        return s

    def space(self):
        n = self.i
        while isinstance(self.peek(), str) and self.peek() in " \t\r\n":
            self.i += 1
        return self.i > n

    def expect(self, c, why=None):
        x = self.peek()
        if isinstance(x, tuple):
            raise Unk("%s expected" % c)
        if x != c:
            self.ill(why or "%r instead of %r" % (x, c))
        self.i += 1

    def skip(self, end):
        s = ""
        while not self.ahead(end):
            x = self.peek()
            if not isinstance(x, str):
                raise Unk("a comment")
            s += x
            self.i += 1
        self.i += len(end)
        return s

    def entity(self):
        s = ""
        n = 0
        while isinstance(self.peek(n), str) and len(s) < 12:
            s += self.peek(n)
            n += 1
            if s.endswith(";"):
                break
        m = ENTITY.match(s)
        if not m:
            if isinstance(self.peek(n), tuple):
                raise Unk("an entity")
            self.ill("a bare &")
        self.i += len(m.group(0))


TEXTOPS = ("contains", "findpos", "rfindpos", "starts", "ends", "splitseq", "words", "trim", "strop", "eqic", "cls", "strprop", "patat", "char_at", "slice", "bnd", "utf8len", "member", "parse", "str")


def certain(st):
    """is the path one that some value takes?"""
    out = st.copy()
    out.facts = Facts()
    texts = {}
    for f in st.facts.all():
        # what the outside world answers, and how long numbers are, is free
        m = {}
        for x in walk(f):
            if x.op == "sym" and any(str(y).startswith("io:") for y in x.a) and "arg" not in x.a:
                m[x] = mk("sym", *x.a, "arg")
            elif x.op == "len" and x.a[0].op in ("disp", "fmtspec", "dispas", "call"):
                m[x] = typed(mk("sym", "length of", x.a[0], "arg"), "usize")
        f = subst(f, m) if m else f
        if f.op == "allq" or any(x.op == "phi" for x in walk(f)):
            return False
        if any(x.op in TEXTOPS for x in walk(f)):
            bs = bases(f)
            if len(bs) != 1:
                return False
            texts.setdefault(next(iter(bs)), []).append(f)
            continue
        ss = out.assume(f)
        if len(ss) != 1:
            return False
        out = ss[0]
    for b, fs in texts.items():
        if tw.example(fs, b, tries(None) + tw.around(*fs) + ["", "none", "black", "a b"]) is None or any(tw.opaque(f) for f in fs):
            return False
    return consistent(out) is True


def read(r, esc, t, prolog=False):
    """the element a text is; Ill, Unk"""
    segs = tn.segs(r.st, t)
    return Reader(r.st, esc, Reader.items_of(segs)).document(prolog)


def spec_element(lib, esc, what=lambda r: r.ret, prolog=False):
    def spec(r):
        t = what(r)
        if t is None:
            return None, "the text is not known"
        if t is True:
            return True
        try:
            read(r, esc, t, prolog)
            return True
        except Ill as x:
            if certain(r.st):
                return False, "not well-formed: " + str(x)
            return None, str(x)
        except Unk as x:
            return None, str(x)
    return spec


def spec_attr(lib, esc):
    def spec(r):
        segs = tn.segs(r.st, r.ret)
        try:
            rd = Reader(r.st, esc, Reader.items_of(segs))
            rd.value(None)
            for q in ('"', "'"):
                if any(x == q for x in rd.items):
                    raise Ill("%s in a transformation" % q)
            return True
        except Ill as x:
            if certain(r.st):
                return False, "not the value of an attribute: " + str(x)
            return None, str(x)
        except Unk as x:
            return None, str(x)
    return spec


def written(r):
    """the text written to the file on a path that reports success"""
    v = r.ret
    st = r.st
    if v.op == "adt" and v.a[1] == 1 or st.ask(isv(v, 1)) is True:
        return True
    out, to = [], None
    for e in st.events():
        if e[0] != "io":
            continue
        if e[1] == "writefile":
            out, to = [e[2][1]], None
        elif e[1] in ("write_all", "write_fmt"):
            if to is not None and e[2][0] is not to:
                return None
            to = e[2][0]
            out.append(e[2][1])
        elif e[1] in ("create", "flush", "sync", "bufwriter", "open"):
            continue
        else:
            return None
    if not out:
        return None
    ts = []
    for t in out:
        t = r.R(t)
        if t.op == "bytesof":
            t = t.a[0]
        if t.op == "bytes":
            try:
                t = STR(bytes(t.a[0]).decode())
            except UnicodeDecodeError:
                return None
        if not isstr(t):
            return None
        ts.append(t)
    return cat(*ts) if len(ts) > 1 else ts[0]


def decide_with(c, esc, key, lib, path, spec, **kw):
    """decide(), functions of one text inlined as needed"""
    while True:
        try:
            return decide(c, key, lib, path, spec, opaque=esc.opaque, **kw)
        except Inline as x:
            esc.inlined.add(x.args[0])


# ---------------------------------------------------------------- C21
BOX = "geometry::BoundingBox"
PATH = "geometry::Path"


def fop(op, *a):
    return typed(mk("fop", op, *a), "f64")


def flt(x):
    return mk("float", x)


def number(items):
    """the number a part of a text stands for"""
    if len(items) == 1 and isinstance(items[0], tuple):
        t = items[0][1] if items[0][0] == "t" else None
        if t is not None and t.op == "disp" and isnumber(t.a[0]):
            return t.a[0] if isfloat(t.a[0]) else typed(mk("i2f", t.a[0]), "f64")
        raise Unk("a number")
    s = "".join(x if isinstance(x, str) else "\0" for x in items)
    try:
        return flt(float(s))
    except ValueError:
        raise Unk("a number: %r" % s)


def transforms(items):
    """[(name, numbers)] of the value of a transform attribute"""
    out, i = [], 0
    while i < len(items):
        x = items[i]
        if isinstance(x, tuple):
            raise Unk("a list of transformations")
        if x in " \t\r\n,":
            i += 1
            continue
        n = ""
        while i < len(items) and isinstance(items[i], str) and (items[i].isalpha() or items[i] == " "):
            n += items[i]
            i += 1
        if i >= len(items) or items[i] != "(":
            raise Unk("a transformation")
        i += 1
        args, cur = [], []
        while True:
            if i >= len(items):
                raise Unk("a transformation")
            x = items[i]
            i += 1
            if x == ")" or isinstance(x, str) and x in " ,\t\r\n":
                if cur:
                    args.append(number(cur))
                cur = []
                if x == ")":
                    break
            else:
                cur.append(x)
        out.append((n.strip(), args))
    return out


IDENT = (flt(1.0), flt(0.0), flt(1.0), flt(0.0))


def compose(m, n, args):
    """the map (x factor, x offset, y factor, y offset) after one more transformation inside"""
    if n == "translate" and len(args) in (1, 2):
        a = (flt(1.0), args[0], flt(1.0), args[1] if len(args) == 2 else flt(0.0))
    elif n == "scale" and len(args) in (1, 2):
        a = (args[0], flt(0.0), args[-1], flt(0.0))
    elif n == "matrix" and len(args) == 6 and all(args[i].op == "float" and args[i].a[0] == 0 for i in (1, 2)):
        a = (args[0], args[4], args[3], args[5])
    else:
        raise Unk("the transformation " + n)
    return (fop("Mul", m[0], a[0]), fop("Add", fop("Mul", m[0], a[1]), m[1]), fop("Mul", m[2], a[2]), fop("Add", fop("Mul", m[2], a[3]), m[3]))


def leaves_of(node, m=IDENT, n=ONE):
    """[(map, number of repetitions, element)]"""
    if node[0] == "el":
        return [(m, n, node[1])]
    if node[0] == "rep":
        if n is not ONE:
            raise Unk("repetitions within repetitions")
        return [x for y in node[2] for x in leaves_of(y, m, node[1])]
    _, tag, attrs, sub = node
    if tag not in ("svg", "g"):
        raise Unk("an element " + tag)
    for a, v in attrs:
        if a == "transform":
            for f, args in transforms(v):
                m = compose(m, f, args)
        elif a in ("viewBox", "preserveAspectRatio", "style", "x", "y"):
            raise Unk("attribute " + a)
    return [x for y in sub for x in leaves_of(y, m, n)]


def drawn(lib):
    """type -> position of the path it draws"""
    out = {}
    for p in impls(lib, ELEMENT, "to_svg"):
        t = lib.types[lib.fns[p]["impl_self"]]
        a = lib.adts.get(t.get("adt"))
        if a is None or len(a["variants"]) != 1:
            continue
        at = [i for i, f in enumerate(a["variants"][0]["fields"]) if lib.types[f["ty"]]["s"] == PATH]
        if len(at) == 1:
            out[p] = (t["adt"], at[0])
    return out


NUMBERS = [(w, h, b) for b in ((1.0, 11.0, 2.0, 7.0), (-3.0, 1.0, 5.0, 45.0), (0.0, 64.0, -32.0, 0.0), (-1.0, 1.0, -1.0, 1.0)) for w, h in ((500, 500), (640, 200), (101, 303))]


def spec_drawing(lib, esc, paths_drawn):
    def spec(r):
        v = r.ret
        st = r.st
        if v.op == "adt" and v.a[1] == 1:
            return True
        if v.op != "adt":
            return None, "the result is not known"
        me = r.run.args[0]
        w, h = (getter(lib, "interpretation::svg::SvgPathInterpretation::<T>::" + n, me, st) for n in ("width", "height"))
        calls = [e for e in st.events() if e[0] == "user" and e[1].endswith("::interpret")]
        if len(calls) != 1 or w is None or h is None:
            return None, "the paths are not known"
        P = {x for b in list(st.facts.all()) + [v] for x in walk(b) if x.op == "fld" and x.a[1] == 0 and x.a[0].op == "sym" and any(str(y).startswith("ret:") and str(y).endswith("::interpret") for y in x.a[0].a)}
        if len(P) != 1:
            return None, "the paths are not known"
        P = next(iter(P))
        a = calls[0][2]
        for i, (what, x) in enumerate((("the interpretation", None), ("the symbols", r.run.args[1]), ("the string", r.run.args[2]))):
            if x is not None and i < len(a) and a[i] is not x:
                if st.ask(eq(a[i], x)) is True:
                    continue
                return None, what + " passed on is not the one given"
        run = call(lib, "<interpretation::svg::Svg as interpretation::svg::SvgElement>::to_svg", [v.a[2]], st,
                   opaque=lambda n, i=None: n in paths_drawn or esc.opaque(n, i))
        if run is None or run.err or not run.res:
            return None, "the text is not known"
        verd = True
        for s, t in run.res:
            s2 = s.copy()
            for e in st.events():
                s2.emit(*e)
            x = one(Result(run, s, t, r.peeled), s, r, P, w, h)
            x = x if isinstance(x, tuple) else (x, "")
            if x[0] is False:
                return x
            if x[0] is None:
                verd = x
        return verd

    def one(rr, s, r, P, w, h):
        try:
            root = read(rr, esc, rr.ret)
            if root[0] != "tag" or root[1] != "svg":
                raise Unk("the outermost element")
            for a, want in (("width", w), ("height", h)):
                vs = [v for n, v in root[2] if n == a]
                if len(vs) != 1:
                    raise Unk("no single " + a)
                got = [x for x in vs[0]]
                if "".join(x for x in got if isinstance(x, str)) in ("px",):
                    got = [x for x in got if not isinstance(x, str)]
                x = got[0][1].a[0] if len(got) == 1 and isinstance(got[0], tuple) and got[0][0] == "t" and got[0][1].op == "disp" else None
                if x is None:
                    raise Unk("the " + a)
                v = s.ask(eqi(x, want))
                if v is not True:
                    if clean(x) and certain(s) and isint(x) and x is not want:
                        return False, "the %s of the drawing is %s" % (a, show(x)[-80:])
                    raise Unk("the " + a)
            ls = leaves_of(root)
        except (Unk, Ill) as x:
            return None, str(x)
        return paths(rr, s, r, P, ls, w, h)

    def paths(rr, s, r, P, ls, w, h):
        n = len_(P)
        got = []
        for m, k, el in ls:
            f = el.a[0] if el.op == "call" else None
            if f not in paths_drawn or el.a[1].op != "adt" or el.a[1].a[0] != paths_drawn[f][0]:
                return None, "an element that is no path"
            got.append((m, k, el.a[1].a[2 + paths_drawn[f][1]]))
        cnt = constlen(s, P)
        if all(k is ONE for m, k, p in got) and cnt is not None:
            ps = [p for m, k, p in got]
            want = [elem(P, INT(i)) for i in range(cnt)]
            left = [p for p in want if p not in ps]
            extra = [p for p in ps if p not in want]
            if not left and not extra:
                pass
            elif left and all(clean(p) for p in ps):
                for p in left:
                    ps_ = getter(lib, PATH + "::points", p) or fld(p, 0, 0)
                    if any(not x.facts.inconsistent() and consistent(x) is True for x in s.assume(le(INT(2), len_(ps_)))):
                        return False, "of %d paths, number %d is not drawn" % (cnt, want.index(p) + 1)
                return None, "paths left out"
            else:
                return None, "other paths"
        elif len(got) == 1:
            m, k, p = got[0]
            if s.ask(eqi(k, n)) is not True or not tn.eqterm(s, p, elem(P, tn._bv)):
                return None, "the paths drawn are not those of the drawing, one after the other"
        else:
            return None, "the paths are not known"
        if not got:
            return True
        for m in {x[0] for x in got}:
            v = fitted(s, r, P, m, w, h)
            v = v if isinstance(v, tuple) else (v, "")
            if v[0] is not True:
                return v
        return True

    def fitted(s, r, P, m, w, h):
        bs = {x for b in list(s.facts.all()) + list(m) for x in walk(b) if x.op == "call" and str(x.a[0]).endswith("::bounds") and len(x.a) == 2 and x.a[1] is P}
        if len(bs) != 1:
            return None, "the bounds are not known"
        b = next(iter(bs))
        if s.ask(isv(b, 1)) is not True:
            # nothing to draw
            return (True, "") if s.ask(isv(b, 1)) is False else (None, "bounds or none?")
        x0, x1, y0, y1 = (typed(field(lib, BOX, n, fld(b, 1, 0)), "f64") for n in ("min_x", "max_x", "min_y", "max_y"))
        W, H = (typed(mk("i2f", x), "f64") for x in (w, h))
        bw, bh = fop("Sub", x1, x0), fop("Sub", y1, y0)
        # a bounding box is not turned inside out
        sub = {}
        for t in list(m) + [f for f in s.facts.all() if f.op in ("fcmp", "not")]:
            for x in walk(t):
                if x.op == "fop" and x.a[0] == "abs":
                    for d in (bw, bh):
                        if fnorm.same(x.a[1], d, s) is True or fnorm.same(fop("Neg", x.a[1]), d, s) is True:
                            sub[x] = d
        g = [subst(t, sub) for t in m]
        fx, fy = fop("Div", W, bw), fop("Div", H, bh)
        cx, cy = (fop("Div", fop("Add", a, c), flt(2.0)) for a, c in ((x0, x1), (y0, y1)))

        def want(f):
            return (f, fop("Sub", fop("Div", W, flt(2.0)), fop("Mul", f, cx)), fop("Neg", f), fop("Add", fop("Div", H, flt(2.0)), fop("Mul", f, cy)))
        fs = [fop("min", fx, fy), fop("min", fy, fx)]
        # a choice made on the path
        for f in s.facts.all():
            z, neg = (f.a[0], True) if f.op == "not" else (f, False)
            if z.op == "fcmp" and z.a[0] in ("lt", "le"):
                a, c = (subst(y, sub) for y in z.a[1:])
                for lo, hi in ((fx, fy), (fy, fx)):
                    if fnorm.same(a, lo, s) is True and fnorm.same(c, hi, s) is True:
                        fs.append(hi if neg else lo)
        for f in fs:
            if all(fnorm.same(x, y, s) is True for x, y in zip(g, want(f))):
                return True
        # numbers for which it differs
        names = ("horizontal scale", "horizontal offset", "vertical scale", "vertical offset")
        f = want(fs[0])
        for wv, hv, box in NUMBERS:
            env = dict(zip((x0, x1, y0, y1), box))
            env.update({w: wv, h: hv})
            ok = True
            for b2 in s.facts.all():
                if any(x.op in ("fcmp", "fclass", "fnan") for x in walk(b2)):
                    try:
                        ok = ok and tw.ev(b2, env) is True
                    except (tw.Unknown, TypeError, ValueError, KeyError):
                        ok = False
                elif b2.op in ("le0", "eq0") or b2.op == "not" and b2.a[0].op in ("le0", "eq0"):
                    try:
                        ok = ok and (bool(set(lin_of(b2.a[0] if b2.op != "not" else b2.a[0].a[0])[1]) - {w, h}) or tw.ev(b2, env) is True)
                    except (tw.Unknown, TypeError, ValueError, KeyError):
                        ok = False
            if not ok:
                continue
            for i in range(4):
                try:
                    a, c = tw.ev(m[i], env), tw.ev(f[i], env)
                except (tw.Unknown, TypeError, ValueError, KeyError):
                    continue
                if abs(a - c) > 1e-6 * max(1.0, abs(a), abs(c)):
                    return False, "the %s is %g instead of %g for a drawing from (%g, %g) to (%g, %g) on a canvas of %d by %d" % (names[i], a, c, box[0], box[2], box[1], box[3], wv, hv)
        return None, "the map of the drawing to the canvas is not understood"
    return spec


def tokens(items, st):
    """the commands and numbers of path data: letters, ("n", term), ("f", n, tokens)"""
    out, last = [], False
    cur = ""

    def flush():
        nonlocal cur
        if cur:
            out.append(("n", flt(float(cur))))
        cur = ""
    for x in items:
        if isinstance(x, str):
            if x in " ,\t\r\n":
                flush()
                last = False
            elif x in "MLHVZCSQTAmlhvzcsqta":
                flush()
                out.append(x)
                last = False
            elif x in "0123456789.+-":
                if last:
                    raise Unk("digits after a number")
                cur += x
            else:
                raise Unk("path data")
        elif x[0] == "f":
            flush()
            out.append(("f", x[1], tokens(Reader.items_of(x[2]), tn.inside(st, x[1]))))
            last = False
        elif x[0] == "t" and x[1].op == "disp" and isnumber(x[1].a[0]):
            if last or cur:
                raise Ill("two numbers are not separated")
            out.append(("n", x[1].a[0]))
            last = True
        else:
            raise Unk("path data")
    flush()
    return out


def stations(ts):
    """the points of absolute lines: [(command, x, y) | ("f", n, [...])]"""
    out, i, cmd = [], 0, None
    while i < len(ts):
        t = ts[i]
        if isinstance(t, str):
            if t not in "ML":
                raise Unk("command " + t)
            cmd = t
            i += 1
            if i < len(ts) and isinstance(ts[i], str):
                raise Ill("a command without a point")
            continue
        if t[0] == "f":
            sub = t[2]
            if sub and isinstance(sub[0], str):
                out.append(("f", t[1], stations(sub)))
                cmd = sub[0]
            else:
                sub = stations([cmd if cmd != "M" else "L"] + sub) if cmd else None
                if sub is None:
                    raise Unk("points without a command")
                out.append(("f", t[1], sub))
            i += 1
            continue
        if cmd is None:
            raise Ill("a point without a command")
        if i + 1 >= len(ts) or isinstance(ts[i + 1], str) or ts[i + 1][0] != "n":
            raise Unk("half a point")
        out.append((cmd, t[1], ts[i + 1][1]))
        cmd = "L" if cmd == "M" else cmd
        i += 2
    return out


def spec_path(lib, esc, adt, at):
    from .geometry import PT, comp

    def spec(r):
        st = r.st
        pts = field(lib, PATH, "points", fld(r.run.args[0], 0, at))
        if pts is None:
            return None, "the points are not known"
        n = tn.fixed(st, len_(pts))
        if n.op != "int" and st.ask(le(ONE, n)) is None:
            out = True
            for g in (le(ONE, n), eqi(n, ZERO)):
                for s in st.assume(g):
                    if not s.facts.inconsistent():
                        x = one(r, s, pts)
                        if x is not True and (out is True or x[0] is False):
                            out = x
            return out
        return one(r, st, pts)

    def one(r, st, pts):
        n = tn.fixed(st, len_(pts))
        try:
            z = r if st is r.st else type("R", (), {"st": st, "ret": Resolver(st)(r.raw)})
            tag = read(z, esc, z.ret)
            if tag[0] != "tag" or tag[1] != "path":
                raise Unk("not a path")
            d = [v for a, v in tag[2] if a == "d"]
            if any(a in ("transform", "pathLength", "style", "display", "visibility") for a, v in tag[2]):
                raise Unk("further attributes")
            got = stations(tokens(d[0], st)) if d else []
        except Unk as x:
            return None, str(x)
        except Ill as x:
            return (False if certain(st) else None), str(x)
        if n is ZERO:
            return True if not got else (None, "points of an empty path")
        if n.op == "int":
            want = [("L" if i else "M", comp(lib, elem(pts, INT(i)), PT, 0), comp(lib, elem(pts, INT(i)), PT, 1)) for i in range(n.a[0])]
            if any(x[0] == "f" for x in got):
                return None, "repetitions"
            g = [x for i, x in enumerate(got) if i == 0 or x[0] == "M" or x[1:] != got[i - 1][1:]]
            if g == want:
                return True
            vs = [] if len(g) != len(want) else [x[0] == y[0] and conj([same(st, x[1], y[1]), same(st, x[2], y[2])]) for x, y in zip(g, want)]
            if len(g) == len(want) and False not in vs:
                return True if None not in vs else (None, "the points")
            if all(clean(y) for x in g for y in x[1:]) and certain(st):
                return False, "a path of %d points is drawn as %s" % (n.a[0], " ".join("%s %s %s" % (c, show(x)[-12:], show(y)[-12:]) for c, x, y in g))
            return None, "the points"
        b = tn._bv
        if len(got) == 2 and got[0][0] == "M" and got[1][0] == "f" and len(got[1][2]) == 1 and got[1][2][0][0] == "L":
            if st.ask(eqi(got[1][1], addc(n, -1))) is True:
                ok = all(tn.eqterm(st, got[0][1 + i], comp(lib, elem(pts, ZERO), PT, i)) and
                         tn.eqterm(tn.inside(st, got[1][1]), got[1][2][0][1 + i], comp(lib, elem(pts, addc(b, 1)), PT, i)) for i in (0, 1))
                if ok:
                    return True
        if len(got) == 1 and got[0][0] == "M" and st.ask(eqi(n, ONE)) is True:
            return True
        # how many points are drawn: for some number of points another number?
        ks = {abs(x.a[0]) + e for f in list(st.facts.all()) + [x[1] for x in got if x[0] == "f"] for x in walk(f) if x.op in ("int", "lin") and x.op == "int" for e in (-1, 0, 1)}
        for f in list(st.facts.all()) + [x[1] for x in got if x[0] == "f"]:
            for x in walk(f):
                if isint(x):
                    ks |= {abs(lin_of(x)[0]) + e for e in (-1, 0, 1, 2)}
        facts = [Resolver(st)(f) for f in st.facts.all() if f.op != "allq"]
        ln = len_(pts)
        for k in sorted({x for x in ks | {1, 2, 3, 4, 7} if 0 < x < 1 << 32}):
            env = {ln: k}
            try:
                about = [f for f in facts if any(x is ln for x in walk(f))]
                if not all(tw.ev(f, env) is True for f in about):
                    continue
                m = sum(1 if x[0] != "f" else tw.ev(x[1], env) * len(x[2]) for x in got)
            except (tw.Unknown, TypeError, ValueError, KeyError):
                continue
            # the other facts: variants of parts of the path, and lengths of the text written so far
            if m < k and all(f in about or plain(f) or all(x.op == "len" or isint(x) for x in (lin_of(f.a[0])[1] if f.op in ("le0", "eq0") else ())) for f in facts):
                return False, "a path of %d points is drawn with %d" % (k, m)
        return None, "the points are not drawn one after the other"
    return spec


def spec_new(lib):
    def spec(r):
        out = True
        for i, n in enumerate(("width", "height")):
            x = getter(lib, "interpretation::svg::SvgPathInterpretation::<T>::" + n, r.ret, r.st)
            if x is None:
                return None, "the %s is not known" % n
            v = r.st.ask(eqi(x, r.run.args[i]))
            if v is not True:
                if clean(x) and all(plain(f) for f in r.st.facts.all()) and certain(r.st):
                    return False, "the %s of the canvas is %s" % (n, show(x)[-80:])
                out = None, "the " + n
        return out
    return spec


def check_C21(lib, bn):
    c = Check("C21", "proof",
              "Map comparison: the text of the drawing that interpreting returns is read symbolically; the composition of its transformations is compared, as a function of the bounds and the canvas, with the map that is asked for "
              "(up to rounding); every path occurs once, and path data lists the points in order",
              ["bounds as established by C18, not empty in at least one direction", "up to rounding of numbers", "a viewer draws what SVG prescribes"])
    esc = Escapers(lib)
    paths = drawn(lib)
    n = 0
    if rootpath(lib, INTERP):
        spec = spec_drawing(lib, esc, paths)
        while True:
            try:
                decide(c, "fitted", lib, INTERP, spec, where=loc(lib, INTERP), text="centre to centre, largest common scale, upright, all paths",
                       opaque=lambda n, i=None: n.endswith("Bounds>::bounds") or esc.opaque(n, i))
                break
            except Inline as x:
                esc.inlined.add(x.args[0])
        n += 1
    for f, n_ in (("new", 2), ("new_with", 3)):
        p = "interpretation::svg::SvgPathInterpretation::<T>::" + f
        if rootpath(lib, p):
            decide(c, p, lib, p, spec_new(lib), where=loc(lib, p), text="the canvas has the requested width and height")
    for p, (adt, at) in sorted(paths.items()):
        decide_with(c, esc, p, lib, p, spec_path(lib, esc, adt, at), where=loc(lib, p), text="the points of a path in order", peel=4)
        n += 1
    c.floor("drawing and path", n, 2)
    return c.finish()


def check_C20(lib, bn):
    c = Check("C20", "proof",
              "Well-formedness over symbolic texts: the text of every element and transformation on every result path, as a sequence of constants, numbers, escaped texts and texts of further elements "
              "(loops closed into repetitions), is read by an XML reader (tags, nesting, attributes, quotes, entities, one outermost element); every function that escapes is shown to let no special character through, "
              "character by character",
              ["numbers are written with digits, sign, point, inf and NaN only", "elements of a drawing are well-formed by induction over their nesting",
               "elements and transformations defined outside of the crate keep to the same rules"])
    esc = Escapers(lib)
    n = m = 0
    for p in impls(lib, ELEMENT, "to_svg"):
        decide_with(c, esc, p, lib, p, spec_element(lib, esc), where=loc(lib, p), text="exactly one well-formed element")
        n += 1
    for p in impls(lib, TRANSFORM, "to_transform"):
        decide_with(c, esc, p, lib, p, spec_attr(lib, esc), where=loc(lib, p), text="may stand in an attribute")
        m += 1
    if rootpath(lib, SAVE):
        decide_with(c, esc, SAVE, lib, SAVE, spec_element(lib, esc, written, True), where=loc(lib, SAVE), text="a well-formed document is written")
    for f, q in sorted(esc.used, key=str):
        v, why = esc.verdict(f, q)
        if v is True:
            c.ok("%s %s" % (f, q or "content"), loc(lib, f), "every text becomes one that may stand %s" % ("between " + q if q else "in an element"))
    c.floor("elements", n, 3)
    c.floor("transformations", m, 1)
    return c.finish()
