"""Behaviour of the standard library (and rand) functions the crate calls, as transfer
functions of the abstract interpreter. Anything not listed is unknown: its result is
unconstrained and marked, so that no verdict rests on it."""
from .facts import norm
from .iters import *
from .iters import is_seq_adt
from .terms import *
from .engine import is_structural, structeq, local_impl

M = {}


class C:
    """one call"""
    __slots__ = ("eng", "F", "bb", "t", "info", "args", "st", "p", "tag")

    def __init__(self, eng, F, bb, t, info, args, st, p):
        self.eng, self.F, self.bb, self.t, self.info, self.args, self.st, self.p = eng, F, bb, t, info, args, st, p
        self.tag = ""

    def val(self, i):
        return self.content(self.args[i], self.st)

    def content(self, a, st=None):
        st = st or self.st
        n = 0
        while a.op == "mref" and n < 5:
            a = self.eng.get(st, a.a[0], a.a[1])
            n += 1
        return a

    def ref(self, i):
        a = self.args[i]
        n = 0
        while a.op == "mref" and n < 5:
            c = self.eng.get(self.st, a.a[0], a.a[1])
            if c.op != "mref":
                return a
            a = c
            n += 1
        return a if a.op == "mref" else None

    def write(self, st, ref, v):
        st = st.copy()
        self.eng.set(st, ref.a[0], ref.a[1], v)
        return st

    def fresh(self, st, tag, ty=None):
        v = mk("sym", self.F.fid, st.ctx, self.bb, tag)
        if isinstance(ty, str):
            typed(v, ty)
        elif ty is not None:
            self.eng.typ(v, ty)
        return v

    def aty(self, i):
        at = self.t.get("at") or []
        return at[i] if i < len(at) else None

    @property
    def dty(self):
        return self.t.get("dt")

    def call(self, f, args, st, tag="", dty=None):
        return self.eng.call_value(self.F, self.bb, f, args, st, dty, self.tag + tag)

    def require(self, st, cond, kind):
        return self.eng.require(self.F, st, cond, kind, self.t.get("sp"), self.bb)

    def loop(self, st, it, vars_, types, step, tag="L"):
        return run_loop(self.eng, self.F, self.bb, self.tag + tag, st, it, vars_, types, step)

    def targs(self):
        return self.info.get("targs") or []

    def tyk(self, i):
        """type behind references of a type index"""
        n = 0
        t = self.eng.prog.types[i]
        while t["k"] == "ref" and n < 5:
            t = self.eng.prog.types[t["to"]]
            n += 1
        return t


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


def lookup(p, info):
    f = M.get(p)
    if f is None:
        q = norm(info.get("rpath") or "")
        f = M.get(q)
        if f is not None and q in NORES:
            f = None
    if f is None:
        for pre, g in PREFIX:
            if p.startswith(pre):
                f = g
                break
    if f is None:
        return None

    def run(eng, F, bb, t, info, args, st):
        return f(C(eng, F, bb, t, info, args, st, p))
    return run


NORES = set()
PREFIX = []


# ------------------------------------------------------------------ identities
@model("std::convert::AsRef::as_ref", "std::ops::Deref::deref", "std::borrow::Borrow::borrow", "std::string::String::as_str",
       "std::vec::Vec::as_slice", "std::hint::must_use", "std::rc::Rc::new", "std::sync::Arc::new", "std::boxed::Box::new",
       "std::borrow::ToOwned::to_owned", "slice::to_vec", "std::slice::<impl [T]>::to_vec_in::ConvertVec::to_vec",
       "std::vec::Vec::into_boxed_slice", "slice::into_vec", "std::string::String::into_boxed_str", "str::to_string",
       "std::convert::AsMut::as_mut", "std::path::Path::new", "std::path::PathBuf::as_path", "std::path::Path::as_os_str",
       "std::path::Path::to_path_buf", "std::convert::identity", "std::borrow::Cow::into_owned", "std::string::String::into_string",
       "std::rc::Rc::clone", "std::sync::Arc::clone", "str::to_owned", "slice::to_owned", "slice::as_slice", "std::pin::Pin::new",
       "std::iter::Iterator::by_ref", "std::ops::DerefMut::deref_mut", "std::borrow::BorrowMut::borrow_mut", "slice::as_mut_slice",
       "std::vec::Vec::as_mut_slice", "std::boxed::Box::as_mut", "str::as_str", "std::boxed::Box::pin", "std::sync::OnceLock::get_mut",
       "std::path::PathBuf::into_os_string", "std::path::Path::into_path_buf", "std::ffi::OsStr::to_os_string")
def ident(c):
    a = c.args[0]
    if c.p in ("std::rc::Rc::new", "std::sync::Arc::new", "std::boxed::Box::new"):
        return [(c.st, a)]
    if c.p == "std::iter::Iterator::by_ref":
        return [(c.st, a)]
    if c.p in ("slice::to_vec", "std::borrow::ToOwned::to_owned", "slice::to_owned"):
        return [(c.st, c.val(0))]
    if c.info.get("rkind") == "unresolved" and c.p not in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
        # user conversion: pure view of the value
        v = c.content(a) if c.p.endswith("as_ref") else a
        if c.p == "std::convert::AsRef::as_ref":
            st = c.st.copy()
            st.emit("user", c.p, (a,), c.F.inst.name)
            r = mk("view", v)
            if c.dty is not None:
                c.eng.typ(r, c.dty)
            return [(st, r)]
        return None
    if a.op == "guard" or (a.op == "mref" and c.content(a).op == "guard"):
        g = c.content(a) if a.op == "mref" else a
        if c.p.endswith("deref_mut"):
            return [(c.st, g.a[1])]
        return [(c.st, c.content(g.a[1]))]
    if a.op == "mref" and not (c.p.endswith("mut") or c.p.endswith("mut_slice") or c.p == "std::iter::Iterator::by_ref"):
        return [(c.st, c.val(0))]
    return [(c.st, a)]


@model("std::clone::Clone::clone")
def clone(c):
    if c.info.get("rkind") == "unresolved":
        return [(c.st, c.val(0))]
    v = c.val(0)
    if c.aty(0) is not None and not is_structural(c.eng, deref_ty(c.eng, c.aty(0)), "clone"):
        return clone_by(c, v, deref_ty(c.eng, c.aty(0)))
    return [(c.st, v)]


def deref_ty(eng, tyi):
    t = eng.prog.types[tyi]
    while t["k"] == "ref":
        tyi = t["to"]
        t = eng.prog.types[tyi]
    return tyi


def clone_by(c, v, tyi):
    """clone of a value whose parts have a hand-written clone"""
    t = c.eng.prog.types[tyi]
    if t["k"] == "param" or t["k"] != "adt":
        return [(c.st, v)]
    if t["adt"] == OPTION:
        return None
    if t["adt"] == "std::vec::Vec":
        f, inst = local_impl(c.eng.prog, "std::clone::Clone", c.eng.prog.types[t["args"][0]].get("adt"), "clone")
        if inst is not None:
            bv = typed(mk("bv", 900), "usize")
            r = c.eng.inline(c.F, c.bb, inst, [elem(v, bv)], c.st, tag="cl")
            if len(r) == 1:
                return [(r[0][0], mapseq(v, bv, r[0][1]))]
        return None
    return [(c.st, v)]


@model("std::option::Option::cloned", "std::option::Option::copied", "std::option::Option::as_ref", "std::option::Option::as_deref")
def optid(c):
    return [(c.st, c.val(0))]


@model("std::convert::From::from")
def from_(c):
    a, d = c.aty(0), c.dty
    if a is None or d is None:
        return None
    ta, td = c.eng.scalar(a), c.eng.scalar(d)
    v = c.val(0) if c.args[0].op == "mref" else c.args[0]
    if a == d or (ta == td and ta is not None):
        return [(c.st, v)]
    if td == "str" and ta == "char":
        return [(c.st, STR(chr(v.a[0])) if v.op == "int" else typed(mk("chr", v), "str"))]
    if ta in INTB and td in INTB:
        return [(c.st, v)]
    if ta in INTB and td in ("f32", "f64"):
        return [(c.st, mk("float", float(v.a[0])) if v.op == "int" else typed(mk("i2f", v), td))]
    if ta == "f32" and td == "f64":
        return [(c.st, mk("float", v.a[0]) if v.op == "float" else typed(mk("f2f", "f64", v), "f64"))]
    t = c.eng.prog.types[d]
    if t["k"] == "adt" and t["adt"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::path::PathBuf", "std::borrow::Cow", "std::ffi::OsString",
                                        "std::vec::Vec"):
        return [(c.st, v)]
    if t["k"] == "adt" and t["adt"] in ("std::process::ExitCode",):
        return [(c.st, mk("pure", "ExitCode::from", v))]
    if t["k"] == "adt" and t["adt"] in ("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap", "std::collections::BTreeSet"):
        return [(c.st, mapof(v))]
    return None


@model("std::convert::Into::into")
def into(c):
    if c.info.get("rkind") == "unresolved":
        return None
    a, d = c.aty(0), c.dty
    if a == d:
        return [(c.st, c.args[0])]
    return None


@model("std::string::ToString::to_string")
def to_string(c):
    v = c.val(0)
    return [(c.st, disp(c, v, c.aty(0)))]


def disp(c, v, tyi):
    """text of a value under Display"""
    if tyi is not None:
        k = c.eng.scalar(tyi)
        if k == "str":
            return typed(v, "str")
        if k == "char":
            return STR(chr(v.a[0])) if v.op == "int" else typed(mk("chr", v), "str")
    if v.op in ("str",) or tyof.get(v) == "str":
        return v
    if v.op == "int":
        return STR(str(v.a[0]))
    if v.op == "bool":
        return STR("true" if v.a[0] else "false")
    return typed(mk("disp", v), "str")


@model("std::default::Default::default")
def default(c):
    d = c.dty
    v = default_of(c.eng, d)
    if v is None:
        return None
    return [(c.st, v)]


def default_of(eng, d):
    if d is None:
        return None
    t = eng.prog.types[d]
    k = eng.scalar(d) if t["k"] != "ref" else eng.scalar(d)
    if k == "str":
        return ESTR
    if k == "seq":
        return EMPTY
    if k in INTB:
        return ZERO
    if k in ("f32", "f64"):
        return mk("float", 0.0)
    if k == "bool":
        return FALSE
    if t["k"] == "adt":
        if t["adt"] == OPTION:
            return NONE
        if t["adt"] in MAPS or t["adt"] in SETS:
            return EMPTYMAP
        if t["adt"] in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box", "std::cell::RefCell", "std::sync::RwLock", "std::sync::Mutex", "std::cell::Cell"):
            v = default_of(eng, t["args"][0])
            if v is None:
                return None
            return v if t["adt"] in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box") else mk("lockof", v)
    if t["k"] == "tuple" and t.get("el") is not None:
        vs = [default_of(eng, e) for e in t["el"]]
        return None if any(v is None for v in vs) else mk("tup", *vs)
    return None


@model("std::string::String::new", "std::string::String::with_capacity")
def snew(c):
    return [(c.st, ESTR)]


@model("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def vnew(c):
    return [(c.st, EMPTY)]


@model("std::mem::drop")
def mdrop(c):
    st = c.st.copy()
    c.eng.drop(st, c.args[0])
    return [(st, UNIT)]


@model("std::mem::forget")
def mforget(c):
    return [(c.st, UNIT)]


@model("std::mem::replace")
def mreplace(c):
    r = c.ref(0)
    if r is None:
        return None
    old = c.val(0)
    return [(c.write(c.st, r, c.args[1]), old)]


@model("std::mem::take")
def mtake(c):
    r = c.ref(0)
    if r is None:
        return None
    old = c.val(0)
    d = default_of(c.eng, c.dty)
    if d is None:
        d = local_default(c, c.dty)
    if d is None:
        return None
    return [(c.write(c.st, r, d), old)]


def local_default(c, tyi):
    t = c.eng.prog.types[tyi]
    inst = find_impl(c.eng, "std::default::Default", t, "default")
    if inst is None:
        return None
    res = c.eng.inline(c.F, c.bb, inst, [], c.st, tag="def")
    return res[0][1] if len(res) == 1 else None


@model("std::mem::swap")
def mswap(c):
    a, b = c.ref(0), c.ref(1)
    if a is None or b is None:
        return None
    x, y = c.val(0), c.val(1)
    return [(c.write(c.write(c.st, a, y), b, x), UNIT)]


def find_impl(eng, trait, t, name):
    """local instance implementing trait::name for type t"""
    n = 0
    while t["k"] == "ref" and n < 5:
        t = eng.prog.types[t["to"]]
        n += 1
    if t["k"] != "adt":
        return None
    key = (trait, t["s"], name)
    cache = eng.prog.__dict__.setdefault("_implcache", {})
    if key not in cache:
        r = None
        for p, f in eng.prog.fns.items():
            if f.get("impl_trait") and norm(f["impl_trait"]).split("<")[0] == trait and f["name"] == name and f.get("impl_self"):
                s = f["impl_self"]
                if isinstance(s, int):
                    s = eng.prog.types[s]["s"]
                if s == t["s"] or s.split("<")[0] == t["s"].split("<")[0]:
                    r = eng.prog.insts.get(f["root"])
                    break
        cache[key] = r
    return cache[key]


# ------------------------------------------------------------------ comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def peq(c):
    if c.info.get("rkind") == "unresolved":
        ty = c.aty(0)
    ne = c.p.endswith("::ne")
    out = []
    for s, b in equal(c, c.val(0), c.val(1), c.aty(0), c.st):
        out.append((s, not_(b) if ne else b))
    return out


def equal(c, a, b, tyi, st, depth=0):
    """[(state, boolean)]: PartialEq::eq at type tyi"""
    eng = c.eng
    if tyi is None:
        return [(st, eq(a, b))]
    r = structeq(eng, tyi, a, b)
    if r is not None:
        return [(st, r)]
    t = c.tyk(tyi)
    k = eng.scalar(tyi)
    if k in INTB:
        return [(st, eqi(a, b))]
    if k in ("f32", "f64"):
        return [(st, fcmp("eq", a, b))]
    if k == "str":
        typed(a, "str"), typed(b, "str")
        return [(st, eq(a, b))]
    if t["k"] == "adt":
        if t["adt"] in ("std::rc::Rc", "std::sync::Arc", "std::boxed::Box") and t.get("args"):
            return equal(c, a, b, t["args"][0], st, depth)
        inst = find_impl(eng, "std::cmp::PartialEq", t, "eq")
        if inst is not None:
            return eng.inline(c.F, c.bb, inst, [a, b], st, tag="q%d%s" % (depth, c.tag))
        if t["adt"] == OPTION and depth < 2:
            out = []
            for s in st.assume(isv(a, 1)):
                for s2 in s.assume(isv(b, 1)):
                    out += equal(c, fld(a, 1, 0), fld(b, 1, 0), t["args"][0], s2, depth + 1)
                out += [(s2, FALSE) for s2 in s.assume(isv(b, 0))]
            for s in st.assume(isv(a, 0)):
                out += [(s2, FALSE) for s2 in s.assume(isv(b, 1))]
                out += [(s2, TRUE) for s2 in s.assume(isv(b, 0))]
            return out
    if t["k"] == "tuple" and t.get("el") and len(t["el"]) <= 3 and depth < 2:
        res = [(st, TRUE)]
        for i, e in enumerate(t["el"]):
            nxt = []
            for s, r in res:
                for s2, b2 in equal(c, fld(a, 0, i), fld(b, 0, i), e, s, depth + 1):
                    nxt.append((s2, and_(r, b2)))
            res = nxt
        return res
    return [(st, eq(a, b))]


def cmpop(name):
    def f(c):
        a, b = c.val(0), c.val(1)
        k = c.eng.scalar(c.aty(0)) if c.aty(0) is not None else None
        if k in ("f32", "f64") or (k is None and has_float(a)):
            r = {"lt": lambda: fcmp("lt", a, b), "le": lambda: fcmp("le", a, b), "gt": lambda: fcmp("lt", b, a), "ge": lambda: fcmp("le", b, a)}[name]()
        elif k in INTB or isint(a) or isint(b):
            r = {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[name]()
        else:
            return None
        return [(c.st, r)]
    return f


for _n in ("lt", "le", "gt", "ge"):
    M["std::cmp::PartialOrd::" + _n] = cmpop(_n)


ORD = "std::cmp::Ordering"


@model("std::cmp::Ord::cmp")
def ocmp(c):
    a, b = c.val(0), c.val(1)
    if not (isint(a) or isint(b)):
        return None
    out = []
    # Ordering is -1, 0, 1: variants 0, 1, 2
    for s in c.st.assume(lt(a, b)):
        out.append((s, mk("adt", ORD, 0)))
    for s in c.st.assume(eqi(a, b)):
        out.append((s, mk("adt", ORD, 1)))
    for s in c.st.assume(lt(b, a)):
        out.append((s, mk("adt", ORD, 2)))
    return out


@model("std::cmp::max", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::Ord::min")
def omax(c):
    a, b = c.args[0], c.args[1]
    if not (isint(a) or isint(b)):
        return None
    mx = c.p.endswith("max")
    out = []
    for s in c.st.assume(le(a, b)):
        out.append((s, b if mx else a))
    for s in c.st.assume(lt(b, a)):
        out.append((s, a if mx else b))
    return out


# ------------------------------------------------------------------ numbers
for _n in ("abs", "sqrt", "cos", "sin", "tan", "to_radians", "to_degrees", "floor", "ceil", "round", "trunc", "fract", "ln", "exp", "recip", "signum",
           "cbrt", "asin", "acos", "atan", "log10", "log2", "clone"):
    def _f(c, n=_n):
        return [(c.st, typed(mk("fop", n, c.args[0]), "f64" if c.p.startswith("f64") else "f32"))]
    M["f64::" + _n] = _f
    M["f32::" + _n] = _f
for _n in ("min", "max", "atan2", "hypot", "powf", "copysign", "rem_euclid", "total_cmp", "log", "mul_add", "clamp"):
    def _g(c, n=_n):
        return [(c.st, typed(mk("fop", n, *c.args), "f64" if c.p.startswith("f64") else "f32"))]
    M["f64::" + _n] = _g
    M["f32::" + _n] = _g


@model("f64::powi", "f32::powi")
def powi(c):
    x, n = c.args
    ty = "f64" if c.p.startswith("f64") else "f32"
    if n.op == "int" and 1 <= n.a[0] <= 4:
        r = x
        for _ in range(n.a[0] - 1):
            r = typed(mk("fop", "Mul", r, x), ty)
        return [(c.st, r)]
    return [(c.st, typed(mk("fop", "powi", x, n), ty))]


@model("f64::sin_cos", "f32::sin_cos")
def sincos(c):
    ty = "f64" if c.p.startswith("f64") else "f32"
    return [(c.st, mk("tup", typed(mk("fop", "sin", c.args[0]), ty), typed(mk("fop", "cos", c.args[0]), ty)))]


@model("f64::is_nan", "f32::is_nan", "f64::is_infinite", "f32::is_infinite", "f64::is_finite", "f32::is_finite", "f64::is_sign_negative",
       "f32::is_sign_negative", "f64::is_sign_positive", "f32::is_sign_positive", "f64::is_normal", "f32::is_normal")
def fclass(c):
    n = c.p.split("::")[-1]
    x = c.args[0]
    if x.op == "float":
        v = x.a[0]
        inf = v in (float("inf"), float("-inf"))
        if n == "is_nan":
            return [(c.st, FALSE)]
        if n == "is_infinite":
            return [(c.st, BOOL(inf))]
        if n == "is_finite":
            return [(c.st, BOOL(not inf))]
    if n == "is_nan":
        return [(c.st, mk("fnan", x))]
    return [(c.st, mk("fclass", n, x))]


def _ints(names):
    return [t + "::" + n for n in names for t in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "u128", "i16", "i8")]


@model(*_ints(["checked_add", "checked_sub", "checked_mul"]))
def chk(c):
    ty, n = c.p.split("::")
    a, b = c.args
    lo, hi = INTB[ty]
    if n == "checked_mul":
        v = mulc(b, a.a[0]) if a.op == "int" else mulc(a, b.a[0]) if b.op == "int" else None
        if v is None:
            return None
    else:
        v = add(a, b) if n == "checked_add" else sub(a, b)
    inr = and_(le(INT(lo), v), le(v, INT(hi)))
    return [(s, SOME(v)) for s in c.st.assume(inr)] + [(s, NONE) for s in c.st.assume(not_(inr))]


@model(*_ints(["saturating_sub", "saturating_add"]))
def sat(c):
    ty, n = c.p.split("::")
    a, b = c.args
    lo, hi = INTB[ty]
    v = add(a, b) if n == "saturating_add" else sub(a, b)
    out = []
    for s in c.st.assume(le(INT(lo), v)):
        for s2 in s.assume(le(v, INT(hi))):
            out.append((s2, v))
        for s2 in s.assume(lt(INT(hi), v)):
            out.append((s2, INT(hi)))
    for s in c.st.assume(lt(v, INT(lo))):
        out.append((s, INT(lo)))
    return out


@model(*_ints(["wrapping_add", "wrapping_sub", "wrapping_mul", "pow", "abs_diff", "rem_euclid", "div_euclid", "leading_zeros", "trailing_zeros", "count_ones",
               "rotate_left", "rotate_right", "abs", "is_power_of_two", "next_power_of_two", "signum"]))
def wrap(c):
    ty, n = c.p.split("::")
    if n == "abs_diff":
        a, b = c.args
        return [(s, sub(b, a)) for s in c.st.assume(le(a, b))] + [(s, sub(a, b)) for s in c.st.assume(lt(b, a))]
    v = mk("iop", n, *c.args)
    typed(v, ty)
    return [(c.st, v)]


@model("std::num::NonZero::get")
def nz(c):
    return None


# ------------------------------------------------------------------ characters
@model("char::is_whitespace", "char::is_alphabetic", "char::is_alphanumeric", "char::is_numeric", "char::is_control", "char::is_ascii",
       "char::is_ascii_whitespace", "char::is_ascii_digit", "char::is_ascii_alphabetic", "char::is_ascii_alphanumeric", "char::is_ascii_punctuation",
       "char::is_uppercase", "char::is_lowercase", "char::is_digit", "char::is_ascii_uppercase", "char::is_ascii_lowercase", "char::is_ascii_control",
       "char::is_ascii_graphic")
def charcls(c):
    n = c.p.split("::")[1]
    v = c.val(0)
    if n == "is_ascii":
        return [(c.st, le(v, INT(127)))]
    if v.op == "int" and n == "is_whitespace":
        return [(c.st, BOOL(v.a[0] in WS))]
    if v.op == "int" and n == "is_ascii_whitespace":
        return [(c.st, BOOL(v.a[0] in (32, 9, 10, 12, 13)))]
    return [(c.st, mk("cls", n, v, *c.args[1:]))]


WS = {9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} | set(range(0x2000, 0x200B))


@model("char::len_utf8")
def clen(c):
    return [(c.st, utf8len(c.args[0]))]


@model("char::to_ascii_lowercase", "char::to_ascii_uppercase", "char::to_digit", "char::from_u32", "char::from_digit", "std::char::from_u32",
       "std::char::from_digit", "char::eq_ignore_ascii_case")
def cpure(c):
    v = mk("pure", c.p, *[c.content(a) for a in c.args])
    c.eng.typ(v, c.dty)
    return [(c.st, v)]


# ------------------------------------------------------------------ panics
@model("std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed", "std::rt::panic_fmt", "std::panicking::panic",
       "std::rt::begin_panic", "std::panicking::panic_fmt", "std::panicking::unreachable_display", "core::panicking::panic", "std::panicking::panic_explicit",
       "std::rt::panic_explicit", "core::panicking::panic_fmt", "std::panicking::assert_failed", "core::panicking::assert_failed", "std::rt::panic_display",
       "core::panicking::panic_explicit", "core::panicking::unreachable_display", "std::panicking::panic_display", "core::panicking::panic_display",
       "std::rt::unreachable_display", "std::rt::assert_failed", "std::rt::panic_2021::panic_explicit")
def pan(c):
    return c.eng.panic(c.F, c.st, "panic:" + c.p.split("::")[-1], c.t.get("sp"), c.bb)


def pan_prefix(c):
    return c.eng.panic(c.F, c.st, "panic:" + c.p.split("::")[-1], c.t.get("sp"), c.bb)


PREFIX += [("core::panicking::", pan_prefix), ("std::panicking::", pan_prefix), ("std::rt::panic", pan_prefix)]


@model("std::process::exit", "std::process::abort")
def pexit(c):
    st = c.st.copy()
    st.emit("exit", c.p, tuple(c.args))
    return []


# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::new_display")
def newdisp(c):
    v = c.val(0)
    ty = c.aty(0)
    return [(c.st, mk("fmtarg", disp(c, v, ty)))]


@model("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::new_octal",
       "core::fmt::rt::Argument::new_binary", "core::fmt::rt::Argument::new_lower_exp", "core::fmt::rt::Argument::new_upper_exp",
       "core::fmt::rt::Argument::new_pointer", "core::fmt::rt::Argument::from_usize")
def newdbg(c):
    return [(c.st, mk("fmtarg", typed(mk("dispas", c.p.split("::")[-1], c.val(0)), "str")))]


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def argstr(c):
    v = c.args[0]
    return [(c.st, v)]


def decode(template, args):
    b = template
    i = 0
    arg = 0
    out = []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(STR(bytes(b[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            m = b[i] | b[i + 1] << 8
            i += 2
            out.append(STR(bytes(b[i:i + m]).decode("utf-8", "replace")))
            i += m
        else:
            spec = []
            if n & 1:
                spec.append(("flags", int.from_bytes(bytes(b[i:i + 4]), "little")))
                i += 4
            if n & 2:
                spec.append(("width", int.from_bytes(bytes(b[i:i + 2]), "little")))
                i += 2
            if n & 4:
                spec.append(("prec", int.from_bytes(bytes(b[i:i + 2]), "little")))
                i += 2
            if n & 8:
                arg = int.from_bytes(bytes(b[i:i + 2]), "little")
                i += 2
            if arg >= len(args):
                return None
            a = args[arg]
            arg += 1
            v = a.a[0] if a.op == "fmtarg" else mk("fmtopaque", a)
            if spec and spec != [("flags", 0xE0000020)]:
                v = typed(mk("fmtspec", v, tuple(spec)), "str")
            out.append(v)
    r = cat(*out) if out else ESTR
    return typed(r, "str")


@model("std::fmt::Arguments::new")
def argnew(c):
    t, a = c.args
    if t.op == "bytes" and a.op == "lst":
        r = decode(list(t.a[0]), a.a)
        if r is not None:
            return [(c.st, r)]
    return [(c.st, typed(mk("fmtall", t, a), "str"))]


@model("std::fmt::format", "std::fmt::Arguments::as_str", "std::fmt::format::format_inner")
def fmt(c):
    if c.p.endswith("as_str"):
        return [(c.st, SOME(c.args[0]))] if c.args[0].op == "str" else None
    return [(c.st, c.args[0])]


def fresult(c, st):
    # the writer may fail or not, at any time
    v = mk("sym", c.F.fid, st.ctx, c.bb, "fmtres", "arg")
    if c.dty is not None:
        c.eng.typ(v, c.dty)
    return v


def append(c, text):
    r = c.ref(0)
    if r is None:
        return None
    cur = c.val(0)
    st = c.write(c.st, r, catfmt(cur, text))
    return st


def catfmt(cur, text):
    if cur.op == "sym" and cur.a and cur.a[0] == "root":
        return cat(cur, text)
    return cat(cur, text)


def is_str_sink(c):
    t = c.aty(0)
    return t is not None and c.eng.scalar(t) == "str"


@model("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad")
def wstr(c):
    text = typed(c.val(1), "str")
    if c.p.endswith("pad"):
        text = typed(mk("padded", text), "str")
    st = append(c, text)
    if st is None:
        return None
    if is_str_sink(c):
        return [(st, OK(UNIT))]
    return [(st, fresult(c, st))]


@model("std::fmt::Write::write_char", "std::fmt::Formatter::write_char")
def wchar(c):
    v = c.args[1]
    st = append(c, STR(chr(v.a[0])) if v.op == "int" else typed(mk("chr", v), "str"))
    if st is None:
        return None
    if is_str_sink(c):
        return [(st, OK(UNIT))]
    return [(st, fresult(c, st))]


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt")
def wfmt(c):
    st = append(c, c.args[1])
    if st is None:
        return None
    if is_str_sink(c):
        return [(st, OK(UNIT))]
    return [(st, fresult(c, st))]


def debugfmt(c):
    st = append(c, typed(mk("dbgtext", *[c.content(a) for a in c.args[1:]]), "str"))
    if st is None:
        return None
    return [(st, fresult(c, st))]


PREFIX.append(("std::fmt::Formatter::debug_", debugfmt))


@model("std::fmt::Display::fmt", "std::fmt::Debug::fmt")
def dfmt(c):
    f = c.ref(1)
    if f is None:
        return None
    cur = c.val(1)
    text = disp(c, c.val(0), c.aty(0)) if "Display" in c.p else typed(mk("dispas", "new_debug", c.val(0)), "str")
    st = c.write(c.st, f, cat(cur, text))
    return [(st, fresult(c, st))]


# ------------------------------------------------------------------ strings
def S(c, i=0):
    return typed(c.val(i), "str")


@model("str::len", "std::string::String::len")
def slen(c):
    return [(c.st, len_(S(c)))]


@model("str::is_empty", "std::string::String::is_empty")
def sempty(c):
    return [(c.st, eqi(len_(S(c)), ZERO))]


@model("str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes", "str::bytes", "str::into_bytes")
def sbytes(c):
    s = S(c)
    v = typed(mk("bytesof", s), "seq")
    if c.p == "str::bytes":
        return [(c.st, whole(v))]
    return [(c.st, v)]


def trimmed(s, which="trim"):
    if s.op == "str":
        ws = "".join(map(chr, WS))
        return STR(s.a[0].strip(ws) if which == "trim" else s.a[0].lstrip(ws) if which == "trim_start" else s.a[0].rstrip(ws))
    if s.op == "trim":
        if s.a[0] in ("trim", which):
            return s
        if which == "trim":
            return trimmed(s.a[1], "trim")
        return trimmed(s.a[1], "trim")
    return typed(mk("trim", which, s), "str")


@model("str::trim", "str::trim_start", "str::trim_end", "str::trim_left", "str::trim_right")
def trim(c):
    w = {"trim": "trim", "trim_start": "trim_start", "trim_left": "trim_start"}.get(c.p.split("::")[1], "trim_end")
    s = S(c)
    v = trimmed(s, w)
    st = c.st.copy()
    if v.op == "trim":
        st.know(le(len_(v), len_(s)))
    return [(st, v)]


def charpred(c, f):
    """a pattern; one given by a function of characters as the condition it stands for"""
    p = c.content(f) if f.op == "mref" else f
    if p.op not in ("clo", "fn"):
        return p
    x = mk("bv", 1500)
    tyof.setdefault(x, "char")
    st = c.st.copy()
    ev0 = st.ev
    before = set(st.facts.all())
    try:
        res = c.call(f, [x], st, "cp")
    except Exception as e:
        if type(e).__name__ in ("Budget", "RecursionError"):
            raise
        return p
    out = FALSE
    for s, b in res:
        if s.ev is not ev0:
            return p
        for l in s.facts.all():
            if l not in before:
                b = and_(l, b)
        out = or_(out, b)
    return mk("lamc", x, out)


@model("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase",
       "str::to_ascii_uppercase", "str::repeat", "str::escape_debug", "str::trim_ascii")
def spure(c):
    s = S(c)
    if c.p.endswith("_matches") and len(c.args) > 1:
        p = charpred(c, c.args[1])
        if p.op == "lamc" and p.a[1] is mk("cls", "is_whitespace", p.a[0]):
            v = trimmed(s, c.p.split("::")[1].replace("_matches", ""))
            st = c.st.copy()
            if v.op == "trim":
                st.know(le(len_(v), len_(s)))
            return [(st, v)]
    v = typed(mk("strop", c.p.split("::")[1], s, *([charpred(c, c.args[1])] if c.p.endswith("_matches") else c.args[1:])), "str")
    st = c.st.copy()
    if "trim" in c.p:
        st.know(le(len_(v), len_(s)))
    return [(st, v)]


@model("str::replace", "str::replacen")
def sreplace(c):
    return [(c.st, typed(mk("strop", c.p.split("::")[1], S(c), *[c.content(a) for a in c.args[1:]]), "str"))]


@model("str::is_ascii")
def sascii(c):
    return [(c.st, mk("strprop", "is_ascii", S(c)))]


@model("str::eq_ignore_ascii_case")
def seqi(c):
    return [(c.st, mk("eqic", S(c), S(c, 1)))]


@model("str::chars")
def chars(c):
    s = S(c)
    return [(c.st, mk("chars", s, ZERO, len_(s)))]


@model("str::char_indices")
def charidx(c):
    s = S(c)
    return [(c.st, mk("charidx", s, ZERO, len_(s)))]


@model("std::str::Chars::as_str", "std::str::CharIndices::as_str")
def asstr(c):
    v = c.val(0)
    if v.op not in ("chars", "charidx"):
        return None
    return [(c.st, slice_(v.a[0], v.a[1], v.a[2]))]


@model("str::contains")
def scontains(c):
    return [(c.st, contains_str(S(c), c.val(1)))]


@model("str::starts_with", "str::ends_with")
def sstarts(c):
    s, p = S(c), patterm(charpred(c, c.args[1]))
    w = "starts" if "starts" in c.p else "ends"
    if s.op == p.op == "str":
        return [(c.st, BOOL(s.a[0].startswith(p.a[0]) if w == "starts" else s.a[0].endswith(p.a[0])))]
    if p.op == "str" or tyof.get(p) == "str":
        return [(c.st, mk(w, s, p))]
    return [(c.st, mk("patat", w, s, p))]


@model("str::find", "str::rfind")
def sfind(c):
    s = S(c)
    p = c.val(1)
    if p.op in ("clo", "fn") and "rfind" not in c.p:
        def step(z, x, roots):
            out = []
            for z2, b in c.call(c.args[1], [x.a[1]], z, "sf"):
                out += [(("hit", x.a[0]), z3) for z3 in z2.assume(b)]
                out += [(None, z3) for z3 in z2.assume(not_(b))]
            return out
        return [(st, NONE if t is None else SOME(t[1])) for t, st, n, v in c.loop(c.st, mk("charidx", s, ZERO, len_(s)), {}, {}, step)]
    return [(st, NONE if i is None else SOME(i)) for st, i, n in findpos(c.st, s, c.val(1), "rfind" in c.p)]


@model("str::split_once", "str::rsplit_once")
def ssplitonce(c):
    s = S(c)
    out = []
    for st, i, n in findpos(c.st, s, c.val(1), "rsplit" in c.p):
        if i is None:
            out.append((st, NONE))
        else:
            out.append((st, SOME(mk("tup", slice_(s, ZERO, i), slice_(s, add(i, n), len_(s))))))
    return out


@model("str::splitn", "str::rsplitn")
def ssplitn(c):
    s, n = S(c), c.args[1]
    if n.op != "int":
        return [(c.st, whole(typed(mk("splitseq", s, patterm(c.val(2))), "seq")))]
    if n.a[0] == 0:
        return [(c.st, whole(EMPTY))]
    if n.a[0] == 1:
        return [(c.st, whole(mk("lst", s)))]
    if n.a[0] == 2:
        out = []
        back = "rsplitn" in c.p
        for st, i, k in findpos(c.st, s, c.val(2), back):
            if i is None:
                out.append((st, whole(mk("lst", s))))
            else:
                a, b = slice_(s, ZERO, i), slice_(s, add(i, k), len_(s))
                out.append((st, whole(mk("lst", *((b, a) if back else (a, b))))))
        return out
    v = typed(mk("splitnseq", s, n, patterm(c.val(2))), "seq")
    st = c.st.copy()
    st.know(le(ONE, len_(v)))
    st.know(le(len_(v), n))
    return [(st, whole(v))]


@model("str::split", "str::rsplit", "str::split_terminator", "str::split_inclusive")
def ssplit(c):
    s, p = S(c), patterm(c.val(1))
    v = typed(mk("splitseq" if c.p == "str::split" else c.p, s, p), "seq")
    st = c.st.copy()
    if c.p == "str::split":
        st.know(le(ONE, len_(v)))
    return [(st, whole(v))]


@model("str::lines")
def slines(c):
    return [(c.st, whole(typed(mk("lines", S(c)), "seq")))]


@model("str::split_whitespace", "str::split_ascii_whitespace")
def swords(c):
    w = "words" if c.p == "str::split_whitespace" else "awords"
    s = S(c)
    v = typed(mk(w, s), "seq")
    if s.op == "trim" and c.st.ask(eqi(len_(s), ZERO)) is False:
        # something other than white space is left: there is a word
        st = c.st.copy()
        st.know(le(ONE, len_(v)))
        return [(st, whole(v))]
    return [(c.st, whole(v))]


@model("str::strip_prefix", "str::strip_suffix")
def sstrip(c):
    s, p = S(c), patterm(charpred(c, c.args[1]))
    w = "starts" if "prefix" in c.p else "ends"
    if not (p.op == "str" or tyof.get(p) == "str"):
        return None
    b = BOOL(s.a[0].startswith(p.a[0]) if w == "starts" else s.a[0].endswith(p.a[0])) if s.op == p.op == "str" else mk(w, s, p)
    out = []
    for st in c.st.assume(b):
        out.append((st, SOME(slice_(s, len_(p), len_(s)) if w == "starts" else slice_(s, ZERO, sub(len_(s), len_(p))))))
    for st in c.st.assume(not_(b)):
        out.append((st, NONE))
    return out


@model("std::str::FromStr::from_str")
def fromstr(c):
    t = c.dty
    s = S(c)
    ty = c.eng.prog.types[t]
    ok = c.eng.scalar(ty["args"][0]) if ty["k"] == "adt" and ty.get("args") else None
    if ok is None:
        return None
    if ok == "str":
        return [(c.st, OK(s))]
    v = mk("parse", ok, s)
    typed(fld(v, 0, 0), ok)
    if c.eng.track:
        st = c.st.copy()
        c.eng.outcome(st, v, t, "parse", c.F, c.bb)
        return [(st, v)]
    return [(c.st, v)]


@model("str::parse")
def sparse(c):
    t = c.dty
    if t is None:
        return None
    ty = c.eng.prog.types[t]
    ok = c.eng.scalar(ty["args"][0]) if ty["k"] == "adt" and ty.get("args") else None
    if ok in INTB or ok in ("f32", "f64", "bool", "str", "char"):
        return fromstr(c)
    return None


@model("std::string::String::push")
def spush(c):
    v = c.args[1]
    st = append(c, STR(chr(v.a[0])) if v.op == "int" else typed(mk("chr", v), "str"))
    return None if st is None else [(st, UNIT)]


@model("std::string::String::push_str")
def spushstr(c):
    st = append(c, typed(c.val(1), "str"))
    return None if st is None else [(st, UNIT)]


@model("std::ops::AddAssign::add_assign")
def addassign(c):
    if is_str_sink(c):
        st = append(c, typed(c.val(1), "str"))
        return None if st is None else [(st, UNIT)]
    return None


@model("std::ops::Add::add")
def sadd(c):
    k = c.eng.scalar(c.aty(0)) if c.aty(0) is not None else None
    if k == "str":
        return [(c.st, typed(cat(c.args[0], c.val(1)), "str"))]
    return arith(c, "Add")


def arith(c, op):
    k = c.eng.scalar(c.aty(0)) if c.aty(0) is not None else None
    a, b = c.val(0), c.val(1)
    if k in ("f32", "f64"):
        return [(c.st, c.eng.binop(op, a, b, k))]
    if k in INTB:
        v = c.eng.binop(op, a, b, k)
        lo, hi = INTB[k]
        if op in ("Div", "Rem"):
            return [(s, v) for s in c.require(c.st, not_(eqi(b, ZERO)), "division by zero")]
        return [(s, v) for s in c.require(c.st, and_(le(INT(lo), v), le(v, INT(hi))), "overflow")]
    return None


for _n in ("Sub", "Mul", "Div", "Rem"):
    M["std::ops::%s::%s" % (_n, _n.lower())] = (lambda n: lambda c: arith(c, n))(_n)


@model("std::ops::Neg::neg")
def neg(c):
    k = c.eng.scalar(c.aty(0)) if c.aty(0) is not None else None
    v = c.val(0)
    if k in ("f32", "f64"):
        return [(c.st, mk("float", -v.a[0]) if v.op == "float" else typed(mk("fop", "Neg", v), k))]
    return None


@model("std::ops::Not::not")
def notop(c):
    return [(c.st, not_(c.val(0)))] if c.aty(0) is not None and c.eng.scalar(c.aty(0)) == "bool" else None


@model("std::string::String::clear", "std::vec::Vec::clear")
def clear(c):
    r = c.ref(0)
    if r is None:
        return None
    return [(c.write(c.st, r, ESTR if "String" in c.p else EMPTY), UNIT)]


@model("std::path::PathBuf::set_extension")
def set_extension(c):
    r = c.ref(0)
    if r is None:
        return None
    old = c.content(c.args[0])
    v = mk("pure", "std::path::Path::with_extension", old, c.content(c.args[1]))
    b = mk("sym", c.F.fid, c.st.ctx, c.bb, "ext")
    c.eng.typ(b, c.dty)
    return [(c.write(c.st, r, v), b)]


@model("std::string::String::pop")
def spop(c):
    r = c.ref(0)
    if r is None:
        return None
    s = S(c)
    out = []
    last = s.a[-1] if s.op == "cat" else s
    if last.op == "str" and len(last.a[0]) and ord(last.a[0][-1]) < 128:
        return [(c.write(c.st.copy(), r, droptail(s, 1)), SOME(INT(ord(last.a[0][-1]))))]
    for st in c.st.assume(eqi(len_(s), ZERO)):
        out.append((st, NONE))
    for st in c.st.assume(not_(eqi(len_(s), ZERO))):
        ch = typed(mk("lastchar", s), "char")
        st = st.copy()
        st.know(le(utf8len(ch), len_(s)))
        st.know(bnd(s, sub(len_(s), utf8len(ch))))
        out.append((c.write(st, r, slice_(s, ZERO, sub(len_(s), utf8len(ch)))), SOME(ch)))
    return out


def droptail(s, k):
    """the text without the last k bytes, which are ASCII characters of a constant"""
    if s.op == "str":
        return STR(s.a[0][:len(s.a[0]) - k])
    return typed(cat(*s.a[:-1], STR(s.a[-1].a[0][:len(s.a[-1].a[0]) - k])), "str")


@model("std::string::String::truncate")
def struncate(c):
    r = c.ref(0)
    if r is None:
        return None
    s = S(c)
    n = c.val(1)
    if c.st.ask(le(len_(s), n)) is True:
        return [(c.st, UNIT)]
    k = sub(len_(s), n)
    last = s.a[-1] if s.op == "cat" else s
    if k.op == "int" and last.op == "str" and 0 < k.a[0] <= len(last.a[0]) and last.a[0].isascii():
        return [(c.write(c.st.copy(), r, droptail(s, k.a[0])), UNIT)]
    return None


@model("std::string::String::insert", "std::string::String::insert_str", "std::string::String::remove",
       "std::string::String::retain", "std::string::String::replace_range")
def smut(c):
    return None


@model("std::string::String::reserve", "std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::string::String::shrink_to_fit",
       "std::collections::HashMap::reserve", "std::collections::HashSet::reserve")
def noop(c):
    return [(c.st, UNIT)]


@model("std::string::String::from_utf8_lossy", "std::string::String::from_utf8", "std::str::from_utf8", "std::path::Path::to_string_lossy",
       "std::ffi::OsStr::to_string_lossy", "std::path::Path::to_str", "std::ffi::OsStr::to_str", "std::path::Path::extension", "std::path::Path::file_name",
       "std::path::Path::file_stem", "std::path::Path::parent", "std::path::Path::with_extension", "std::path::Path::join", "std::path::Path::display",
       "std::ffi::OsStr::to_ascii_lowercase", "std::path::Path::with_file_name", "std::path::Path::is_absolute", "std::path::Path::components",
       "std::ffi::OsStr::eq_ignore_ascii_case", "std::ffi::OsStr::is_empty", "std::ffi::OsString::into_string", "std::path::Path::ends_with",
       "std::ffi::OsStr::len", "std::error::Error::source", "std::error::Error::to_string", "std::io::Error::kind", "std::any::type_name",
       "std::mem::size_of", "std::mem::discriminant", "std::num::ParseIntError::kind")
def purecall(c):
    v = mk("pure", c.p, *[c.content(a) for a in c.args])
    if c.dty is not None:
        c.eng.typ(v, c.dty)
    return [(c.st, v)]


# ------------------------------------------------------------------ indexing
def unrange(v, n):
    """(lo, hi) of a range value used as an index into something of length n"""
    if v.op != "adt":
        return None
    k = v.a[0].split("::")[-1]
    if k == "Range":
        return v.a[2], v.a[3]
    if k == "RangeFrom":
        return v.a[2], n
    if k == "RangeTo":
        return ZERO, v.a[2]
    if k == "RangeToInclusive":
        return ZERO, addc(v.a[2], 1)
    if k == "RangeInclusive":
        return v.a[2], addc(v.a[3], 1)
    if k == "RangeFull":
        return ZERO, n
    return None


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index(c):
    t = c.tyk(c.aty(0)) if c.aty(0) is not None else None
    ismut = "IndexMut" in c.p
    v = c.val(0)
    i = c.val(1)
    if t is not None and t["k"] == "adt" and t["adt"] in MAPS:
        out = []
        for s in c.require(c.st, mk_has(v, i), "missing map key"):
            out.append((s, mapget(v, i)))
        return out
    strs = t is not None and (t["k"] == "str" or (t["k"] == "adt" and t["adt"] == "std::string::String"))
    n = len_(typed(v, "str" if strs else "seq"))
    typed(n, "usize")
    r = unrange(i, n)
    ref = c.ref(0) if ismut else None
    if r is not None:
        lo, hi = r
        out = []
        for s in c.require(c.st, and_(le(lo, hi), le(hi, n)), "slice range"):
            if strs:
                for s2 in c.require(s, and_(bnd(v, lo), bnd(v, hi)), "char boundary"):
                    out.append((s2, slice_(v, lo, hi)))
            elif ref is not None:
                if lo is ZERO and hi is n:
                    out.append((s, ref))
                else:
                    return None
            else:
                out.append((s, slice_(v, lo, hi)))
        return out
    if isint(i) or i.op in ("sym", "phi", "int", "lin") or tyof.get(i) == "usize":
        typed(i, "usize")
        out = []
        for s in c.require(c.st, lt(i, n), "index bounds"):
            if ref is not None:
                out.append((s, mk("mref", ref.a[0], ref.a[1] + (("i", i),))))
            else:
                out.append((s, elem(v, i)))
        return out
    # unresolved index type
    return None


@model("slice::get", "std::vec::Vec::get", "str::get")
def sget(c):
    v = c.val(0)
    strs = c.p.startswith("str")
    typed(v, "str" if strs else "seq")
    n = len_(v)
    i = c.args[1]
    r = unrange(i, n)
    out = []
    if r is not None:
        lo, hi = r
        ok = and_(le(lo, hi), le(hi, n))
        if strs:
            ok = and_(ok, and_(bnd(v, lo), bnd(v, hi)))
        for s in c.st.assume(ok):
            out.append((s, SOME(slice_(v, lo, hi))))
        for s in c.st.assume(not_(ok)):
            out.append((s, NONE))
        return out
    if not isint(i):
        typed(i, "usize")
    for s in c.st.assume(lt(i, n)):
        out.append((s, SOME(elem(v, i))))
    for s in c.st.assume(not_(lt(i, n))):
        out.append((s, NONE))
    return out


@model("slice::get_mut", "std::vec::Vec::get_mut")
def sgetmut(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    i = c.args[1]
    if unrange(i, ZERO) is not None:
        return None
    out = []
    for s in c.st.assume(lt(i, len_(v))):
        out.append((s, SOME(mk("mref", r.a[0], r.a[1] + (("i", i),)))))
    for s in c.st.assume(not_(lt(i, len_(v)))):
        out.append((s, NONE))
    return out


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def sfirst(c):
    r = c.ref(0) if c.p.endswith("mut") else None
    v = typed(c.val(0), "seq")
    n = len_(v)
    i = ZERO if "first" in c.p else addc(n, -1)
    out = []
    for s in c.st.assume(lt(ZERO, n)):
        out.append((s, SOME(mk("mref", r.a[0], r.a[1] + (("i", i),)) if r is not None else elem(v, i))))
    for s in c.st.assume(not_(lt(ZERO, n))):
        out.append((s, NONE))
    return out


@model("slice::split_first", "slice::split_last")
def ssplitfirst(c):
    v = typed(c.val(0), "seq")
    n = len_(v)
    out = []
    for s in c.st.assume(lt(ZERO, n)):
        if "first" in c.p:
            out.append((s, SOME(mk("tup", elem(v, ZERO), slice_(v, ONE, n)))))
        else:
            out.append((s, SOME(mk("tup", elem(v, addc(n, -1)), slice_(v, ZERO, addc(n, -1))))))
    for s in c.st.assume(not_(lt(ZERO, n))):
        out.append((s, NONE))
    return out


@model("slice::split_at", "str::split_at")
def ssplitat(c):
    v = c.val(0)
    i = c.args[1]
    out = []
    for s in c.require(c.st, le(i, len_(v)), "split_at"):
        for s2 in (c.require(s, bnd(v, i), "char boundary") if c.p.startswith("str") else [s]):
            out.append((s2, mk("tup", slice_(v, ZERO, i), slice_(v, i, len_(v)))))
    return out


@model("str::is_char_boundary")
def isbnd(c):
    v, i = S(c), c.args[1]
    return [(c.st, and_(le(i, len_(v)), bnd(v, i)))]


@model("slice::len", "std::vec::Vec::len", "std::collections::VecDeque::len")
def vlen(c):
    return [(c.st, typed(len_(typed(c.val(0), "seq")), "usize"))]


@model("slice::is_empty", "std::vec::Vec::is_empty", "std::collections::VecDeque::is_empty")
def vempty(c):
    return [(c.st, eqi(len_(typed(c.val(0), "seq")), ZERO))]


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def vpush(c):
    r = c.ref(0)
    if r is None:
        return None
    cur = typed(c.val(0), "seq")
    st = c.write(c.st, r, typed(cat(cur, mk("lst", c.args[1])), "seq"))
    st.emit("push", r, c.args[1])
    return [(st, UNIT)]


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def vpop(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    n = len_(v)
    out = []
    for s in c.st.assume(lt(ZERO, n)):
        x = elem(v, addc(n, -1))
        out.append((c.write(s, r, typed(slice_(v, ZERO, addc(n, -1)), "seq")), SOME(x)))
    for s in c.st.assume(not_(lt(ZERO, n))):
        out.append((s, NONE))
    return out


@model("std::vec::Vec::insert")
def vinsert(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    i = c.args[1]
    out = []
    for s in c.require(c.st, le(i, len_(v)), "insert position"):
        out.append((c.write(s, r, typed(cat(slice_(v, ZERO, i), mk("lst", c.args[2]), slice_(v, i, len_(v))), "seq")), UNIT))
    return out


@model("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def vremove(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    i = c.args[1]
    n = len_(v)
    out = []
    for s in c.require(c.st, lt(i, n), "remove position"):
        if c.p.endswith("swap_remove"):
            w = typed(mk("swaprm", v, i), "seq")
            s = s.copy()
            s.know(eqi(len_(w), addc(n, -1)))
        else:
            w = typed(cat(slice_(v, ZERO, i), slice_(v, addc(i, 1), n)), "seq")
        out.append((c.write(s, r, w), elem(v, i)))
    return out


@model("std::vec::Vec::truncate")
def vtrunc(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    n = c.args[1]
    out = []
    for s in c.st.assume(le(len_(v), n)):
        out.append((s, UNIT))
    for s in c.st.assume(not_(le(len_(v), n))):
        out.append((c.write(s, r, typed(slice_(v, ZERO, n), "seq")), UNIT))
    return out


@model("std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def vextslice(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    w = typed(c.val(1), "seq")
    st = c.write(c.st, r, typed(cat(v, w), "seq"))
    if c.p.endswith("append"):
        r2 = c.ref(1)
        if r2 is None:
            return None
        st = c.write(st, r2, EMPTY)
    return [(st, UNIT)]


@model("slice::reverse")
def vreverse(c):
    r = c.ref(0)
    if r is None:
        return None
    return [(c.write(c.st, r, typed(rev(typed(c.val(0), "seq")), "seq")), UNIT)]


@model("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::swap",
       "std::vec::Vec::dedup", "std::vec::Vec::retain", "std::vec::Vec::dedup_by_key", "std::vec::Vec::drain", "slice::fill", "slice::rotate_left",
       "slice::rotate_right", "std::vec::Vec::split_off", "std::vec::Vec::resize")
def vmess(c):
    r = c.ref(0)
    if r is None:
        return None
    v = typed(c.val(0), "seq")
    n = c.p.split("::")[-1]
    if n == "swap":
        out = []
        a, b = c.args[1], c.args[2]
        for s in c.require(c.st, and_(lt(a, len_(v)), lt(b, len_(v))), "swap positions"):
            out.append((c.write(s, r, typed(upd(upd(v, a, elem(v, b)), b, elem(v, a)), "seq")), UNIT))
        return out
    if n == "drain":
        x = unrange(c.args[1], len_(v))
        if x is None:
            return None
        out = []
        for s in c.require(c.st, and_(le(x[0], x[1]), le(x[1], len_(v))), "drain range"):
            out.append((c.write(s, r, typed(cat(slice_(v, ZERO, x[0]), slice_(v, x[1], len_(v))), "seq")), whole(slice_(v, x[0], x[1]))))
        return out
    if n == "split_off":
        i = c.args[1]
        return [(c.write(s, r, typed(slice_(v, ZERO, i), "seq")), slice_(v, i, len_(v))) for s in c.require(c.st, le(i, len_(v)), "split position")]
    st = c.st.copy()
    keep = n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "fill", "rotate_left", "rotate_right")
    w = typed(mk("rearranged", n, v, *c.args[1:]), "seq")
    if keep:
        st.know(eqi(len_(w), len_(v)))
    elif n != "resize":
        st.know(le(len_(w), len_(v)))
    st = c.write(st, r, w)
    st.emit("rearranged", n, r)
    return [(st, UNIT)]


@model("slice::iter", "slice::iter_mut")
def viter(c):
    if c.p.endswith("iter_mut"):
        r = c.ref(0)
        if r is None:
            return None
        return [(c.st, mk("itmut", r, ZERO, typed(len_(typed(c.val(0), "seq")), "usize")))]
    return [(c.st, whole(typed(c.val(0), "seq")))]


@model("slice::contains")
def vcontains(c):
    v = typed(c.val(0), "seq")
    x = c.val(1)
    ty = c.aty(1)
    t = c.tyk(ty) if ty is not None else None
    if t is None or t["k"] != "adt" or find_impl(c.eng, "std::cmp::PartialEq", t, "eq") is None:
        return [(c.st, mk("member", x, v))]

    def step(s, y, roots):
        out = []
        for s2, b in equal(c, y, x, ty, s):
            out += [(("hit",), s3) for s3 in s2.assume(b)]
            out += [(None, s3) for s3 in s2.assume(not_(b))]
        return out
    return [(s, BOOL(t is not None)) for t, s, n, _ in c.loop(c.st, whole(v), {}, {}, step)]


@model("slice::starts_with", "slice::ends_with")
def vstarts(c):
    v, p = typed(c.val(0), "seq"), typed(c.val(1), "seq")
    return [(c.st, mk("starts" if "starts" in c.p else "ends", v, p))]


@model("slice::join", "slice::concat")
def vjoin(c):
    v = c.val(0)
    sep = typed(c.val(1), "str") if len(c.args) > 1 else ESTR
    if v.op == "lst":
        out = []
        for i, x in enumerate(v.a):
            if i and sep is not ESTR:
                out.append(sep)
            out.append(typed(x, "str"))
        return [(c.st, typed(cat(*out) if out else ESTR, "str"))]
    return [(c.st, typed(mk("join", v, sep), "str"))]


@model("slice::splitn", "slice::split")
def vsplitn(c):
    """pieces of a slice around the elements accepted by the predicate"""
    v = typed(c.val(0), "seq")
    f = c.args[-1]
    n = c.args[1] if c.p.endswith("splitn") else None
    if n is not None and n.op == "int" and n.a[0] == 2:
        res = []
        it = whole(v)

        def step(s, x, roots):
            out = []
            i = addc(s.mem[roots["it"]].a[1], -1)
            for s2, b in c.call(f, [x], s, "sp"):
                for s3 in s2.assume(b):
                    out.append((("hit", i), s3))
                out += [(None, s3) for s3 in s2.assume(not_(b))]
            return out
        for t, s, n2, vals in c.loop(c.st, it, {}, {}, step, "spl"):
            if t is None:
                res.append((s, whole(mk("lst", v))))
            else:
                i = t[1]
                res.append((s, whole(mk("lst", slice_(v, ZERO, i), slice_(v, addc(i, 1), len_(v))))))
        return res
    w = typed(mk("vsplit", v, f), "seq")
    st = c.st.copy()
    st.know(le(ONE, len_(w)))
    return [(st, whole(w))]


@model("slice::windows", "slice::chunks", "slice::chunks_exact")
def windows(c):
    v = typed(c.val(0), "seq")
    n = c.args[1]
    out = []
    for s in c.require(c.st, lt(ZERO, n), "window size"):
        if c.p.endswith("windows"):
            for s2 in s.assume(le(n, len_(v))):
                b = mk("bv", 900)
                tyof.setdefault(b, "usize")
                out.append((s2, whole(typed(mapseq(mk("rangeseq", ZERO, addc(sub(len_(v), n), 1)), b, slice_(v, b, add(b, n))), "seq"))))
            for s2 in s.assume(not_(le(n, len_(v)))):
                out.append((s2, whole(EMPTY)))
        else:
            out.append((s, whole(typed(mk(c.p, v, n), "seq"))))
    return out


@model("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key", "slice::iter().position")
def bsearch(c):
    return None


# vec![...]
@model("std::boxed::Box::new_uninit")
def newuninit(c):
    root = ("u", c.F.fid, c.bb, c.st.ctx)
    st = c.st.copy()
    st.mem[root] = EMPTY
    return [(st, mk("mref", root, ()))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def assumeinit(c):
    v = c.val(0)
    st = c.st.copy()
    if c.args[0].op == "mref":
        st.mem.pop(c.args[0].a[0], None)
    return [(st, v)]


@model("std::vec::from_elem")
def fromelem(c):
    x, n = c.args
    if n.op == "int" and n.a[0] <= 16:
        return [(c.st, mk("lst", *[x] * n.a[0]))]
    return [(c.st, typed(mk("repeat", x, n), "seq"))]


# ------------------------------------------------------------------ maps and sets
MAPS = ("std::collections::HashMap", "std::collections::BTreeMap")
SETS = ("std::collections::HashSet", "std::collections::BTreeSet")
EMPTYMAP = mk("emptymap")


def key(k):
    return k


def mk_has(m, k):
    if m.op == "emptymap":
        return FALSE
    if m.op == "mapput":
        return or_(keyeq(m.a[1], k), mk_has(m.a[0], k))
    return mk("has", m, k)


def keyeq(a, b):
    return eq(a, b)


def mapget(m, k):
    if m.op == "mapput":
        e = keyeq(m.a[1], k)
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return mapget(m.a[0], k)
    return mk("mapget", m, k)


REBUILD["mapget"] = mapget
REBUILD["has"] = mk_has


def mapof(seq):
    if seq.op == "lst":
        m = EMPTYMAP
        for x in seq.a:
            m = mk("mapput", m, fld(x, 0, 0), fld(x, 0, 1))
        return m
    return mk("mapof", seq)


def mp(name):
    return [a + "::" + name for a in MAPS]


def sp(name):
    return [a + "::" + name for a in SETS]


def mapval(c, m, k, tyi):
    v = mapget(m, k)
    t = c.tyk(tyi) if tyi is not None else None
    if t is not None and t["k"] == "adt" and t.get("args"):
        if t["adt"] in MAPS and len(t["args"]) > 1:
            c.eng.typ(v, t["args"][1])
    return v


@model(*mp("new"), *sp("new"), *mp("with_capacity"), *sp("with_capacity"))
def mnew(c):
    return [(c.st, EMPTYMAP)]


@model(*mp("get"))
def mget(c):
    m, k = c.val(0), c.val(1)
    h = mk_has(m, k)
    return [(s, SOME(mapval(c, m, k, c.aty(0)))) for s in c.st.assume(h)] + [(s, NONE) for s in c.st.assume(not_(h))]


@model(*mp("get_mut"))
def mgetmut(c):
    r = c.ref(0)
    if r is None:
        return None
    m, k = c.val(0), c.val(1)
    h = mk_has(m, k)
    return [(s, SOME(mk("mref", r.a[0], r.a[1] + (("mv", k),)))) for s in c.st.assume(h)] + [(s, NONE) for s in c.st.assume(not_(h))]


@model(*mp("contains_key"), *sp("contains"))
def mhas(c):
    return [(c.st, mk_has(c.val(0), c.val(1)))]


@model(*sp("get"))
def sgetk(c):
    m, k = c.val(0), c.val(1)
    h = mk_has(m, k)
    return [(s, SOME(k)) for s in c.st.assume(h)] + [(s, NONE) for s in c.st.assume(not_(h))]


@model(*mp("insert"))
def minsert(c):
    r = c.ref(0)
    if r is None:
        return None
    m, k, v = c.val(0), c.args[1], c.args[2]
    h = mk_has(m, k)
    out = []
    for truth in (True, False):
        for s in c.st.assume(h, truth):
            s2 = c.write(s, r, mk("mapput", m, k, v))
            s2.emit("mapins", r, k, v, truth, m)
            out.append((s2, SOME(mapval(c, m, k, c.aty(0))) if truth else NONE))
    return out


@model(*sp("insert"), *sp("replace"))
def sinsert(c):
    r = c.ref(0)
    if r is None:
        return None
    m, k = c.val(0), c.args[1]
    h = mk_has(m, k)
    st = c.write(c.st, r, mk("mapput", m, k, UNIT))
    st.emit("setins", r, k, m)
    return [(st, not_(h))]


@model(*mp("remove"), *sp("remove"), *mp("clear"), *sp("clear"), *mp("retain"), *sp("retain"), *mp("drain"), *sp("drain"), *mp("remove_entry"), *sp("take"))
def mremove(c):
    r = c.ref(0)
    if r is None:
        return None
    m = c.val(0)
    st = c.write(c.st, r, mk("mapless", c.p.split("::")[-1], m, *c.args[1:]))
    st.emit("maprm", r, c.p.split("::")[-1], tuple(c.args[1:]))
    v = mk("sym", c.F.fid, st.ctx, c.bb, "removed")
    c.eng.typ(v, c.dty)
    return [(st, v)]


@model(*mp("len"), *sp("len"))
def mlen(c):
    return [(c.st, typed(mk("maplen", c.val(0)), "usize"))]


@model(*mp("is_empty"), *sp("is_empty"))
def mempty(c):
    return [(c.st, eqi(typed(mk("maplen", c.val(0)), "usize"), ZERO))]


@model(*mp("values"), *mp("into_values"))
def mvalues(c):
    return [(c.st, whole(typed(mk("mapvals", c.val(0)), "seq")))]


@model(*mp("keys"), *mp("into_keys"), *sp("iter"))
def mkeys(c):
    return [(c.st, whole(typed(mk("mapkeys", c.val(0)), "seq")))]


@model(*mp("iter"))
def miter(c):
    return [(c.st, whole(typed(mk("mapitems", c.val(0)), "seq")))]


@model(*mp("values_mut"), *mp("iter_mut"))
def mvmut(c):
    r = c.ref(0)
    if r is not None:
        st = c.st.copy()
        st.emit("maprm", r, c.p.split("::")[-1], ())
        st = c.write(st, r, mk("mapless", c.p.split("::")[-1], c.val(0)))
        v = mk("sym", c.F.fid, st.ctx, c.bb, "valsmut")
        return [(st, whole(typed(v, "seq")))]
    return None


@model(*mp("entry"))
def mentry(c):
    r = c.ref(0)
    if r is None:
        return None
    h = mk_has(c.content(r), c.args[1])
    e = mk("entry", r, c.args[1])
    occ = 1 if "BTree" in c.p else 0
    name = "std::collections::%s::Entry" % ("btree_map" if occ else "hash_map")
    return [(s, mk("adt", name, occ if t else 1 - occ, e)) for t in (True, False) for s in c.st.assume(h, t)]


def entry_of(c):
    """(occupied?, place, key, place of the value)"""
    e = c.args[0]
    n = 0
    while e.op == "mref" and n < 4:
        e = c.eng.get(c.st, e.a[0], e.a[1])
        n += 1
    occ = None
    if e.op == "adt" and e.a[0].endswith("_map::Entry"):
        occ = e.a[1] == (1 if "btree" in e.a[0] else 0)
        e = e.a[2]
    if e.op != "entry":
        return None
    r, k = e.a
    return occ, r, k, mk("mref", r.a[0], r.a[1] + (("mv", k),))


def entry_put(c, st, r, k, v, had):
    m = c.content(r, st)
    s = c.write(st, r, mk("mapput", m, k, v))
    s.emit("mapins", r, k, v, had, m)
    return s


def entry_or(c, make):
    e = entry_of(c)
    if e is None or e[0] is None:
        return None
    occ, r, k, ref = e
    if occ:
        return [(c.st, ref)]
    return [(entry_put(c, s2, r, k, v, False), ref) for s2, v in make(c.st)]


ENTRY = ["std::collections::hash_map::", "std::collections::btree_map::"]


def en(*names):
    return [p + n for p in ENTRY for n in names]


@model(*en("Entry::or_insert_with_key"))
def eorkey(c):
    return entry_or(c, lambda s: c.call(c.args[1], [entry_of(c)[2]], s, "ent"))


@model(*en("Entry::key", "OccupiedEntry::key", "VacantEntry::key", "VacantEntry::into_key"))
def ekey(c):
    e = entry_of(c)
    return None if e is None else [(c.st, e[2])]


@model(*en("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut"))
def oget(c):
    e = entry_of(c)
    if e is None:
        return None
    if c.p.endswith("::get"):
        v = mapget(c.content(e[1]), e[2])
        t = c.eng.prog.types[c.dty]
        c.eng.typ(v, t["to"] if t["k"] == "ref" else c.dty)
        return [(c.st, v)]
    return [(c.st, e[3])]


@model(*en("OccupiedEntry::insert", "VacantEntry::insert"))
def eins(c):
    e = entry_of(c)
    if e is None:
        return None
    occ = "Occupied" in c.p
    old = mapget(c.content(e[1]), e[2]) if occ else None
    s = entry_put(c, c.st, e[1], e[2], c.args[1], occ)
    return [(s, old if occ else e[3])]


@model(*en("VacantEntry::insert_entry", "Entry::insert_entry"))
def einse(c):
    e = entry_of(c)
    if e is None:
        return None
    occ = False if "Vacant" in c.p else e[0]
    if occ is None:
        return None
    return [(entry_put(c, c.st, e[1], e[2], c.args[1], occ), mk("entry", e[1], e[2]))]


@model(*en("OccupiedEntry::remove", "OccupiedEntry::remove_entry"))
def erem(c):
    e = entry_of(c)
    if e is None:
        return None
    st = c.write(c.st, e[1], mk("mapless", "remove", c.content(e[1]), e[2]))
    st.emit("maprm", e[1], "remove", (e[2],))
    v = mk("sym", c.F.fid, st.ctx, c.bb, "removed")
    c.eng.typ(v, c.dty)
    return [(st, v)]


@model("std::collections::hash_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert")
def eorins(c):
    return entry_or(c, lambda s: [(s, c.args[1])])


@model("std::collections::hash_map::Entry::or_insert_with", "std::collections::btree_map::Entry::or_insert_with")
def eorwith(c):
    return entry_or(c, lambda s: c.call(c.args[1], [], s, "ent"))


@model("std::collections::hash_map::Entry::or_default", "std::collections::btree_map::Entry::or_default")
def eordef(c):
    def mkd(s):
        t = c.eng.prog.types[c.dty]
        d = default_of(c.eng, t["to"]) if t["k"] == "ref" else None
        return [(s, d if d is not None else c.fresh(s, "default"))]
    return entry_or(c, mkd)


# ------------------------------------------------------------------ locks, cells, atomics
LOCKMODE = {"read": "r", "write": "w", "lock": "w", "borrow": "r", "borrow_mut": "w", "try_read": "r", "try_write": "w", "try_lock": "w",
            "try_borrow": "r", "try_borrow_mut": "w"}


def lock_content(lk):
    if lk.op == "lockof":
        return lk.a[0]
    return None


def touched(st, lk):
    """may the contents of a lock made on this path have changed since?"""
    for e in st.events():
        if e[0] == "loop" or e[0] == "acq" and e[1].a[0] == "w" and e[1].a[2] is lk:
            return True
        if e[0] in ("opaque", "user") and any(hasattr(x, "op") and any(y is lk for y in walk(x)) for x in e[2]):
            return True
    return False


@model("std::sync::RwLock::is_poisoned", "std::sync::Mutex::is_poisoned")
def m_is_poisoned(c):
    return [(c.st, FALSE)]


@model("std::sync::RwLock::read", "std::sync::RwLock::write", "std::sync::Mutex::lock", "std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut",
       "std::sync::RwLock::try_read", "std::sync::RwLock::try_write", "std::sync::Mutex::try_lock", "std::cell::RefCell::try_borrow",
       "std::cell::RefCell::try_borrow_mut")
def acquire(c):
    meth = c.p.split("::")[-1]
    mode = LOCKMODE[meth]
    lk = c.val(0)
    lref = c.ref(0)
    cell = "RefCell" in c.p
    st = c.st.copy()
    n = sum(1 for e in st.events() if e[0] == "acq")
    root = ("g", c.F.fid, c.bb, st.ctx)
    cur = lock_content(lk)
    if cur is not None and touched(st, lk):
        cur = None
    if cur is None:
        # contents are whatever other threads left there; a cell's contents persist within the thread
        if cell:
            root = ("cell", lk.id)
            cur = st.mem.get(root)
            if cur is None:
                cur = mk("cellval", lk)
        else:
            cur = mk("sym", "locked", c.F.fid, st.ctx, c.bb, lk)
            # a read lock taken again while it is still held sees the same contents
    t = c.tyk(c.aty(0)) if c.aty(0) is not None else None
    if t is not None and t["k"] == "adt" and t.get("args"):
        c.eng.typ(cur, t["args"][0])
        c.eng.rootty.setdefault(root, t["args"][0])
    if cell and meth in ("borrow", "borrow_mut"):
        live = [x for v in st.mem.values() for x in walk(v) if x.op == "guard" and x.a[2] is lk]
        if any(mode == "w" or g.a[0] == "w" for g in live):
            return c.eng.panic(c.F, st, "already borrowed", c.t.get("sp"), c.bb)
    st.mem[root] = cur
    g = mk("guard", mode, mk("mref", root, ()), lk)
    st.emit("acq", g, cur)
    if meth in ("borrow", "borrow_mut"):
        return [(st, g)]
    out = [(st, OK(g))]
    if c.eng.poison or meth.startswith("try"):
        st2 = c.st.copy()
        st2.emit("poisoned", lk)
        out.append((st2, ERR(mk("sym", c.F.fid, st2.ctx, c.bb, "poison"))))
    return out


@model("std::sync::RwLock::new", "std::sync::Mutex::new", "std::cell::RefCell::new", "std::cell::Cell::new", "std::sync::OnceLock::new",
       "std::cell::OnceCell::new")
def lknew(c):
    return [(c.st, mk("lockof", *c.args))]


@model("std::sync::PoisonError::into_inner", "std::sync::PoisonError::get_mut", "std::sync::PoisonError::get_ref")
def poisoninner(c):
    return None


@model("std::sync::RwLock::get_mut", "std::cell::RefCell::get_mut", "std::sync::Mutex::get_mut", "std::sync::RwLock::into_inner", "std::cell::RefCell::into_inner")
def lkgetmut(c):
    return None


@model("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init", "std::sync::LazyLock::force", "std::cell::LazyCell::force")
def oncelock(c):
    v = mk("onceval", c.val(0))
    c.eng.typ(v, c.dty)
    return [(c.st, v)]


@model("std::sync::OnceLock::get", "std::sync::OnceLock::set", "std::cell::OnceCell::get", "std::cell::OnceCell::set")
def onceget(c):
    if c.p.endswith("::get"):
        v = mk("pure", c.p, c.val(0))
        return [(c.st, v)]
    st = c.st.copy()
    st.emit("std", c.p, tuple(c.args), c.F.inst.name)
    v = c.fresh(st, "once", c.dty)
    return [(st, v)]


def atomic(c):
    st = c.st.copy()
    op = c.p.split("::")[-1]
    if op == "new":
        return [(st, mk("lockof", *c.args))]
    v = c.fresh(st, "atomic", c.dty)
    st.emit("atomic", op, c.val(0), tuple(c.args[1:]), v)
    return [(st, v)]


PREFIX.append(("std::sync::atomic::Atomic", atomic))


@model("std::cell::Cell::get", "std::cell::Cell::set", "std::cell::Cell::replace", "std::cell::Cell::take")
def cellop(c):
    lk = c.val(0)
    root = ("cell", lk.id)
    st = c.st.copy()
    cur = st.mem.get(root)
    if cur is None:
        cur = lk.a[0] if lk.op == "lockof" else mk("cellval", lk)
    op = c.p.split("::")[-1]
    if op == "get":
        c.eng.typ(cur, c.dty)
        return [(st, cur)]
    if op == "take":
        d = default_of(c.eng, c.dty)
        if d is None:
            return None
        st.mem[root] = d
        return [(st, cur)]
    st.mem[root] = c.args[1]
    st.emit("cellset", lk, c.args[1])
    return [(st, cur if op == "replace" else UNIT)]


# ------------------------------------------------------------------ closures
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def callonce(c):
    f = c.args[0]
    a = c.args[1] if len(c.args) > 1 else UNIT
    if a.op == "tup":
        args = list(a.a)
    elif c.aty(1) is not None and c.eng.prog.types[c.aty(1)]["k"] == "tuple":
        args = [fld(a, 0, i) for i in range(len(c.eng.prog.types[c.aty(1)].get("el") or []))]
    else:
        args = [a]
    fv = c.content(f) if f.op == "mref" and c.content(f).op in ("fn",) else f
    if fv.op == "sym" or (fv.op not in ("clo", "fn", "mref") and c.info.get("rkind") in ("unresolved", "virtual")):
        st = c.st.copy()
        st.emit("user", c.p, (f,) + tuple(args), c.F.inst.name)
        v = c.fresh(st, "callret", c.dty)
        for n, (root, path) in enumerate(c.eng.mrefs(args)):
            c.eng.set(st, root, path, mk("sym", c.F.fid, st.ctx, c.bb, "after%d" % n))
        return [(st, v)]
    return c.call(fv, args, c.st, "", c.dty)


# ------------------------------------------------------------------ iterators
def itof(c, i=0, st=None):
    """(iterator value, reference it lives in or None)"""
    st = st or c.st
    a = c.args[i]
    if a.op == "mref":
        cur = c.content(a, st)
        if isiter(cur):
            return cur, a
        t = c.tyk(c.aty(i)) if c.aty(i) is not None else None
        if t is not None and t["k"] == "adt" and is_local_iter(c, t):
            return mk("localiter", a), a
        return cur, a
    return a, None


def is_local_iter(c, t):
    return find_impl(c.eng, "std::iter::Iterator", t, "next") is not None


def asiter(c, i=0):
    """iterator passed by value"""
    v, r = itof(c, i)
    if r is not None and isiter(v):
        return c.args[i]
    if isiter(v):
        return v
    it = into_iter(c.eng, c.st, v, c.aty(i))
    if it is not None:
        return it
    return whole(typed(mk("iterseq", v), "seq"))


@model("std::iter::IntoIterator::into_iter")
def intoiter(c):
    a = c.args[0]
    t = c.tyk(c.aty(0)) if c.aty(0) is not None else None
    it = into_iter(c.eng, c.st, a, c.aty(0))
    if t is not None and t["k"] == "adt" and not isiter(a) and a.op != "mref":
        # an iterator type of the crate is its own iterator
        if find_impl(c.eng, "std::iter::Iterator", t, "next") is not None:
            return [(c.st, a)]
    if it is None:
        if c.info.get("rkind") == "unresolved":
            st = c.st.copy()
            st.emit("user", c.p, (a,), c.F.inst.name)
            return [(st, whole(typed(mk("iterseq", a), "seq")))]
        return None
    if c.info.get("rkind") == "unresolved" and it.op == "it" and it.a[0].op == "iterseq":
        st = c.st.copy()
        st.emit("user", c.p, (a,), c.F.inst.name)
        return [(st, it)]
    return [(c.st, it)]


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def inextm(c):
    a = c.args[0]
    if a.op != "mref":
        return None
    cur = c.content(a)
    ref = c.ref(0)
    if c.info.get("rkind") == "virtual" and not isiter(cur):
        st = c.st.copy()
        st.emit("user", c.p, (a,), c.F.inst.name)
    if not isiter(cur):
        t = c.tyk(c.aty(0)) if c.aty(0) is not None else None
        if t is not None and t["k"] == "adt" and is_local_iter(c, t):
            return None
        if c.info.get("rkind") in ("unresolved", "virtual") or (t is not None and t["k"] in ("param", "opaque", "alias")):
            cur = whole(typed(mk("iterseq", cur), "seq"))
        else:
            return None
    if c.p.endswith("next_back"):
        if cur.op == "it":
            seq, lo, hi = cur.a
            out = []
            for s in c.st.assume(lt(lo, hi)):
                out.append((c.write(s, ref, mk("it", seq, lo, addc(hi, -1))), SOME(elem(seq, addc(hi, -1)))))
            for s in c.st.assume(not_(lt(lo, hi))):
                out.append((s, NONE))
            return out
        return None
    out = []
    for s, n, x in inext(c.eng, c.F, c.bb, "", c.st, cur):
        s = c.write(s, ref, n)
        if x is None:
            out.append((s, NONE))
        else:
            ty = c.dty
            if ty is not None:
                t = c.eng.prog.types[ty]
                if t["k"] == "adt" and t.get("args"):
                    c.eng.typ(x, t["args"][0])
            out.append((s, SOME(x)))
    return out


def adaptor(op):
    def f(c):
        it = asiter(c)
        return [(c.st, mk(op, it, *c.args[1:]))]
    return f


for _n, _o in (("map", "map"), ("filter", "filter"), ("filter_map", "filtermap"), ("take_while", "takewhile"), ("skip_while", "skipwhile"),
               ("map_while", "mapwhile")):
    M["std::iter::Iterator::" + _n] = adaptor(_o)


@model("std::iter::Iterator::flatten", "std::iter::Iterator::flat_map")
def flatten(c):
    it = mk("flatmap", asiter(c), c.args[1] if c.p.endswith("flat_map") else UNIT)
    p = pure(c.eng, c.F, c.bb, "fm", c.st, it)
    return [(c.st, whole(p) if p is not None else it)]


@model("std::iter::Iterator::peekable")
def peekable(c):
    return [(c.st, mk("peek", asiter(c)))]


@model("std::iter::Iterator::fuse", "std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def fuse(c):
    return [(c.st, asiter(c))]


@model("std::iter::Peekable::peek")
def peekm(c):
    cur = c.val(0)
    if not isiter(cur):
        return None
    out = []
    for s, n, x in inext(c.eng, c.F, c.bb, "pk", c.st, cur):
        if n is not cur and cur.op == "peek" and cur.a[0].op not in ("it", "chars", "charidx", "range", "enum"):
            return None
        out.append((s, NONE if x is None else SOME(x)))
    return out


@model("std::iter::Peekable::next_if", "std::iter::Peekable::next_if_eq")
def nextif(c):
    cur = c.val(0)
    ref = c.ref(0)
    if not isiter(cur) or ref is None:
        return None
    out = []
    for s, n, x in inext(c.eng, c.F, c.bb, "ni", c.st, cur):
        if x is None:
            out.append((s, NONE))
            continue
        rs = [(s, eq(x, c.val(1)))] if c.p.endswith("eq") else c.call(c.args[1], [x], s, "ni")
        for s2, b in rs:
            for s3 in s2.assume(b):
                out.append((c.write(s3, ref, n), SOME(x)))
            for s3 in s2.assume(not_(b)):
                out.append((s3, NONE))
    return out


@model("std::iter::Iterator::enumerate")
def enumerate_(c):
    return [(c.st, mk("enum", asiter(c), ZERO))]


@model("std::iter::Iterator::chain")
def chain(c):
    a, b = asiter(c, 0), asiter(c, 1)
    if a.op == b.op == "it":
        sa, sb = slice_(*a.a), slice_(*b.a)
        return [(c.st, whole(typed(cat(typed(sa, "seq"), typed(sb, "seq")), "seq")))]
    return [(c.st, mk("chain", a, b))]


@model("std::iter::Iterator::zip", "std::iter::zip")
def zip_(c):
    return [(c.st, mk("zip", asiter(c, 0), asiter(c, 1)))]


@model("std::iter::Iterator::rev")
def rev_(c):
    it = asiter(c)
    p = pure(c.eng, c.F, c.bb, "rv", c.st, it)
    if p is None:
        if it.op == "map":
            q = pure(c.eng, c.F, c.bb, "rv", c.st, it.a[0])
            if q is not None:
                return [(c.st, mk("map", whole(typed(rev(q), "seq")), it.a[1]))]
        if it.op == "range":
            out = []
            for s in c.st.assume(le(it.a[0], it.a[1])):
                out.append((s, whole(typed(rev(typed(mk("rangeseq", it.a[0], it.a[1]), "seq")), "seq"))))
            for s in c.st.assume(lt(it.a[1], it.a[0])):
                out.append((s, whole(EMPTY)))
            return out
        return None
    return [(c.st, whole(typed(rev(p), "seq")))]


@model("std::iter::Iterator::skip")
def skip(c):
    it, n = asiter(c), c.args[1]
    return [(s, i) for s, i in skipn(c, c.st, it, n)]


def skipn(c, st, it, n):
    if it.op == "it":
        seq, lo, hi = it.a
        out = []
        ok = le(add(lo, n), hi)
        for s in st.assume(ok):
            out.append((s, mk("it", seq, add(lo, n), hi)))
        for s in st.assume(not_(ok)):
            out.append((s, mk("it", seq, hi, hi)))
        return out
    if it.op == "enum":
        return [(s, mk("enum", i, add(it.a[1], n))) for s, i in skipn(c, st, it.a[0], n)]
    if it.op == "map":
        p = pure(c.eng, c.F, c.bb, "sk", st, it)
        if p is not None:
            return skipn(c, st, whole(p), n)
    if it.op == "range":
        lo, hi, ty = it.a
        ok = le(add(lo, n), hi)
        return [(s, mk("range", add(lo, n), hi, ty)) for s in st.assume(ok)] + [(s, mk("range", hi, hi, ty)) for s in st.assume(not_(ok))]
    if n.op == "int" and n.a[0] <= 3:
        res = [(st, it)]
        for k in range(n.a[0]):
            nxt = []
            for s, i in res:
                for s2, i2, x in inext(c.eng, c.F, c.bb, "sk%d" % k, s, i):
                    nxt.append((s2, i2))
            res = nxt
        return res
    p = pure(c.eng, c.F, c.bb, "sk", st, it)
    if p is not None:
        return skipn(c, st, whole(p), n)
    return [(st, whole(typed(mk("sym", c.F.fid, st.ctx, c.bb, "skipped"), "seq")))]


@model("std::iter::Iterator::take")
def take(c):
    it, n = asiter(c), c.args[1]
    if it.op == "it":
        seq, lo, hi = it.a
        ok = le(add(lo, n), hi)
        return [(s, mk("it", seq, lo, add(lo, n))) for s in c.st.assume(ok)] + [(s, it) for s in c.st.assume(not_(ok))]
    return [(c.st, mk("take", it, n))]


@model("std::iter::Iterator::step_by")
def stepby(c):
    return [(s, whole(typed(mk("stepseq", c.args[0], c.args[1]), "seq"))) for s in c.require(c.st, lt(ZERO, c.args[1]), "step size")]


@model("std::iter::Iterator::inspect", "std::iter::Iterator::cycle", "std::iter::Iterator::scan")
def unmod(c):
    return None


@model("std::iter::Iterator::nth")
def nth(c):
    cur, r = itof(c)
    if r is None or not isiter(cur):
        if r is not None and cur.op == "localiter":
            # skips n items of an iterator of the crate: run its next in a loop
            return local_nth(c)
        return None
    n = c.args[1]
    out = []
    for s, it in skipn(c, c.st, cur, n):
        for s2, it2, x in inext(c.eng, c.F, c.bb, "nth", s, it):
            out.append((c.write(s2, r, it2), NONE if x is None else SOME(x)))
    return out


def local_nth(c):
    """nth on an iterator implemented in the crate: its state becomes unknown"""
    r = c.ref(0)
    st = c.st.copy()
    st.emit("opaque", "nth", tuple(c.args), c.F.inst.name)
    st = c.write(st, r, c.fresh(st, "afternth"))
    v = c.fresh(st, "nth", c.dty)
    return [(st, v)]


@model("std::iter::empty")
def iempty(c):
    return [(c.st, whole(EMPTY))]


@model("std::iter::once")
def ionce(c):
    return [(c.st, whole(mk("lst", c.args[0])))]


@model("std::iter::repeat", "std::iter::repeat_n", "std::iter::from_fn", "std::iter::successors", "std::iter::repeat_with")
def irepeat(c):
    return None


@model("std::option::Option::iter", "std::option::Option::into_iter")
def optiter(c):
    v = c.val(0)
    out = []
    for s in c.st.assume(isv(v, 1)):
        out.append((s, whole(mk("lst", fld(v, 1, 0)))))
    for s in c.st.assume(isv(v, 0)):
        out.append((s, whole(EMPTY)))
    return out


def consumer(c):
    """(iterator, write-back reference)"""
    a = c.args[0]
    cur, r = itof(c)
    if r is not None and isiter(cur):
        return cur, r
    return asiter(c), None


def back(c, s, r, it):
    return s if r is None else c.write(s, r, it)


@model("std::iter::Iterator::for_each")
def foreach(c):
    it, r = consumer(c)

    def step(s, x, roots):
        return [(None, s2) for s2, _ in c.call(c.args[1], [x], s, "fe")]
    return [(s, UNIT) for t, s, n, v in c.loop(c.st, it, {}, {}, step)]


@model("std::iter::Iterator::all", "std::iter::Iterator::any")
def allany(c):
    it, r = consumer(c)
    isall = c.p.endswith("all")

    def step(s, x, roots):
        out = []
        for s2, b in c.call(c.args[1], [x], s, "aa"):
            good = b if isall else not_(b)
            out += [(None, s3) for s3 in s2.assume(good)]
            out += [(("stop",), s3) for s3 in s2.assume(not_(good))]
        return out
    out = []
    for t, s, n, v in c.loop(c.st, it, {}, {}, step):
        out.append((back(c, s, r, n), BOOL(isall if t is None else not isall)))
    return out


@model("std::iter::Iterator::find", "std::iter::Iterator::find_map")
def find(c):
    it, r = consumer(c)
    fm = c.p.endswith("find_map")

    def step(s, x, roots):
        out = []
        for s2, b in c.call(c.args[1], [x], s, "fi"):
            if fm:
                out += [(("hit", fld(b, 1, 0)), s3) for s3 in s2.assume(isv(b, 1))]
                out += [(None, s3) for s3 in s2.assume(isv(b, 0))]
            else:
                out += [(("hit", x), s3) for s3 in s2.assume(b)]
                out += [(None, s3) for s3 in s2.assume(not_(b))]
        return out
    out = []
    for t, s, n, v in c.loop(c.st, it, {}, {}, step):
        out.append((back(c, s, r, n), NONE if t is None else SOME(t[1])))
    return out


@model("std::iter::Iterator::position")
def position(c):
    it, r = consumer(c)

    def step(s, x, roots):
        out = []
        i = s.mem[roots["n"]]
        for s2, b in c.call(c.args[1], [x], s, "po"):
            out += [(("hit", i), s3) for s3 in s2.assume(b)]
            for s3 in s2.assume(not_(b)):
                s3 = s3.copy()
                s3.mem[roots["n"]] = addc(i, 1)
                out.append((None, s3))
        return out
    out = []
    for t, s, n, v in c.loop(c.st, it, {"n": ZERO}, {"n": "usize"}, step):
        out.append((back(c, s, r, n), NONE if t is None else SOME(t[1])))
    return out


@model("std::iter::Iterator::count")
def count(c):
    it, r = consumer(c)
    p = pure(c.eng, c.F, c.bb, "ct", c.st, it)
    if p is not None:
        return [(c.st, typed(len_(p), "usize"))]

    def step(s, x, roots):
        s = s.copy()
        s.mem[roots["n"]] = addc(s.mem[roots["n"]], 1)
        return [(None, s)]
    return [(s, v["n"]) for t, s, n, v in c.loop(c.st, it, {"n": ZERO}, {"n": "usize"}, step)]


@model("std::iter::Iterator::sum", "std::iter::Iterator::product")
def isum(c):
    it, r = consumer(c)
    k = c.eng.scalar(c.dty) if c.dty is not None else None
    if k not in INTB and k not in ("f32", "f64"):
        return None
    op = "Add" if c.p.endswith("sum") else "Mul"
    zero = (mk("float", 0.0 if op == "Add" else 1.0) if k in ("f32", "f64") else INT(0 if op == "Add" else 1))

    def step(s, x, roots):
        acc = s.mem[roots["acc"]]
        v = c.eng.binop(op, acc, x, k)
        ss = [s]
        if k in INTB:
            lo, hi = INTB[k]
            ss = c.require(s, and_(le(INT(lo), v), le(v, INT(hi))), "overflow in sum")
        out = []
        for s2 in ss:
            s2 = s2.copy()
            s2.mem[roots["acc"]] = typed(v, k)
            out.append((None, s2))
        return out
    return [(s, v["acc"]) for t, s, n, v in c.loop(c.st, it, {"acc": zero}, {"acc": k}, step)]


@model("std::iter::Iterator::fold")
def fold(c):
    it, r = consumer(c)

    def step(s, x, roots):
        out = []
        acc = s.mem[roots["acc"]]
        s0 = s.copy()
        for s2, v in c.call(c.args[2], [acc, x], s0, "fo"):
            s2 = s2.copy()
            s2.mem[roots["acc"]] = v
            out.append((None, s2))
        return out
    return [(s, v["acc"]) for t, s, n, v in c.loop(c.st, it, {"acc": c.args[1]}, {"acc": c.dty}, step)]


@model("std::iter::Iterator::try_for_each", "std::iter::Iterator::try_fold")
def tryfe(c):
    it, r = consumer(c)
    tf = c.p.endswith("try_fold")
    f = c.args[2] if tf else c.args[1]
    t = c.eng.prog.types[c.dty] if c.dty is not None else None
    if t is None or t["k"] != "adt":
        return None
    good, bad = {RESULT: (0, 1), OPTION: (1, 0), "std::ops::ControlFlow": (0, 1)}.get(t["adt"], (None, None))
    if good is None:
        return None

    def step(s, x, roots):
        out = []
        args = [s.mem[roots["acc"]], x] if tf else [x]
        for s2, v in c.call(f, args, s, "tf"):
            for s3 in s2.assume(isv(v, good)):
                s3 = s3.copy()
                if tf:
                    s3.mem[roots["acc"]] = fld(v, good, 0)
                out.append((None, s3))
            for s3 in s2.assume(isv(v, bad)):
                out.append((("stop", v), s3))
        return out
    out = []
    for tt, s, n, v in c.loop(c.st, it, {"acc": c.args[1] if tf else UNIT}, {}, step):
        s = back(c, s, r, n)
        if tt is None:
            out.append((s, mk("adt", t["adt"], good, v["acc"])))
        else:
            e = tt[1]
            if e.op != "adt":
                e = mk("adt", t["adt"], bad, fld(e, bad, 0)) if t["adt"] != OPTION else NONE
            out.append((s, e))
    return out


@model("std::iter::Iterator::last")
def ilast(c):
    it, r = consumer(c)
    p = pure(c.eng, c.F, c.bb, "la", c.st, it)
    if p is None:
        return None
    n = len_(p)
    return [(s, SOME(elem(p, addc(n, -1)))) for s in c.st.assume(lt(ZERO, n))] + [(s, NONE) for s in c.st.assume(not_(lt(ZERO, n)))]


@model("std::iter::Iterator::min", "std::iter::Iterator::max", "std::iter::Iterator::min_by", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by_key",
       "std::iter::Iterator::max_by_key", "std::iter::Iterator::reduce")
def iminmax(c):
    it, r = consumer(c)
    p = pure(c.eng, c.F, c.bb, "mm", c.st, it)
    if p is None:
        return None
    v = mk("pure", c.p, p, *c.args[1:])
    st = c.st.copy()
    return [(s, SOME(mk("pure", "some", v))) for s in st.assume(lt(ZERO, len_(p)))] + [(s, NONE) for s in st.assume(not_(lt(ZERO, len_(p))))]


@model("std::iter::Iterator::eq", "std::iter::Iterator::ne")
def ieq(c):
    a = pure(c.eng, c.F, c.bb, "ea", c.st, asiter(c, 0))
    b = pure(c.eng, c.F, c.bb, "eb", c.st, asiter(c, 1))
    if a is None or b is None:
        return None
    e = eq(typed(a, "seq"), typed(b, "seq"))
    return [(c.st, not_(e) if c.p.endswith("ne") else e)]


@model("std::iter::ExactSizeIterator::len")
def ilen(c):
    it, r = consumer(c)
    p = pure(c.eng, c.F, c.bb, "ln", c.st, it)
    return None if p is None else [(c.st, typed(len_(p), "usize"))]


@model("std::iter::Iterator::size_hint")
def sizehint(c):
    return None


@model("std::iter::Iterator::unzip", "std::iter::Iterator::partition")
def unzip(c):
    it, r = consumer(c)
    p = pure(c.eng, c.F, c.bb, "uz", c.st, it)
    if p is None or not c.p.endswith("unzip"):
        return None
    b = mk("bv", 1900)
    tyof.setdefault(b, "usize")
    return [(c.st, mk("tup", typed(mapseq(p, b, fld(elem(p, b), 0, 0)), "seq"), typed(mapseq(p, b, fld(elem(p, b), 0, 1)), "seq")))]


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def collect(c):
    it, r = consumer(c)
    return collect_to(c, c.st, it, c.dty)


def collect_to(c, st, it, tyi):
    t = c.eng.prog.types[tyi] if tyi is not None else None
    if t is not None and t["k"] == "adt" and t["adt"] in (RESULT, OPTION) and t.get("args"):
        inner = t["args"][0]
        good, bad = (0, 1) if t["adt"] == RESULT else (1, 0)

        def step(s, x, roots):
            out = []
            for s2 in s.assume(isv(x, good)):
                s2 = s2.copy()
                s2.mem[roots["acc"]] = cat(s2.mem[roots["acc"]], mk("lst", fld(x, good, 0)))
                out.append((None, s2))
            for s2 in s.assume(isv(x, bad)):
                out.append((("stop", x), s2))
            return out
        out = []
        for tt, s, n, v in c.loop(st, it, {"acc": EMPTY}, {"acc": "seq"}, step, "cr"):
            if tt is None:
                for s2, w in finish_collect(c, s, v["acc"], inner):
                    out.append((s2, mk("adt", t["adt"], good, w)))
            else:
                out.append((s, ERR(fld(tt[1], 1, 0)) if good == 0 else NONE))
        return out
    p = pure(c.eng, c.F, c.bb, c.tag + "co", st, it)
    if p is not None:
        return finish_collect(c, st, p, tyi, it)
    if t is not None and t["k"] == "adt" and not is_seq_adt(t) and t["adt"] not in MAPS and t["adt"] not in SETS and c.eng.scalar(tyi) != "str":
        inst = find_impl(c.eng, "std::iter::FromIterator", t, "from_iter")
        if inst is not None:
            return c.eng.inline(c.F, c.bb, inst, [it], st, tag="fi")
        return None

    isstr_ = tyi is not None and c.eng.scalar(tyi) == "str"

    def step(s, x, roots):
        s = s.copy()
        acc = s.mem[roots["acc"]]
        if isstr_:
            s.mem[roots["acc"]] = typed(cat(acc, STR(chr(x.a[0])) if x.op == "int" else typed(mk("chr", x), "str") if isint(x) else typed(x, "str")), "str")
        else:
            s.mem[roots["acc"]] = cat(acc, mk("lst", x))
        return [(None, s)]
    out = []
    for tt, s, n, v in c.loop(st, it, {"acc": ESTR if isstr_ else EMPTY}, {"acc": "str" if isstr_ else "seq"}, step, "co"):
        if isstr_:
            out.append((s, v["acc"]))
        else:
            out += finish_collect(c, s, v["acc"], tyi)
    return out


def finish_collect(c, st, seq, tyi, it=None):
    t = c.eng.prog.types[tyi] if tyi is not None else None
    if t is None or (t["k"] == "adt" and is_seq_adt(t)):
        return [(st, typed(seq, "seq"))]
    k = c.eng.scalar(tyi)
    if k == "str":
        if seq.op == "charsof":
            return [(st, seq.a[0])]
        if seq.op == "lst":
            return [(st, typed(cat(*[typed(x, "str") if not isint(x) else (STR(chr(x.a[0])) if x.op == "int" else typed(mk("chr", x), "str")) for x in seq.a]), "str"))] if seq.a else [(st, ESTR)]
        return [(st, typed(mk("strof", seq), "str"))]
    if t["k"] == "tuple" and not t.get("el"):
        return [(st, UNIT)]
    if t["k"] == "adt":
        if t["adt"] in MAPS or t["adt"] in SETS:
            inst = map_from_iter(c, t)
            if inst is not None:
                return c.eng.inline(c.F, c.bb, inst, [whole(seq)], st, tag="fi")
            return [(st, mk("mapof", seq))]
        inst = find_impl(c.eng, "std::iter::FromIterator", t, "from_iter")
        if inst is not None:
            return c.eng.inline(c.F, c.bb, inst, [whole(seq)], st, tag="fi")
    if t["k"] == "param" or t["k"] in ("opaque", "alias", "other"):
        st = st.copy()
        st.emit("user", "collect", (seq,), c.F.inst.name)
        return [(st, mk("collected", seq))]
    return [(st, mk("collected", seq))]


def map_from_iter(c, t):
    """the crate's own FromIterator for a std map, if it has one for these types"""
    for p, f in c.eng.prog.fns.items():
        if f.get("impl_trait") and norm(f["impl_trait"]).split("<")[0] == "std::iter::FromIterator" and f["name"] == "from_iter" and f.get("impl_self") == t["s"]:
            return c.eng.prog.insts.get(f["root"])
    return None


@model("std::iter::Extend::extend")
def extend(c):
    r = c.ref(0)
    if r is None:
        return None
    t = c.tyk(c.aty(0)) if c.aty(0) is not None else None
    it = asiter(c, 1)
    cur = c.val(0)
    k = c.eng.scalar(c.aty(0)) if c.aty(0) is not None else None
    if k == "seq":
        typed(cur, "seq")
        p = pure(c.eng, c.F, c.bb, "ex", c.st, it)
        if p is not None:
            return [(c.write(c.st, r, typed(cat(cur, p), "seq")), UNIT)]

        def step(s, x, roots):
            s = c.write(s, r, cat(c.content(r, s), mk("lst", x)))
            return [(None, s)]
        return [(s, UNIT) for t_, s, n, v in c.loop(c.st, it, {}, {}, step)]
    if k == "str":
        def step2(s, x, roots):
            piece = STR(chr(x.a[0])) if x.op == "int" else typed(mk("chr", x), "str") if isint(x) else typed(x, "str")
            s = c.write(s, r, typed(cat(c.content(r, s), piece), "str"))
            return [(None, s)]
        return [(s, UNIT) for t_, s, n, v in c.loop(c.st, it, {}, {}, step2)]
    if t is not None and t["k"] == "adt" and t["adt"] in SETS:
        def step3(s, x, roots):
            m = c.content(r, s)
            s = c.write(s, r, mk("mapput", m, x, UNIT))
            s.emit("setins", r, x, m)
            return [(None, s)]
        return [(s, UNIT) for t_, s, n, v in c.loop(c.st, it, {}, {}, step3)]
    if t is not None and t["k"] == "adt" and t["adt"] in MAPS:
        def step4(s, x, roots):
            m = c.content(r, s)
            s = c.write(s, r, mk("mapput", m, fld(x, 0, 0), fld(x, 0, 1)))
            s.emit("mapins", r, fld(x, 0, 0), fld(x, 0, 1), None, m)
            return [(None, s)]
        return [(s, UNIT) for t_, s, n, v in c.loop(c.st, it, {}, {}, step4)]
    return None


# ------------------------------------------------------------------ ranges
@model("std::ops::RangeInclusive::new")
def rinew(c):
    return [(c.st, mk("adt", "std::ops::RangeInclusive", 0, *c.args))]


@model("std::ops::RangeInclusive::start", "std::ops::RangeInclusive::end")
def rise(c):
    return [(c.st, fld(c.val(0), 0, 0 if c.p.endswith("start") else 1))]


@model("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains",
       "std::ops::RangeToInclusive::contains", "std::ops::RangeBounds::contains")
def rcontains(c):
    r, x = c.val(0), c.val(1)
    if r.op != "adt":
        return None
    k = r.a[0].split("::")[-1]
    fl = has_float(x) or any(has_float(y) for y in r.a[2:])
    LE = (lambda a, b: fcmp("le", a, b)) if fl else le
    LT = (lambda a, b: fcmp("lt", a, b)) if fl else lt
    if k == "RangeInclusive":
        b = and_(LE(r.a[2], x), LE(x, r.a[3]))
    elif k == "Range":
        b = and_(LE(r.a[2], x), LT(x, r.a[3]))
    elif k == "RangeFrom":
        b = LE(r.a[2], x)
    elif k == "RangeTo":
        b = LT(x, r.a[2])
    elif k == "RangeToInclusive":
        b = LE(x, r.a[2])
    else:
        return None
    return [(c.st, b)]


@model("std::ops::Range::is_empty")
def rempty(c):
    r = c.val(0)
    return [(c.st, not_(lt(fld(r, 0, 0), fld(r, 0, 1))))]


# ------------------------------------------------------------------ randomness, time
@model("rand::thread_rng", "rand::rng")
def trng(c):
    st = c.st.copy()
    st.emit("rng", "thread_rng", ())
    return [(st, mk("rng"))]


def drawn(c, st):
    """the number of a draw; with the passes of loops followed one by one, each has its own"""
    if c.eng.peel:
        n = sum(1 for e in st.events() if e[0] == "rng")
        return mk("sym", c.F.fid, st.ctx, c.bb, "random", n)
    return mk("sym", c.F.fid, st.ctx, c.bb, "random")


@model("rand::Rng::gen_range", "rand::Rng::random_range")
def genrange(c):
    st = c.st.copy()
    r = c.args[1]
    k = c.eng.scalar(c.dty) if c.dty is not None else None
    v = drawn(c, st)
    st.emit("rng", "gen_range", (r,), v, ("range", r.a[2], r.a[3]) if r.op == "adt" and len(r.a) > 3 and k in ("f32", "f64") else ("?",))
    typed(v, k)
    if r.op == "adt" and r.a[0].split("::")[-1] in ("Range", "RangeInclusive"):
        lo, hi = r.a[2], r.a[3]
        inc = r.a[0].endswith("RangeInclusive")
        if k in ("f32", "f64"):
            st.know(fcmp("le", lo, v))
            st.know(fcmp("le" if inc else "lt", v, hi))
            nonempty = fcmp("le" if inc else "lt", lo, hi)
        else:
            st.know(le(lo, v))
            st.know(le(v, hi) if inc else lt(v, hi))
            nonempty = le(lo, hi) if inc else lt(lo, hi)
        return [(s, v) for s in c.require(st, nonempty, "empty random range")]
    return [(st, v)]


@model("rand::Rng::gen", "rand::Rng::gen_bool", "rand::random", "rand::Rng::random", "rand::Rng::random_bool", "rand::Rng::gen_ratio")
def gen(c):
    st = c.st.copy()
    n = c.p.split("::")[-1]
    k = c.eng.scalar(c.dty) if c.dty is not None else None
    v = drawn(c, st)
    typed(v, k)
    d = ("?",)
    if k in ("f32", "f64"):
        d = ("range", mk("float", 0.0), mk("float", 1.0))
    elif k == "bool":
        d = ("bool", c.args[1] if n in ("gen_bool", "random_bool") else mk("float", 0.5))
    st.emit("rng", n, tuple(c.args), v, d)
    if k in ("f32", "f64"):
        st.know(fcmp("le", mk("float", 0.0), v))
        st.know(fcmp("lt", v, mk("float", 1.0)))
    return [(st, v)]


# ------------------------------------------------------------------ input and output
def io(name):
    def f(c):
        st = c.st.copy()
        args = tuple(c.content(a) for a in c.args)
        st.emit("io", name, args)
        v = mk("sym", c.F.fid, st.ctx, c.bb, "io:" + name)
        c.eng.typ(v, c.dty)
        if c.dty is not None:
            t = c.eng.prog.types[c.dty]
            if t["k"] == "adt" and t["adt"] == RESULT and t.get("args"):
                c.eng.typ(fld(v, 0, 0), t["args"][0])
        c.eng.outcome(st, v, c.dty, "io:" + name, c.F, c.bb)
        return [(st, v)]
    return f


for _p, _n in (("std::fs::File::create", "create"), ("std::fs::File::open", "open"), ("std::fs::read_to_string", "read"), ("std::fs::write", "writefile"),
               ("std::io::Write::write_all", "write_all"), ("std::io::Write::flush", "flush"), ("std::io::Write::write_fmt", "write_fmt"),
               ("std::io::Write::write", "write"), ("std::fs::read", "read"), ("std::io::Read::read_to_string", "read_to_string"),
               ("std::fs::File::sync_all", "sync"), ("std::fs::OpenOptions::open", "open"), ("std::io::BufWriter::new", "bufwriter"), ("std::io::BufWriter::with_capacity", "bufwriter"), ("std::io::LineWriter::new", "bufwriter"), ("std::io::BufWriter::into_inner", "into_inner"),
               ("std::io::stdout", "stdout"), ("std::io::stderr", "stderr"), ("std::fs::remove_file", "remove"), ("std::fs::rename", "rename"),
               ("std::fs::create_dir_all", "mkdir"), ("std::fs::OpenOptions::new", "openoptions"), ("std::fs::File::create_new", "create_new")):
    M[_p] = io(_n)


@model("std::io::_print", "std::io::_eprint")
def prints(c):
    st = c.st.copy()
    st.emit("io", c.p.split("_")[-1], tuple(c.args))
    return [(st, UNIT)]


# ------------------------------------------------------------------ hashing
@model("std::hash::Hash::hash", "std::hash::Hasher::write_u8", "std::hash::Hasher::write", "std::hash::Hasher::write_u32", "std::hash::Hasher::write_usize",
       "std::hash::Hasher::write_u64", "std::hash::Hasher::write_str", "std::hash::Hash::hash_slice", "std::hash::Hasher::write_isize",
       "std::hash::Hasher::write_i32", "std::hash::Hasher::write_u16", "std::hash::Hasher::write_i64")
def hashm(c):
    if c.p.startswith("std::hash::Hasher"):
        h, v, ty = c.args[0], c.val(1), c.aty(1)
    else:
        h, v, ty = c.args[1], c.val(0), c.aty(0)
    st = c.st.copy()
    st.emit("hash", c.eng.prog.types[ty]["s"] if ty is not None else "?", v)
    if h.op == "mref":
        cur = c.content(h)
        st = c.write(st, h, mk("hashed", cur, v))
    return [(st, UNIT)]
