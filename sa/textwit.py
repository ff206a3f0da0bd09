"""Deciding conditions on one text by trying texts: the value of every condition is computed."""
import re
import struct
from . import fwit
from .terms import *

WS = " \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


class Unknown(Exception):
    pass


def ev(t, env):
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == "str":
        return a[0].encode()
    if op in ("int", "bool"):
        return a[0]
    if op == "lin" or op == "le0" or op == "eq0":
        x = a[0] if op != "lin" else t
        c, d = lin_of(x)
        if d == {x: 1}:
            v = ev(x, env)
        else:
            v = c + sum(k * num(ev(y, env)) for y, k in d.items())
        return v if op == "lin" else v <= 0 if op == "le0" else v == 0
    if op == "not":
        return not ev(a[0], env)
    if op in ("and", "or"):
        xs = [ev(x, env) for x in a]
        return all(xs) if op == "and" else any(xs)
    if op == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if op == "len":
        return len(ev(a[0], env))
    if op in ("slice", "elem"):
        s = ev(a[0], env)
        i = ev(a[1], env)
        if op == "elem":
            if not 0 <= i < len(s):
                raise Unknown
            return s[i]
        return s[i:ev(a[2], env)]
    if op == "cat":
        xs = [ev(x, env) for x in a]
        if all(isinstance(x, bytes) for x in xs):
            return b"".join(xs)
        return [y for x in xs for y in x]
    if op == "lst":
        return [ev(x, env) for x in a]
    if op in ("contains", "findpos", "rfindpos", "starts", "ends", "splitseq"):
        s, p = ev(a[0], env), ev(a[1], env)
        if isinstance(p, int):
            p = chr(p).encode()
        if isinstance(s, bytes) and isinstance(p, list) and op in ("contains", "findpos", "rfindpos") and all(isinstance(x, int) for x in p):
            at = [i for i, x in offsets(s) if ord(x) in p]
            if op == "contains":
                return bool(at)
            if not at:
                raise Unknown
            return at[0] if op == "findpos" else at[-1]
        if not isinstance(s, bytes) or not isinstance(p, bytes):
            raise Unknown
        if op == "contains":
            return p in s
        if op == "splitseq":
            return s.split(p) if p else None
        if op in ("starts", "ends"):
            return s.startswith(p) if op == "starts" else s.endswith(p)
        i = s.find(p) if op == "findpos" else s.rfind(p)
        if i < 0:
            raise Unknown
        return i
    if op == "words":
        s = ev(a[0], env).decode()
        for c in WS:
            s = s.replace(c, " ")
        return [x.encode() for x in s.split(" ") if x]
    if op == "lines":
        return lines(ev(a[0], env))
    if op == "trim":
        s = ev(a[1], env).decode()
        return (s.strip(WS) if a[0] == "trim" else s.lstrip(WS) if a[0] == "trim_start" else s.rstrip(WS)).encode()
    if op == "strop":
        return strop(a[0], ev(a[1], env).decode(), [ev(x, env) for x in a[2:]]).encode()
    if op == "strprop" and a[0] == "is_ascii":
        return all(x < 128 for x in ev(a[1], env))
    if op == "eqic":
        x, y = (z if isinstance(z, bytes) else None for z in (ev(a[0], env), ev(a[1], env)))
        if x is None or y is None:
            raise Unknown
        return x.lower() == y.lower()
    if op == "cls":
        return charclass(a[0], ev(a[1], env))
    if op == "splitnseq":
        s, n, p = ev(a[0], env), ev(a[1], env), ev(a[2], env)
        p = chr(p).encode() if isinstance(p, int) else p
        if not isinstance(p, bytes) or not p:
            raise Unknown
        return s.split(p, n - 1)
    if op == "patat":
        s, p = ev(a[1], env).decode(), ev(a[2], env)
        if callable(p):
            return bool(s) and p(ord(s[0 if a[0] == "starts" else -1])) is True
        if isinstance(p, int):
            p = [p]
        if not isinstance(p, list) or not all(isinstance(x, int) for x in p):
            raise Unknown
        return bool(s) and ord(s[0 if a[0] == "starts" else -1]) in p
    if op == "iop" and a[0] in ("Div", "Rem", "Mul"):
        x, y = ev(a[1], env), ev(a[2], env)
        if a[0] == "Mul":
            return x * y
        if not isinstance(x, int) or not isinstance(y, int) or x < 0 or y <= 0:
            raise Unknown
        return x // y if a[0] == "Div" else x % y
    if op == "lamc":
        return lambda ch: ev(a[1], {**env, a[0]: ch})
    if op == "chr":
        return chr(ev(a[0], env)).encode()
    if op == "bnd":
        s, i = ev(a[0], env), ev(a[1], env)
        return 0 <= i <= len(s) and (i == len(s) or s[i] & 0xC0 != 0x80)
    if op == "char_at":
        s, i = ev(a[0], env), ev(a[1], env)
        return ord(s[i:].decode()[0])
    if op == "utf8len":
        return len(chr(ev(a[0], env)).encode())
    if op == "member":
        return ev(a[0], env) in ev(a[1], env)
    if op in ("indom", "notindom"):
        v = ev(a[0], env)
        return (v in a[1]) == (op == "indom")
    if op == "parse":
        return 1 if number(a[0], ev(a[1], env)) is None else 0
    if op == "isv":
        return ev(a[0], env) == a[1]
    if op in ("fop", "fcmp", "fclass", "fnan", "float", "nan"):
        v = fwit.ev(t, {x: ev(x, env) for x in floats(t)}, None)
        if v is None:
            raise Unknown
        return v
    if op == "f2f":
        v = ev(a[1], env)
        return narrow(v) if a[0] == "f32" else v
    if op == "i2f":
        return float(num(ev(a[0], env)))
    if op == "cast" and a[0] == "FloatToInt" and a[1] in BITS:
        v = ev(a[2], env)
        sg, n = BITS[a[1]]
        if v != v:
            return 0
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
        return lo if v <= lo else hi if v >= hi else int(v)
    if op == "fld" and a[0].op == "parse" and a[1] == 0:
        v = number(a[0].a[0], ev(a[0].a[1], env))
        if v is None:
            raise Unknown
        return v
    raise Unknown


def lines(s):
    xs = s.split(b"\n")
    last = xs.pop()
    xs = [x[:-1] if x.endswith(b"\r") else x for x in xs]
    return xs + [last] if last else xs


def charclass(n, v):
    x = chr(v)
    asc = v < 128
    f = {"is_whitespace": lambda: x in WS, "is_ascii_whitespace": lambda: x in " \t\n\r\x0c", "is_ascii_digit": lambda: asc and x.isdigit(),
         "is_ascii_alphabetic": lambda: asc and x.isalpha(), "is_ascii_alphanumeric": lambda: asc and x.isalnum(), "is_ascii_uppercase": lambda: asc and x.isupper(),
         "is_ascii_lowercase": lambda: asc and x.islower(), "is_ascii_control": lambda: v < 32 or v == 127, "is_ascii_graphic": lambda: 32 < v < 127,
         "is_ascii_punctuation": lambda: 32 < v < 127 and not x.isalnum(), "is_control": lambda: v < 32 or 127 <= v < 160}
    if n in f:
        return f[n]()
    if asc and n in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_uppercase", "is_lowercase"):
        return {"is_alphabetic": x.isalpha, "is_alphanumeric": x.isalnum, "is_numeric": x.isdigit, "is_uppercase": x.isupper, "is_lowercase": x.islower}[n]()
    raise Unknown


def floats(t):
    """parts of a condition on floating point numbers that are not made of such operations"""
    if t.op in ("fop", "fcmp", "fclass", "fnan"):
        return [y for x in t.a if isinstance(x, T) for y in floats(x)]
    return [] if t.op in ("float", "nan") else [t]


def narrow(v):
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")


FLOAT = re.compile(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$", re.I | re.A)
BITS = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "u128": (0, 128),
        "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "i128": (1, 128)}


def number(ty, s):
    """what parsing a text as a number gives, None if it is no such number"""
    s = s.decode()
    if ty in ("f32", "f64"):
        if not FLOAT.match(s):
            return None
        v = float(s)
        if ty == "f32":
            v = narrow(v)
        return v
    if ty in BITS:
        sg, n = BITS[ty]
        if not re.match(r"[+-]?\d+$" if sg else r"\+?\d+$", s, re.A):
            return None
        v = int(s)
        return v if (-(1 << n - 1) if sg else 0) <= v < 1 << n - sg else None
    raise Unknown


def strop(f, s, args):
    p = args[0] if args else None
    if f in ("trim_matches", "trim_start_matches", "trim_end_matches"):
        ps = [p] if isinstance(p, int) else p
        if callable(p):
            while s and f != "trim_end_matches" and p(ord(s[0])) is True:
                s = s[1:]
            while s and f != "trim_start_matches" and p(ord(s[-1])) is True:
                s = s[:-1]
            return s
        if isinstance(ps, bytes):
            if not ps:
                return s
            q = ps.decode()
            if f == "trim_matches":
                raise Unknown
            while s.startswith(q) and f == "trim_start_matches":
                s = s[len(q):]
            while s.endswith(q) and f == "trim_end_matches":
                s = s[:-len(q)]
            return s
        if not isinstance(ps, list) or not all(isinstance(x, int) for x in ps):
            raise Unknown
        cs = "".join(map(chr, ps))
        return s.strip(cs) if f == "trim_matches" else s.lstrip(cs) if f == "trim_start_matches" else s.rstrip(cs)
    if f == "to_lowercase":
        return s.lower()
    if f == "to_uppercase":
        return s.upper()
    if f in ("to_ascii_lowercase", "to_ascii_uppercase"):
        g = str.lower if f.endswith("lowercase") else str.upper
        return "".join(g(x) if ord(x) < 128 else x for x in s)
    if f == "replace":
        p = chr(p) if isinstance(p, int) else p.decode() if isinstance(p, bytes) else None
        if p is None or not isinstance(args[1], bytes):
            raise Unknown
        return s.replace(p, args[1].decode())
    raise Unknown


def constants(*ts):
    """pieces of text the terms mention"""
    out = []
    for t in ts:
        for x in walk(t):
            if x.op == "str":
                out.append(x.a[0])
            elif x.op in ("strop", "contains", "findpos", "rfindpos", "starts", "ends", "member", "eq0", "lst"):
                for y in walk(x):
                    if y.op == "int" and 9 <= y.a[0] < 0x3000:
                        out.append(chr(y.a[0]))
    return list(dict.fromkeys(x for x in out if 0 < len(x) < 20))[:6]


def around(*ts):
    """texts that contain those pieces in several places"""
    return [y for c in constants(*ts) for y in (c, c + "a", "a" + c, c + "a" + c, "a" + c + "b", c + c)]


def offsets(s):
    i = 0
    for x in s.decode():
        yield i, x
        i += len(x.encode())


def num(x):
    if not isinstance(x, int):
        raise Unknown
    return x


def opaque(b):
    return any(x.op in ("call", "isv", "discr", "has") or x.op == "sym" and "arg" not in x.a for x in walk(b))


def example(lits, text, cands):
    """a text of the list for which every literal about it holds (questions to other functions are free)"""
    for s in cands:
        env = {text: s.encode()}
        for b in lits:
            try:
                if ev(b, env) is not True:
                    break
            except (Unknown, UnicodeDecodeError, IndexError, TypeError, ValueError):
                if opaque(b):
                    continue
                break
        else:
            return s
    return None
