"""C16: the chance of a body is in [0, 1]; it reports what the user set."""
from ..fwit import identical, regions
from ..rel import call, clean, loc, results, same
from ..report import Check
from ..sym import analyse
from ..terms import *

PB, CH = "productions::ProductionBody", "productions::Chance"
RESULT, OPTION = "std::result::Result", "std::option::Option"


def within(x):
    return 0.0 <= x <= 1.0


def inside(st, v):
    """do the facts say that v is in [0, 1]? True / (False, witness) / None"""
    z, o = mk("float", 0.0), mk("float", 1.0)
    if v.op == "float":
        return within(v.a[0]) or (False, v.a[0])
    if st.ask(fcmp("le", z, v)) is True and st.ask(fcmp("le", v, o)) is True:
        return True
    fs = [b for b in st.facts.all() if any(t is v for t in walk(b))]
    return regions(fs, v, within)


def observe(lib, body, st):
    """[(state, set?, reported value)] through the accessors, None if not understood"""
    out = []
    rs = results(lib, PB + "::chance", [body], st)
    if rs is None:
        return None
    for s, ch in rs:
        us = results(lib, CH + "::is_user_set", [ch], s)
        if us is None:
            return None
        for s1, u in us:
            ds = results(lib, CH + "::is_derived", [ch], s1)
            if ds is None:
                return None
            for s2, d in ds:
                D = typed(mk("sym", "default", "arg", 0), "f32")
                vs = results(lib, CH + "::unwrap_or", [ch, D], s2)
                if vs is None:
                    return None
                for s3, v in vs:
                    ws = None
                    r = call(lib, CH + "::unwrap", [ch], s3)
                    if r is not None and not r.err and not r.bad() and not r.vague():
                        ws = [w for _, w in r.res]
                    out.append((s3, u, d, v, D, ws))
    return out


def tri(x):
    return x.a[0] if x.op == "bool" else None


def check_C16(lib, bn):
    c = Check("C16", "proof",
              "the result paths of giving a body a chance: success exactly for the numbers in [0, 1] (by the regions of the path condition), the stored body reports exactly the given value as set; every constructor of bodies and chances",
              ["the models of std's float comparisons"])
    # ---- giving a body a chance
    p = PB + "::try_with_chance"
    if p not in lib.fns:
        c.undecided("fn:" + p, "", "not found")
        return c.finish()
    w = loc(lib, p)
    r = analyse(lib, p)
    c.fn(r.inst.name)
    x, s = r.args[0], r.args[1]
    if r.err:
        c.undecided("fn:" + p, w, r.err)
        return c.finish()
    for o in r.bad():
        q = regions([b for b in o.state.facts.all() if any(t is x for t in walk(b))] + ([not_(o.cond)] if o.cond is not FALSE else []), x, lambda y: False)
        if isinstance(q, tuple) and not any(any(t.op == "phi" for t in walk(b)) for b in o.state.facts.all()):
            c.bad("panics:" + p, w, "panics for the chance %r" % q[1])
        else:
            c.undecided("panics:" + p, w, "may panic: %s" % o.kind)
    verdict, why = True, ""
    oks, stored = 0, True
    swhy = ""
    for st, v in r.res:
        fs = list(st.facts.all())
        if v.op != "adt" or v.a[0] != RESULT:
            verdict, why = None, "result not understood"
            continue
        if v.a[1] == 0:
            oks += 1
            q = inside(st, x)
            if q is not True:
                if q is None:
                    verdict = None if verdict is True else verdict
                    why = why or "whether the accepted numbers are in range is not understood"
                else:
                    verdict, why = False, "accepts the chance %r" % q[1]
            ob = observe(lib, v.a[2], st)
            if ob is None:
                stored = None if stored is True else stored
                continue
            for s3, u, d, val, D, ws in ob:
                fv = [b for b in s3.facts.all() if any(t is x for t in walk(b))]
                g = [tri(u) is True or None if tri(u) is not False else False, tri(d) is False or None if tri(d) is not True else False]
                g += [identical(fv, x, y) for y in [val] + (ws if ws is not None else [])]
                if any(k is False or isinstance(k, tuple) for k in g):
                    stored, swhy = False, "a body given a chance reports set=%s derived=%s value=%s" % (show(u), show(d), show(val)[:80])
                elif not all(k is True for k in g) and stored is True:
                    stored, swhy = None, "what a body reports is not understood"
            got = results(lib, PB + "::string", [v.a[2]], st)
            if got is None:
                stored = None if stored is True else stored
            else:
                for s3, t in got:
                    k = same(s3, t, s)
                    if t is s:
                        continue
                    if k is False:
                        stored, swhy = False, "the body's string is %s" % show(t)[:80]
                    elif k is None and stored is True:
                        stored, swhy = None, "the body's string is not understood"
        else:
            fv = [b for b in fs if any(t is x for t in walk(b))]
            q = regions(fv, x, lambda y: not within(y))
            other = [b for b in fs if b not in fv and b.op not in ("bool",)]
            if q is not True:
                if q is None or other:
                    verdict = None if verdict is True else verdict
                    why = why or "whether the refused numbers are out of range is not understood"
                else:
                    verdict, why = False, "refuses the chance %r" % q[1]
    c.judge3("accepts:" + p, verdict, w, why or "succeeds exactly for numbers in [0, 1] (%d result paths)" % len(r.res))
    c.judge3("stores:" + p, stored if oks else None, w, swhy or "the body reports exactly the given value, as set by the user")

    # ---- Chance::new does not panic for a number in range
    p = CH + "::new"
    if p in lib.fns:
        z, o1 = mk("float", 0.0), mk("float", 1.0)
        n = analyse(lib, p, assume=lambda eng, inst, vals: [fcmp("le", z, vals[0]), fcmp("le", vals[0], o1)])
        c.fn(n.inst.name)
        if n.err:
            c.undecided("fn:" + p, loc(lib, p), n.err)
        else:
            bad = None
            for o in n.bad():
                q = regions([b for b in o.state.facts.all() if any(t is n.args[0] for t in walk(b))] + [not_(o.cond)], n.args[0], lambda y: False)
                if isinstance(q, tuple):
                    bad = q[1]
            if bad is not None:
                c.bad("range:" + p, loc(lib, p), "panics for the chance %r" % bad)
            elif n.bad() or n.vague():
                c.undecided("range:" + p, loc(lib, p), "may panic in range")
            else:
                c.ok("range:" + p, loc(lib, p), "no panic for any number in [0, 1]")

    # ---- everything that makes a body or a chance
    made = 0
    for q, f in sorted(lib.fns.items()):
        if f.get("root") not in lib.insts or f.get("out") is None or f.get("derived") or q == PB + "::try_with_chance":
            continue
        t = lib.types[f["out"]]
        wrap = None
        if t["k"] == "adt" and t["adt"] == RESULT:
            wrap, t = RESULT, lib.types[t["args"][0]]
        if t["k"] != "adt" or t["adt"] not in (PB, CH, "productions::Production"):
            continue
        inst = lib.insts[f["root"]]
        if any(lib.types[inst.locals[i + 1]["ty"]]["k"] == "ref" and lib.types[inst.locals[i + 1]["ty"]].get("mut") for i in range(inst.nargs)):
            continue
        # only those that build one themselves
        own = t["adt"]
        if not builds(lib, inst, PB, CH):
            continue
        made += 1
        w = loc(lib, q)
        r = analyse(lib, q, tmax=30.0)
        c.fn(r.inst.name)
        if r.err:
            c.undecided("makes:" + q, w, r.err)
            continue
        verdict, why = True, ""
        for st, v in r.res:
            if wrap:
                if v.op != "adt":
                    verdict, why = None, "result not understood"
                    continue
                if v.a[1] == 1:
                    continue
                v = v.a[2]
            if own == "productions::Production":
                continue
            ob = observe(lib, v, st) if own == PB else obs_chance(lib, v, st)
            if ob is None:
                verdict, why = (None, "not understood") if verdict is True else (verdict, why)
                continue
            for s3, u, d, val, D, ws in ob:
                if tri(u) is None or tri(d) is None or tri(u) == tri(d):
                    if tri(u) is not None and tri(u) == tri(d):
                        verdict, why = False, "reports a chance that is %s set and derived" % ("both" if tri(u) else "neither")
                    else:
                        verdict, why = (None, "kind not understood") if verdict is True else (verdict, why)
                    continue
                if tri(u):
                    k = inside(s3, val)
                    if isinstance(k, tuple):
                        if clean(val) and all(clean(b) for b in s3.facts.all()):
                            verdict, why = False, "makes a body with the chance %r" % k[1]
                        elif verdict is True:
                            verdict, why = None, "range not understood"
                    elif k is None and verdict is True:
                        verdict, why = None, "range not understood"
                elif val is not D:
                    if clean(val):
                        verdict, why = False, "a derived chance reports the value %s" % show(val)[:80]
                    elif verdict is True:
                        verdict, why = None, "value not understood"
        c.judge3("makes:" + q, verdict, w, why or "every body made has a set chance in [0, 1] or a derived one")
    c.floor("constructors of bodies and chances", made, 2)
    written(c, lib, "parser::parse_production_body")
    return c.finish()


def written(c, lib, p):
    """rule text: a body whose first word is a number has exactly that chance"""
    key = "text:" + p
    if p not in lib.fns:
        c.undecided(key, "", "not found")
        return
    w = loc(lib, p)
    r = analyse(lib, p, peel=2, tmax=40.0)
    c.fn(r.inst.name)
    if r.err:
        c.undecided(key, w, r.err)
        return
    verdict, why, seen = True, "", 0
    for st, v in r.res:
        if v.op != "adt" or v.a[0] != RESULT:
            verdict, why = None, "result not understood"
            continue
        if v.a[1] != 0:
            continue
        fs = list(st.facts.all())
        nums = {t for b in fs for t in walk(b) if t.op == "parse" and t.a[0] == "f32" and t.a[1].op == "elem" and t.a[1].a[1] is ZERO}
        nums = [t for t in nums if st.ask(isv(t, 0)) is True]
        if len(nums) > 1:
            verdict, why = None, "more than one number read"
            continue
        ob = observe(lib, v.a[2], st)
        if ob is None:
            verdict, why = None, "what the body reports is not understood"
            continue
        for s3, u, d, val, D, ws in ob:
            if not nums:
                continue
            seen += 1
            x = typed(fld(nums[0], 0, 0), "f32")
            fv = [b for b in s3.facts.all() if any(t is x for t in walk(b))]
            if tri(u) is True:
                q = identical(fv, x, val)
                if isinstance(q, tuple) and clean(val) and any(t is x for t in walk(val)):
                    c.bad(key, w, "the chance written %r becomes another one: %s" % (q[1], show(val)[:80]))
                    return
                if q is not True:
                    verdict, why = None, "the chance is not understood: " + show(val)[:80]
            elif tri(u) is False:
                q = regions(fv, x, lambda y: False)
                if isinstance(q, tuple):
                    c.bad(key, w, "the chance written %r is not given to the body" % q[1])
                    return
                verdict, why = None, "a number may be written and not used"
            else:
                verdict, why = None, "not known whether the chance is set"
    if verdict is True and not seen:
        verdict, why = None, "no path reads a number"
    c.judge3(key, verdict, w, why or "a number in first place is exactly the body's chance (%d results, unrolled: the first two passes)" % seen)


def obs_chance(lib, ch, st):
    out = []
    us = results(lib, CH + "::is_user_set", [ch], st)
    if us is None:
        return None
    for s1, u in us:
        ds = results(lib, CH + "::is_derived", [ch], s1)
        if ds is None:
            return None
        for s2, d in ds:
            D = typed(mk("sym", "default", "arg", 0), "f32")
            vs = results(lib, CH + "::unwrap_or", [ch, D], s2)
            if vs is None:
                return None
            out += [(s3, u, d, v, D, None) for s3, v in vs]
    return out


def builds(lib, inst, *adts):
    """does it build such a value, itself or through the constructors?"""
    for b in inst.blocks:
        for s in b["st"]:
            if s["s"] == "asg" and s["rv"]["r"] == "agg" and s["rv"].get("adt") in adts:
                return True
        t = b["t"]
        if t["t"] == "call" and t.get("f") is not None:
            f = lib.types[t["f"]].get("path") or ""
            if any(f.startswith(a + "::") for a in adts):
                return True
    return False
