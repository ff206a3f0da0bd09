"""C01-C03: no operation panics (abstract interpretation of every public function)."""
import re
from ..facts import strip_generics, norm
from ..report import Check, where
from ..sym import Summaries, TypeInvariants, base_adt
from ..terms import show

C03_ = re.compile(r"\binterpretation\b|\bgeometry\b")
C01X = re.compile(r"\babop::parser\b")
C02_ = re.compile(r"::(matches|pre_matches|post_matches|find_matching|derive|derive_once|body)$")


def scope(p):
    if C03_.search(p) and not C01X.search(p):
        return "C03"
    if C02_.search(p) and not p.startswith("parser"):
        return "C02"
    return "C01"


def excluded(p, f):
    """operations whose documented purpose is to panic on misuse"""
    if (f.get("impl_trait") or "").split("<")[0] in ("std::ops::Index", "std::ops::IndexMut"):
        return "indexing panics by convention"
    if f["name"] in ("unwrap", "expect") or p.endswith("Chance::new"):
        return "documented to panic on misuse; callers are checked"
    return None


LEVEL = "proof"


def entries(lib, pid):
    for p, f in sorted(lib.fns.items()):
        inst = lib.insts.get(f.get("root")) if f.get("root") else None
        if inst is None or not f["reachable"] or scope(p) != pid:
            continue
        yield p, f, inst


def srcpos(o):
    """the crate's own frame nearest the failing operation"""
    return where(o.sp)


def check(pid, lib, bn):
    c = Check(pid, LEVEL,
              "Abstract interpretation of the MIR of every public function for arbitrary arguments: linear inequalities over "
              "lengths and positions, character-boundary facts, variants of enums, facts about all elements already passed, loop "
              "invariants by weakening candidate sets. Every operation that could panic (unwrap, index, slice, arithmetic "
              "overflow, explicit panic, borrow) is an obligation at its call site; private struct fields carry inferred type "
              "invariants that every function building or changing the struct must keep. Callees proved for all arguments are "
              "used as such, others are analysed in the context of each caller.",
              ["no lock is poisoned (it needs a panic under a lock, which this check and C08 exclude)",
               "code supplied by the user and allocation do not panic",
               "TokenIterator::text, a public field, is not replaced while iterating"])
    ents = list(entries(lib, pid))
    S = Summaries(lib, tmax=40.0)
    todo = []
    first = {}
    for p, f, inst in ents:
        if excluded(p, f):
            continue
        m = S.status(inst)
        first[p] = m
        if m[0] != "clean":
            todo.append((p, f, inst))
    if todo:
        TI = TypeInvariants(lib)
        for p, f, inst in todo:
            for i in range(inst.nargs):
                adt, t = base_adt(lib, inst.locals[i + 1]["ty"])
                if adt and len(t.get("variants") or []) == 1:
                    TI.infer(adt, t)
        for adt, ns in TI.names.items():
            for n in ns:
                c.ok("invariant:%s:%s" % (adt, n), "", "kept by " + ", ".join(strip_generics(x) for x in TI.checked[adt]))
        S = Summaries(lib, TI.assume, tmax=40.0)
        for p, f, inst in todo:
            first[p] = S.status(inst)
    nob = 0
    for p, f, inst in ents:
        key = "panicfree:" + strip_generics(p)
        why = excluded(p, f)
        if why:
            c.cov.setdefault("excluded", []).append("%s: %s" % (p, why))
            continue
        m = first[p]
        c.fn(*[strip_generics(n) for n in m[1].eng.analysed])
        nob += len(m[1].eng.obl)
        if m[0] == "clean":
            v = m[1].vague()
            if v:
                c.undecided(key, where(f["span"]), "%d obligation(s) depend on library calls without a model: %s" % (len(v), sorted(m[1].eng.unmodelled)))
            c.ok(key, where(f["span"]), "%d panic obligations proved (%s), %d result paths" % (len(m[1].eng.obl), m[2], len(m[1].res)))
        elif m[0] == "dirty":
            hit = False
            for o, sure in S.confirmed(m[1]):
                t = "%s can %s at %s in %s: not provable that %s" % (p, o.kind, srcpos(o), strip_generics(o.inst), show(o.cond)[:300])
                if sure:
                    hit = True
                    c.bad("%s:%s:%s" % (key, strip_generics(o.inst), o.kind), where(f["span"]), t)
                else:
                    c.undecided(key, where(f["span"]), t)
            if not hit:
                c.ok(key, where(f["span"]), "no panic confirmed")
        else:
            c.undecided(key, where(f["span"]), m[1].err or m[0])
    c.cov["panic_obligations"] = nob
    c.cov["public_operations"] = len(ents)
    return c.finish()


def check_C01(lib, bn):
    return check("C01", lib, bn)


def check_C02(lib, bn):
    return check("C02", lib, bn)


def check_C03(lib, bn):
    return check("C03", lib, bn)
