"""C08: lock order, re-acquisition, and foreign code under locks."""
from ..facts import norm
from ..graph import Graph
from ..report import Check, where

# std trait methods of a user type that cannot reasonably call back into this crate's locks
# (cheap views and conversions); each is an assumption listed in the evidence
HARMLESS = {"std::convert::AsRef::as_ref": "AsRef<str> of a user's string type is a plain view"}


def check_C08(lib, bn):
    c = Check("C08", "proof",
              "Guard liveness by forward dataflow over MIR (guards followed through moves, ?, unwrap, drop); lock identity by the "
              "struct field or static the guard was taken from; callee acquisitions summarised bottom-up over the resolved call graph "
              "(closures, fn items, Display impls and dyn targets included). Obligations: each (held lock, acquired lock) pair is not "
              "the same lock and the graph of all pairs is acyclic; no call into user code (unresolved trait method, fn value) while a "
              "lock is held, except the family initialiser under the family registry alone.",
              ["std's own code takes none of this crate's locks", *("%s: %s" % x for x in HARMLESS.items())])
    g = Graph(lib)
    edges = {}
    nacq = 0
    nheld = 0
    for n, i in sorted(lib.insts.items()):
        if not i.local:
            continue
        c.fn(n)
        nacq += len(g.direct_acq(i))
        held = g.held_at_calls(i)
        cs = {x.bb: x for x in g.calls(i)}
        for bb, hs in sorted(held.items()):
            x = cs[bb]
            if not hs:
                continue
            nheld += 1
            acq = {}
            for l, m in [(l, m) for (cc, l, m) in g.direct_acq(i) if cc.bb == bb]:
                acq.setdefault((l, m), (n,))
            for t in ([x.target] if x.target else []) + x.extra:
                for (l, m), ch in g.acquires(t).items():
                    for l2 in g.subst(i, x, t, l):
                        acq.setdefault((l2, m), ch)
            for (h, hm) in hs:
                for (l, m), ch in acq.items():
                    edges.setdefault((base(h), base(l)), []).append((n, where(x.term.get("sp")), hm, m, ch))
            # foreign code
            fr = []
            if x.foreign:
                fr.append((x, x.foreign, (n,)))
            for t in ([x.target] if x.target else []) + x.extra:
                fr += g.foreign(t)
            for (fc, what, ch) in fr:
                if fc.path in HARMLESS:
                    continue
                if fc.info.get("rkind") == "virtual" and fc.extra and not fc.info.get("trait", "").startswith("std::"):
                    pass
                if is_std_closed(lib, fc):
                    continue
                hl = sorted({base(h) for h, _ in hs})
                key = "foreign:%s:%s" % (fn_of(n), "%s under %s" % (fc.path, "+".join(hl)))
                if is_family_init(lib, i, x, fc, hl):
                    c.ok(key, where(x.term.get("sp")), "documented: the initialiser runs under the family registry only")
                    continue
                c.bad(key, where(x.term.get("sp")),
                      "user code (%s) runs while %s is held, via %s" % (what, ", ".join(hl), " -> ".join(ch)))
    for (h, l), ws in sorted(edges.items()):
        key = "order:%s -> %s" % (h, l)
        w = ws[0]
        txt = "%s (%s) takes %s [%s] via %s while holding %s [%s]" % (w[0], w[1], l, w[3], " -> ".join(w[4]), h, w[2])
        if same(h, l):
            c.bad(key, w[1], "re-acquisition: " + txt)
        elif reach(edges, l, h):
            c.bad(key, w[1], "lock-order cycle: " + txt)
        else:
            c.ok(key, w[1], txt)
    # every acquisition is itself an obligation: it must be identified
    for n, i in sorted(lib.insts.items()):
        if i.local:
            for cc, l, m in g.direct_acq(i):
                c.ok("acquire:%s:%s:%s" % (fn_of(n), base(l), m), where(cc.term.get("sp")), "identified")
    c.cov["lock_order_edges"] = ["%s -> %s" % e for e in sorted(edges)]
    c.cov["acquisition_sites"] = nacq
    c.cov["calls_under_guard"] = nheld
    c.floor("lock acquisition sites", nacq, 15)
    c.floor("calls made under a guard", nheld, 25)
    return c.finish()


def fn_of(n):
    from ..facts import strip_generics
    return strip_generics(n.split("~")[0])


def base(l):
    if l.startswith("param") and "|" in l:
        return "cell " + l.split("|", 1)[1]
    return l


def same(a, b):
    if a == b:
        return True
    return False


def reach(edges, a, b):
    seen = set()
    st = [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += [l for (h, l) in edges if h == x]
    return False


def is_std_closed(prog, fc):
    """virtual/unresolved calls that cannot reach user code: Box<dyn Iterator> built by the crate itself"""
    i = fc.info
    if i.get("rkind") == "virtual":
        # a trait object of a local trait can hold a user's type; of std's Iterator it is the crate's own box
        return i.get("trait") == "std::iter::Iterator"
    if i.get("trait") in ("std::iter::Iterator", "std::iter::IntoIterator") and i.get("rkind") == "unresolved":
        s = prog.types[i["self"]]["s"] if "self" in i else ""
        return s.startswith("impl ") or "impl " in s
    return False


def is_family_init(prog, inst, site, fc, held):
    return (len(held) == 1 and "HashMap" not in held[0] and held[0].startswith("static ") and "family" in held[0]
            and fc.path.startswith("std::ops::Fn") and "get_or_init_family" in fc.inst.path and "get_or_init_family" in inst.path)
