"""C10: read-only operations (effect analysis)."""
import re
from ..facts import norm, strip_generics
from ..graph import Graph
from ..report import Check, where

# the operations that are allowed to change shared state; everything else is read-only
MUTATORS = {
    "add_symbol", "add_production", "parse_and_add_production", "register", "get_or_init_family",
}


def allowed(what):
    """interning of names in the global symbol tables is documented and not a change to any store"""
    kind, l = what
    return kind in ("lock-write", "atomic-write") and ("CODE_REGISTER" in l or "NAME_REGISTER" in l or "SYMBOL_ID" in l
                                                       or l.startswith("static symbols::"))


def check_C10(lib, bn):
    c = Check("C10", "proof",
              "Effect analysis: for every operation except the adding/registering ones, the set of write-lock acquisitions, RefCell/Cell "
              "mutations and atomic updates reachable through the resolved call graph (closures, dyn and trait targets included) must "
              "contain nothing but the interning of symbol names; and no public function gives out a mutable reference into a "
              "system, family or rule, and no rule type has interior mutability.",
              ["user-supplied trait impls (stores, interpretations) are outside the crate"])
    g = Graph(lib)
    n = 0
    writers = {}
    for p, f in sorted(lib.fns.items()):
        i = lib.insts.get(f["root"]) if f.get("root") else None
        if i is None:
            continue
        muts = f["name"] in MUTATORS
        c.fn(p)
        if muts:
            continue
        n += 1
        eff = g.effects(i)
        bad = {w: ch for w, ch in eff.items() if not allowed(w) and not (f["name"] == "borrow_mut")}
        # operations that construct a fresh system may fill that fresh system
        if bad and constructs_system(lib, f):
            bad = {w: ch for w, ch in bad.items() if not w[1].startswith("system::System.") and "family" not in w[1]}
        if not bad:
            c.ok("readonly:" + p, where(f["span"]), "effects: %s" % (sorted(map(str, eff)) or "none"))
        for w, ch in sorted(bad.items()):
            c.bad("readonly:%s:%s" % (strip_generics(p), w[1]), where(f["span"]),
                  "%s is a read operation but can reach %s of %s: %s" % (p, w[0], w[1], ch))
    # &self methods must not hand out mutable references; no interior mutability in rule types
    for p, f in sorted(lib.fns.items()):
        if not f["reachable"] or not f["in"]:
            continue
        out = lib.types[f["out"]]["s"]
        a0 = lib.types[f["in"][0]]["s"]
        if a0.startswith("&") and not a0.startswith("&mut") and "&mut" in out:
            c.bad("mutref:" + p, where(f["span"]), "%s returns %s from a shared reference" % (p, out))
    inner = 0
    for a, o in sorted(lib.adts.items()):
        for v in o["variants"]:
            for fd in v["fields"]:
                inner += 1
                s = lib.types[fd["ty"]]["s"]
                im = re.search(r"(std::cell::|RwLock<|Mutex<|OnceLock<|atomic::|LazyLock<)", s)
                if im and not (a.endswith("::System") or a == "system::System"):
                    c.bad("interior:%s.%s" % (a, fd["n"]), where(o["span"]), "field of type %s makes %s changeable behind a shared reference" % (s, a))
                else:
                    c.ok("interior:%s.%s" % (a, fd["n"]), where(o["span"]), s)
    c.cov["read_operations"] = n
    c.cov["fields_checked"] = inner
    c.floor("read operations", n, 150)
    return c.finish()


def constructs_system(lib, f):
    out = lib.types[f["out"]]["s"]
    if any("system::System" in lib.types[t]["s"].replace("system::SystemFamily", "").replace("family::SystemFamily", "") for t in f["in"]):
        return False
    return "system::System" in out and "SystemFamily" not in out.replace("system::System", "", 1)
