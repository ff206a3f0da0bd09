"""C15: no unsafe, no mutable statics, Send/Sync of the shared types."""
from ..report import Check, where

# types a multi-threaded user shares; resolved as the self type of public API, by path
SHARED = [
    "system::System", "system::RunSettings", "system::family::SystemFamily", "system::family::Builder",
    "system::family::SymbolDescription", "symbols::Symbol", "strings::ProductionString",
    "productions::Production", "productions::ProductionHead", "productions::ProductionBody",
    "productions::Chance", "geometry::Point", "geometry::Vector", "geometry::Path", "geometry::BoundingBox",
    "interpretation::abop::AbopTurtleInterpretation", "interpretation::NullInterpretation",
    "parser::token::Token", "parser::iterator::TokenIterator",
]
OK_STATIC = ("std::sync::OnceLock<", "std::sync::RwLock<", "std::sync::Mutex<", "std::sync::LazyLock<",
             "std::sync::atomic::")


def check_C15(lib, bn):
    c = Check("C15", "proof",
              "Every unsafe block, unsafe fn, unsafe impl and extern block of both crates (from the HIR, after macro expansion) is "
              "a violation; every static must be immutable and of a lock, once-cell or atomic type (or contain no "
              "interior mutability at all); the auto traits Send and Sync of each shared public type are asked of rustc's trait solver.")
    bodies = 0
    for prog in (lib, bn):
        for u in prog.unsafe:
            if u.get("foreign"):
                continue
            c.bad("unsafe:%s:%s" % (prog.kind, u["owner"]), "%s:%s" % (u.get("file"), u.get("line")),
                  "unsafe %s in %s" % (u["kind"], u["owner"]))
        for p, f in prog.fns.items():
            bodies += 1
            c.judge(not f["unsafe"], "fn:%s:%s" % (prog.kind, p), where(f["span"]), "unsafe fn" if f["unsafe"] else "safe fn")
        for im in prog.impls:
            if im.get("derived") or im.get("trait", "").endswith("TrivialClone"):
                continue      # written by the compiler's own derive
            if im.get("trait"):
                key = "impl:%s:%s for %s" % (prog.kind, im["trait_full"], prog.types[im["self"]]["s"])
                if im.get("unsafe"):
                    c.bad(key, where(im["span"]), "unsafe impl of %s" % im["trait"])
                else:
                    c.ok(key, where(im["span"]), "safe impl")
        for s, o in prog.statics.items():
            t = prog.types[o["ty"]]["s"]
            ok = not o["mut"] and (t.startswith(OK_STATIC) or not any(x in t for x in ("Cell", "*mut", "*const")))
            c.judge(ok, "static:%s:%s" % (prog.kind, s), where(o["span"]), "static %s: %s%s" % (s, t, " (mut)" if o["mut"] else ""))
    for p in SHARED:
        a = lib.adts.get(p)
        if a is None:
            # moved or renamed: find a unique type of the same name
            cand = [x for x in lib.adts if x.split("::")[-1] == p.split("::")[-1]]
            a = lib.adts[cand[0]] if len(cand) == 1 else None
            if a is None:
                c.bad("auto:" + p, "", "shared type %s not found: cannot decide its auto traits" % p)
                continue
        for tr in ("Send", "Sync"):
            c.judge(a["auto"].get(tr) is True, "auto:%s:%s" % (p.split("::")[-1], tr), where(a["span"]),
                    "%s %s %s" % (p, "is" if a["auto"].get(tr) else "is NOT", tr))
    c.fn(*["%s:%s" % (p.kind, n) for p in (lib, bn) for n in p.fns])
    c.floor("functions", bodies, 200)
    c.floor("types with auto traits", len(SHARED), 19)
    return c.finish()
