"""C11: randomness only where a rule has several bodies; nothing else varies from run to run."""
import os
import re

from ..facts import norm
from ..graph import Graph
from ..rel import clean, consistent
from ..report import Check, where
from ..sym import analyse
from ..terms import *

PRODTY, BODYTY = "productions::Production", "productions::ProductionBody"
DRAW = re.compile(r"^(rand|rand_core|getrandom|fastrand)::.*(?:gen|gen_range|gen_bool|gen_ratio|random|random_range|random_bool|random_ratio|sample|sample_iter|"
                  r"sample_single|sample_single_inclusive|fill|fill_bytes|try_fill|try_fill_bytes|next_u32|next_u64|shuffle|partial_shuffle|choose|choose_mut|choose_multiple|choose_weighted|"
                  r"choose_stable|from_entropy|from_rng|from_os_rng|getrandom)$")
SOURCES = [
    (re.compile(r"^std::time::(Instant|SystemTime)::(now|elapsed)$"), "the clock"),
    (re.compile(r"^std::env::(var|var_os|vars|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)$"), "the environment"),
    (re.compile(r"^std::process::id$"), "the process's number"),
    (re.compile(r"^std::thread::(current|Thread::id|available_parallelism)$"), "the running thread"),
    (re.compile(r"RandomState::(new|default)$|BuildHasher::(build_hasher|hash_one)$|^std::hash::(BuildHasher|RandomState)\b"), "a randomly keyed hash"),
    (re.compile(r"Argument::new_pointer$|fmt::Pointer::fmt$|::(addr|expose_addr|expose_provenance)$"), "an address"),
]
# what changes only the register of names is not an influence: symbols are told apart by name
REGISTERS = re.compile(r"^(symbols|system::family)::")
HASHED = re.compile(r"std::collections::(?:hash::)?(?:map|set|hash_map|hash_set)::|\bhash_map::|\bhash_set::|std::collections::Hash(Map|Set)\b|hashbrown::")
ITERS = re.compile(r"(?:hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|Difference|Intersection|SymmetricDifference|ExtractIf)\b")
MAPTY = re.compile(r"^&?(?:mut )?(?:'\w+ )?(?:mut )?std::collections::Hash(Map|Set)<")
SETTLED = {"all", "any", "count", "len", "max", "min", "sum", "size_hint", "is_empty", "map", "filter", "filter_map", "cloned", "copied", "chain", "flat_map", "inspect",
           "into_iter", "iter", "by_ref", "peekable", "fuse", "clone", "drop", "product"}
ORDERED = {"last", "nth", "take", "skip", "enumerate", "zip", "step_by", "cycle"}
SORTS = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")
GROW = re.compile(r"(Vec|String|VecDeque|PathBuf)::(push|push_str|push_back|push_front|insert|append|extend_from_slice|insert_str)$|Write::(write_fmt|write_str|write|write_all|write_char)$"
                  r"|fmt::Formatter::write_(str|fmt)$")
CELLS = re.compile(r"^std::sync::atomic::Atomic(?:::|\w*::)(load|fetch_\w+|swap|compare_\w+|update)$")

# what is to be repeatable: everything that derives, interprets, draws or renders
NAMES = re.compile(r"^(derive|derive_once|interpret|run_settings|default_interpretation|to_svg|save_file|fmt|matches|pre_matches|post_matches|bounds|find_production|"
                   r"find_matching|collect|to_string|body|handle_derive)$")


def takes(lib, f, what):
    """positions of the arguments of a type"""
    out = []
    for n, t in enumerate(f["in"]):
        s = lib.types[t]["s"].replace("'_ ", "").lstrip("&").strip()
        if s.startswith("mut "):
            s = s[4:]
        if what == "rule" and s == PRODTY:
            out.append(n)
        if what == "bodies" and re.fullmatch(r"(?:std::vec::Vec<%s>|\[&?%s\]|std::vec::Vec<&%s>)" % (BODYTY, BODYTY, BODYTY), s):
            out.append(n)
    return out


def bodies_of(lib, x):
    a = lib.adts.get(PRODTY)
    if a is None or len(a["variants"]) != 1:
        return None
    for i, fd in enumerate(a["variants"][0]["fields"]):
        if re.fullmatch(r"std::vec::Vec<%s>" % BODYTY, lib.types[fd["ty"]]["s"]):
            return fld(x, 0, i)
    return None


def draws(st, seen=None):
    """draws on a path, those in the passes of its loops included; (event, state)"""
    seen = set() if seen is None else seen
    for e in st.events():
        if e[0] == "rng" and e[1] != "thread_rng" or e[0] in ("std", "user") and isinstance(e[1], str) and DRAW.match(norm(e[1])):
            yield e, st
        if e[0] == "loop" and id(e[1]) not in seen:
            seen.add(id(e[1]))
            for b in e[1].backs:
                yield from draws(b[2], seen)


def guarded(lib, p):
    """does a function that is given one rule or list of bodies draw only if there are two or more?
    True, (False, why), None with a reason"""
    f = lib.fns[p]
    rules, lists = takes(lib, f, "rule"), takes(lib, f, "bodies")
    if len(rules) + len(lists) == 0:
        return None, "no rule given"

    def assume(eng, inst, vals):
        out = []
        for n in rules + lists:
            s = bodies_of(lib, vals[n]) if n in rules else vals[n]
            out.append(le(len_(s), ONE))
        return out
    if any(bodies_of(lib, mk("sym", "x")) is None for _ in rules):
        return None, "the bodies of a rule are not kept in a list"
    run = analyse(lib, p, assume=assume)
    if run.err:
        return None, run.err
    verd = None, ""
    found = False
    for st, v in run.res:
        for e, s in draws(st):
            found = True
            if consistent(s if s is not st else st, lib) is True and s is st:
                one = st.ask(eqi(len_(bodies_of(lib, run.args[rules[0]]) if rules else run.args[lists[0]]), ONE))
                return False, "draws a random number (%s) although the rule has %s" % (e[1], "one body" if one is not False else "no body")
    if not found:
        return True, "%d result paths with at most one body, no draw on any" % len(run.res)
    # the few cases that are surely possible: one body, passes followed
    for k in (1, 0):
        def few(eng, inst, vals):
            return [eqi(len_(bodies_of(lib, vals[n]) if n in rules else vals[n]), INT(k)) for n in rules + lists]
        r = analyse(lib, p, assume=few, peel=2, tmax=25.0)
        for st, v in r.res:
            for e, s in draws(st):
                if s is st and consistent(st, lib) is True:
                    return False, "draws a random number (%s) although the rule has %s" % (e[1], "one body" if k else "no body")
    return verd[0], "a draw is not shown to be impossible with one body"


def owner(inst):
    return norm(inst.path.split("::{closure")[0])


def used(inst, t):
    """is the result of a call looked at?"""
    d = t["d"][0]
    if t["d"][1] or d == 0:
        return True

    def mentions(x):
        if isinstance(x, dict):
            if "o" in x and x.get("p") and x["p"][0] == d:
                return True
            if x.get("r") in ("ref", "discr", "rawptr") and x.get("p") and x["p"][0] == d:
                return True
            return any(mentions(v) for v in x.values())
        if isinstance(x, list):
            return any(mentions(v) for v in x)
        return False
    for b in inst.reachable():
        B = inst.blocks[b]
        for s in B["st"]:
            if s["s"] == "asg" and mentions(s["rv"]):
                return True
        u = B["t"]
        if u["t"] == "call" and mentions(u["a"]) or u["t"] == "switch" and mentions(u["d"]):
            return True
    return False


def statics(inst):
    def walk_(x):
        if isinstance(x, dict):
            if x.get("c") == "static":
                yield x.get("path") or x.get("v") or "?"
            for v in x.values():
                yield from walk_(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk_(v)
    out = []
    for b in inst.reachable():
        out += list(walk_(inst.blocks[b]["st"])) + list(walk_(inst.blocks[b]["t"]))
    return out


def site(inst, t):
    sp = t.get("sp")
    return "%s:%s" % (sp[0], sp[1]) if sp else where(None)


def order_of_hashing(g, c, inst, chain, key):
    """uses of the order in which a hashed collection comes"""
    prog = inst.prog
    calls = g.calls(inst)
    sorts = any(SORTS.search(x.path) for x in calls)
    grows = [x for x in calls if GROW.search(x.path)]
    loops = set()
    for h, body in (inst.loops() or {}).items() if isinstance(inst.loops(), dict) else []:
        loops |= set(body)
    n = 0
    for x in calls:
        if x.info["k"] != "fndef":
            continue
        args = [prog.types[t]["s"] for t in x.term.get("at", [])] if x.term.get("at") and isinstance(x.term["at"][0], int) else []
        selfty = prog.types[x.info["self"]]["s"] if "self" in x.info else args[0] if args else ""
        s = " ".join([selfty] + args)
        if not (ITERS.search(s) or MAPTY.search(selfty) and x.path.endswith(("into_iter",)) or any(MAPTY.search(a) for a in args[1:])):
            continue
        name = x.path.split("::")[-1]
        n += 1
        w = site(inst, x.term)
        if name in SETTLED:
            c.ok("order:%s:%d" % (key, x.bb), w, "%s does not depend on the order" % name)
            continue
        if name in ("collect", "extend", "from_iter", "partition", "unzip"):
            dst = prog.types[x.info["targs"][-1]]["s"] if name == "collect" and x.info.get("targs") else selfty
            if re.search(r"(Hash|BTree)(Map|Set)<|BinaryHeap<|RefCell<std::collections::HashSet", dst):
                c.ok("order:%s:%d" % (key, x.bb), w, "%s into %s does not depend on the order" % (name, dst))
            elif sorts:
                c.ok("order:%s:%d" % (key, x.bb), w, "sorted afterwards") if name == "collect" else c.undecided("order:%s:%d" % (key, x.bb), w, "sorted afterwards?")
            elif re.match(r"(std::vec::Vec<|std::string::String|&mut std::vec::Vec|std::collections::VecDeque)", dst):
                c.bad("order:%s" % key, w, "%s puts the contents of a hashed collection in a sequence in hash order, reached by %s" % (inst.path, chain))
            else:
                c.undecided("order:%s:%d" % (key, x.bb), w, "%s of a hashed collection" % name)
            continue
        if name in ("next", "for_each"):
            inner = grows if name == "next" else [y for i in x.extra for y in g.calls(i) if GROW.search(y.path)]
            if name == "next" and not inst.loops():
                c.bad("order:%s" % key, w, "%s takes whichever element of a hashed collection comes first, reached by %s" % (inst.path, chain))
            elif inner and not sorts:
                c.bad("order:%s" % key, w, "%s puts the contents of a hashed collection in a sequence in hash order, reached by %s" % (inst.path, chain))
            else:
                c.undecided("order:%s:%d" % (key, x.bb), w, "a loop over a hashed collection")
            continue
        if name in ORDERED:
            c.bad("order:%s" % key, w, "%s picks elements of a hashed collection by their place in hash order (%s), reached by %s" % (inst.path, name, chain))
            continue
        c.undecided("order:%s:%d" % (key, x.bb), w, "%s of a hashed collection" % name)
    return n


def check_C11(lib, bn):
    c = Check("C11", "proof",
              "call graph and abstract interpretation: every call path from deriving, interpreting, drawing and rendering to a call that draws random "
              "numbers passes a function shown to draw only when it is given two or more bodies (all result paths under the assumption of at "
              "most one body); no such path reaches the clock, the environment, thread or process numbers, randomly keyed hashes, "
              "addresses, mutable statics other than the registers of names, or a use of hash order",
              ["std's collections other than the hashed ones, and its number formatting, are deterministic", "symbols are told apart by name: their codes are not printed or compared by order",
               "user-supplied stores and interpretations are outside the crate"])
    g = Graph(lib)
    roots = []
    for p, f in sorted(lib.fns.items()):
        i = lib.insts.get(f["root"]) if f.get("root") else None
        if i is not None and (NAMES.match(f["name"]) and (f["reachable"] or f.get("impl_trait"))):
            roots.append(i)
            c.fn(p)
    c.cov["roots"] = len(roots)
    c.floor("operations to be repeatable", len(roots), 20)
    # ---- (1) where random numbers are drawn
    sites = {}
    for n, i in sorted(lib.insts.items()):
        for x in g.calls(i):
            if DRAW.match(x.path):
                sites.setdefault((i.prog.kind, i.name), []).append(x)
    c.cov["draw_sites"] = {k[1]: [x.path for x in v] for k, v in sites.items()}
    verdicts = {}

    def verdict(p):
        if p not in verdicts:
            f = lib.fns.get(p)
            verdicts[p] = None
            if f is not None and f.get("root") in lib.insts and (takes(lib, f, "rule") or takes(lib, f, "bodies")):
                verdicts[p] = guarded(lib, p)
        return verdicts[p]

    # which instances can reach a draw
    full = g.reach(roots)
    callers = {}
    for k in full:
        for x in g.calls(g.insts[k]):
            for t in ([x.target] if x.target else []) + x.extra:
                callers.setdefault((t.prog.kind, t.name), set()).add(k)
    reachdraw = set()
    todo = [k for k in sites if k in full]
    while todo:
        k = todo.pop()
        if k in reachdraw:
            continue
        reachdraw.add(k)
        todo += list(callers.get(k, ()))
    # walk from the roots, not past a function that is shown to be guarded
    seen, st = {}, [((r.prog.kind, r.name), None) for r in roots if (r.prog.kind, r.name) in reachdraw]
    stopped = []
    while st:
        k, frm = st.pop()
        if k in seen or k not in reachdraw:
            continue
        seen[k] = frm
        i = g.insts[k]
        v = verdict(owner(i)) if "{closure" not in i.path else None
        if os.environ.get("VERIF_WHY") and v:
            print("   ", k[1], v)
        if v and v[0] is True:
            stopped.append(k)
            c.ok("draw:%s" % owner(i), site(i, sites[k][0].term) if k in sites else "", v[1])
            continue
        for x in g.calls(i):
            for t in ([x.target] if x.target else []) + x.extra:
                st.append(((t.prog.kind, t.name), (k, x)))
    for k in sorted(sites):
        if k not in seen or k in stopped:
            if k in full:
                c.ok("guarded:%s" % k[1], site(g.insts[k], sites[k][0].term), "reached only through %s" % ", ".join(sorted(set(x[1] for x in stopped))))
            continue
        # functions given a rule on the way
        way, j = [], k
        while j is not None:
            way.append(j)
            j = seen[j][0] if seen[j] else None
        vs = [(j[1], verdicts.get(owner(g.insts[j]))) for j in way]
        w = site(g.insts[k], sites[k][0].term)
        text = "random number drawn by %s, reached by %s" % (sites[k][0].path, " <- ".join(x[1] for x in way)[:300])
        ref = [(n, v) for n, v in vs if v]
        if not ref:
            c.bad("draw:%s" % k[1], w, text + ", where no rule with several bodies is chosen from")
        elif any(v[0] is None for n, v in ref):
            c.undecided("draw:%s" % k[1], w, "%s: %s" % (text, [v[1] for n, v in ref if v[0] is None][0]))
        else:
            c.bad("draw:%s" % k[1], w, "%s: %s %s" % (text, ref[0][0], ref[0][1][1]))
    # ---- (2) what else may differ from run to run
    scanned = 0
    for prog, gg, rs in ((lib, g, roots), (bn, Graph(bn, lib) if bn else None, None)):
        if prog is None or gg is None:
            continue
        if rs is None:
            rs = [bn.insts[f["root"]] for p, f in sorted(bn.fns.items()) if f.get("root") in bn.insts and NAMES.match(f["name"])]
        fullg = gg.reach(rs)
        for k in sorted(fullg):
            i = gg.insts[k]
            if i.prog is not prog:
                continue
            chain = gg.chain(fullg, k)
            scanned += 1
            key = "%s:%s" % (k[0], k[1]) if k[0] != "lib" else k[1]
            hit = False
            for x in gg.calls(i):
                for rx, what in SOURCES:
                    if rx.search(x.path):
                        hit = True
                        if used(i, x.term):
                            c.bad("varies:%s:%s" % (key, what), site(i, x.term), "%s reads %s (%s), reached by %s" % (i.path, what, x.path, chain))
                        else:
                            c.undecided("varies:%s" % key, site(i, x.term), "%s is asked and dropped" % what)
                if prog is bn and DRAW.match(x.path):
                    hit = True
                    c.bad("draw:%s" % key, site(i, x.term), "random number drawn by %s, reached by %s" % (x.path, chain))
                # numbers kept in shared places from call to call
                ss = [s for s in statics(i) if not REGISTERS.match(s)]
                if CELLS.match(x.path) and ss and used(i, x.term):
                    hit = True
                    c.bad("history:%s" % key, site(i, x.term), "%s uses a number kept from earlier calls (%s of %s), reached by %s" % (i.path, x.path.split("::")[-1], ", ".join(sorted(set(ss))), chain))
                if re.search(r"::(OnceLock|OnceCell|LazyLock|LazyCell)::(get_or_init|get_or_try_init|get_mut_or_init|set)$", x.path) and x.path.startswith("std::") and ss:
                    hit = True
                    if x.path.endswith("::set") or any(captures(prog, t) for t in x.info.get("targs", [])):
                        c.bad("history:%s" % key, site(i, x.term), "%s keeps in %s what the first call happened to be given, reached by %s" % (i.path, ", ".join(sorted(set(ss))), chain))
                    else:
                        c.ok("once:%s" % key, site(i, x.term), "initialised with a value that depends on nothing")
                if re.match(r"^std::thread::LocalKey::", x.path):
                    hit = True
                    scalar = re.search(r"LocalKey<(std::cell::(Cell|RefCell)<)?(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|bool|f32|f64|char)>", " ".join(prog.types[t]["s"] for t in x.info.get("targs", [])) +
                                       " ".join(prog.types[t]["s"] for t in x.term.get("at", []) if isinstance(t, int)))
                    if scalar and used(i, x.term):
                        c.bad("history:%s" % key, site(i, x.term), "%s uses a number kept from earlier calls on the thread, reached by %s" % (i.path, chain))
                    else:
                        c.undecided("history:%s" % key, site(i, x.term), "a thread-local value is used")
            for b in i.reachable():
                for s in i.blocks[b]["st"]:
                    if s["s"] == "asg" and s["rv"].get("r") == "cast" and "Expose" in str(s["rv"].get("kind", "")):
                        hit = True
                        c.bad("varies:%s:address" % key, "%s:%s" % tuple(s["sp"][:2]), "%s turns an address into a number, reached by %s" % (i.path, chain))
            for s in sorted(set(statics(i))):
                m = (prog.__dict__.get("statics") or {}).get(s)
                if not REGISTERS.match(s) and not hit and shared(prog, i, s):
                    hit = True
                    c.undecided("history:%s" % key, "", "uses %s, which can change" % s)
            order_of_hashing(gg, c, i, chain, key)
            if not hit:
                c.ok("steady:%s" % key, "", "no source of variation")
    c.cov["functions_scanned"] = scanned
    c.floor("functions scanned", scanned, 60)
    return c.finish()


def captures(prog, ty):
    t = prog.types[ty]
    return t["k"] == "closure" and bool(t.get("up"))


def shared(prog, inst, s):
    def walk_(x):
        if isinstance(x, dict):
            if x.get("c") == "static" and (x.get("path") or x.get("v")) == s and isinstance(x.get("ty"), int):
                yield prog.types[x["ty"]]["s"]
            for v in x.values():
                yield from walk_(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk_(v)
    for b in inst.reachable():
        for ty in list(walk_(inst.blocks[b]["st"])) + list(walk_(inst.blocks[b]["t"])):
            if re.search(r"Cell<|RwLock<|Mutex<|OnceLock<|Lazy|atomic::Atomic|\*mut|&mut", ty):
                return True
    return False
