"""Call graph, lock identities, guard liveness and effects over the MIR facts."""
import re
from .facts import norm

GUARD = re.compile(r"(RwLockReadGuard|RwLockWriteGuard|MutexGuard|std::cell::Ref<|std::cell::RefMut<)")

ACQ = {
    "std::sync::RwLock::read": "r", "std::sync::RwLock::write": "w", "std::sync::Mutex::lock": "w",
    "std::sync::RwLock::try_read": "r", "std::sync::RwLock::try_write": "w", "std::sync::Mutex::try_lock": "w",
    "std::cell::RefCell::borrow": "r", "std::cell::RefCell::borrow_mut": "w",
    "std::cell::RefCell::try_borrow": "r", "std::cell::RefCell::try_borrow_mut": "w",
}
# other ways to change shared state behind a shared reference
RAWMUT = {
    "std::cell::RefCell::replace", "std::cell::RefCell::swap", "std::cell::RefCell::take", "std::cell::Cell::set",
    "std::cell::Cell::replace", "std::cell::Cell::take", "std::cell::RefCell::replace_with", "std::cell::Cell::swap",
    "std::cell::RefCell::as_ptr", "std::cell::Cell::as_ptr", "std::sync::OnceLock::set", "std::sync::RwLock::set",
    "std::sync::RwLock::replace", "std::cell::UnsafeCell::get",
}
ATOMIC_W = re.compile(r"^std::sync::atomic::Atomic(?:::|\w*::)(store|swap|fetch_\w+|compare_\w+|update)$")


class CallSite:
    __slots__ = ("inst", "bb", "term", "info", "target", "extra", "path", "foreign")


class Graph:
    def __init__(self, *progs):
        self.progs = progs
        self.insts = {}
        for p in progs:
            for n, i in p.insts.items():
                self.insts[(p.kind, n)] = i
        self._calls = {}
        self._acq = {}

    # ---- call sites
    def fn_values(self, prog, tyi, seen=None, depth=0):
        """insts of closures and fn items mentioned in a type"""
        seen = set() if seen is None else seen
        if tyi in seen or depth > 6:
            return
        seen.add(tyi)
        t = prog.types[tyi]
        k = t["k"]
        if k in ("closure", "fndef"):
            yield t
            for u in t.get("up", []):
                yield from self.fn_values(prog, u, seen, depth + 1)
        for key in ("args", "el", "targs"):
            v = t.get(key)
            if isinstance(v, list):
                for x in v:
                    yield from self.fn_values(prog, x, seen, depth + 1)
            elif isinstance(v, int):
                yield from self.fn_values(prog, v, seen, depth + 1)
        if "to" in t:
            yield from self.fn_values(prog, t["to"], seen, depth + 1)

    def display_impls(self, prog, info):
        """local Display/Debug impls that std formatting would call for this call's type arguments"""
        n = norm(info.get("path", ""))
        tr = None
        if n.endswith("Argument::new_display") or n.endswith("ToString::to_string") or n.endswith("::join"):
            tr = "std::fmt::Display"
        elif n.endswith("Argument::new_debug"):
            tr = "std::fmt::Debug"
        if not tr:
            return
        todo = list(info.get("targs", []))
        if "self" in info:
            todo.append(info["self"])
        seen = set()
        while todo:
            ti = todo.pop()
            if ti in seen:
                continue
            seen.add(ti)
            t = prog.types[ti]
            if t["k"] == "adt" and t.get("local"):
                for p, f in prog.fns.items():
                    if f.get("impl_trait") == tr and f["name"] == "fmt":
                        st = prog.types[f["impl_self"]]
                        if st.get("adt") == t["adt"]:
                            i = prog.insts.get(f["root"])
                            if i:
                                yield i
            for key in ("args", "el"):
                v = t.get(key)
                if isinstance(v, list):
                    todo += v
                elif isinstance(v, int):
                    todo.append(v)
            if "to" in t:
                todo.append(t["to"])

    def calls(self, inst):
        k = (inst.prog.kind, inst.name)
        if k in self._calls:
            return self._calls[k]
        res = []
        for bb in sorted(inst.reachable()):
            t = inst.blocks[bb]["t"]
            if t["t"] != "call":
                continue
            info, target = inst.prog.callee(t)
            c = CallSite()
            c.inst, c.bb, c.term, c.info, c.target = inst, bb, t, info, target
            c.path = norm(info.get("path", "")) if info["k"] == "fndef" else info["s"]
            c.extra = []
            c.foreign = None
            if info["k"] == "fndef":
                for ti in info.get("targs", []):
                    for ft in self.fn_values(inst.prog, ti):
                        if ft.get("inst"):
                            x = inst.prog.insts.get(ft["inst"])
                            if x is not None and x is not target:
                                c.extra.append(x)
                c.extra += list(self.display_impls(inst.prog, info))
                if target is None and info.get("rkind") in ("unresolved", "virtual"):
                    c.foreign = "%s call %s" % (info["rkind"], info.get("full"))
                    sl = info.get("self")
                    if info["rkind"] == "virtual":
                        # dyn call: every local impl of that trait method is a possible target
                        for p, f in inst.prog.fns.items():
                            if f.get("impl_trait") == info.get("trait") and f["name"] == info["path"].split("::")[-1]:
                                x = inst.prog.insts.get(f["root"])
                                if x:
                                    c.extra.append(x)
                    elif info.get("trait"):
                        for p, f in inst.prog.fns.items():
                            if f.get("impl_trait") == info["trait"] and f["name"] == info["path"].split("::")[-1] and info.get("local"):
                                x = inst.prog.insts.get(f["root"])
                                if x:
                                    c.extra.append(x)
            elif info["k"] in ("fnptr", "dyn", "param", "other"):
                c.foreign = "call through a value of type %s" % info["s"]
            res.append(c)
        self._calls[k] = res
        return res

    def reach(self, roots):
        """all insts transitively callable from roots"""
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            i, frm = st.pop()
            k = (i.prog.kind, i.name)
            if k in seen:
                continue
            seen[k] = frm
            for c in self.calls(i):
                for x in ([c.target] if c.target else []) + c.extra:
                    st.append((x, (k, c)))
        return seen

    def chain(self, seen, k):
        out = []
        while k is not None:
            out.append(k[1])
            frm = seen.get(k)
            k = frm[0] if frm else None
        return " <- ".join(out[:8])

    # ---- lock identity
    def defs(self, inst):
        d = getattr(inst, "_defs", None)
        if d is None:
            d = {}
            for b in inst.reachable():
                B = inst.blocks[b]
                for s in B["st"]:
                    if s["s"] == "asg" and not s["p"][1]:
                        d.setdefault(s["p"][0], []).append(("rv", s["rv"]))
                t = B["t"]
                if t["t"] == "call" and not t["d"][1]:
                    d.setdefault(t["d"][0], []).append(("call", t))
            inst._defs = d
        return d

    def origin_place(self, inst, p, depth=0):
        """origin ids of a place: field of an ADT reached through a reference, a static, a parameter"""
        prog = inst.prog
        # innermost named field of an ADT wins
        ti = inst.locals[p[0]]["ty"]
        best = None
        for n, e in enumerate(p[1]):
            t = prog.types[ti]
            if e[0] == "d":
                ti = t.get("to", ti)
                if t["k"] == "adt" and t.get("args"):
                    ti = t["args"][0]
            elif e[0] == "f":
                if t["k"] == "adt":
                    vs = t.get("variants")
                    nm = vs[0]["fields"][e[1]]["n"] if vs and len(vs) == 1 and e[1] < len(vs[0]["fields"]) else str(e[1])
                    best = "%s.%s" % (t["adt"], nm)
                elif t["k"] == "closure":
                    best = ("upvar", e[1])
                ti = e[2]
        if isinstance(best, str):
            return {best}
        if best:
            return {"upvar:%s:%s" % (inst.name, best[1])}
        return self.origin_local(inst, p[0], depth)

    def origin_local(self, inst, l, depth=0, seen=None):
        if depth > 12:
            return {"?"}
        if 1 <= l <= inst.nargs:
            return {"param%d" % l}
        out = set()
        for kind, x in self.defs(inst).get(l, []):
            if kind == "rv":
                r = x["r"]
                if r in ("use", "cast"):
                    a = x["a"][0]
                    if "o" in a:
                        out |= self.origin_place(inst, a["p"], depth + 1)
                    elif a.get("c") == "static":
                        out.add("static " + a["path"])
                    elif a.get("c") == "promoted":
                        out.add("const")
                    else:
                        out.add("?")
                elif r in ("ref", "rawptr"):
                    out |= self.origin_place(inst, x["p"], depth + 1)
                else:
                    out.add("?")
            else:
                info, target = inst.prog.callee(x)
                n = norm(info.get("path", ""))
                if n in ("std::sync::OnceLock::get_or_init", "std::sync::OnceLock::get", "std::sync::LazyLock::force") or n.endswith("Deref::deref"):
                    a = x["a"][0]
                    if "o" in a:
                        out |= self.origin_place(inst, a["p"], depth + 1)
                    elif a.get("c") == "static":
                        out.add("static " + a["path"])
                    else:
                        out.add("?")
                elif target is not None and target.local:
                    for o in self.origin_local(target, 0, depth + 1):
                        if o.startswith("param"):
                            a = x["a"][int(o[5:]) - 1]
                            if "o" in a:
                                out |= self.origin_place(inst, a["p"], depth + 1)
                            else:
                                out.add("?")
                        else:
                            out.add(o)
                else:
                    out.add("?")
        return out or {"?"}

    def lock_ids(self, inst, operand, tyi):
        if "o" in operand:
            o = self.origin_place(inst, operand["p"])
        elif operand.get("c") == "static":
            o = {"static " + operand["path"]}
        else:
            o = {"?"}
        r = set()
        for x in o:
            if x == "?" or x.startswith("upvar") or x == "const":
                t = inst.prog.types[tyi]
                r.add("any lock of type " + t["s"].lstrip("&"))
            elif x.startswith("param"):
                # RefCell-as-store impls: the receiver itself is the cell
                t = inst.prog.types[tyi]
                r.add("%s|%s" % (x, t["s"].lstrip("&")))
            else:
                r.add(x)
        return r

    # ---- direct and transitive acquisitions (lock id, mode)
    def direct_acq(self, inst):
        out = []
        for c in self.calls(inst):
            if c.path in ACQ:
                for l in self.lock_ids(inst, c.term["a"][0], c.term["at"][0]):
                    out.append((c, l, ACQ[c.path]))
            elif c.path == "std::sync::OnceLock::get_or_init":
                for l in self.lock_ids(inst, c.term["a"][0], c.term["at"][0]):
                    out.append((c, "once " + l, "once"))
        return out

    def acquires(self, inst, stack=()):
        """{(lock, mode): (chain of function names)} transitively"""
        k = (inst.prog.kind, inst.name)
        if k in self._acq:
            return self._acq[k]
        if k in stack:
            return {}
        res = {}
        for c, l, m in self.direct_acq(inst):
            res.setdefault((l, m), (inst.name,))
        for c in self.calls(inst):
            for x in ([c.target] if c.target else []) + c.extra:
                for (l, m), ch in self.acquires(x, stack + (k,)).items():
                    for l2 in self.subst(inst, c, x, l):
                        res.setdefault((l2, m), (inst.name,) + ch)
        if not stack:
            self._acq[k] = res
        return res

    def subst(self, inst, c, x, l):
        if l.startswith("param") and "|" in l:
            n, ty = l.split("|", 1)
            i = int(n[5:]) - 1
            if x is c.target and i < len(c.term["a"]):
                return self.lock_ids(inst, c.term["a"][i], c.term["at"][i])
            return {"any lock of type " + ty}
        return {l}

    def foreign(self, inst, stack=()):
        """calls, transitively, into code the crate does not own (generic params, dyn, fn values)"""
        k = (inst.prog.kind, inst.name)
        if not hasattr(self, "_for"):
            self._for = {}
        if k in self._for:
            return self._for[k]
        if k in stack:
            return []
        res = []
        for c in self.calls(inst):
            if c.foreign:
                res.append((c, c.foreign, (inst.name,)))
            for x in ([c.target] if c.target else []) + c.extra:
                for (c2, f, ch) in self.foreign(x, stack + (k,)):
                    res.append((c2, f, (inst.name,) + ch))
        res = res[:50]
        if not stack:
            self._for[k] = res
        return res

    # ---- guard liveness
    def has_guard(self, inst, l):
        s = inst.prog.types[inst.locals[l]["ty"]]["s"]
        return bool(GUARD.search(s)) and not s.startswith("&")

    def guard_ids(self, inst, c):
        """lock ids of the guard a call returns, or None if it returns none"""
        if c.term["d"][1] or not self.has_guard(inst, c.term["d"][0]):
            return None
        if c.path in ACQ:
            return {(l, ACQ[c.path]) for l in self.lock_ids(inst, c.term["a"][0], c.term["at"][0])}
        moved = [a for a in c.term["a"] if "o" in a and self.has_guard(inst, a["p"][0])]
        if moved:
            return None      # transfer
        if c.target is not None:
            out = set()
            ty = inst.prog.types[c.term["dt"]]["s"]
            mode = "w" if ("WriteGuard" in ty or "MutexGuard" in ty or "RefMut" in ty) else "r"
            for (l, m) in self.acquires(c.target):
                if m == mode:
                    out |= {(l2, m) for l2 in self.subst(inst, c, c.target, l)}
            return out or None
        return None

    def held_at_calls(self, inst):
        """{bb: frozenset((lock, mode))} guards that may be live while block bb's call runs"""
        inn = {0: frozenset()}
        work = [0]
        at = {}
        cs = {c.bb: c for c in self.calls(inst)}
        while work:
            b = work.pop()
            cur = {}
            for (l, lk) in inn[b]:
                cur.setdefault(l, set()).add(lk)
            B = inst.blocks[b]

            def move(src, dst):
                if src in cur:
                    v = cur.pop(src)
                    if self.has_guard(inst, dst):
                        cur.setdefault(dst, set()).update(v)
            for s in B["st"]:
                if s["s"] == "asg":
                    for a in s["rv"].get("a", []):
                        if a.get("o") == "move" and a["p"][0] in cur and self.has_guard(inst, a["p"][0]):
                            ts = inst.prog.types
                            # moving a guard-carrying part out of src
                            move(a["p"][0], s["p"][0])
                elif s["s"] == "dead":
                    cur.pop(s["l"], None)
            t = B["t"]
            if t["t"] == "drop" and not t["p"][1]:
                cur.pop(t["p"][0], None)
            if t["t"] == "call":
                c = cs[b]
                before = {lk for v in cur.values() for lk in v}
                moved = [a["p"][0] for a in t["a"] if a.get("o") == "move" and a["p"][0] in cur]
                held = {lk for l, v in cur.items() for lk in v}
                if c.path == "std::mem::drop":
                    held = {lk for l, v in cur.items() if l not in moved for lk in v}
                at[b] = at.get(b, frozenset()) | frozenset(held)
                mv = set()
                for m in moved:
                    mv |= cur.pop(m)
                g = self.guard_ids(inst, c)
                if not t["d"][1]:
                    cur.pop(t["d"][0], None)
                    if g:
                        cur[t["d"][0]] = set(g)
                    elif mv and self.has_guard(inst, t["d"][0]):
                        cur[t["d"][0]] = mv
                elif mv and self.has_guard(inst, t["d"][0]):
                    cur.setdefault(t["d"][0], set()).update(mv)
            out = frozenset((l, lk) for l, v in cur.items() for lk in v)
            for s in inst.succs(b):
                n = inn.get(s)
                m = out if n is None else n | out
                if n is None or m != n:
                    inn[s] = m
                    work.append(s)
        return at

    # ---- shared-state write effects
    def effects(self, inst):
        """{(kind, what): chain}"""
        res = {}
        seen = self.reach([inst])
        for k in seen:
            i = self.insts[k]
            for c, l, m in self.direct_acq(i):
                if m == "w":
                    res.setdefault(("lock-write", l), self.chain(seen, k))
            for c in self.calls(i):
                if c.path in RAWMUT:
                    res.setdefault(("cell-write", c.path), self.chain(seen, k))
                if ATOMIC_W.match(c.path):
                    a = c.term["a"][0]
                    o = a.get("path") if a.get("c") == "static" else ",".join(sorted(self.lock_ids(i, a, c.term["at"][0])))
                    res.setdefault(("atomic-write", o), self.chain(seen, k))
        return res
