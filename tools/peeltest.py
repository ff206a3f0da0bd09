#!/usr/bin/env python3
"""peeltest.py C01 ..: every rule of a check on the unrolled first passes of the unchanged tree (as if
the proof had failed): no refutation may appear."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import facts, registry, rel
from sa.sym import analyse
orig = rel.decide
count = [0, 0]
def dec(c, key, lib, path, spec, peel=3, where="", text="", small=None, deep=True, **kw):
    for n in ((2, peel) + ((5,) if deep else ()) if peel else ()):
        more = dict(kw, tmax=25.0)
        if n == peel and small is not None:
            more["assume"] = lambda eng, inst, vals: small(vals) + (kw["assume"](eng, inst, vals) if kw.get("assume") else [])
        p = analyse(lib, path, peel=n, **more)
        for st, v in p.res:
            count[0] += 1
            r = rel._one(spec, p, st, v, True)
            if r[0] is False:
                count[1] += 1
                print("FALSE ALARM", key, n, r[1])
                break
        if p.err:
            print("  ", key, n, p.err)
    return orig(c, key, lib, path, spec, peel, where, text, small, deep, **kw)
rel.decide = dec
lib, bn = facts.load()
for pid in sys.argv[1:]:
    m = importlib.import_module("sa.rules." + registry.RULES[pid])
    m.decide = dec
    getattr(m, "check_" + pid)(lib, bn)
print(count[0], "paths", count[1], "false alarms")
