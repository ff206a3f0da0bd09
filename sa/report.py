"""Verdicts, known findings, floors and evidence files."""
import json
import os
import sys
import time

from . import facts

KNOWN = os.path.join(facts.VERIF, "known-findings.txt")


def load_known():
    """`known: property=<id> key=<key> -- text` suppresses exactly that key;
    `fixed: ...` lines suppress nothing."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property="):
                rest = l[len("known: property="):]
                pid, rest = rest.split(" ", 1)
                key, _, txt = rest.partition(" -- ")
                assert key.startswith("key=")
                r[(pid, key[4:])] = txt
    return r


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.obl = []        # (key, ok, where, text)
        self.cov = {}        # extra coverage counters
        self.analysed = set()
        self.notes = []
        self.floor_fail = []

    # -- recording
    def ok(self, key, where="", text=""):
        self.obl.append((key, True, where, text))

    def bad(self, key, where, text):
        self.obl.append((key, False, where, text))

    def judge(self, cond, key, where, text):
        (self.ok if cond else self.bad)(key, where, text)
        return cond

    def judge3(self, key, verdict, where, text):
        """True proved, False refuted, None not decided"""
        if verdict is None:
            self.undecided(key, where, text)
        else:
            self.judge(verdict, key, where, text)
        return verdict

    def undecided(self, key, where, text):
        self.notes.append((key, where, text))

    def fn(self, *names):
        self.analysed.update(names)

    def floor(self, what, got, need):
        self.cov["floor:" + what] = "%d (at least %d)" % (got, need)
        if got < need:
            self.bad("floor:" + what, "", "only %d %s found, the rule was confirmed on %d: the rule no longer sees the code it is about" % (got, what, need))

    # -- finishing
    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        tier = tier if tier in ("quick", "thorough") else "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        known = load_known()
        seen = set()
        viol, kn = [], []
        for key, ok, where, text in self.obl:
            if ok or key in seen:
                continue
            seen.add(key)
            (kn if (self.pid, key) in known else viol).append((key, where, text))
        evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(facts.VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        nob = len({o[0] for o in self.obl})
        ndis = len({o[0] for o in self.obl}) - len(seen)
        cov = {
            "explanation": self.rule,
            "obligations": nob,
            "discharged": ndis,
            "checker_cmd": "cd /verif && ./check %s" % self.pid,
            "trusted_base": [
                "rustc nightly type checking, trait resolution and MIR construction",
                "/verif/driver/mirfacts.rs (fact export) and /verif/sa (rules, std models)",
            ],
            "functions_analysed": sorted(self.analysed),
            "functions_analysed_count": len(self.analysed),
            "samples": [{"obligation": k, "discharged": o, "where": w, "detail": t} for k, o, w, t in self.obl[:400]],
        }
        cov.update(self.cov)
        if self.notes:
            cov["undecided"] = [{"key": k, "where": w, "detail": t} for k, w, t in self.notes]
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions analysed, %d undecided, %.1fs"
              % (self.pid, nob, ndis, len(self.analysed), len(self.notes), time.time() - self.t0))
        for k, w, t in self.notes:
            print("UNDECIDED %s %s: %s" % (k, w, t))
        for k, w, t in kn:
            print("KNOWN-FINDING: property=%s %s %s: %s" % (self.pid, k, w, t))
        if viol:
            rp = os.path.join(evdir, self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump([{"key": k, "where": w, "detail": t} for k, w, t in viol], f, indent=1)
            for k, w, t in viol:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
                print("  rule instance: %s\n  where: %s\n  why: %s" % (k, w, t))
            return 1
        return 0


def where(sp, extra=""):
    if not sp:
        return extra
    return "%s:%s%s" % (sp[0], sp[1], " " + extra if extra else "")
