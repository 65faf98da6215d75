#!/usr/bin/env python3
"""Entry point of every check: python3 -m sa.check <PROPERTY> [quick|thorough]"""
import os, sys, json, time, importlib, traceback
from . import facts
from .facts import AnalysisBroken, VERIF


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = []          # (key, where, message)
        self.sites = []         # analysed instances
        self.counts = {}
        self.rules = {}
        self.notes = []
        self.undecided = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where, what=""):
        """One obligation that was discharged."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if len(self.sites) < 4000:
            self.sites.append({"rule": rule, "at": where, "what": what})

    def skip(self, rule, where, why):
        """An instance that was found but that the rule cannot decide in its present form."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.undecided.append({"rule": rule, "at": where, "why": why})

    def bad(self, rule, key, where, msg):
        """One obligation that fails; 'key' identifies the failing construct stably."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        k = "%s:%s" % (rule, key)
        for v in self.viol:
            if v[0] == k:
                return
        self.viol.append((k, where, msg))

    def need(self, rule, n):
        """Fail as analysis-broken if fewer than n instances of a rule were found."""
        got = self.counts.get(rule, 0)
        if got < n:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, got, n))


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln[len("known: property=%s " % prop):]
                key, _, msg = rest.partition(" | ")
                out[key.strip()] = msg.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report(prop)
    mod = importlib.import_module("sa.rules." + prop.lower())
    try:
        mod.check(rep, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2
    known = known_findings(prop)
    new = [v for v in rep.viol if v[0] not in known]
    old = [v for v in rep.viol if v[0] in known]
    # With violations present, a rule that lost its instances is explained by them.
    if not new:
        try:
            for r, n in getattr(mod, "MIN", {}).items():
                rep.need(r, n)
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
            return 2
    wall = time.time() - t0
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    level = getattr(mod, "LEVEL", "other")
    total = sum(rep.counts.values())
    bywhere = {}
    for s in rep.sites:
        bywhere.setdefault(s["rule"], []).append("%s %s" % (s["at"], s["what"]))
    cov = {
        "explanation": "Static analysis of the current source of /repo: %s. %d obligations over %d rules were decided; every instance found was examined." % (
            getattr(mod, "WHAT", ""), total, len(rep.counts)),
        "rules": rep.rules,
        "obligations": rep.counts,
        "obligations_total": total,
        "violations_found": len(new),
        "known_findings": len(old),
        "instances": {r: sorted(set(v))[:400] for r, v in bywhere.items()},
        "undecided": rep.undecided,
        "notes": rep.notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": [{"key": k, "at": w, "message": m} for k, w, m in new]}
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, w, m in old:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, k, w, m))
    for k, w, m in new[:25]:
        print("  %s\n    at %s\n    %s" % (k, w, m))
    if len(new) > 25:
        print("  ... and %d more (see the replay file)" % (len(new) - 25))
    if new:
        rp = os.path.join(evd, prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, w, m in new:
                f.write("%s\n  at %s\n  %s\n" % (k, w, m))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s: %d obligations (%s) in %.1fs" % (prop, total, ", ".join("%s=%d" % x for x in sorted(rep.counts.items())), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
