"""Check harness: obligations, violations, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

from . import facts
from .facts import VERIF, REPO, AnalysisError, program

KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=C05 key=<key> | text
                head, _, text = line[6:].partition("|")
                d = dict(t.split("=", 1) for t in head.split() if "=" in t)
                out.setdefault(d["property"], {})[d["key"]] = text.strip()
    return out


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obligations = 0
        self.discharged = 0
        self.viol = []
        self.samples = []
        self.counts = {}
        self.notes = []
        self.unrecognised = []
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = program()
        return self._prog

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what is not None and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, loc, msg):
        """a violated obligation. key: stable identification of the construct"""
        self.obligations += 1
        key = key.replace(" ", "_")
        for v in self.viol:
            if v[0] == key and v[1] == loc:
                return
        self.viol.append((key, loc, msg))

    def check(self, cond, key, loc, msg, what=None):
        if cond:
            self.ok(what)
        else:
            self.bad(key, loc, msg)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        self.notes.append(s)

    def skip(self, s):
        """an instance the rule does not recognise (not counted as an obligation, listed in the evidence)"""
        self.unrecognised.append(s)

    def need(self, name, minimum):
        """fail as analysis-broken when a count falls below what was confirmed by hand"""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisError("%s: only %d instances of '%s' found (expected at least %d)" %
                                (self.prop, self.counts.get(name, 0), name, minimum))


def run(prop, func, explanation, tier, seed, level="other"):
    t0 = time.time()
    c = Ctx(prop, tier)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        func(c)
    except AnalysisError as e:
        if not c.viol:
            print("ANALYSIS-ERROR property=%s %s" % (prop, e))
            return 3
        c.note("analysis incomplete: %s" % e)
    known = load_known().get(prop, {})
    new = [v for v in c.viol if v[0] not in known]
    seen_known = sorted(set(v[0] for v in c.viol if v[0] in known))
    cov = {
        "explanation": explanation,
        "obligations": c.obligations,
        "discharged": c.discharged,
        "instances": c.counts,
        "samples": c.samples[:25],
        "unrecognised": c.unrecognised[:60],
        "unrecognised_count": len(c.unrecognised),
        "notes": c.notes[:60],
        "known_findings": seen_known,
    }
    if c._prog is not None:
        cov["translation_units"] = len(c._prog.units)
        cov["functions_in_program"] = len(c._prog.F)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["configuration as built here (Linux, Release, NDEBUG); code under other #if branches is not seen"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    print("%s: %d obligations, %d discharged, %d violations (%d known), %.1fs; %s" %
          (prop, c.obligations, c.discharged, len(new), len(seen_known), time.time() - t0,
           ", ".join("%s=%s" % kv for kv in sorted(c.counts.items()))))
    if new:
        rep = os.path.join(evdir, prop + ".violations.txt")
        with open(rep, "w") as f:
            for k, loc, msg in new:
                f.write("%s: [%s] %s\n" % (loc, k, msg))
        for k, loc, msg in new[:40]:
            print("%s: [%s] %s" % (loc, k, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0
