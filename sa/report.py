"""Obligations, verdicts, evidence and exit codes shared by all rules."""
import json
import os
import sys
import time
import traceback
from . import terms as tm
from .frontend import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVEN, REFUTED, UNKNOWN = "proven", "refuted", "unknown"


class Report:
    def __init__(self, pid, rule=""):
        self.pid = pid
        self.rule = rule
        self.obs = []
        self.units = set()
        self.t0 = time.time()
        self.assumptions = []
        self.stats = {}

    def unit(self, *names):
        for n in names:
            self.units.add(getattr(n, "qual", None) or str(n))

    def add(self, key, where, verdict, detail=""):
        """one obligation: key names it independently of positions, where is file:line function"""
        self.obs.append({"obligation": key, "where": where, "verdict": verdict, "detail": str(detail)[:1500]})

    def proven(self, key, where="", detail=""):
        self.add(key, where, PROVEN, detail)

    def refute(self, key, where="", detail=""):
        self.add(key, where, REFUTED, detail)

    def unknown(self, key, where="", detail=""):
        self.add(key, where, UNKNOWN, detail)

    def check(self, key, where, ok, detail=""):
        """ok: True, False or None"""
        self.add(key, where, PROVEN if ok is True else REFUTED if ok is False else UNKNOWN, detail)

    def guard(self, key, where=""):
        return _Guard(self, key, where)

    def count(self, v):
        return sum(1 for o in self.obs if o["verdict"] == v)


class _Guard:
    """an obligation the analysis cannot finish is unknown, never a violation"""

    def __init__(self, rep, key, where):
        self.rep, self.key, self.where = rep, key, where

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, AnalysisBroken, TimeUp)):
            return False
        last = traceback.extract_tb(tb)[-1]
        self.rep.unknown(self.key, self.where, "analysis gave up: %s: %s (%s:%d)" % (et.__name__, ev, os.path.basename(last.filename), last.lineno))
        return True


class TimeUp(Exception):
    pass


def known_findings():
    out = set()
    f = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.isfile(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property="):
                pid, key = l[len("known: property="):].split(" ", 1)
                out.add((pid, key.split(" :: ")[0].strip()))
    return out


def finish(rep, tier, seed, technique, explanation, floor=0):
    """write evidence, print the verdict, return the exit code"""
    known = known_findings()
    bad, listed = [], []
    seen = set()
    for o in rep.obs:
        if o["verdict"] == REFUTED:
            if (rep.pid, o["obligation"]) in known:
                if o["obligation"] not in seen:
                    listed.append(o)
            else:
                bad.append(o)
            seen.add(o["obligation"])
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "rule": rep.rule,
            "technique": technique,
            "units_analysed": sorted(rep.units),
            "unit_count": len(rep.units),
            "obligations": len(rep.obs),
            "discharged": rep.count(PROVEN),
            "undecided": rep.count(UNKNOWN),
            "undecided_list": [o for o in rep.obs if o["verdict"] == UNKNOWN][:60],
            "samples": [o for o in rep.obs if o["verdict"] == PROVEN][:12],
            **rep.stats,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(bad),
    }
    d = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, rep.pid + ".json"), "w"), indent=1, default=str)
    for o in listed:
        print("KNOWN-FINDING: property=%s %s %s" % (rep.pid, o["obligation"], o["where"]))
    if bad:
        r = os.path.join(d, "violation-%s.json" % rep.pid)
        json.dump(bad, open(r, "w"), indent=1, default=str)
        for o in bad[:8]:
            print("  %s | %s | %s" % (o["obligation"], o["where"], o["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, os.path.relpath(r, ROOT)))
        return 1
    print("%s: %d obligations, %d proven, %d undecided, %d units, %.1fs" % (
        rep.pid, len(rep.obs), rep.count(PROVEN), rep.count(UNKNOWN), len(rep.units), time.time() - rep.t0))
    if rep.count(PROVEN) == 0 and rep.count(UNKNOWN) == 0:
        print("analysis broken: nothing was analysed")
        return 2
    return 0
