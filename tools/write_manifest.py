"""regenerate /verif/MANIFEST.json from the rule registry and properties.jsonl"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.rules import RULES  # noqa: E402

NA = {
    "N03": "solution quality under a budget is a numerical and statistical outcome of whole runs, not decidable from the source",
    "N04": "serialisation of callbacks is done by POAP's controllers, outside this repository; the strategies only rely on it",
}
NOTE = ("Facts are derived from the current source on every run, for all paths, with loops summarised and never unrolled. "
        "An obligation is refuted only by a construct whose normal form or guard is fully interpreted; undecided obligations are listed in the evidence and do not alarm. "
        "Trusted: the models of the numpy/scipy operations used, the reference definitions, exact (real) arithmetic instead of rounding.")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in RULES:
        mod, technique, expl = RULES[i]
        cmd = "python3-vt check.py --property %s" % i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": technique, "level": "other",
                       "level_note": expl + " " + NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check registered yet")})
M = {"version": 1,
     "setup_cmd": "python3-vt -c \"import numpy, scipy.special; print('ok')\"",
     "checks": checks, "not_applicable": na,
     "notes": "Pure-Python static analyser in sa/; nothing of /repo is imported or executed. No hooks in /repo are needed."}
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
