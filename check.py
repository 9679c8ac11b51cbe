"""python3-vt check.py --property ID [--repo DIR] [-v]: decide one property from the sources in /repo."""
import argparse
import importlib
import os
import signal
import sys
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import report  # noqa: E402
from sa.frontend import Project, AnalysisBroken  # noqa: E402
from sa.rules import RULES, shared  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--repo", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod, technique, explanation = RULES[a.property]
    rep = report.Report(a.property)

    def up(*_):
        raise report.TimeUp()

    signal.signal(signal.SIGALRM, up)
    signal.alarm(780 if tier == "quick" else 3000)
    try:
        p = Project(a.repo)
        m = importlib.import_module("sa.rules." + mod)
        getattr(m, "rule_" + a.property)(p, rep, tier, seed)
        shared(a.property, p, rep, tier, seed)
    except AnalysisBroken as e:
        print("analysis broken: %s" % e)
        return 2
    except report.TimeUp:
        rep.unknown("time", "", "the analysis ran out of time")
    except Exception:
        rep.unknown("analysis", "", traceback.format_exc()[-1500:])
        if a.v:
            traceback.print_exc()
    signal.alarm(0)
    if a.v:
        for o in rep.obs:
            print(o["verdict"], "|", o["obligation"], "|", o["where"], "|", o["detail"][:600])
    return report.finish(rep, tier, seed, technique, explanation)


if __name__ == "__main__":
    sys.exit(main())
