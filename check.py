#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current source."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine.load import AnalysisBroken, load  # noqa: E402
from engine.interp import Limit  # noqa: E402
from engine.report import Report, Undecided  # noqa: E402
import rules  # noqa: E402


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rule = rules.find(prop)
        if rule is None:
            raise AnalysisBroken("no such property")
        prog = load()
        rep = Report(prop, prog)
        try:
            rule(prog, rep, thorough)
            rep.require(rep.obligations, "no obligation was found to decide")
        except (Undecided, Limit) as e:
            # The code is no longer of a form in which the property can be established: not shown to hold.
            rep.bad("the property can be established", prop, "/repo", str(e))
        return rep.finish("thorough" if thorough else "quick", seed)
    except AnalysisBroken as e:
        print(f"{prop}: the analysis cannot decide: {e}")
        return 2
    except Limit as e:
        print(f"{prop}: the analysis exceeded its bound: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
