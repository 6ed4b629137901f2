#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property of /repo from its source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.program import Program, AnalysisBroken  # noqa: E402
from sa import rules  # noqa: E402


def main(argv):
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    if prop not in rules.RULES:
        print("no check for %s" % prop)
        return 3
    try:
        return rules.run(prop, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
