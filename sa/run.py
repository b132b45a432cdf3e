#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    m = importlib.import_module("checks." + pid.lower())
    c = fw.Check(pid, tier)
    c.explanation = m.META["explanation"]
    c.assumptions = fw.ASSUMPTIONS + m.META.get("assumptions", [])
    try:
        m.run(c)
    except Exception as e:  # an analysis that cannot be carried out is not a verdict
        traceback.print_exc()
        c.broken.append("%s: %s" % (type(e).__name__, e))
    c.finish()


if __name__ == "__main__":
    main()
