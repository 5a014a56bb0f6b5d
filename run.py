#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]   |   run.py --replay <file>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
import catalogue


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return runner.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    meta = catalogue.META.get(a[0]) or dict(module=a[0].lower())
    return runner.Check(a[0], meta["module"], tier, meta).run()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
