#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current source."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":          # reproducible exploration order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from dwsa import registry  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return registry.run(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
