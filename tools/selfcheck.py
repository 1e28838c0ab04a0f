#!/usr/bin/env python3
"""Setup: confirm the parsers the checks need are here."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from dwsa import cfront  # noqa: E402

tu = cfront.parse("scalar.c", 1, 2, "float")
assert tu.funcs
print("ok: %d functions parsed" % len(tu.funcs))
