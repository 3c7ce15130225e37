#!/usr/bin/env python3
"""Run one static check: python3 run.py C05   (exit 0 held, 1 violated, 2 no answer)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    from sa.check import run

    rc = 0
    for pid in sys.argv[1:]:
        m = importlib.import_module(f"checks.{pid}")
        rc = max(rc, run(pid, m.TITLE, m.RULE, m.check, level=getattr(m, "LEVEL", "other"), minimums=getattr(m, "MINIMUMS", ())))
    return rc


if __name__ == "__main__":
    sys.exit(main())
