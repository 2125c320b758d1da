#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import report  # noqa: E402
from sa.registry import CHECKS  # noqa: E402


def run(pid):
    c = CHECKS[pid]
    rep = report.Report(pid, c["rule"], c["trusted"], c["level"])
    rep.min_obs = c.get("min_obs", 1)
    rep.assumptions = list(c.get("assumptions", ()))
    for mod, fn in c["parts"]:
        part = getattr(importlib.import_module("sa.checks." + mod), fn)
        rep.guard("part %s" % fn, lambda: part(rep), internal=True)
    return rep.finish()


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(0)  # nothing to prepare: every check builds what it needs from /repo's working tree
    report.main(lambda: run(sys.argv[1]), sys.argv[1])
