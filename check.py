#!/usr/bin/env python3
"""check.py <property> [--task N]: decide one property by bounded exhaustive exploration of /repo's code."""
import importlib, sys
from mc import common
from mc.registry import CHECKS


def main(argv):
    prop = argv[0]
    spec = CHECKS[prop]
    mod = importlib.import_module(spec["module"])
    only = None
    if len(argv) > 2 and argv[1] == "--task":
        only = int(argv[2])
    common.bootstrap()
    tasks = getattr(mod, spec["tasks"])(common.TIER)
    return common.run_check(prop, spec["module"], tasks, spec["level"], spec["rule"], spec["assumptions"], only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
