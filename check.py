#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: see DESIGN.md"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)

import compiler  # noqa: E402
import registry  # noqa: E402
from report import Report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    level, fn = registry.CHECKS[pid]
    r = Report(pid, tier, seed, level)
    try:
        return fn(r)
    except compiler.Hang as e:
        r.violation(str(e)[:2000], 'the compiler does not finish with this declaration')
        r.coverage = {'programs': 1, 'explanation': 'stopped at a declaration that the compiler does not finish with'}
        return r.finish(1, 1)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
