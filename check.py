#!/usr/bin/env python3
"""check.py <property id>: decide one property for /repo's current tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analysis'))
import importlib, traceback
import common


def main():
    pid = sys.argv[1]
    for m in ('checks_a', 'checks_b', 'checks_c', 'checks_d', 'checks_e', 'checks_f', 'checks_g', 'checks_h', 'checks_i', 'checks_j', 'checks_k', 'checks_l', 'checks_m'):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        if pid in mod.CHECKS:
            try:
                return mod.CHECKS[pid]()
            except common.BuildError as e:
                print('BUILD-ERROR property=%s\n%s' % (pid, e))
                return 2
            except Exception:
                traceback.print_exc()
                print('NO-ANSWER property=%s: internal error' % pid)
                return 2
    print('no check for', pid)
    return 2


sys.exit(main())
