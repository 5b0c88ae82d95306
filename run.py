#!/usr/bin/env python
"""Entry point.

  run.py check C01 [--tier quick|thorough] [--only SUBSTR]
  run.py replay FILE            re-run a recorded counterexample on the real code
  run.py worker                 (internal) concrete-execution worker, JSON lines on stdin
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def registry(prop):
    return importlib.import_module('props.' + prop).R


def main():
    cmd = sys.argv[1]
    if cmd == 'check':
        from vf import driver
        tier = os.environ.get('VERIF_TIER', 'quick')
        only = None
        a = sys.argv[3:]
        while a:
            if a[0] == '--tier':
                tier = a[1]
            elif a[0] == '--only':
                only = a[1]
            a = a[2:]
        try:
            reg = registry(sys.argv[2])
        except BaseException:
            import traceback
            traceback.print_exc()
            print('ERROR: the check could not be set up')
            sys.exit(2)
        sys.exit(driver.check(sys.argv[2], reg, tier, only))
    if cmd == 'replay':
        from vf import driver
        sys.exit(driver.replay(sys.argv[2], registry))
    if cmd == 'selftest':
        import z3
        import numpy, scipy, numba
        s = z3.Solver()
        x = z3.Real('x')
        s.add(x * x < 0)
        assert str(s.check()) == 'unsat'
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'ok')
        return
    if cmd == 'worker':
        from vf import driver
        driver.worker(registry)


if __name__ == '__main__':
    main()
