#!/usr/bin/env python3
"""check.py <property id> [...]: decides properties from /repo's source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    from sa.report import run_check
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv == ['--selftest']:
        return selftest()
    ids = argv
    if ids == ['all']:
        ids = sorted(f[:-3].upper() for f in os.listdir(
            os.path.join(HERE, 'rules')) if f.endswith('.py')
            and f[0] != '_')
    rc = [0]

    def work():
        for pid in ids:
            try:
                mod = importlib.import_module('rules.' + pid.lower())
                r = run_check(pid, mod, tier, seed)
            except Exception:
                import traceback
                traceback.print_exc()
                r = 2
            rc[0] = max(rc[0], r) if 2 in (r, rc[0]) else (rc[0] or r)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return rc[0]


def selftest():
    """Setup: every rule module and the package under analysis load."""
    from sa.project import Project
    from sa.report import REPO
    n = 0
    for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
        if f.endswith('.py') and f[0] != '_':
            importlib.import_module('rules.' + f[:-3])
            n += 1
    p = Project(REPO)
    print('%d rule modules, %d package modules' % (n, len(p.modules)))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
