#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]   |   check.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vm'))
import driver


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return driver.replay(a[1])
    if a[:1] == ['--setup']:
        # nothing to build ahead: each check builds what it needs from the tree it is given
        rc, out, _ = driver.sh(['cargo', '--version'])
        print(out.decode().strip())
        return rc
    import checks
    try:
        import checks_compile
        checks.ALL.update(checks_compile.ALL)
    except ImportError:
        pass
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    c = driver.Check(a[0], tier, seed)
    try:
        return checks.ALL[a[0]](c)
    except driver.NoAnswer as e:
        print('INCONCLUSIVE', e)
        return 2


sys.exit(main())
