#!/usr/bin/env python3
"""check.py <property> [--repo DIR] : decides one property of /repo's current source. See DESIGN.md."""
import os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa import report


def main():
    t0 = time.time()
    prop = sys.argv[1]
    repo = '/repo'
    if '--repo' in sys.argv:
        repo = os.path.abspath(sys.argv[sys.argv.index('--repo') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        from sa import checks
        res = checks.CHECKS[prop](repo, work, tier)
        rc = report.finish(prop, res, t0, tier)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check could not be carried out' % prop)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
