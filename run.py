#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough      decide one property on /repo as it is now
   run.py replay FILE                  run the recorded failing case again"""
import os
import struct
import sys
import traceback
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mon'))

import core  # noqa: E402
import props  # noqa: E402


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    if sys.argv[1] == 'replay':
        return props.replay(sys.argv[2])
    pid, tier = sys.argv[1:3]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    run = core.Run(pid, tier, seed)
    try:
        props.REGISTRY[pid](run)
    except core.Broken as e:
        run.violation(str(e)[:1500], {'kind': 'broken'})
    except (ValueError, LookupError, TypeError, ArithmeticError, AssertionError,
            struct.error, zlib.error, RecursionError):
        # the code under test left something the monitor could make nothing of
        run.violation('what was recorded cannot be interpreted: %s'
                      % traceback.format_exc()[-1500:], {'kind': 'broken'})
    except core.Inconclusive as e:
        if not run.violations:
            print('INCONCLUSIVE property=%s %s' % (pid, e))
            return 3
    return run.finish()


sys.exit(main())
