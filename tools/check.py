#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import pa
from checks import CHECKS

def main():
    pid = sys.argv[1]
    c = pa.Check(pid)
    try:
        CHECKS[pid](c)
        if not c.violations and c.traces == 0:
            raise pa.ToolError('vacuous run')
        sys.exit(c.finish())
    except pa.ToolError as e:
        # A violation already established by another part of the check stands on its own.
        if c.violations:
            sys.exit(c.finish())
        print('TOOL ERROR', e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
main()
