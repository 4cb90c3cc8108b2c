#!/usr/bin/env python3
"""check.py <property> [tier]: decide one property; see DESIGN.md."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, plan

if __name__ == '__main__':
    pid = sys.argv[1]
    c = core.Check(pid, sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        plan.PLAN[pid](c)
        sys.exit(c.finish())
    except core.MachineryError as e:
        print(f'ERROR {pid}: {e}', file=sys.stderr)
        sys.exit(2)
