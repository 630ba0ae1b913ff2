#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] - decides one property of properties.jsonl."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
LEVEL = {}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('p_' + pid.lower())
    chk = vlib.Check(pid, tier, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(chk)
    except vlib.CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e), file=sys.stderr)
        if not chk.violation:
            return 3
    return chk.finish()


sys.exit(main())
