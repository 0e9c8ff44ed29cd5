#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree (VERIF_SEED, VERIF_TIER)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import build
import props

def main():
    pid = sys.argv[1]
    if pid not in props.CHECKS:
        print('unknown property', pid)
        return 2
    try:
        return props.CHECKS[pid]()
    except build.BuildError as e:
        print('ERROR: build failed\n' + str(e)[-3000:])
        return 2

sys.exit(main())
