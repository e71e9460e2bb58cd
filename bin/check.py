#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import plans


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(prop, tier, seed)
    try:
        try:
            plans.PLANS[prop](run)
        except CheckError as e:
            if not run.viols:
                raise
            run.log('check stopped early:', str(e)[:500])
        return run.finish(assumptions=plans.ASSUME.get(prop, plans.ASSUME['*']), extra=getattr(run, 'extra', None))
    except CheckError as e:
        print('ERROR', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        run.close()


sys.exit(main())
