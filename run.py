#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]"""
import argparse
import importlib
import os
import sys
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
sys.dont_write_bytecode = True
import mbv


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--replay')
    a.add_argument('--keep', action='store_true')
    o = a.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = importlib.import_module(o.property.lower()).CHECK
    try:
        return mbv.run_check(chk, o.tier, seed, replay=o.replay, keep=o.keep)
    except mbv.MachineryError as e:
        print('ERROR of the check itself: %s' % e, flush=True)
        return 2


if __name__ == '__main__':
    sys.exit(main())
