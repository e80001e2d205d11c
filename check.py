#!/usr/bin/env python3
"""Decide one property of scikit-spatial by deterministic simulation.

    check.py C01 [--tier quick|thorough] [--seed N]
    check.py --replay FILE
    check.py --determinism C01 [--count N]     run scenarios twice, in different processes, and compare event logs

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken. Exit 2: the check failed.
"""

import argparse
import importlib
import json
import os
import shutil
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--determinism', action='store_true')
    parser.add_argument('--count', type=int, default=200)
    args = parser.parse_args()

    from sim import boot

    boot.reexec([os.path.abspath(__file__), *sys.argv[1:]])
    try:
        name = args.property
        if args.replay:
            name = json.load(open(args.replay))['property']
        module = importlib.import_module(f'props.{name.lower()}')
        prop = module.Prop()
        from sim import driver

        if args.replay:
            return driver.replay(prop, args.replay)
        if args.determinism:
            from sim import selftest

            return selftest.determinism(prop, args.seed, args.count)
        return driver.check(prop, args.seed, args.tier)
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        folder = os.environ.get('VERIF_MPLCONFIGDIR')
        if folder and os.path.basename(folder).startswith('verif_mpl_'):
            shutil.rmtree(folder, ignore_errors=True)


if __name__ == '__main__':
    status = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)
