#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import build            # noqa


def run():
    build.ensure_env(preload='C10' in sys.argv[1:2])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    rc, text = build.build_repo()
    if rc:
        print('an extension of /repo does not build:\n' + text)
    build.build_seam()
    if a.setup:
        build.build_iofault()
        return 0
    from sim import core
    try:
        mod = importlib.import_module('sim.props.' + a.prop.lower())
        return core.main(mod, a.tier, a.seed, a.replay)
    except Exception:                                               # noqa
        traceback.print_exc()
        print('the check itself failed; this is no statement about the property')
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = run()
    sys.stdout.flush()
    os._exit(rc)
