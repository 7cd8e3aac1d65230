"""python -B run.py CHECK [--tier quick|thorough] [--only SCENARIO] [--replay FILE] [--jobs N]"""
from builtins import print  # noqa: A004 (scenarios may record prints)
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('PYTHONHASHSEED', '0')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    import symx  # noqa: F401  (sets sys.path for z3)
    import logging

    # native libraries used by the replays are imported once, before forking
    import numpy, h5py, scipy.spatial, scipy.special  # noqa: F401, E401
    from symx import driver, loader, world

    if loader.REPO not in sys.path:
        sys.path.insert(0, loader.REPO)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        body = json.load(open(a.replay))
        mod = importlib.import_module(f"checks.{body['property'].lower()}")
        for name, fn, cfgs, opts in mod.scenarios('thorough'):
            if name == body['scenario']:
                fails, exc, obs = world.run_concrete(fn, body['cfg'], body['values'])
                print(json.dumps(dict(failed=fails, exception=exc), indent=1))
                return 1 if fails or exc else 0
        print('scenario not found')
        return 2
    mod = importlib.import_module(f"checks.{a.check.lower()}")
    return driver.run_property(a.check.upper(), mod.scenarios(a.tier), a.tier, seed, mod.META, jobs=a.jobs, only=a.only)


if __name__ == '__main__':
    import shutil
    import tempfile

    tempfile.tempdir = scratch = tempfile.mkdtemp(prefix='symx_')
    try:
        rc = main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
