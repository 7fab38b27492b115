#!/usr/bin/env python3
"""usage: run.py C04   (VERIF_TIER=quick|thorough, VERIF_SEED=n, VERIF_REPO=/repo)"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core  # noqa: E402

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':     # VERIF_SEED decides what is drawn, nothing else does
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    rc = core.main(pid, mod.check)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
