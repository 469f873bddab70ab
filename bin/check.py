#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import argparse, json, shutil, subprocess, traceback
from vj.common import *
from vj import run

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true', help='keep the scratch directory')
    a = ap.parse_args()
    work = scratch()
    try:
        rc = run.check(a.prop, a.tier, a.seed, work)
    except Broken as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print('ERROR: timeout: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if a.keep:
            log('scratch', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
