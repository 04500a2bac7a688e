#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--replay FILE]     (see DESIGN.md)"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
for v in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[v] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True


def main():
    import argparse
    import importlib
    import shutil
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    here = os.path.dirname(os.path.abspath(__file__))
    out = os.environ.get('VERIF_OUT', os.path.join(here, 'evidence'))
    sys.path[:0] = [REPO, here]
    if a.id == 'C29':                   # many threads: MKL's per-thread buffer list must stay out of the way
        os.environ['MKL_DISABLE_FAST_MM'] = '1'
    scratch = tempfile.mkdtemp(prefix='mc-')
    parent = os.getpid()
    os.environ['MPLCONFIGDIR'] = scratch
    try:
        import warnings
        warnings.filterwarnings('ignore')
        import torch
        torch.set_num_threads(1)
        import deepquantum
        src = os.path.realpath(deepquantum.__file__)
        if not src.startswith(os.path.realpath(REPO) + os.sep):
            print('harness error: deepquantum imported from', src)
            return 2
        from mc import core
        mod = importlib.import_module('mc.checks.' + a.id.lower())
        if a.replay:
            return core.replay(a.id, mod, a.replay)
        return core.run(a.id, mod, tier, int(os.environ.get('VERIF_SEED', '1')), out)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
