#!/usr/bin/env python3
"""Run one property's check:  run.py C01 [--tier quick|thorough] [--replay F].

Exit 0: held.  Exit 1: prints VIOLATION property=<id> replay=<path>.
Any other exit: the check itself failed.
"""
import argparse
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'


def bootstrap():
    """Re-execute in a clean interpreter whose caches live in a scratch dir."""
    scratch = tempfile.mkdtemp(prefix='sdverif-')
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'NUMBA', 'MPL', 'HYPOTHESIS'))}
    env.update(MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8',
               NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               SDVERIF_SCRATCH=scratch)
    for d in ('numba', 'pyc', 'mpl', 'cwd'):
        os.makedirs(os.path.join(scratch, d))
    pid = os.fork()
    if pid == 0:
        os.chdir(os.path.join(scratch, 'cwd'))
        os.execve(VENV, [VENV, '-u', os.path.abspath(__file__)] + sys.argv[1:],
                  env)
    try:
        _, status = os.waitpid(pid, 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(os.WEXITSTATUS(status) if os.WIFEXITED(status) else 3)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--sub', help='only this sub-check (development)')
    ap.add_argument('--scale', type=float, default=1.0,
                    help='multiply case counts (development)')
    a = ap.parse_args()
    os.environ['VERIF_TIER'] = a.tier
    if 'SDVERIF_SCRATCH' not in os.environ:
        if a.replay:
            sys.argv[sys.argv.index(a.replay)] = os.path.abspath(a.replay)
        bootstrap()
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.argv = sys.argv[:1]
    import common
    sys.exit(common.main(a))


if __name__ == '__main__':
    main()
