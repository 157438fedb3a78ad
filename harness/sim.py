"""Whole runs of run_simulation.py, each in a forked child process.

The child changes to a fresh working directory, gives the script generated
particles and inputs through the hooks the package offers its own tests
(negative setup numbers) or its users (setups.inputs), and runs it as __main__.
"""
import io
import os
import pickle
import runpy
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

import world as w
from common import Hang, fail, in_repo

PKG = w.PKG
OUR = ('settings', 'functions', 'setups', 'resistance_scalars',
       'run_simulation')


class Result:
    """code: exit status (0 normal), or -signal; exc: exception from the code."""
    code = msg = exc = exc_repo = None
    out = ''
    calls = ()
    files = ()

    def main(self):
        """The single finished output file's arrays."""
        names = [n for n in self.files if n.endswith('.npz')
                 and n not in self.before]
        if len(names) != 1:
            fail('run left %d new output files: %s' % (len(names), names[:4]))
        self.name = names[0]
        return self.load(names[0])

    def load(self, name):
        with np.load(os.path.join(self.dir, 'output', name)) as f:
            return {k: f[k] for k in f.files}

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def purge():
    for m in list(sys.modules):
        if m.split('.')[0] in OUR:
            f = getattr(sys.modules[m], '__file__', None) or PKG
            if f.startswith(PKG) or m.split('.')[0] == 'settings':
                del sys.modules[m]


def marks(sysm):
    return sysm.posdata()[2]


def child(spec, wd, res_path):
    calls = []
    info = dict(code=0, msg=None, exc=None, exc_repo=False)
    out = os.open(os.path.join(wd, 'stdout'), os.O_WRONLY | os.O_CREAT)
    os.dup2(out, 1)
    os.dup2(out, 2)
    sys.stdout = os.fdopen(1, 'w', buffering=1, errors='replace', closefd=False)
    sys.stderr = sys.stdout

    def finish():
        info['calls'] = calls
        with open(res_path, 'wb') as f:
            pickle.dump(info, f)
        sys.stdout.flush()

    try:
        os.chdir(wd)
        purge()
        sys.argv = ['run_simulation.py'] + [str(x) for x in spec['argv']]
        if PKG in sys.path:
            sys.path.remove(PKG)
        sys.path.insert(0, PKG)
        sys.stdin = io.StringIO(spec.get('stdin', ''))
        np.random.seed(spec.get('npseed', 0))
        import numba
        if spec.get('jit'):
            numba.config.DISABLE_JIT = False     # as in a fresh interpreter
        import settings
        sets = dict(view_graphics=False)
        sets.update(spec.get('settings', {}))
        for k, v in sets.items():
            setattr(settings, k, v)
        if spec.get('jit'):
            numba.config.DISABLE_JIT = False
        if spec.get('system') is not None:
            import setups.tests.positions as tp

            def positions(n, *a, **k):
                pd = list(spec['system'].posdata())
                if spec.get('marks') is not None:
                    pd[2] = np.array(spec['marks'], float)
                return tuple(pd), spec.get('desc', 'test')
            tp.pos_setup_tests = positions
        if spec.get('inputs') is not None:
            import setups.inputs as si

            def custom(n, posdata, frameno, timestep, last_velocities,
                       input_form='undefined', skip_computation=False,
                       grand_resistance_matrix_fte=0, **k):
                calls.append((frameno, timestep, input_form,
                              bool(skip_computation)))
                if (spec.get('crash') is not None and not skip_computation
                        and frameno >= spec['crash']):
                    info['code'] = 'crash'
                    finish()
                    os.kill(os.getpid(), signal.SIGKILL)
                f = spec['inputs']
                i = f if hasattr(f, 'tuple') else f(posdata, frameno, timestep)
                return i.tuple(bool(skip_computation))
            si.input_ftsuoe = custom
        if spec.get('later'):
            real = time.strftime
            time.strftime = lambda f, t=None: real(f, time.localtime(
                time.time() + 60 * spec['later']) if t is None else t)
        if spec.get('prepare'):
            spec['prepare']()
        runpy.run_path(os.path.join(PKG, spec.get('script',
                                                  'run_simulation.py')),
                       run_name='__main__')
        if spec.get('after'):
            info['after'] = spec['after']()
    except SystemExit as e:
        info['code'] = (0 if e.code is None else
                        e.code if isinstance(e.code, int) else 1)
        info['msg'] = str(e.code)
    except BaseException as e:
        info['code'] = 1
        info['exc'] = ''.join(traceback.format_exception_only(type(e), e))[:500]
        info['trace'] = traceback.format_exc()
        info['exc_repo'] = in_repo(e.__traceback__)
    finish()


def run(limit=300, wd=None, files=None, killed_ok=False, **spec):
    """Run the script once; wd reuses a directory (for resumed runs)."""
    if wd is None:
        wd = tempfile.mkdtemp(prefix='sim-', dir=os.getcwd())
        os.makedirs(os.path.join(wd, 'output'))
    for name, data in (files or {}).items():
        with open(os.path.join(wd, 'output', name), 'wb') as f:
            f.write(data)
    before = set(os.listdir(os.path.join(wd, 'output')))
    fd, res_path = tempfile.mkstemp(prefix='res-', dir=os.getcwd())
    os.close(fd)
    os.remove(res_path)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            child(spec, wd, res_path)
        finally:
            os._exit(0)
    t0 = time.time()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            shutil.rmtree(wd, ignore_errors=True)
            raise Hang('run did not finish within %d s' % limit)
        time.sleep(0.002)
    if os.path.exists(res_path):
        with open(res_path, 'rb') as f:
            info = pickle.load(f)
        os.remove(res_path)
    elif killed_ok and os.WIFSIGNALED(status):
        info = dict(code='crash', msg=None, exc=None, exc_repo=False, calls=[])
    else:
        raise RuntimeError('run child died, status %d' % status)
    r = Result()
    r.__dict__.update(info)
    r.dir, r.before = wd, before
    p = os.path.join(wd, 'stdout')
    r.out = open(p, errors='replace').read() if os.path.exists(p) else ''
    r.files = sorted(os.listdir(os.path.join(wd, 'output')))
    if r.exc and not r.exc_repo:
        raise RuntimeError('harness error in run: ' + info['trace'])
    return r


def ok(limit=300, **spec):
    """Run that must finish normally; returns (result, arrays) and cleans up."""
    r = run(limit, **spec)
    try:
        if r.exc:
            fail('run stopped with %s' % r.exc.strip())
        if r.code != 0:
            fail('run stopped with: %s' % r.msg)
        return r, r.main()
    finally:
        r.clean()


def args(dt, frames, form='fte', setup=-7, inp=-7, *more):
    return [setup, inp, repr(dt) if isinstance(dt, float) else dt, frames,
            form] + list(more)
