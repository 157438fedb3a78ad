"""Access to the code under test from inside a worker process."""
import inspect
import os
import sys

import numpy as np

from common import REPO

PKG = os.path.join(REPO, 'stokesian_dynamics')
UNSET = ['pippa', 'pippa', 'pippa']
Z3 = np.zeros((3, 3))
_current = None
_loaded = {}


def load(**overrides):
    """Import the package with settings overridden before anything reads them."""
    if _loaded:
        return
    sys.argv = ['run_simulation.py']
    sys.path.insert(0, PKG)
    import settings
    for k, v in overrides.items():
        if k != 'jit':
            setattr(settings, k, v)
    if 'jit' in overrides:
        import numba
        numba.config.DISABLE_JIT = not overrides['jit']
    import setups.inputs as si

    def dispatch(*a, **k):
        return _current(*a, **k)
    _loaded['orig_input'] = si.input_ftsuoe
    si.input_ftsuoe = dispatch
    _loaded.update(si=si, settings=settings)
    for k in ('generate_output_FTSUOE', 'generate_grand_resistance_matrix',
              'generate_grand_resistance_matrix_periodic'):
        _loaded[k] = find(k)


def init(**overrides):
    return lambda: load(**overrides)


def mod(name):
    return __import__('importlib').import_module(name)


def find(name, *modules):
    """A function of the package wherever it lives; None if there is none."""
    first = ['simulation_tools', 'shared', 'timestepping',
             'generate_grand_resistance_matrix']
    rest = sorted(f[:-3] for f in os.listdir(os.path.join(PKG, 'functions'))
                  if f.endswith('.py') and f[:-3] not in first)
    for m in modules or first + rest:
        try:
            f = getattr(mod(m if '.' in m else 'functions.' + m), name, None)
        except ModuleNotFoundError:
            continue
        if f is not None:
            return f
    return None


# ----------------------------------------------------------------- posdata
class System:
    """Spheres and dumbbells; the neutral description the checks work with."""

    def __init__(self, sx=(), sa=(), dx=(), dd=(), da=()):
        self.sx = np.array(sx, float).reshape(-1, 3)
        self.sa = np.array(sa, float).reshape(-1)
        self.dx = np.array(dx, float).reshape(-1, 3)
        self.dd = np.array(dd, float).reshape(-1, 3)
        self.da = np.array(da, float).reshape(-1)

    @property
    def ns(self):
        return len(self.sa)

    @property
    def nd(self):
        return len(self.da)

    @property
    def ndof(self):
        return 11 * self.ns + 6 * self.nd

    def beads(self):
        pos = np.concatenate([self.sx, self.dx - self.dd / 2,
                              self.dx + self.dd / 2])
        size = np.concatenate([self.sa, self.da, self.da])
        return pos, size

    def posdata(self):
        rot = np.empty((self.ns, 2, 3))
        for i in range(self.ns):
            rot[i, 0] = self.sx[i] + [self.sa[i], 0, 0]
            rot[i, 1] = self.sx[i] + [0, 0, self.sa[i]]
        return (self.sa.copy(), self.sx.copy(), rot, self.da.copy(),
                self.dx.copy(), self.dd.copy())

    def mapped(self, f, g=None, s=1.0):
        """Positions through f, separation vectors through g, sizes times s."""
        g = g or f
        return System([f(x) for x in self.sx], self.sa * s,
                      [f(x) for x in self.dx], [g(x) for x in self.dd],
                      self.da * s)


def from_case(c):
    return System(c.get('sx', []), c.get('sa', []), c.get('dx', []),
                  c.get('dd', []), c.get('da', []))


# ----------------------------------------------------------------- solving
def lst(a):
    return np.asarray(a, float).tolist()


def unset(n):
    return [list(UNSET) for _ in range(n)]


class Inputs:
    """What a user's input function returns, with fte-form defaults of zero."""

    def __init__(self, sysm, **kw):
        n, m = sysm.ns, sysm.nd
        self.Fa, self.Ta = lst(np.zeros((n, 3))), lst(np.zeros((n, 3)))
        self.Sa = self.Ea = lst(np.zeros((n, 3, 3)))
        self.Fb, self.DFb = lst(np.zeros((m, 3))), lst(np.zeros((m, 3)))
        self.Ua, self.Oa = unset(n), unset(n)
        self.Ub, self.HalfDUb = unset(m), unset(m)
        self.U, self.O, self.centre = np.zeros(3), np.zeros(3), np.zeros(3)
        self.Ot, self.Et = np.zeros(3), np.zeros((3, 3))
        self.bl, self.tr, self.mu = np.zeros(3), np.zeros(3), 1
        for k, v in kw.items():
            if k in ('U', 'O', 'centre', 'Ot', 'Et', 'bl', 'tr'):
                v = np.array(v, float)
            elif k != 'mu' and not isinstance(v, list):
                v = lst(v)
            setattr(self, k, v)

    def tuple(self, skip=False):
        """With skip (no computation asked for) the loads are left out."""
        cp = lambda v: [list(x) if isinstance(x, list) else x for x in v]
        if skip:
            blank = lambda v: [x if x and isinstance(x[0], str) else
                               np.zeros_like(x).tolist() for x in v]
            q = Inputs.__new__(Inputs)
            q.__dict__.update(self.__dict__)
            for k in ('Fa', 'Ta', 'Sa', 'Fb', 'DFb'):
                setattr(q, k, blank(getattr(self, k)))
            return q.tuple()
        n = len(self.Fa)
        c5 = [[0.] * 5 for _ in range(n)]
        return (cp(self.Fa), cp(self.Ta), cp(self.Sa), c5, cp(self.Fb),
                cp(self.DFb), cp(self.Ua), cp(self.Oa), cp(self.Ea), c5,
                cp(self.Ub), cp(self.HalfDUb), '', self.U.copy(),
                self.O.copy(), self.centre.copy(), self.Ot.copy(),
                self.Et.copy(), self.bl.copy(), self.tr.copy(), self.mu)


NAMES = ('Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'HalfDUb',
         'Minv', 'times', 'U', 'O', 'centre', 'Ot', 'Et', 'wall', 'lastvec')


def solve(sysm, inp, form='fte', cutoff=2, printout=0, drag=False,
          minf_only=False, extract=False, regenerate=True, last_minv=0,
          frameno=0, dt=0.1, posdata=None, raw=False):
    """One instantaneous solve through the package's solve function."""
    global _current
    seen = []

    def custom(n, posdata, frameno, timestep, last_velocities,
               input_form='undefined', skip_computation=False,
               grand_resistance_matrix_fte=0, **k):
        seen.append((frameno, timestep, input_form, skip_computation))
        return inp.tuple(skip_computation) if hasattr(inp, 'tuple') else inp(
            posdata, frameno, timestep)
    _current = custom
    pd = sysm.posdata() if posdata is None else posdata
    out = _loaded['generate_output_FTSUOE'](
        pd, frameno, dt, 1, last_minv, regenerate, form, cutoff, printout,
        drag, minf_only, extract, 0, 0)
    out = dict(zip(NAMES, out))
    if raw:
        return out
    n, m = sysm.ns, sysm.nd
    shp = dict(Fa=(n, 3), Ta=(n, 3), Sa=(n, 3, 3), Fb=(m, 3), DFb=(m, 3),
               Ua=(n, 3), Oa=(n, 3), Ea=(n, 3, 3), Ub=(m, 3), HalfDUb=(m, 3))
    for k, s in shp.items():
        a = np.asarray(out[k], float)
        if k == 'Ea' and n == 0:
            a = np.zeros((0, 3, 3))
        if a.size == 0 and np.prod(s) == 0:
            a = np.zeros(s)
        if a.shape != s:
            from common import Violation
            raise Violation('output %s has shape %s, expected %s'
                            % (k, a.shape, s))
        out[k] = a
    return out


def call(f, args, kw, order):
    """f(*args, **kw); by position in the given order if f names its
    arguments differently."""
    pars = inspect.signature(f).parameters
    if all(k in pars for k in kw):
        return f(*args, **kw)
    full = dict(frameno=0, O_infinity=np.zeros(3), E_infinity=Z3.copy(),
                timestep=0.1, centre_of_background_flow=np.zeros(3))
    full.update(kw)
    return f(*args, *[full[k] for k in order])


def resistance(sysm, mu=1, cutoff=2, minf_only=False, drag=False, box=None,
               Ot=None, Et=None, regenerate=True, last=0, printout=0,
               posdata=None):
    """(grand resistance, inverse of M-infinity)."""
    pd = sysm.posdata() if posdata is None else posdata
    name = 'generate_grand_resistance_matrix' + ('' if box is None
                                                 else '_periodic')
    if _loaded[name] is None:
        return by_solves(sysm, pd, mu, box, Ot, Et, regenerate, last,
                         cutoff=cutoff, minf_only=minf_only, drag=drag)
    kw = dict(regenerate_Minfinity=regenerate, cutoff_factor=cutoff,
              printout=printout, use_drag_Minfinity=drag,
              use_Minfinity_only=minf_only, mu=mu)
    if box is None:
        out = call(_loaded[name], (pd, last), kw,
                   ('regenerate_Minfinity', 'cutoff_factor', 'printout',
                    'use_drag_Minfinity', 'use_Minfinity_only', 'frameno',
                    'mu'))
    else:
        kw.update(Ot_infinity=np.zeros(3) if Ot is None else np.array(Ot, float),
                  Et_infinity=Z3.copy() if Et is None else np.array(Et, float))
        out = call(_loaded[name], (pd, last, np.array(box[0], float),
                    np.array(box[1], float)), kw,
                   ('regenerate_Minfinity', 'cutoff_factor', 'printout',
                    'use_drag_Minfinity', 'use_Minfinity_only', 'frameno',
                    'mu', 'O_infinity', 'E_infinity', 'timestep',
                    'centre_of_background_flow', 'Ot_infinity', 'Et_infinity'))
    R, Minv = np.asarray(out[0], float), np.asarray(out[2], float)
    n = sysm.ndof
    if R.shape != (n, n):
        from common import Violation
        raise Violation('grand resistance matrix is %s, expected %d square'
                        % (R.shape, n))
    return R, Minv


def by_solves(sysm, pd, mu, box, Ot, Et, regenerate, last, **kw):
    """The same from the answers to unit loads, if the function is gone."""
    from refs.stokes import pack, unpack
    n, N = sysm.ns, sysm.ndof
    base = None
    if not regenerate:                 # what is handed over may be singular
        a = np.concatenate([np.repeat(sysm.sa, 3), np.repeat(sysm.sa ** 3, 3),
                            np.repeat(sysm.sa ** 3, 5),
                            np.repeat(sysm.da, 3), np.repeat(sysm.da, 3)])
        base = 6 * np.pi * mu * np.diag(a)
    flow = {} if box is None else dict(bl=box[0], tr=box[1],
                                       Ot=np.zeros(3) if Ot is None else Ot,
                                       Et=Z3 if Et is None else Et)
    M, Minv = np.zeros((N, N)), None
    for j in range(N):
        f = np.zeros(N)
        f[j] = 1
        S = [unpack(q) for q in f[6 * n:11 * n].reshape(-1, 5)]
        A = lambda x: x.reshape(-1, 3)
        b = A(f[11 * n:])
        inp = Inputs(sysm, Fa=A(f[:3 * n]), Ta=A(f[3 * n:6 * n]), Sa=S,
                     Fb=b[:sysm.nd], DFb=b[sysm.nd:], mu=mu, **flow)
        o = solve(sysm, inp, form='fts', posdata=pd, regenerate=j == 0 and
                  regenerate, last_minv=base if j == 0 or not regenerate
                  else Minv, **kw)
        if j == 0:
            Minv = np.asarray(o['Minv'], float)
        M[:, j] = np.concatenate(
            [o['Ua'].ravel(), o['Oa'].ravel()] + [pack(e) for e in o['Ea']]
            + [o['Ub'].ravel(), o['HalfDUb'].ravel()])
    R = np.linalg.inv(M)
    return (R, Minv) if base is None else (R - base + last, last)


def lub_part(sysm, **kw):
    R, Minv = resistance(sysm, **kw)
    return R - Minv


def rel(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.size == 0:
        return 0.0
    s = np.max(np.abs(b)) if scale is None else scale
    d = np.max(np.abs(a - b))
    if not np.isfinite(d):
        return np.inf
    return d / s if s > 0 else d
