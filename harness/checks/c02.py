"""C02: far-field motion equals the Stokes multipole (Faxen) solution."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import Sub, fail
from refs import stokes

TECHNIQUE = ('differential testing of generated suspensions against an '
             'independent multipole (Faxen) mobility')
RULE = ('Random clusters of 0-5 spheres and 0-3 dumbbells with unrelated radii '
        'and viscosity are built without overlap (surface gap at least 0.1% of '
        'the mean radius). Non-trivial: at least two particles, or a full load '
        'on a single one.')
ASSUMPTIONS = ['far field is the 11-mode (force, torque, stresslet) level for '
               'spheres and force level for dumbbell beads']


@st.composite
def free_size_systems(draw, spheres=(0, 5), dumbbells=(0, 3)):
    c = draw(gen.systems(spheres=spheres, dumbbells=dumbbells,
                         sizes=(1.0, 0.3, 2.0, 0.05, 1.37, 5.0), gap_lo=1e-3,
                         gap_hi=4.0, scale=gen.logfl(0.1, 10), offset=5.0))
    c['mu'] = draw(gen.logfl(0.01, 100))
    return c


def reference(s, mu):
    pos, size = s.beads()
    M, _ = stokes.bead_mobility(stokes.FreeSpace(mu), pos, size, s.ns)
    return stokes.to_repo_order(M, s.ns, s.nd)


def scaled_diff(A, B):
    d = np.sqrt(np.abs(np.diag(B)))
    return np.max(np.abs((A - B) / np.outer(d, d)))


def matrix_oracle(c):
    s = w.from_case(c)
    R, _ = w.resistance(s, mu=c['mu'], minf_only=True)
    ref = reference(s, c['mu'])
    err = scaled_diff(np.linalg.inv(R), ref)
    if not err < 1e-8:
        fail('far-field mobility differs from the Faxen solution by %.3g '
             'of the self mobility' % err)


@st.composite
def loaded(draw):
    c = draw(free_size_systems((0, 3), (0, 2)))
    n, m = len(c['sa']), len(c.get('da', []))
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), S=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)))
    return c


def solve_oracle(c):
    s = w.from_case(c)
    inp = w.Inputs(s, Fa=c['F'], Ta=c['T'], Sa=c['S'], Fb=c['Fb'],
                   DFb=c['DFb'], mu=c['mu'])
    o = w.solve(s, inp, form='fts', minf_only=True)
    mu = c['mu']
    pos, size = s.beads()
    M, _ = stokes.bead_mobility(stokes.FreeSpace(mu), pos, size, s.ns)
    n, m = s.ns, s.nd
    f = []
    for i in range(n):
        f += list(c['F'][i]) + list(c['T'][i]) + list(stokes.pack(np.array(c['S'][i])))
    Fb, DFb = np.array(c['Fb']).reshape(m, 3), np.array(c['DFb']).reshape(m, 3)
    f += list(((Fb - DFb) / 2).ravel()) + list(((Fb + DFb) / 2).ravel())
    v = M @ np.array(f)
    U = np.array([v[11 * i:11 * i + 3] for i in range(n)]).reshape(n, 3)
    O = np.array([v[11 * i + 3:11 * i + 6] for i in range(n)]).reshape(n, 3)
    E = np.array([stokes.unpack(v[11 * i + 6:11 * i + 11])
                  for i in range(n)]).reshape(n, 3, 3)
    b = v[11 * n:].reshape(2, m, 3)
    amin = np.min(size)
    us = 1 / (6 * np.pi * mu * amin) + 1 / (mu * amin ** 2)
    for k, r, sc in (('Ua', U, us), ('Oa', O, us / amin), ('Ea', E, us / amin),
                     ('Ub', (b[0] + b[1]) / 2, us),
                     ('HalfDUb', (b[1] - b[0]) / 2, us)):
        e = w.rel(o[k], r, sc)
        if not e < 1e-8:
            fail('%s differs from the Faxen solution by %.3g (scaled)' % (k, e))


@st.composite
def single(draw):
    return dict(sx=[draw(gen.vec(10))], sa=[draw(gen.logfl(0.01, 100))],
                mu=draw(gen.logfl(0.01, 100)), F=draw(gen.vec()),
                T=draw(gen.vec()), S=draw(gen.strain()))


def single_oracle(c):
    s = w.from_case(c)
    a, mu = c['sa'][0], c['mu']
    inp = w.Inputs(s, Fa=[c['F']], Ta=[c['T']], Sa=[c['S']], mu=mu)
    for only in (True, False):
        o = w.solve(s, inp, form='fts', minf_only=only)
        for k, x, den in (('Ua', c['F'], 6 * np.pi * mu * a),
                          ('Oa', c['T'], 8 * np.pi * mu * a ** 3),
                          ('Ea', c['S'], 20 / 3 * np.pi * mu * a ** 3)):
            e = w.rel(o[k][0], np.array(x) / den, 1 / den)
            if not e < 1e-12:
                fail('isolated sphere: %s off by %.3g' % (k, e))


def cl(c):
    s = w.from_case(c)
    return s.ns + s.nd >= 2 or 'S' in c, gen.sys_tags(s)


SUBS = [
    Sub('matrix', free_size_systems(), matrix_oracle, 500, 6000, init=w.init(),
        classify=cl),
    Sub('loads', loaded(), solve_oracle, 300, 3000, shards=3, init=w.init(),
        classify=cl),
    Sub('single', single(), single_oracle, 200, 1000, shards=1, init=w.init(),
        classify=cl),
]
