"""C12: periodic far field is the Ewald sum over the infinite lattice."""
import numpy as np
from hypothesis import strategies as st

import gen
import perio
import world as w
from common import Sub, fail

TECHNIQUE = ('differential testing of generated periodic suspensions against '
             'an independent converged lattice sum')
RULE = ('One to four particles of unrelated radii in boxes of aspect ratio up '
        'to 1.6, unsheared or sheared in any of six directions. Non-trivial: '
        'every case.')
ASSUMPTIONS = ['allowed difference: 1e-7 of the self mobility plus three '
               'times the error of stopping the sums after two boxes']


@st.composite
def cases(draw, spheres=(0, 2), dumbbells=(0, 1)):
    c = draw(perio.systems(spheres, dumbbells,
                           sizes=(1.0, 0.4, 0.1, 1.3), lo=6.5))
    c['mu'] = draw(gen.logfl(0.1, 10))
    return c


def oracle(c):
    s = w.from_case(c)
    Ot, Et = perio.strain_of(c)
    R, _ = w.resistance(s, mu=c['mu'], box=perio.box(c), Ot=Ot, Et=Et,
                        minf_only=True)
    M, cut = perio.far_field(c, s, c['mu'])
    e = perio.scaled(np.linalg.inv(R), M)
    if not e <= 1e-7 + 3 * cut:
        fail('periodic mobility differs from the lattice sum by %.3g of the '
             'self mobility (truncation %.2g)' % (e, cut))


@st.composite
def loaded(draw):
    c = draw(cases())
    n, m = len(c['sa']), len(c['da'])
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), S=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)),
             rate=draw(gen.sym(2.0)))
    return c


def load_vector(c):
    from refs.stokes import pack
    A = lambda k: np.array(c[k], float).ravel()
    S = [pack(np.array(x)) for x in c['S']]
    return np.concatenate([A('F'), A('T'), np.array(S).ravel(), A('Fb'),
                           A('DFb')])


def solve(c, s, **kw):
    """Velocities relative to the flow, stacked as the mobility has them."""
    from refs.stokes import pack
    Ot, Et = perio.strain_of(c)
    bl, tr = perio.box(c)
    inp = w.Inputs(s, Fa=c['F'], Ta=c['T'], Sa=c['S'], Fb=c['Fb'],
                   DFb=c['DFb'], mu=c['mu'], bl=bl, tr=tr, Ot=Ot, Et=Et)
    o = w.solve(s, inp, form='fts', **kw)
    E = [pack(x) for x in o['Ea']]
    return np.concatenate([o['Ua'].ravel(), o['Oa'].ravel(),
                           np.array(E).ravel(), o['Ub'].ravel(),
                           o['HalfDUb'].ravel()])


def load_oracle(c):
    s = w.from_case(c)
    v = solve(c, s, minf_only=True)
    M, cut = perio.far_field(c, s, c['mu'])
    f = load_vector(c)
    d = np.sqrt(np.abs(np.diag(M)))
    e = np.max(np.abs((v - M @ f) / d))
    lim = (1e-7 + 3 * cut) * np.sum(np.abs(d * f)) + 1e-12
    if not e <= lim:
        fail('periodic motion under loads differs from the lattice sum by '
             '%.3g (limit %.2g)' % (e, lim))


SUBS = [
    Sub('matrix', cases((0, 2), (0, 2)), oracle, 240, 2400, shards=8, init=w.init(),
        classify=perio.tags),
    Sub('loads', loaded(), load_oracle, 120, 1000, shards=8, init=w.init(),
        classify=perio.tags),
]
