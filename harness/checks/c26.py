"""C26: repulsion pushes close particles apart with equal, opposite forces."""
import numpy as np
from hypothesis import strategies as st

import gen
import sim
import world as w
from common import Sub, fail

TECHNIQUE = ('generated suspensions, also overlapping, against an independent '
             'pair-by-pair force sum; bundled repulsion input in whole runs')
RULE = ('Up to four spheres and three dumbbells with mixed radii, many pairs '
        'near contact or overlapping, lids and initial forces. Non-trivial: at '
        'least one pair in range.')


@st.composite
def cases(draw):
    c = draw(gen.systems(spheres=(0, 5), dumbbells=(0, 3), min_total=1,
                         sizes=(1.0, 0.1, 0.4), gap_lo=0.02, gap_hi=0.6,
                         close=0.6, offset=2.0))
    n, m = len(c['sa']), len(c.get('da', []))
    # squeeze some configurations so that particles overlap
    c['squeeze'] = draw(st.sampled_from([1.0, 1.0, 0.93, 0.8]))
    c.update(k=draw(gen.fl(0.1, 80)), tau=draw(gen.fl(0.5, 60)),
             lid=draw(st.sampled_from([0, 0, 0, 1, 2])),
             Fa=draw(gen.nvec(n, 5)), Fb=draw(gen.nvec(m, 5)),
             DFb=draw(gen.nvec(m, 5)))
    c['lid'] = min(c['lid'], n // 2)
    return c


def system(c):
    s = w.from_case(c)
    q = c['squeeze']
    return w.System(s.sx * q, s.sa, s.dx * q, s.dd * q, s.da)


def reference(s, k, tau, lid, Fa, Fb, DFb):
    """Forces after repulsion, and whether some pair is at the threshold."""
    pos, a = s.beads()
    n, m, N = s.ns, s.nd, len(a)
    f = np.zeros((N, 3))
    pairs, edge = 0, False
    for i in range(N):
        for j in range(i):
            r = pos[i] - pos[j]
            d = np.linalg.norm(r)
            sp = 2 * d / (a[i] + a[j])
            edge = edge or abs(sp - 2.2) < 1e-9
            if sp >= 2.2:
                continue
            pairs += 1
            F = k * 2 * a[i] * a[j] / (a[i] + a[j]) * np.exp(
                -tau * max(sp - 2, 0))
            f[i] += F * r / d
            f[j] -= F * r / d
    f[:2 * lid] = 0
    A = lambda v: np.array(v, float).reshape(-1, 3)
    f1, f2 = f[n:n + m], f[n + m:]
    return A(Fa) + f[:n], A(Fb) + f1 + f2, A(DFb) + f2 - f1, pairs, edge


def oracle(c):
    f = w.find('repulsion_forces', 'setups.functions_inputs')
    s = system(c)
    conv = lambda v: [list(x) for x in v]     # as the package passes them
    *want, pairs, edge = reference(s, c['k'], c['tau'], c['lid'], c['Fa'],
                                   c['Fb'], c['DFb'])
    if edge:
        return
    pos0 = [x.copy() for x in s.posdata()]
    pd = s.posdata()
    got = f(c['k'], c['tau'], s.ns, s.nd, pd[1], pd[4], pd[5], pd[0], pd[3],
            c['lid'], conv(c['Fa']), conv(c['Fb']), conv(c['DFb']))
    for a, b in zip(pos0, pd):
        if not np.array_equal(a, b):
            fail('repulsion changed the positions it was given')
    for nm, g, r in zip(('Fa', 'Fb', 'DFb'), got, want):
        g = np.array([list(x) for x in g], float).reshape(-1, 3)
        if g.shape != r.shape:
            fail('%s comes back with shape %s' % (nm, g.shape))
        if g.size and not np.max(np.abs(g - r)) <= 1e-10 * (
                1 + np.max(np.abs(r))):
            fail('%s with repulsion is off by %.3g (%d pairs in range)'
                 % (nm, np.max(np.abs(g - r)), pairs))


def cl(c):
    s = system(c)
    *_, pairs, _ = reference(s, 1, 1, c['lid'], c['Fa'], c['Fb'], c['DFb'])
    return pairs > 0, gen.sys_tags(s)[:2] + [
        'pairs=%d' % min(pairs, 5), 'lid=%d' % c['lid'],
        'squeezed' if c['squeeze'] < 1 else 'apart']


@st.composite
def runs(draw):
    n = draw(st.integers(0, 3))
    m = draw(st.integers(0 if n else 1, 2))
    c = draw(gen.systems(spheres=(n, n), dumbbells=(m, m), sizes=(1.0, 0.1),
                         gap_lo=0.05, gap_hi=0.5, close=0.7, min_factor=1.02))
    c['dt'] = draw(gen.fl(0.001, 0.01))
    return c


def run_oracle(c):
    """Bundled input 4: strength 50, range 20."""
    s = w.from_case(c)
    r, got = sim.ok(system=s, argv=sim.args(c['dt'], 1, 'fte' if s.ns
                                            else 'fts', -7, 4))
    z = lambda k: np.zeros((k, 3))
    Fa, Fb, DFb, pairs, edge = reference(s, 50, 20, 0, z(s.ns), z(s.nd),
                                         z(s.nd))
    if edge:
        return
    for nm, want in (('Fa', Fa), ('Fb', Fb), ('DFb', DFb)):
        g = got[nm][0].reshape(-1, 3)
        if g.shape != want.shape or (g.size and not np.max(
                np.abs(g - want)) <= 1e-9 * (1 + np.max(np.abs(want)))):
            fail('repulsion input applies other %s' % nm)


SUBS = [
    Sub('helper', cases(), oracle, 400, 4000, shards=2, init=w.init(),
        classify=cl),
    Sub('runs', runs(), run_oracle, 40, 400, shards=4, init=w.init(),
        classify=lambda c: (len(c['sa']) + len(c.get('da', [])) > 1, [])),
]
