"""C30: force of dumbbells on prescribed spheres is extracted correctly."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('differential solves with and without dumbbell forces, and whole '
             'runs over generated prescribed spheres')
RULE = ('Suspensions of one to four spheres, some prescribed, and zero to '
        'three dumbbells. Non-trivial: a prescribed sphere and a dumbbell.')


@st.composite
def cases(draw):
    m = draw(st.sampled_from([1, 2, 3, 1, 2, 0]))
    c = draw(forms.loaded(gen.table_systems(
        spheres=(1, 4), dumbbells=(m, m), **gen.SOLVE), forms=('ufte',)))
    n = len(c['sa'])
    c['k'] = draw(st.sampled_from(list(range(n + 1)) + list(range(1, n + 1))))
    return c


def oracle(c):
    s = w.from_case(c)
    m, k = s.nd, c['k']
    on = w.solve(s, forms.inputs(c, s), form='ufte', extract=True)
    off = w.solve(s, forms.inputs(c, s), form='ufte')
    tol = 10 * gen.solve_tol(s, c['mu'], 'ufte')
    forms.compare(on, off, s, tol, 'extraction on against off')
    quiet = dict(c, Fb=np.zeros((m, 3)).tolist(), DFb=np.zeros((m, 3)).tolist())
    ref = w.solve(s, forms.inputs(quiet, s), form='ufte')
    want = (off['Fa'] - ref['Fa'])[:k]
    got = np.asarray(on['wall'], float)
    if got.shape != (k, 3):
        fail('wall force has shape %s for %d prescribed spheres'
             % (got.shape, k))
    if k:
        sc = forms.scales(off, s)['Fa']
        e = np.max(np.abs(got - want))
        if not e <= tol * sc:
            fail('wall force differs from the dumbbells\' share by %.3g of %.3g'
                 % (e, sc))


@st.composite
def runs(draw):
    c = draw(traj.runs(spheres=(1, 3), dumbbells=(1, 2), frames=(1, 4),
                       form='ufte'))
    c['k'] = draw(st.integers(1, len(c['sa'])))
    c['extract'] = True
    return c


def run_oracle(c):
    argv = sim.args(float(c['dt']), c['frames'], c['form']) + ['True']
    _, on = traj.run(c, argv=argv)
    _, off = traj.run(c)
    states, outs = traj.model(c)
    got = on['force_on_wall_due_to_dumbbells']
    if got.shape != (c['frames'], c['k'], 3):
        fail('wall force recorded with shape %s for %d frames and %d '
             'prescribed spheres' % (got.shape, c['frames'], c['k']))
    for i, o in enumerate(outs):
        e = np.max(np.abs(got[i] - o['wall']))
        sc = np.max(np.abs(o['wall'])) + np.max(np.abs(o['Fa'])) + 1
        if not e <= 1e-6 * sc:
            fail('wall force of frame %d differs by %.3g of %.3g'
                 % (i, e, sc))
    traj.row_error(c, on, states, 'extraction on')
    for k in ('Fa', 'Fb', 'DFb', 'centres', 'deltax'):
        a, b = on[k][:len(states) - 1], off[k][:len(states) - 1]
        if a.shape != b.shape:
            fail('%s has another shape with extraction on' % k)
        if a.size and not np.max(np.abs(a - b)) <= 1e-6 * (
                np.max(np.abs(b)) + 1):
            fail('%s changes with extraction on' % k)


SUBS = [
    Sub('solve', cases(), oracle, 220, 2000, shards=4, init=w.init(),
        classify=lambda c: (c['k'] > 0 and len(c.get('da', [])) > 0,
                            forms.classify(c)[1])),
    Sub('runs', runs(), run_oracle, 70, 700, shards=4, init=w.init(),
        classify=lambda c: (True, traj.classify(c)[1])),
]
