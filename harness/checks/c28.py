"""C28: a saved frame can be used as the next starting point."""
import contextlib
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('round trips of generated saved files through the setup loader '
             'and continued whole runs')
RULE = ('Files with any number of frames, spheres and dumbbells; any frame, '
        'also counted from the end. Non-trivial: two or more frames.')


@st.composite
def files(draw):
    n, m = draw(st.integers(0, 4)), draw(st.integers(0, 3))
    if n + m == 0:
        n = 1
    f = draw(st.integers(1, 6))
    return dict(n=n, m=m, f=f, seed=draw(st.integers(0, 10000)),
                k=draw(st.integers(-f, f - 1)),
                sa=draw(st.sampled_from([None, 1.0, 0.3, 2.5])),
                da=draw(st.sampled_from([None, 0.1, 0.05, 1.0])))


@contextlib.contextmanager
def folder(**arrays):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as d:
        os.makedirs(os.path.join(d, 'output'))
        np.savez_compressed(os.path.join(d, 'output', 'saved-run'), **arrays)
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(here)


def load(k, **kw):
    f = w.find('same_setup_as')
    with contextlib.redirect_stdout(io.StringIO()):
        out = f('saved-run', k, **kw) if k is not None else f('saved-run', **kw)
    return [np.asarray(v, float) for v in out]


def oracle(c):
    g = np.random.RandomState(c['seed'])
    n, m = c['n'], c['m']
    a = dict(centres=g.randn(c['f'], n + m, 3), deltax=g.randn(c['f'], m, 3),
             Fa=g.randn(c['f'], n, 3), Fb=g.randn(c['f'], m, 3),
             DFb=g.randn(c['f'], m, 3), Sa=g.randn(c['f'], n, 3, 3),
             sphere_rotations=g.randn(c['f'], n, 2, 3),
             force_on_wall_due_to_dumbbells=np.zeros(c['f']))
    kw = {}
    if c['sa'] is not None:
        kw['sphere_size'] = c['sa']
    if c['da'] is not None:
        kw['dumbbell_size'] = c['da']
    sa, da = c['sa'] or 1, c['da'] or 0.1
    with folder(**a):
        for k in (c['k'], None):
            got = load(k, **kw)
            i = 0 if k is None else k
            want = [np.full(n, sa), a['centres'][i, :n], None, np.full(m, da),
                    a['centres'][i, n:], a['deltax'][i]]
            for nm, x, y in zip(('sphere sizes', 'sphere centres', 'marks',
                                 'bead sizes', 'dumbbell centres',
                                 'separations'), got, want):
                if y is not None and (x.shape != y.shape
                                      or not np.array_equal(x, y)):
                    fail('frame %s: %s are not the recorded ones' % (i, nm))
            mk = got[2] - got[1][:, None] if n else np.zeros((0, 2, 3))
            if got[2].shape != (n, 2, 3) or (n and not (np.allclose(
                    np.linalg.norm(mk, axis=2), sa) and np.allclose(
                    np.sum(mk[:, 0] * mk[:, 1], axis=1), 0))):
                fail('marks are not two perpendicular points on the surface')


@st.composite
def continued(draw):
    c = draw(traj.runs(frames=(2, 5), sizes=((1.0,),), flow=True,
                       timedep=False, scheme='euler', min_total=1))
    c.pop('B', None)
    c['k'] = draw(st.integers(1, c['frames'] - 1))
    return c


def continued_oracle(c):
    """Nothing depends on time, so running on must reproduce the rest."""
    _, a = traj.run(c)
    states, _ = traj.model(c)
    if len(states) < c['frames'] + 1:
        return                     # nearly touching: rounding decides
    for k in (c['k'], c['k'] - (c['frames'] + 1)):
        with folder(**a):
            p = load(k, sphere_size=1.0, dumbbell_size=1.0)
        s = w.System(p[1], p[0], p[4], p[5], p[3])
        rest = c['frames'] - c['k']
        _, b = sim.ok(**traj.script(dict(c, frames=rest, sx=s.sx.tolist(),
                                         dx=s.dx.tolist(),
                                         dd=s.dd.tolist())))
        for nm in ('centres', 'deltax'):
            x, y = a[nm][c['k']:], b[nm]
            if x.shape != y.shape or (x.size and not np.max(
                    np.abs(x - y)) <= 1e-8 * (1 + np.max(np.abs(x)))):
                fail('running on from frame %d leaves the original %s'
                     % (c['k'], nm))


SUBS = [
    Sub('loader', files(), oracle, 400, 4000, shards=2, init=w.init(),
        classify=lambda c: (c['f'] > 1, ['frames=%d' % c['f'],
                                         'spheres=%d' % c['n'],
                                         'dumbbells=%d' % c['m']])),
    Sub('running on', continued(), continued_oracle, 70, 700, shards=6,
        init=w.init(), classify=traj.classify),
]
