"""C09: free particles are carried by the background flow."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs of free particles in generated linear flows against '
             'the paths of fluid points')
RULE = ('Suspensions in stream plus rotation, lone spheres and dumbbell-only '
        'suspensions in any linear flow, off-centre, possibly time-dependent. '
        'Non-trivial: rotation or strain present.')


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['rigid', 'rigid', 'sphere', 'dumbbells']))
    kw = dict(rigid=dict(spheres=(0, 3), dumbbells=(0, 2)),
              sphere=dict(spheres=(1, 1), dumbbells=(0, 0)),
              dumbbells=dict(spheres=(0, 0), dumbbells=(1, 3)))[kind]
    c = draw(traj.runs(frames=(1, 4), flow=False, timedep=False, **kw))
    n, m = len(c['sa']), len(c['da'])
    z = [0.] * 3
    c.update(F=[z] * n, T=[z] * n, Fb=[z] * m, DFb=[z] * m, k=0, kb=0)
    if n:
        c['U0'] = [z] * n
    c['Ub0'] = c['H0'] = [z] * m
    c.update(U=draw(gen.vec(2.0)), O=draw(gen.vec(1.5)), cen=draw(gen.vec(5.0)),
             B=draw(st.one_of(st.just(0.0), gen.sym(0.9))),
             om=draw(gen.fl(0.5, 12)), kind=kind)
    c['E'] = (np.zeros((3, 3)).tolist() if kind == 'rigid'
              else draw(gen.strain(0.8)))
    return c


def at_rest(s, state, q, regen, keep):
    z = lambda k: np.zeros((k, 3))
    return dict(Ua=z(s.ns), Oa=z(s.ns), Ub=z(s.nd), HalfDUb=z(s.nd),
                Fa=z(s.ns), Fb=z(s.nd), DFb=z(s.nd), Sa=z(s.ns), Minv=0)


def oracle(c):
    _, got = traj.run(c)
    states, _ = traj.model(c, solver=at_rest)
    traj.row_error(c, got, states, 'free particles (%s)' % c['kind'])
    n = len(c['sa'])
    R = got['sphere_rotations']
    for k, s in enumerate(states):
        for i in range(n):
            e = np.max(np.abs(R[k, i] - got['centres'][k, i] - s.mk[i]))
            if not e <= 1e-6 * c['sa'][i]:
                fail('row %d: sphere %d does not spin with the fluid (%.3g)'
                     % (k, i, e))


def cl(c):
    t = traj.classify(c)[1] + ['kind=' + c['kind']]
    return (np.any(np.array(c['O'])) or np.any(np.array(c['E']))), t


SUBS = [Sub('flow', cases(), oracle, 240, 2400, shards=8, init=w.init(),
            classify=cl)]
