"""C16: orientation marks turn rigidly with their spheres."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs with generated spins and marks against an independent '
             'rigid-rotation model')
RULE = ('Single spheres with torques of every direction (axes, nearly along '
        'axes, along a mark, zero) and suspensions under loads and flow, every '
        'scheme. Non-trivial: two or more frames.')
TOL = 2e-7


def mark_pair(draw):
    d1 = np.array(draw(gen.direction()))
    d2 = np.array(draw(gen.direction()))
    if abs(d1 @ d2) > 0.95:
        d2 = np.eye(3)[int(np.argmin(np.abs(d1)))]
    return [d1.tolist(), d2.tolist()]


@st.composite
def spins(draw):
    a = draw(st.sampled_from([1.0, 0.3, 2.5]))
    mk = mark_pair(draw)
    kind = draw(st.integers(0, 6))
    if kind == 0:
        T = [0.0, 0.0, 0.0]
    elif kind == 1:
        T = (np.array(mk[0]) * draw(gen.sym(30))).tolist()
    elif kind in (2, 3):
        d = np.zeros(3)
        d[draw(st.integers(0, 2))] = draw(st.sampled_from([1, -1]))
        eps = draw(st.sampled_from([0, 1e-9, 1e-6, 1e-4, 1e-2]))
        d = d + eps * np.array(draw(gen.direction()))
        T = (d * draw(gen.fl(0.5, 60))).tolist()
    else:
        T = draw(gen.vec(60))
    return dict(sx=[draw(gen.vec(2))], sa=[a], dx=[], dd=[], da=[],
                F=[draw(gen.vec(5))], T=[(np.array(T) * a ** 3).tolist()],
                Fb=[], DFb=[], A=draw(gen.sym(0.9)), om=draw(gen.fl(0.5, 12)),
                O=draw(gen.vec(1.0)) if draw(st.booleans()) else [0., 0., 0.],
                U=[0., 0., 0.], mu=draw(gen.fl(0.5, 2)), form='fte',
                scheme=draw(st.sampled_from(['euler', 'ab2', 'rk4'])),
                dt=draw(gen.fl(0.02, 1.0, 1000)),
                frames=draw(st.integers(1, 6)),
                marks=[(a * np.array(mk)).tolist()])


def spin_oracle(c):
    """The spin of a lone sphere is known, so are its marks."""
    _, got = traj.run(c)
    a, mu, dt = c['sa'][0], c['mu'], c['dt']
    T = np.array(c['T'][0])

    def om(t):
        return ((1 + c['A'] * np.sin(c['om'] * t)) * T
                / (8 * np.pi * mu * a ** 3) + np.array(c['O']))
    mk = np.array(c['marks'][0])
    R = got['sphere_rotations']
    if R.shape != (c['frames'] + 1, 1, 2, 3):
        fail('marks recorded with shape %s' % (R.shape,))
    prev = None
    for n in range(c['frames'] + 1):
        off = R[n, 0] - got['centres'][n, 0]
        e = np.max(np.abs(off - mk))
        if not e <= TOL * a:
            fail('marks of row %d off by %.3g radii under %s'
                 % (n, e / a, c['scheme']))
        t = n * dt
        k1 = om(t)
        if c['scheme'] == 'rk4':
            v = (k1 + 4 * om(t + dt / 2) + om(t + dt)) / 6
        elif c['scheme'] == 'ab2' and prev is not None:
            v = 1.5 * k1 - 0.5 * prev
        else:
            v = k1
        prev = k1
        mk = np.array([traj.rotate(m, v * dt) for m in mk])


@st.composite
def crowd(draw):
    c = draw(traj.runs(spheres=(1, 3), dumbbells=(0, 1), frames=(1, 4),
                       push=3.0))
    c['marks'] = [(a * np.array(mark_pair(draw))).tolist() for a in c['sa']]
    return c


def crowd_oracle(c):
    _, got = traj.run(c)
    states, _ = traj.model(c)
    n = len(c['sa'])
    R = got['sphere_rotations']
    if R.shape != (c['frames'] + 1, n, 2, 3):
        fail('marks recorded with shape %s' % (R.shape,))
    for k, s in enumerate(states):
        off = R[k] - got['centres'][k, :n, None]
        for i in range(n):
            e = np.max(np.abs(off[i] - s.mk[i])) / c['sa'][i]
            if not e <= TOL * 5:
                fail('row %d: marks of sphere %d off by %.3g radii (%s)'
                     % (k, i, e, c['scheme']))


SUBS = [
    Sub('lone spin', spins(), spin_oracle, 320, 3000, shards=6, init=w.init(),
        classify=lambda c: (c['frames'] > 1, ['scheme=' + c['scheme'],
                                              'frames=%d' % c['frames']])),
    Sub('suspension', crowd(), crowd_oracle, 80, 800, shards=2, init=w.init(),
        classify=traj.classify),
]
