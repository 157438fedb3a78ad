"""C35: explosion protection stops exactly at over-long dumbbells."""
import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs with generated stretching dumbbells, protection on '
             'and off, against a model of the separations')
RULE = ('Dumbbells stretched by internal forces or flow so that the length 5 '
        'is crossed at a generated frame or not at all. Non-trivial: the '
        'threshold is crossed.')


@st.composite
def cases(draw):
    m = draw(st.integers(1, 2))
    n = draw(st.integers(0, 1))
    frames = draw(st.integers(1, 6))
    dt = draw(gen.fl(0.05, 0.5, 1000))
    dds, dfb = [], []
    for _ in range(m):
        d = np.array(draw(gen.direction()))
        L0 = draw(gen.fl(3.0, 5.3))
        dds.append(gen.r9(L0 * d))
        rate = draw(gen.fl(-0.3, 1.2)) / dt
        # DF = F2 - F1 ; isolated beads: dL/dt = DF / (6 pi a)
        dfb.append(gen.r9(rate * 6 * np.pi * 0.1 * d))
    c = dict(sx=[[0., 9., 0.]][:n], sa=[1.0] * n,
             dx=[[0., 0., 12.0 * i] for i in range(m)], dd=dds, da=[0.1] * m,
             F=[[0.1, 0, 0.2]] * n, T=[[0.3, 0, 0]] * n,
             Fb=draw(gen.nvec(m, 0.5)), DFb=dfb, dt=dt, frames=frames,
             form='fte' if n else draw(st.sampled_from(['fts', 'duf'])),
             kb=0, Ub0=[[0.] * 3] * m, H0=[[0.] * 3] * m, mu=1.0,
             scheme=draw(st.sampled_from(['euler', 'ab2', 'rk4'])))
    c['protect'] = draw(st.sampled_from([True, True, False]))
    return c


def lengths(state):
    return np.linalg.norm(state.dd, axis=1)


def stop_frame(c, states):
    """First frame whose step makes some separation exceed 5 (None: never)."""
    for k in range(1, len(states)):
        if np.any(lengths(states[k]) > 5):
            return k - 1
    return None


def oracle(c):
    states, outs = traj.model(c)
    if len(states) < c['frames'] + 1:
        return
    L = np.array([lengths(s) for s in states[1:]])
    if np.any(np.abs(L - 5) < 1e-4):
        return                      # rounding decides
    r = sim.run(**traj.script(c, settings=dict(
        explosion_protection=c['protect'])))
    try:
        if r.exc:
            fail('run stopped with %s' % r.exc.strip())
        if r.code:
            fail('run exited with: %s' % r.msg)
        got = r.main()
        k = stop_frame(c, states) if c['protect'] else None
        if k is not None and c['scheme'] == 'rk4':
            # stages may exceed the length slightly earlier than the step
            rows = len(got['centres'])
            if rows > k + 2:
                fail('run went on after a dumbbell exceeded length 5')
            if rows == c['frames'] + 1 and k < c['frames'] - 1:
                fail('run went on after a dumbbell exceeded length 5')
            mono = all(np.all(np.diff(L[:, i]) >= 0) for i in range(L.shape[1]))
            if mono and rows < k:
                fail('run stopped %d frames too early' % (k - rows))
            want = states[:rows]
        elif k is None:
            if c['protect'] and c['scheme'] == 'rk4' and np.any(
                    L > 5 - 0.02):
                return
            want = states
        else:
            # rows hold the starts of frames 0..k; the last frame adds its end
            want = states[:k + 1]
            if k == c['frames'] - 1:
                want = states[:k + 2]
        if len(got['centres']) != len(want):
            fail('%d rows recorded, expected %d (protection %s, threshold '
                 'crossed in frame %s of %d)'
                 % (len(got['centres']), len(want), c['protect'], k,
                    c['frames']))
        for i, s in enumerate(want):
            e = np.max(np.abs(got['deltax'][i] - s.dd))
            if not e < 1e-6:
                fail('row %d differs from the model by %.3g' % (i, e))
    finally:
        r.clean()


def classify(c):
    L0 = np.linalg.norm(np.array(c['dd']), axis=1)
    rate = [np.dot(f, d) / np.linalg.norm(d) / (0.6 * np.pi)
            for f, d in zip(c['DFb'], c['dd'])]
    crosses = bool(np.any(L0 + c['frames'] * c['dt'] * np.array(rate) > 5))
    return crosses, ['protect=%s' % c['protect'], 'crosses=%s' % crosses,
                     'scheme=' + c['scheme']]


SUBS = [Sub('runs', cases(), oracle, 200, 1600, shards=8, init=w.init(),
            classify=classify)]
