"""C17: periodic runs keep particles in the box without moving them."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('periodic runs of the script with generated motion across faces '
             'of sheared boxes against a lattice oracle')
RULE = ('One or two particles driven through faces, edges and corners of '
        'boxes of any aspect ratio, still or sheared. Non-trivial: some '
        'particle crosses a face during the run.')


@st.composite
def cases(draw, two=False):
    m = draw(st.integers(0, 1))
    n = 2 if two and m == 0 else 1
    L = [draw(gen.fl(7, 11, 100)) for _ in range(3)]
    fr = [[draw(gen.fl(-0.5, 0.499, 1000)) for _ in range(3)]
          for _ in range(n + m)]
    if n + m == 2:          # opposite part of the box: no contact
        fr[1] = [(x + 0.5 + 0.5) % 1 - 0.5 for x in fr[0]]
    x = (np.array(fr) * np.array(L)).round(9).tolist()
    ab = draw(st.sampled_from([1.0, 0.1]))
    frames = draw(st.integers(1, 3))
    dt = draw(gen.fl(0.05, 1.0, 1000))
    speed = draw(gen.fl(0.2, 4.0)) / dt
    c = dict(sx=x[:n], sa=[1.0] * n, dx=x[n:],
             dd=[draw(gen.vec(0.4)) for _ in range(m)], da=[ab] * m, box=L,
             F=draw(gen.nvec(n, 5)), T=draw(gen.nvec(n, 30)),
             Fb=draw(gen.nvec(m, ab)), DFb=draw(gen.nvec(m, 0.05 * ab)), dt=dt,
             frames=frames, form='fte', mu=1.0,
             scheme=draw(st.sampled_from(['euler', 'euler', 'ab2', 'rk4'])),
             U=(speed * np.array(draw(gen.direction()))).round(9).tolist())
    if m:
        d = np.array(c['dd'][0])
        d = d / max(np.linalg.norm(d), 0.3) * max(2.3 * ab, 0.3)
        if np.linalg.norm(d) < 2.2 * ab:
            d = np.array([2.3 * ab, 0, 0])
        c['dd'] = [gen.r9(d)]
    tilt = draw(st.sampled_from([None, 0, 1, 1]))
    if tilt is not None:
        c.update(tilt=tilt, gam=draw(gen.sym(0.8)) / dt,
                 gamom=draw(gen.fl(0, 2)) / dt)
    return c


def oracle(c):
    _, got = traj.run(c)
    n = len(c['sa'])
    cen = got['centres']
    states, _ = traj.model(c)
    for k in range(1, len(states)):
        Lm = traj.box_vectors(c, k * c['dt'])
        fr = cen[k] @ np.linalg.inv(Lm)
        if np.max(np.abs(fr)) > 0.5 + 1e-9:
            fail('row %d: a centre is outside the box (fraction %.4f)'
                 % (k, np.max(np.abs(fr))))
        ref = np.concatenate([states[k].sx, states[k].dx])
        d = (cen[k] - ref) @ np.linalg.inv(Lm)
        e = np.max(np.abs(d - np.round(d)))
        if not e <= 1e-7:
            fail('row %d: a centre moved by %.3g of a box vector, not a whole '
                 'number' % (k, e))
        off = got['sphere_rotations'][k] - cen[k, :n, None]
        e = np.max(np.abs(off - states[k].mk))
        if not e <= 1e-6:
            fail('row %d: orientation marks detached from the wrapped sphere '
                 'by %.3g' % (k, e))
        if len(c['da']):
            e = np.max(np.abs(got['deltax'][k] - states[k].dd))
            if not e <= 1e-6:
                fail('row %d: wrapping changed a dumbbell separation by %.3g'
                     % (k, e))


def classify(c):
    x = np.concatenate([traj.A(c['sx']), traj.A(c['dx'])])
    end = x + c['frames'] * c['dt'] * np.array(c['U'])
    crosses = bool(np.any(np.abs(end / np.array(c['box'])) > 0.5))
    return crosses, ['scheme=' + c['scheme'], 'tilt=%s' % c.get('tilt'),
                     'crosses=%s' % crosses, 'dumbbells=%d' % len(c['da'])]


SUBS = [
    Sub('one particle', cases(), oracle, 64, 700, shards=6, init=w.init(),
        classify=classify),
    Sub('two particles', cases(two=True), oracle, 12, 160, shards=2,
        init=w.init(), classify=classify),
]
