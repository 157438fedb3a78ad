"""C25: random placement never overlaps and stays in its region."""
import contextlib
import io
import signal

import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('generated boxes, counts, sizes, obstacles and random states; '
             'placements checked pair by pair')
RULE = ('Dilute requests (so that naive placement ends quickly) with mixed '
        'sizes, existing particles, flat boxes, fixed or free angles. '
        'Non-trivial: at least two particles in all.')


class Slow(Exception):
    pass


def quiet(seed, f, *a, **k):
    """Call with a set random state, without output, within 60 s."""
    def stop(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(60)
    np.random.seed(seed)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    except Slow:
        fail('placement of a dilute request did not end')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@st.composite
def requests(draw, per=False):
    k = draw(st.integers(1, 7))
    sizes = [draw(st.sampled_from([1.0, 0.5, 0.1, 0.3])) for _ in range(k)]
    flat = draw(st.booleans())
    L = draw(gen.fl(7, 20)) * np.array([1, 1, 1])
    L = L * np.array([1 + 0.5 * abs(x) for x in draw(gen.vec(1))])
    if flat:
        L = L * np.array([1.5, 0, 1.5])
    bl = np.array(draw(gen.vec(10)))
    obst = draw(st.integers(0, 3))
    ob = [draw(gen.vec(0.5)) for _ in range(obst)]
    c = dict(sizes=sizes, bl=gen.r9(bl), tr=gen.r9(bl + L),
             ox=gen.r9([bl + L / 2 + np.array(o) * L for o in ob]),
             oa=[draw(st.sampled_from([1.0, 0.4])) for _ in ob],
             seed=draw(st.integers(0, 2000)))
    c['dx'] = draw(gen.fl(2.1, 3.0)) * max(sizes)
    if per:
        c['dx'] = min(c['dx'], 0.2 * min(L[0], L[2]))
    c['theta'] = draw(st.one_of(st.just('r'), gen.fl(0, 6.28)))
    c['phi'] = draw(st.one_of(st.just('r'), gen.fl(0, 3.14)))
    if flat and not per and c['phi'] != 'r':
        c['phi'] = 0.0
    if flat and not per and c['phi'] == 'r':
        c['phi'] = 0.0             # out-of-plane beads would leave the box
    return c


def obstacles(c):
    return (np.array(c['oa'], float).reshape(-1),
            np.array(c['ox'], float).reshape(-1, 3))


def inside(x, c, what, axes=(0, 1, 2)):
    lo, hi = np.array(c['bl']), np.array(c['tr'])
    for p in np.atleast_2d(x):
        for k in axes:
            if not lo[k] - 1e-9 <= p[k] <= hi[k] + 1e-9:
                fail('%s lies outside the requested box: %s' % (what, p))


def apart(x1, a1, x2, a2, what, L=None):
    """Every pair (i of 1, j of 2) at least the sum of radii apart."""
    for i in range(len(x1)):
        for j in range(len(x2)):
            d = x1[i] - x2[j]
            if L is not None:
                for k in (0, 2):
                    d[k] -= L[k] * np.round(d[k] / L[k])
            if not np.linalg.norm(d) >= (a1[i] + a2[j]) * (1 - 1e-9):
                fail('%s overlap: distance %.6g for radii %.3g and %.3g'
                     % (what, np.linalg.norm(d), a1[i], a2[j]))


def sphere_oracle(c):
    f = w.find('randomise_spheres', 'setups.functions_positions')
    oa, ox = obstacles(c)
    keep = ox.copy()
    a = np.array(c['sizes'])
    call = lambda: np.array(quiet(
        c['seed'], f, list(c['bl']), list(c['tr']), a.copy(), oa, ox), float)
    x = call()
    if x.shape != (len(a), 3):
        fail('%d spheres requested, result has shape %s' % (len(a), x.shape))
    if not np.array_equal(ox, keep):
        fail('existing spheres were moved')
    inside(x, c, 'sphere')
    for i in range(len(a)):
        apart(x[i:i + 1], a[i:i + 1], x[:i], a[:i], 'spheres')
    apart(x, a, ox, oa, 'placed and existing spheres')
    if not np.array_equal(x, call()):
        fail('equal random states give different spheres')
    c2 = quiet(c['seed'] + 1, f, list(c['bl']), list(c['tr']), a.copy(), oa, ox)
    if np.array_equal(x, np.array(c2)):
        fail('different random states give the same spheres')


def angles(d, c):
    """Separation directions follow the fixed angles."""
    for v in d:
        u = v / np.linalg.norm(v)
        th, ph = c['theta'], c['phi']
        if th != 'r' and abs(u[2] - np.cos(th)) > 1e-9:
            fail('polar angle of a dumbbell is not the requested one')
        if th != 'r' and ph != 'r':
            want = [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph),
                    np.cos(th)]
            if np.max(np.abs(u - want)) > 1e-9:
                fail('dumbbell points along %s instead of %s' % (u, want))
        if ph != 'r' and abs(u[0] * np.sin(ph) - u[1] * np.cos(ph)) > 1e-9:
            fail('azimuth of a dumbbell is not the requested one')


def dumbbell_oracle(c, per=False):
    f = w.find('randomise_dumbbells' + ('_periodic' if per else ''),
               'setups.functions_positions')
    oa, ox = obstacles(c)
    a = np.array(c['sizes'])

    def call(seed):
        p, d = quiet(seed, f, list(c['bl']), list(c['tr']), a.copy(),
                     c['dx'], c['theta'], c['phi'], oa, ox)
        return np.array(p, float), np.array(d, float)
    x, d = call(c['seed'])
    if x.shape != (len(a), 3) or d.shape != (len(a), 3):
        fail('%d dumbbells requested, result has shapes %s, %s'
             % (len(a), x.shape, d.shape))
    if not np.allclose(np.linalg.norm(d, axis=1), c['dx'], rtol=1e-9):
        fail('dumbbell lengths %s instead of %.6g'
             % (np.linalg.norm(d, axis=1), c['dx']))
    angles(d, c)
    b = np.concatenate([x - d / 2, x + d / 2])
    L = None
    if per:
        L = np.array(c['tr']) - np.array(c['bl'])
        inside(x, c, 'dumbbell', axes=(0, 2))
        inside(b[:len(a)], c, 'first bead', axes=(1,))
    else:
        inside(b, c, 'bead')
    n = len(a)
    for i in range(n):
        for k in (i, n + i):
            others = [j for j in range(2 * n) if j % n < i]
            apart(b[k:k + 1], a[i:i + 1], b[others],
                  np.concatenate([a, a])[others], 'beads', L)
    apart(b, np.concatenate([a, a]), ox, oa, 'beads and spheres', L)
    y, e = call(c['seed'])
    if not (np.array_equal(x, y) and np.array_equal(d, e)):
        fail('equal random states give different dumbbells')


@st.composite
def quads(draw):
    k = draw(st.integers(1, 5))
    cx, cz = draw(gen.vec(8))[:2]
    R = draw(gen.fl(5, 12))
    ang = sorted(draw(gen.fl(0.1, 1.4)) + q * np.pi / 2 for q in range(4))
    quad = [[cx + R * np.cos(t), cz + R * np.sin(t)] for t in ang]
    obst = [[cx + R * 0.4 * v[0], 0.0, cz + R * 0.4 * v[1]]
            for v in draw(gen.nvec(draw(st.integers(0, 2))))]
    return dict(quad=gen.r9(quad), ox=gen.r9(obst) if obst else [],
                oa=draw(st.sampled_from([1.0, 0.5])),
                sizes=[draw(st.sampled_from([0.1, 0.3, 0.05]))
                       for _ in range(k)], seed=draw(st.integers(0, 2000)))


def quad_oracle(c):
    f = w.find('randomise_beads_inside_quadrilateral',
               'setups.functions_positions')
    q = np.array(c['quad'])
    a = np.array(c['sizes'])
    ox = np.array(c['ox'], float).reshape(-1, 3)
    call = lambda: [np.array(v, float) for v in quiet(
        c['seed'], f, q.copy(), a.copy(), ox, c['oa'])]
    x, d = call()
    if x.shape != (len(a), 3) or d.shape != (len(a), 3):
        fail('%d dumbbells requested, shapes %s, %s'
             % (len(a), x.shape, d.shape))
    n = len(a)
    b = np.concatenate([x - d / 2, x + d / 2])
    aa = np.concatenate([a, a])
    for p in b:
        if abs(p[1]) > 1e-12:
            fail('bead leaves the plane of the quadrilateral')
        # counter-clockwise convex polygon
        for k in range(4):
            e = q[(k + 1) % 4] - q[k]
            r = np.array([p[0], p[2]]) - q[k]
            if e[0] * r[1] - e[1] * r[0] < -1e-9 * np.linalg.norm(e):
                fail('bead lies outside the quadrilateral')
    for i in range(2 * n):
        apart(b[i:i + 1], aa[i:i + 1], b[:i], aa[:i], 'beads')
    apart(b, aa, ox, [c['oa']] * len(ox), 'beads and spheres')
    y, e = call()
    if not (np.array_equal(x, y) and np.array_equal(d, e)):
        fail('equal random states give different dumbbells')


def cubic_oracle(c):
    f = w.find('simple_cubic_8', 'setups.functions_positions')
    s = c['side']
    x, bl, tr = [np.array(v, float) for v in f(s)]
    if x.shape != (8, 3) or not np.allclose(tr - bl, s):
        fail('cubic array has shape %s, box %s' % (x.shape, tr - bl))
    inside(x, dict(bl=bl, tr=tr), 'sphere')
    for i in range(8):
        for j in range(i):
            d = np.abs(x[i] - x[j])
            d = np.minimum(d, s - d)
            if not np.all(np.isclose(d, s / 2) | np.isclose(d, 0)) or not d.any():
                fail('spheres %d and %d of the cubic array are %s apart'
                     % (i, j, d))


def cl(c):
    n = len(c['sizes']) + len(c['ox'])
    return n > 1, ['n=%d' % len(c['sizes']), 'existing=%d' % len(c['ox']),
                   'flat' if c['bl'][1] == c['tr'][1] else 'box']


SUBS = [
    Sub('spheres', requests(), sphere_oracle, 250, 2500, shards=1,
        init=w.init(), classify=cl),
    Sub('dumbbells', requests(), dumbbell_oracle, 250, 2500, shards=2,
        init=w.init(), classify=cl),
    Sub('periodic dumbbells', requests(per=True),
        lambda c: dumbbell_oracle(c, True), 200, 2000, shards=2,
        init=w.init(), classify=cl),
    Sub('quadrilateral', quads(), quad_oracle, 150, 1500, shards=1,
        init=w.init(), classify=lambda c: (True, ['n=%d' % len(c['sizes'])])),
    Sub('cubic', st.builds(lambda s: dict(side=s), gen.logfl(0.1, 100)),
        cubic_oracle, 50, 500, shards=1, init=w.init(),
        classify=lambda c: (True, [])),
]
