"""C36: bundled example setups and inputs are what the documentation says."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import world as w
from checks import c26
from common import CASE_S, Hang, KnownFinding, Sub, arm, fail

TECHNIQUE = ('whole runs of bundled setups and inputs on bundled and generated '
             'particles against the documented particles, forces and flows')
RULE = ('Bundled inputs applied to generated suspensions, bundled setups with '
        'generated random states, and the documented commands. Non-trivial: '
        'every case.')


# ------------------------------------------------------- documented setups
def documented(n):
    """(sphere positions, dumbbell positions, separations) of fixed setups."""
    z = np.zeros((0, 3))
    if n == 1:
        return np.array([[4. * i, 0, 0] for i in range(15)]), z, z
    if n == 2:
        return np.array([[-5., 0, 0], [0, 0, 0], [7, 0, 0]]), z, z
    if n == 3:
        return np.array([[i, j, k] for i in (-2., 2) for j in (-2., 2)
                         for k in (-2., 2)]), z, z
    if n == 4:
        q = np.sqrt(2)
        return (np.array([[0, 0, 0], [4.5, 0, 4.5]]),
                np.array([[4.5, 0, 0], [0, 0, 4.5]]),
                np.array([[q, 0, q]] * 2))
    wall = lambda h: [[2.00001 * (i - 22), 0, h] for i in range(45)]
    if n == 6:
        return np.array(wall(0.) + wall(11.)), None, None
    if n == 7:
        mid = [[i, 0, j] for i in (-4., 0, 4) for j in (-2.5, 0, 2.5)]
        return np.array(wall(-5.) + wall(5.) + mid), z, z


def same_set(a, b, tol=1e-9):
    """Equal up to the order of rows."""
    if a.shape != b.shape:
        return False
    f = lambda v: v[np.lexsort(np.round(v, 6).T)]
    return a.size == 0 or np.max(np.abs(f(a) - f(b))) <= tol


def setup_oracle(c):
    n = c['n']
    np.random.seed(c['seed'])
    if n == 5:
        arm(20)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            (sa, sx, sr, da, dx, dd), _ = w.mod('setups.positions').pos_setup(n)
    except Hang:
        if n == 5:
            raise KnownFinding('setup-5-jams', 'random placement of setup 5 '
                               'does not finish')
        raise
    arm(CASE_S)
    sa, sx, sr, da, dx, dd = [np.asarray(v, float)
                              for v in (sa, sx, sr, da, dx, dd)]
    if n == 5:
        if sx.shape != (41, 3) or np.any(sx[:, 1]):
            fail('setup 5 does not have 41 spheres in the plane')
        if np.max(np.abs(sx)) + 1 > 8.1 + 1e-9:
            fail('setup 5 leaves its box')
    else:
        x, y, d = documented(n)
        ordered = x.shape == sx.shape and np.max(np.abs(x - sx)) <= 1e-9
        if not (ordered if n in (6, 7) else same_set(sx, x)):
            fail('setup %d does not place its spheres as documented' % n)
        if y is not None and not (same_set(dx, y) and same_set(dd, d)):
            fail('setup %d does not place its dumbbells as documented' % n)
        if n == 6:
            b = np.concatenate([dx - dd / 2, dx + dd / 2])
            if dx.shape != (200, 3) or not np.allclose(
                    np.linalg.norm(dd, axis=1), 2) or np.any(b[:, 1]):
                fail('setup 6 does not have 200 flat dumbbells of length 2')
            if (np.abs(b[:, 0]) > 17 + 1e-9).any() or (
                    np.abs(b[:, 2] - 5.5) > 4.3 + 1e-9).any():
                fail('dumbbells of setup 6 leave the gap between the walls')
    if not (np.array_equal(sa, np.ones(len(sx)))
            and np.array_equal(da, 0.1 * np.ones(len(dx)))):
        fail('setup %d has other radii than documented' % n)
    pos = np.concatenate([sx, dx - dd / 2, dx + dd / 2])
    a = np.concatenate([sa, da, da])
    D = np.linalg.norm(pos[:, None] - pos, axis=2) + 10 * np.eye(len(a))
    if np.min(D - np.add.outer(a, a)) < -1e-9:
        fail('particles of setup %d overlap' % n)
    m = sr - sx[:, None]
    if sr.shape != (len(sx), 2, 3) or not np.allclose(
            np.linalg.norm(m, axis=2), sa[:, None]) or not np.allclose(
            np.sum(m[:, 0] * m[:, 1], axis=1), 0):
        fail('orientation marks of setup %d are not on the surface' % n)


# ------------------------------------------------------- documented inputs
def shear(rate, cen):
    G = np.zeros((3, 3))
    G[0, 2] = rate
    E = (G + G.T) / 2
    return np.array([0, rate / 2, 0]), E, np.array(cen, float)


def doc_input(n, s, dd, dt, frame):
    """(Inputs, background flow function parts) the documentation promises."""
    k, m = s.ns, s.nd
    O, E, cen = np.zeros(3), np.zeros((3, 3)), np.zeros(3)
    kw = {}
    if n in (1, 2):
        kw['Fa'] = [[0, 0, -1.]] * k
    if n == 2:
        kw.update(bl=[-4.] * 3, tr=[4.] * 3)
    if n == 3:
        L = np.linalg.norm(dd, axis=1)[:, None]
        kw['DFb'] = -(dd - 2 * dd / L)
        om = 2 * np.pi / 10
        O, E, cen = shear(om / 3 * np.cos(om * frame * dt), [2.25, 0, 2.25])
    if n == 4:
        z = lambda q: np.zeros((q, 3))
        kw['Fa'], kw['Fb'], kw['DFb'], _, edge = c26.reference(
            s, 50, 20, 0, z(k), z(m), z(m))
        if edge:
            return None
    if n == 5:
        kw['Ua'] = ([[-1., 0, 0]] * (k // 2) + [[1., 0, 0]] * (k - k // 2))
        kw['Fa'] = w.unset(k)
    if n == 7:
        O, E, cen = shear(1.0, [0, 0, 0])
    kw['Ea'] = [E.tolist() for _ in range(max(1, k))]
    return w.Inputs(s, O=O, centre=cen, **kw), O, E, cen


def step(s, n, dt, frame, form):
    """One Euler step of the documented input; None where undecidable."""
    r = doc_input(n, s, s.dd, dt, frame)
    if r is None:
        return None
    i, O, E, cen = r
    o = w.solve(s, i, form=form, frameno=frame, dt=dt)
    f = lambda x: np.cross(O, x - cen) + (x - cen) @ E
    g = lambda d: np.cross(O, d) + d @ E
    A = lambda v: np.array(v, float).reshape(-1, 3)
    return (w.System(s.sx + dt * (o['Ua'] + A([f(x) for x in s.sx])), s.sa,
                     s.dx + dt * (o['Ub'] + A([f(x) for x in s.dx])),
                     s.dd + dt * (2 * o['HalfDUb'] + A([g(d) for d in s.dd])),
                     s.da), o)


@st.composite
def applied(draw):
    n = draw(st.sampled_from([1, 3, 4, 5, 7]))
    k = draw(st.integers(0 if n in (1, 3, 4, 7) else 1, 4))
    m = draw(st.integers(0 if k else 1, 2))
    c = draw(gen.systems(spheres=(k, k), dumbbells=(m, m), sizes=(1.0, 0.1),
                         gap_lo=0.1, gap_hi=1.5, close=0.4, min_factor=1.05,
                         offset=2.0))
    c.update(n=n, dt=draw(gen.fl(0.001, 0.02)), frames=draw(st.integers(1, 3)),
             form='ufte' if n == 5 else 'fte' if k else 'fts')
    return c


def input_oracle(c):
    s = w.from_case(c)
    _, got = sim.ok(system=s, argv=sim.args(c['dt'], c['frames'], c['form'],
                                            -7, c['n']))
    follow(s, c, got)


def follow(s, c, got):
    for f in range(c['frames']):
        r = step(s, c['n'], c['dt'], f, c['form'])
        if r is None:
            return
        new, o = r
        for nm in ('Fa', 'Fb', 'DFb', 'Sa'):
            a, b = np.asarray(got[nm][f], float), np.asarray(o[nm], float)
            if a.size and not np.max(np.abs(a.ravel() - b.ravel())) <= 1e-6 * (
                    1 + np.max(np.abs(b))):
                fail('input %d: frame %d records other %s than documented'
                     % (c['n'], f, nm))
        x = np.concatenate([new.sx, new.dx])
        e = np.max(np.abs(got['centres'][f + 1] - x))
        if not e <= 1e-7 * (1 + np.max(np.abs(x))):
            fail('input %d: row %d is %.3g off the documented motion'
                 % (c['n'], f + 1, e))
        if s.nd and not np.max(np.abs(got['deltax'][f + 1] - new.dd)) <= 1e-7 * (
                1 + np.max(np.abs(new.dd))):
            fail('input %d: separations leave the documented motion' % c['n'])
        if len(x) and np.min(pair_gaps(new)) < 2.03:
            return
        s = new


def pair_gaps(s):
    pos, a = s.beads()
    return np.array([9.0] + [2 * np.linalg.norm(pos[i] - pos[j])
                             / (a[i] + a[j])
                             for i in range(len(a)) for j in range(i)])


# ---------------------------------------------------- documented commands
DURLOFSKY = [0.5018, 0.5029, 0.5054, 0.5102, 0.5183, 0.5321, 0.5559, 0.6170]


def command_oracle(c):
    if c['cmd'] == 'a':
        _, got = sim.ok(argv=[1, 1, 1, 1, 'fte'])
        F = got['Fa'][0][:, 2]
        U = got['centres'][1][:, 2] - got['centres'][0][:, 2]
        lam = F / (6 * np.pi * U)
        if not np.allclose(lam[7:], DURLOFSKY, rtol=3e-3) or not np.allclose(
                lam, lam[::-1], rtol=1e-6):
            fail('chain of 15 does not have the published drag: %s' % lam)
    elif c['cmd'] == 'c':
        _, got = sim.ok(argv=[3, 2, 1, 1, 'fte'], limit=600)
        U = -6 * np.pi * (got['centres'][1] - got['centres'][0])
        if np.max(np.abs(U[:, :2])) > 1e-4 or np.ptp(U[:, 2]) > 1e-4:
            fail('cubic array does not fall as one: %s' % U)
        if abs(U[0, 2] - 0.352) > 0.01:
            fail('cubic array falls with %.5g, published about 0.352'
                 % U[0, 2])
    elif c['cmd'] == 'b':
        # three falling spheres: paths from the package's own solver with an
        # independent stepper are C15; here the documented command itself
        _, got = sim.ok(argv=[2, 1, 128, 6, 'fte'],
                        settings=dict(timestepping_scheme='rk4'))
        x = got['centres']
        if np.max(np.abs(x[:, :, 1])) > 1e-6:
            fail('three falling spheres leave their plane')
        if not np.all(np.diff(x[:, :, 2], axis=0) < 0):
            fail('a falling sphere rises')
        # published path: the left sphere drifts right, the right one left
        if not (x[-1, 0, 0] > -5 and x[-1, 2, 0] < 7):
            fail('outer spheres do not drift inwards: %s' % x[-1])
    elif c['cmd'] == 'd':
        _, got = sim.ok(argv=[4, 3, 1, 4, 'fte'])
        x, y, d = documented(4)
        follow(w.System(x, [1.0] * 2, y, d, [0.1] * 2),
               dict(n=3, dt=1.0, frames=4, form='fte'), got)
    elif c['cmd'] == 'e':
        for seed in (0, 27, 31, 22):
            try:
                _, got = sim.ok(argv=[5, 4, 0.01, 1, 'fte'], npseed=seed,
                                limit=100)
                break
            except Hang:
                if seed == 22:
                    raise
        s = w.System(got['centres'][0], [1.0] * 41)
        z = np.zeros((0, 3))
        want = c26.reference(s, 50, 20, 0, np.zeros((41, 3)), z, z)
        if not want[4] and not np.allclose(got['Fa'][0], want[0], atol=1e-8):
            fail('random spheres do not repel as documented')
    elif c['cmd'] == 'g':
        _, got = sim.ok(argv=[7, 6, 0.01, 1, 'ufte'])
        x = got['centres']
        if not np.allclose(x[0], documented(7)[0], atol=1e-9):
            fail('the documented command starts from other places')
        v = (x[1] - x[0]) / 0.01
        if not (np.allclose(v[:45], [-1, 0, 0], atol=1e-6)
                and np.allclose(v[45:90], [1, 0, 0], atol=1e-6)):
            fail('walls do not move as documented')
        if not np.allclose(got['Fa'][0][90:], [10, 0, 0], atol=1e-6):
            fail('spheres between the walls are not pushed as documented')
        if not np.all(v[90:, 0] > 0):
            fail('spheres between the walls do not move along their push')
    elif c['cmd'] == 'h':
        _, a = sim.ok(argv=[4, 3, 0.5, 2, 'fte'])
        buf = io.BytesIO()
        np.savez_compressed(buf, **a)
        _, b = sim.ok(argv=[8, 3, 0.5, 2, 'fte'],
                      files={'FILENAME.npz': buf.getvalue()})
        for k in ('centres', 'deltax', 'Fa', 'DFb'):
            if not np.array_equal(a[k], b[k]):
                fail('replicated setup gives other %s' % k)


CMDS = [dict(cmd=k) for k in 'abcdegh']

SUBS = [
    Sub('setups', st.builds(lambda n, q: dict(n=n, seed=q),
                            st.sampled_from([1, 2, 3, 4, 5, 7]),
                            st.integers(0, 3000)), setup_oracle, 40, 300,
        shards=2, init=w.init(), examples=[dict(n=6, seed=0),
                                           dict(n=5, seed=0)],
        classify=lambda c: (True, ['setup=%d' % c['n']])),
    Sub('inputs', applied(), input_oracle, 160, 1600, shards=6, init=w.init(),
        classify=lambda c: (True, ['input=%d' % c['n'], 'form=' + c['form']])),
    Sub('commands', st.sampled_from(CMDS), command_oracle, 0, 12, shards=1,
        init=w.init(), examples=CMDS,
        classify=lambda c: (True, ['command ' + c['cmd']])),
]
