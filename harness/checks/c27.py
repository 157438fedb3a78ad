"""C27: shear helpers return a consistent simple shear and its integral."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('generated calls against the velocity gradient of a simple shear '
             'and numerical integration in time')
RULE = ('Amplitudes, rates, periods, phases, fractional frames, planes, '
        'transposition and direction. Non-trivial: non-zero rate.')


@st.composite
def osc(draw):
    return dict(amp=draw(gen.sym(3)), period=draw(gen.fl(0.2, 30)),
                frame=draw(gen.fl(0, 50)) if draw(st.booleans())
                else float(draw(st.integers(0, 200))),
                dt=draw(gen.logfl(1e-3, 2)), phase=draw(st.one_of(
                    st.just(0.0), gen.sym(7))), cen=draw(gen.vec(5)),
                n=draw(st.integers(0, 5)), axis=draw(st.sampled_from([1, 2])),
                tr=draw(st.booleans()), opp=draw(st.booleans()))


def gradient(O, E):
    """u_i = G_ij x_j for rotation O and strain E."""
    O = np.asarray(O, float)
    W = np.array([[0, -O[2], O[1]], [O[2], 0, -O[0]], [-O[1], O[0], 0]])
    return W + np.asarray(E, float)


def shape_checks(out, n, cen):
    Ea, U, O, c, Ot, Et = out
    Ea = np.array(Ea, float)
    if Ea.shape != (max(n, 1), 3, 3):
        fail('strain given with shape %s for %d spheres' % (Ea.shape, n))
    if not np.array_equal(np.asarray(c, float), np.array(cen, float)):
        fail('flow centre changed')
    if np.any(np.asarray(U, float)):
        fail('shear carries a uniform stream')
    for E in list(Ea) + [np.array(Et, float)]:
        if not np.array_equal(E, E.T) or abs(np.trace(E)) > 0:
            fail('strain is not symmetric and traceless')
    if not all(np.array_equal(E, Ea[0]) for E in Ea):
        fail('spheres see different strains')
    return gradient(O, Ea[0]), gradient(Ot, Et)


def osc_oracle(c):
    f = w.find('oscillatory_shear', 'setups.functions_inputs')
    out = f(c['amp'], c['period'], c['frame'], c['dt'], c['phase'],
            np.array(c['cen']), c['n'], c['axis'], c['tr'], c['opp'])
    G, Gt = shape_checks(out, c['n'], c['cen'])
    om = 2 * np.pi / c['period']
    ph = om * c['frame'] * c['dt'] + c['phase']
    sg = -1 if c['opp'] else 1
    rate, strain = sg * c['amp'] * om * np.cos(ph), sg * c['amp'] * np.sin(ph)
    i, j = (0, 2) if c['axis'] == 1 else (0, 1)
    if c['tr']:
        i, j = j, i
    tol = 1e-12 * abs(c['amp']) * (1 + om) * (1 + abs(ph))
    for got, val, nm in ((G, rate, 'velocity gradient'),
                         (Gt, strain, 'accumulated shear')):
        want = np.zeros((3, 3))
        want[i, j] = val
        if not np.max(np.abs(got - want)) <= tol:
            fail('%s is %s instead of %.9g in entry (%d, %d)'
                 % (nm, got.tolist(), val, i, j))


@st.composite
def const(draw):
    return dict(g=draw(gen.sym(5)), frame=draw(gen.fl(0, 200)),
                dt=draw(gen.logfl(1e-3, 2)), cen=draw(gen.vec(5)),
                n=draw(st.integers(0, 5)))


def const_oracle(c):
    f = w.find('constant_shear', 'setups.functions_inputs')
    out = f(c['g'], c['frame'], c['dt'], np.array(c['cen']), c['n'])
    G, Gt = shape_checks(out, c['n'], c['cen'])
    t = c['frame'] * c['dt']
    for got, val, nm in ((G, c['g'], 'velocity gradient'),
                         (Gt, c['g'] * t, 'accumulated shear')):
        want = np.zeros((3, 3))
        want[0, 2] = val
        if not np.max(np.abs(got - want)) <= 1e-12 * (1 + abs(val)):
            fail('%s is %s instead of %.9g for u_x over z'
                 % (nm, got.tolist(), val))


@st.composite
def boxes(draw):
    c = draw(osc())
    c['L'] = [draw(gen.fl(5, 12)) for _ in range(3)]
    c['amp'] = draw(gen.sym(2))
    return c


def box_oracle(c):
    """The sheared box follows the fluid: its tilted vector moves with the
    velocity difference across the box."""
    f = w.find('oscillatory_shear', 'setups.functions_inputs')
    sb = w.find('shear_basis_vectors')
    if sb is None:
        return
    L = np.array(c['L'])

    def at(frame):
        o = f(c['amp'], c['period'], frame, c['dt'], c['phase'],
              np.zeros(3), c['n'], c['axis'], c['tr'], c['opp'])
        return gradient(o[2], o[0][0]), np.array(sb(
            np.diag(L), L, np.array(o[4], float), np.array(o[5], float)))
    G, B0 = at(c['frame'])
    h = 1e-5 / (1 + c['dt'] / c['period'])
    Bp, Bm = at(c['frame'] + h)[1], at(c['frame'] - h)[1]
    d = Bp - Bm
    d -= L * np.round(d / L)         # whole box lengths do not matter
    got = d / (2 * h * c['dt'])
    want = np.array([G @ (L[k] * np.eye(3)[k]) for k in range(3)])
    om = 2 * np.pi / c['period']
    tol = 1e-4 * (abs(c['amp']) * L.max() * (om + 1) * (1 + om) ** 2
                  + 1e-6 / (h * c['dt']) * 1e-6 + 1e-3)
    if not np.max(np.abs(got - want)) <= tol:
        fail('box vectors move with %s, the flow with %s'
             % (got.tolist(), want.tolist()))


SUBS = [
    Sub('oscillatory', osc(), osc_oracle, 500, 5000, shards=1, init=w.init(),
        classify=lambda c: (c['amp'] != 0, ['axis=%d' % c['axis'],
                                            'transposed=%s' % c['tr'],
                                            'opposite=%s' % c['opp']])),
    Sub('constant', const(), const_oracle, 300, 3000, shards=1, init=w.init(),
        classify=lambda c: (c['g'] != 0, [])),
    Sub('box', boxes(), box_oracle, 300, 3000, shards=1, init=w.init(),
        classify=lambda c: (c['amp'] != 0, [])),
]
