"""C10: suspensions in straining flow respond as rigid spheres do."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from checks import c02, c03
from common import KnownFinding, Sub, fail
from refs import stokes

TECHNIQUE = ('whole runs in generated straining flows against a resistance '
             'problem for rigid spheres put together independently')
RULE = ('One to three free spheres, sometimes dumbbells, in generated straining '
        'flow. Non-trivial: at least two particles and a strain.')


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(1, 3), dumbbells=(0, 1), frames=(1, 1),
                       flow=False, timedep=False, form='fte', scheme='euler',
                       gap_hi=1.0))
    n, m = len(c['sa']), len(c['da'])
    z = [0.] * 3
    c.update(F=[z] * n, T=[z] * n, Fb=[z] * m, DFb=[z] * m)
    c.update(U=draw(gen.vec(1.0)), O=draw(gen.vec(1.0)), cen=draw(gen.vec(3.0)),
             E=draw(gen.strain(1.0)))
    return c


def oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, 2):
        return
    n, m = s.ns, s.nd
    _, got = traj.run(c)
    E = np.array(c['E'])
    O = np.array(c['O'])
    x = got['centres']
    f = np.array(c['U']) + np.cross(O, x[0] - c['cen']) + (x[0] - c['cen']) @ E
    dis = (x[1] - x[0]) / c['dt'] - f
    if m:
        d0 = got['deltax'][0]
        half = ((got['deltax'][1] - d0) / c['dt']
                - (np.cross(O, d0) + d0 @ E)) / 2
    # rigid spheres: strain relative to the fluid is -E, no force, no torque
    R = np.linalg.inv(c02.reference(s, c['mu'])) + c03.expected(
        s, c['mu'], 2)[0]
    e5 = np.tile(stokes.pack(E), n)
    iu = np.concatenate([np.arange(6 * n), 11 * n + np.arange(6 * m)])
    ie = 6 * n + np.arange(5 * n)
    v = np.linalg.solve(R[np.ix_(iu, iu)], R[np.ix_(iu, ie)] @ e5)
    S = R[np.ix_(ie, ie)] @ e5 - R[np.ix_(ie, iu)] @ v
    S = np.array([stokes.unpack(q) for q in S.reshape(n, 5)])
    ref = np.concatenate([v[:3 * n], v[6 * n:6 * n + 3 * m]]).reshape(-1, 3)
    gS = got['Sa'][0]
    if gS.shape != (n, 3, 3):
        fail('stresslets recorded with shape %s' % (gS.shape,))
    sc = np.max(np.abs(S)) + 1e-12
    err = np.max(np.abs(gS - S))
    if not err <= 1e-6 * sc:
        fail('reported stresslet differs from that of rigid spheres in the '
             'straining flow by %.3g of %.3g' % (err, sc))
    tol = 1e-7 * (np.max(np.abs(E)) * max(s.sa.max(), np.max(np.abs(x)))
                  + np.max(np.abs(f)) + 1)
    if m:
        ref = np.concatenate([ref, v[6 * n + 3 * m:].reshape(-1, 3)])
        dis = np.concatenate([dis, half])
    err = np.max(np.abs(dis - ref))
    if not err <= tol:
        opp = np.max(np.abs(dis + ref))
        msg = ('disturbance velocity differs from that of rigid spheres by '
               '%.3g (size %.3g)' % (err, np.max(np.abs(ref))))
        if opp <= tol:
            raise KnownFinding('strain-sign', msg + '; it is the exact '
                               'opposite')
        fail(msg)


@st.composite
def single(draw):
    a = draw(gen.logfl(0.1, 10))
    return dict(a=a, E=draw(gen.strain(2.0)), mu=draw(gen.logfl(0.1, 10)),
                x=draw(gen.vec(5)))


def single_oracle(c):
    s = w.System([c['x']], [c['a']])
    o = w.solve(s, w.Inputs(s, Ea=[c['E']], mu=c['mu']), form='fte')
    want = 20 / 3 * np.pi * c['mu'] * c['a'] ** 3 * np.array(c['E'])
    # the package's unit blocks limit precision to (mu a^3)^2 roundings
    tol = 1e-8 * max(1, (c['mu'] * c['a'] ** 3) ** 1)
    e = np.max(np.abs(o['Sa'][0] - want))
    if not e <= tol * np.max(np.abs(want)) + 1e-14:
        fail('stresslet of one sphere off by %.3g of %.3g'
             % (e, np.max(np.abs(want))))


SUBS = [
    Sub('suspension', cases(), oracle, 220, 2000, shards=7, init=w.init(),
        classify=lambda c: (len(c['sa'] + c['da']) > 1,
                            traj.classify(c)[1])),
    Sub('one sphere', single(), single_oracle, 200, 2000, shards=1,
        init=w.init(), classify=lambda c: (True, [])),
]
