"""C01: pairs of spheres against the exact two-sphere Stokes solution."""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import KnownFinding, Sub, fail
from refs import stokes, twosphere

TECHNIQUE = ('differential testing of generated pairs against an independent '
             'multipole solution of two spheres in Stokes flow')
RULE = ('Pairs with a supported size ratio in a random direction, order, size, '
        'place and viscosity, at every tabulated gap (pair, moving) or between '
        'two of them (between). Non-trivial: the pair is inside the cutoff.')

_t = np.load(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'refs', 'twosphere.npz'))
LAM, XI = _t['lam'], _t['xi']
EXACT, SHIPPED = _t['exact'], _t['shipped']
GAPS = sorted(set(XI))
IDX = [k for i in range(2) for k in
       [3 * i, 3 * i + 1, 3 * i + 2, 6 + 3 * i, 7 + 3 * i, 8 + 3 * i]
       + [12 + 5 * i + j for j in range(5)]]
KEY = 'unequal-pair-table'
MSG = ('spheres of size ratio %g at gap %g: the shipped resistance table is off '
       'the exact solution by %.2g')


def row(lam, xi):
    return int(np.argmin(abs(LAM - lam) + abs(XI - xi)))


def tol(xi):
    return 5e-3 if xi < 0.19 else 5e-4


def place(table, c):
    """Table entry (unit sphere, sphere lam along z) in the case's geometry,
    ordered larger sphere first."""
    R = twosphere.rotate(table, c['d'])
    a = c['a']
    u = np.tile(np.repeat([1, a, a], [3, 3, 5]), 2)
    return R * np.outer(u, u) * a * c['mu']


def pair(c, xi):
    r = np.array(c['d']) * c['a'] * (1 + c['lam']) * (1 + xi / 2)
    x, a = [np.array(c['at']), np.array(c['at']) + r], [c['a'], c['a'] * c['lam']]
    return w.System(x[::-1], a[::-1]) if c['swap'] else w.System(x, a)


def big_first(R, c):
    R = R[np.ix_(IDX, IDX)]
    if c['swap']:
        k = list(range(11, 22)) + list(range(11))
        R = R[np.ix_(k, k)]
    return R


def judge(err, shipped_err, c, lim):
    """err: distance to the exact answer; shipped_err: to what the shipped
    table is recorded to give, where that table is known to be wrong."""
    if err < lim:
        return
    if shipped_err is not None and shipped_err < 1e-6:
        raise KnownFinding(KEY, MSG % (c['lam'], c['xi'], err))
    fail('spheres of size ratio %g at gap %g: %.3g away from the exact '
         'two-sphere solution (limit %g)' % (c['lam'], c['xi'], err, lim))


@st.composite
def cases(draw, between=False, sizes=(1.0, 2.5, 0.2), mu=(0.2, 5), first=0):
    c = dict(lam=draw(st.sampled_from([1.0, 0.1, 0.01])),
             swap=draw(st.booleans()), d=draw(gen.direction()),
             a=draw(st.sampled_from(list(sizes))),
             mu=draw(gen.logfl(*mu)),
             at=draw(st.one_of(st.just([0., 0., 0.]), gen.vec(3))))
    k = draw(st.integers(first, len(GAPS) - 1 - between))
    c['xi'] = float(GAPS[k])
    if between:
        c['u'] = draw(gen.fl(0.001, 0.999))
    return c


def gap(xi):
    return xi * (1 + 1e-7)        # never below the first tabulated gap


def oracle(c):
    s = pair(c, gap(c['xi']))
    R = big_first(w.resistance(s, mu=c['mu'], cutoff=2.3)[0], c)
    k = row(c['lam'], c['xi'])
    err, se = np.inf, None
    E = place(EXACT[k], c)
    known = np.isfinite(SHIPPED[k]).all()
    P = place(SHIPPED[k], c)
    D = np.sqrt(np.diag(E if np.isfinite(E).all() else P))
    if np.isfinite(E).all():
        err = np.max(np.abs(R - E) / np.outer(D, D))
    if known:
        se = np.max(np.abs(R - P) / np.outer(D, D)) / max(
            1, np.max(np.abs(P) / np.outer(D, D))) / 10
    judge(err, se, c, tol(c['xi']))


@st.composite
def moving(draw):
    # the stresslet elimination loses precision at smaller gaps and for larger
    # resistances (gen.solve_tol)
    c = draw(cases(sizes=[1.0, 0.2], mu=(0.2, 1), first=GAPS.index(1e-3)))
    c['F'], c['T'] = draw(gen.nvec(2)), draw(gen.nvec(2))
    return c


def moving_oracle(c):
    s = pair(c, gap(c['xi']))
    a = s.sa[:, None]
    F = np.array(c['F']) * c['mu'] * a
    T = np.array(c['T']) * c['mu'] * a ** 2
    o = w.solve(s, w.Inputs(s, Fa=F, Ta=T, mu=c['mu']), cutoff=2.3)
    order = [1, 0] if c['swap'] else [0, 1]
    v = np.concatenate([np.concatenate([o['Ua'][i], o['Oa'][i], np.zeros(5)])
                        for i in order])
    f = np.concatenate([np.concatenate([F[i], T[i], stokes.pack(o['Sa'][i])])
                        for i in order])
    k = row(c['lam'], c['xi'])
    scale = EXACT[k] if np.isfinite(EXACT[k]).all() else SHIPPED[k]

    def miss(table):
        M = place(table, c)
        D = np.sqrt(np.diag(place(scale, c)))
        size = max(np.sum(D * np.abs(v)), np.max(np.abs(f) / D))
        return np.max(np.abs(M @ v - f) / D) / (size or 1.0)
    lim = tol(c['xi'])
    err = miss(EXACT[k]) if np.isfinite(EXACT[k]).all() else np.inf
    se = miss(SHIPPED[k]) / 10 if np.isfinite(SHIPPED[k]).all() else None
    if se is not None:
        se -= gen.solve_tol(s, c['mu']) / 10
    judge(err, se, c, lim)


def between_oracle(c):
    k = GAPS.index(c['xi'])
    lo, hi = GAPS[k], GAPS[k + 1]
    xi = lo + c['u'] * (hi - lo)
    L = []
    W = twosphere.turn(c['d'])      # into the frame of the line of centres
    for g in (gap(lo), xi, hi):
        s = pair(c, g)
        M = big_first(w.lub_part(s, mu=c['mu'], cutoff=2.3), c)
        L.append(W.T @ M @ W)
    D = np.sqrt(np.diag(place(EXACT[row(c['lam'], 2.5)], dict(c, d=[0, 0, 1]))))
    A, X, B = [m / np.outer(D, D) for m in L]
    slack = 1e-6 * (1 + max(np.max(np.abs(A)), np.max(np.abs(B))))
    below = np.minimum(A, B) - X
    above = X - np.maximum(A, B)
    worst = max(np.max(below), np.max(above))
    if not worst < slack:
        fail('lubrication at gap %.9g is outside the values at the tabulated '
             'gaps %g and %g by %.3g' % (xi, lo, hi, worst))


def cl(c):
    x = c['xi']
    return True, ['ratio=%g' % c['lam'], 'small first' if c['swap'] else
                  'large first', 'gap<0.001' if x < .001 else 'gap<0.05'
                  if x < .05 else 'gap>=0.05']


SUBS = [
    Sub('pair', cases(), oracle, 700, 6000, shards=3, init=w.init(), classify=cl),
    Sub('moving', moving(), moving_oracle, 500, 5000, shards=3, init=w.init(),
        classify=cl),
    Sub('between', cases(between=True), between_oracle, 300, 3000, shards=2,
        init=w.init(), classify=cl),
]
