"""C03: lubrication is pairwise, additive and stops at the cutoff."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import Sub, fail
from refs import stokes

TECHNIQUE = ('metamorphic testing: cluster lubrication against the sum '
             'of isolated pairs of generated clusters')
RULE = ('Clusters of 2-6 spheres/dumbbells with table size ratios and a random '
        'cutoff factor in [1.005, 2.24]. Non-trivial: at least one pair inside '
        'and, for more than half of the classes, at least one outside.')


@st.composite
def cases(draw):
    c = draw(gen.table_systems(spheres=(0, 5), dumbbells=(0, 2), min_total=2,
                               gap_hi=1.6))
    c['cutoff'] = draw(st.one_of(st.just(2), gen.fl(1.005, 2.24)))
    c['mu'] = draw(gen.logfl(0.1, 10))
    return c


def pair_lub(x1, a1, x2, a2, mu, cutoff):
    """22x22 correction of an isolated pair, order U1 O1 E1 U2 O2 E2."""
    s = w.System([x1, x2], [a1, a2])
    L = w.lub_part(s, mu=mu, cutoff=cutoff)
    idx = []
    for i in range(2):
        idx += [3 * i + k for k in range(3)] + [6 + 3 * i + k for k in range(3)]
        idx += [12 + 5 * i + k for k in range(5)]
    return L[np.ix_(idx, idx)]


def expected(s, mu, cutoff, disp=None):
    """Sum of isolated-pair corrections in the package's ordering."""
    pos, a = s.beads()
    n, N = s.ns, len(a)
    dof = [11 if i < n else 3 for i in range(N)]
    off = np.concatenate([[0], np.cumsum(dof)]).astype(int)
    R = np.zeros((off[-1], off[-1]))
    npairs = nout = 0
    for i in range(N):
        for j in range(i + 1, N):
            r = pos[j] - pos[i] if disp is None else disp(pos[j] - pos[i])
            if np.linalg.norm(r) >= cutoff * (a[i] + a[j]):
                nout += 1
                continue
            npairs += 1
            P = pair_lub(np.zeros(3), a[i], r, a[j], mu, 2.24)
            ki, kj = np.arange(dof[i]), 11 + np.arange(dof[j])
            gi, gj = off[i] + np.arange(dof[i]), off[j] + np.arange(dof[j])
            for (ga, ka) in ((gi, ki), (gj, kj)):
                for (gb, kb) in ((gi, ki), (gj, kj)):
                    R[np.ix_(ga, gb)] += P[np.ix_(ka, kb)]
    return stokes.to_repo_order(R, n, s.nd, kind='resistance'), npairs, nout


def oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, c['cutoff']):
        return
    L = w.lub_part(s, mu=c['mu'], cutoff=c['cutoff'])
    ref, npairs, _ = expected(s, c['mu'], c['cutoff'])
    _, Minv = w.resistance(s, mu=c['mu'], minf_only=True)
    d = np.sqrt(np.diag(Minv))
    err = np.max(np.abs(L - ref) / np.outer(d, d))
    lim = 1e-9 * (1 + np.max(np.abs(ref) / np.outer(d, d)))
    if not err < lim:
        fail('lubrication of the suspension differs from the sum over its %d '
             'close pairs by %.3g (limit %.3g, scaled by drag)'
             % (npairs, err, lim))


def cl(c):
    s = w.from_case(c)
    pos, a = s.beads()
    k = o = 0
    for i in range(len(a)):
        for j in range(i):
            if np.linalg.norm(pos[i] - pos[j]) < c['cutoff'] * (a[i] + a[j]):
                k += 1
            else:
                o += 1
    return k > 0, gen.sys_tags(s) + ['inside=%s' % min(k, 5),
                                     'outside' if o else 'none outside']


@st.composite
def edge(draw):
    """One pair just inside or just outside the cutoff."""
    a = draw(st.sampled_from([1.0, 2.5]))
    lam = draw(st.sampled_from([1.0, 0.1, 10.0, 0.01, 100.0]))
    return dict(a=a, b=a * lam, d=draw(gen.direction()),
                cutoff=draw(gen.fl(1.01, 2.24)),
                eps=draw(gen.logfl(1e-6, 1e-2)),
                kind=draw(st.sampled_from(['ss', 'sb', 'bb'])))


def edge_system(c, factor):
    r = np.array(c['d']) * factor * (c['a'] + c['b'])
    if c['kind'] == 'ss':
        return w.System([[0, 0, 0], r], [c['a'], c['b']])
    # the spare beads sit far away
    far = np.array(c['d']) * 1e4 * (c['a'] + c['b'])
    if c['kind'] == 'sb':
        return w.System([[0, 0, 0]], [c['a']], [(r + far) / 2], [far - r],
                        [c['b']])
    return w.System([], [], [r / 2], [r], [c['a']])


def edge_oracle(c):
    if c['kind'] == 'bb':
        c = dict(c, b=c['a'])
    for sign in (-1, 1):
        s = edge_system(c, c['cutoff'] * (1 + sign * c['eps']))
        L = w.lub_part(s, cutoff=c['cutoff'])
        d = np.sqrt(np.diag(w.resistance(s, minf_only=True)[1]))
        big = np.max(np.abs(L / np.outer(d, d)))
        if sign < 0 and not big > 1e-9:
            fail('pair just inside the cutoff gets no lubrication')
        if sign > 0 and not big < 1e-9:
            fail('pair just outside the cutoff gets lubrication %.3g' % big)


SUBS = [
    Sub('sum', cases(), oracle, 320, 3000, shards=7, init=w.init(), classify=cl),
    Sub('edge', edge(), edge_oracle, 150, 1500, shards=1, init=w.init(),
        classify=lambda c: (True, [c['kind']])),
]
