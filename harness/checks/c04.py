"""C04: reciprocity and positive dissipation."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import KnownFinding, Sub, fail

TECHNIQUE = ('invariant testing: symmetry, positive power and Lorentz '
             'reciprocity on generated suspensions')
RULE = ('Clusters of 1-6 spheres and 0-3 dumbbells (table size ratios, gaps from '
        '1e-5 upwards), in unbounded fluid or in boxes of random aspect ratio '
        'and shear. Non-trivial: at least two particles.')


@st.composite
def cases(draw):
    c = draw(gen.table_systems(spheres=(0, 6), dumbbells=(0, 3), gap_lo=1e-5,
                               gap_hi=1.5))
    c['mu'] = draw(gen.logfl(0.1, 10))
    c['cutoff'] = draw(st.one_of(st.just(2), gen.fl(1.1, 2.24)))
    return c


def check_matrix(R, what):
    d = np.sqrt(np.abs(np.diag(R)))
    if not np.all(np.isfinite(R)):
        fail('%s: not finite' % what)
    if not np.all(np.diag(R) > 0):
        return -np.inf, '%s: unit motion with negative power' % what
    Q = R / np.outer(d, d)
    asym = np.max(np.abs(Q - Q.T))
    if not asym < 1e-8:
        fail('%s: not symmetric, %.3g' % (what, asym))
    lo = np.linalg.eigvalsh((Q + Q.T) / 2)[0]
    return lo, ('%s: motion with negative power (eigenvalue %.3g)'
                % (what, lo))


def bad_table_pair(s):
    """Known finding: a 1:100 pair at 2.002 < s' < 2.025 whose own resistance,
    alone in the fluid, already has a direction of negative power."""
    pos, a = s.beads()
    for i in range(len(a)):
        for j in range(i):
            sp = 2 * np.linalg.norm(pos[i] - pos[j]) / (a[i] + a[j])
            ratio = max(a[i], a[j]) / min(a[i], a[j])
            if abs(ratio - 100) < 1e-6 and 2.002 < sp < 2.025:
                R, Minv = w.resistance(w.System([pos[i], pos[j]], [a[i], a[j]]),
                                       cutoff=2.24)
                d = np.sqrt(np.diag(Minv))
                if np.linalg.eigvalsh(R / np.outer(d, d))[0] < 0.5:
                    return True
    return False


def oracle(c):
    s = w.from_case(c)
    R, Minv = w.resistance(s, mu=c['mu'], cutoff=c['cutoff'])
    lo, msg = check_matrix(Minv, 'far field')
    if not lo > 0:
        fail(msg)
    lo, msg = check_matrix(R, 'far field + lubrication')
    if not lo > 0:
        if bad_table_pair(s):
            raise KnownFinding('ratio-100-table', msg)
        fail(msg)


@st.composite
def reciprocal(draw):
    c = draw(gen.table_systems(spheres=(0, 3), dumbbells=(0, 2),
                               **gen.SOLVE))
    n, m = len(c['sa']), len(c.get('da', []))
    for k in '12':
        c.update({'F' + k: draw(gen.nvec(n)), 'T' + k: draw(gen.nvec(n)),
                  'E' + k: draw(gen.nstrain(n)), 'S' + k: draw(gen.nstrain(n)),
                  'Fb' + k: draw(gen.nvec(m)), 'DFb' + k: draw(gen.nvec(m))})
    c['form'] = draw(st.sampled_from(['fts', 'fte'] if n else ['fts']))
    return c


def recip_oracle(c):
    """Lorentz: power of load 1 on motion 2 equals load 2 on motion 1."""
    s = w.from_case(c)
    L = float(np.mean(np.concatenate([s.sa, s.da])))
    out = []
    for k in '12':
        inp = w.Inputs(s, Fa=c['F' + k], Ta=np.array(c['T' + k]).reshape(-1, 3) * L,
                       Sa=np.array(c['S' + k]).reshape(-1, 3, 3) * L,
                       Ea=np.array(c['E' + k]).reshape(-1, 3, 3) / L ** 2,
                       Fb=c['Fb' + k], DFb=c['DFb' + k])
        out.append(w.solve(s, inp, form=c['form']))

    def power(f, v):
        terms = [f['Fa'] * v['Ua'], f['Ta'] * v['Oa'], f['Sa'] * v['Ea'],
                 f['Fb'] * v['Ub'], f['DFb'] * v['HalfDUb']]
        return sum(t.sum() for t in terms), sum(np.abs(t).sum() for t in terms)
    a, sa = power(out[0], out[1])
    b, sb = power(out[1], out[0])
    p1, p2 = power(out[0], out[0])[1], power(out[1], out[1])[1]
    if not abs(a - b) <= 10 * gen.solve_tol(s, 1, c['form']) * (sa + sb + np.sqrt(p1 * p2)):
        fail("reciprocal theorem violated: %.9g vs %.9g (self powers %.3g, %.3g)" % (a, b, p1, p2))
    for o in out:
        p, q = power(o, o)
        if not p >= -1e-10 * q:
            if bad_table_pair(s):
                raise KnownFinding('ratio-100-table', 'negative dissipation')
            fail('negative dissipation %.3g' % p)


def cl(c):
    s = w.from_case(c)
    return s.ns + s.nd >= 2, gen.sys_tags(s)


SUBS = [
    Sub('matrix', cases(), oracle, 400, 5000, shards=5, init=w.init(), classify=cl),
    Sub('reciprocal', reciprocal(), recip_oracle, 250, 2500, shards=3,
        init=w.init(), classify=cl),
]
