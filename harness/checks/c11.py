"""C11: a dumbbell is two force-carrying beads."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from checks import c02, c03
from common import Sub, fail
from refs import stokes

TECHNIQUE = ('metamorphic re-pairing of generated beads into dumbbells and '
             'comparison with an independent bead-level resistance')
RULE = ('One to four dumbbells with zero to two spheres, all bead radii equal '
        'where beads are re-paired. Non-trivial: two or more dumbbells, or a '
        'sphere present.')


@st.composite
def cases(draw):
    sizes = draw(st.sampled_from([(1.0,), (1.0, 0.1), (0.5, 0.05)]))
    bead = draw(st.sampled_from(sizes))
    c = draw(gen.systems(spheres=(0, 2), dumbbells=(1, 4), sizes=sizes,
                         bead_sizes=(bead,), gap_lo=4e-3, gap_hi=1.5,
                         close=0.5, offset=3.0))
    n, m = len(c['sa']), len(c['da'])
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), E=draw(gen.nstrain(n)),
             f=draw(gen.nvec(2 * m)), mu=draw(gen.logfl(0.2, 5)),
             perm=list(draw(st.permutations(range(2 * m)))),
             form=draw(st.sampled_from(['fts', 'fte'] if n else ['fts'])))
    return c


def beads_of(c):
    dx, dd = np.array(c['dx']), np.array(c['dd'])
    return np.concatenate([dx - dd / 2, dx + dd / 2])


def solve_paired(c, order):
    """Solve with bead order[k] and order[m+k] forming dumbbell k; returns
    bead velocities in the original numbering, and the sphere motion."""
    m = len(c['da'])
    x, f = beads_of(c)[order], np.array(c['f'])[order]
    s = w.System(c['sx'], c['sa'], (x[:m] + x[m:]) / 2, x[m:] - x[:m], c['da'])
    inp = w.Inputs(s, Fa=c['F'], Ta=c['T'], Sa=c['E'], Ea=c['E'],
                   Fb=f[:m] + f[m:], DFb=f[m:] - f[:m], mu=c['mu'])
    if not s.ns:
        inp.Ea, inp.Sa = [], []
    o = w.solve(s, inp, form=c['form'])
    u = np.concatenate([o['Ub'] - o['HalfDUb'], o['Ub'] + o['HalfDUb']])
    back = np.empty_like(u)
    back[order] = u
    return s, back, o


def repair_oracle(c):
    m = len(c['da'])
    s, u, o = solve_paired(c, list(range(2 * m)))
    if gen.near_cutoff(s, 2):
        return
    s2, u2, o2 = solve_paired(c, list(c['perm']))
    sc = max(np.max(np.abs(u)), np.max(np.abs(o['Ua'])) if s.ns else 0)
    tol = gen.solve_tol(s, c['mu'], c['form'])
    e = np.max(np.abs(u - u2))
    if not e <= tol * sc:
        fail('beads paired differently move differently: %.3g of %.3g'
             % (e, sc))
    forms.compare(o2, o, s, tol, 're-paired beads',
                  keys=('Ua', 'Oa', 'Ea', 'Sa'))


def bead_oracle(c):
    """The same beads through an independent bead-level resistance."""
    s, u, o = solve_paired(c, list(range(2 * len(c['da']))))
    if gen.near_cutoff(s, 2):
        return
    n, m = s.ns, s.nd
    R = np.linalg.inv(c02.reference(s, c['mu'])) + c03.expected(
        s, c['mu'], 2)[0]
    R = stokes.from_repo_order(R, n, m)
    N = 11 * n
    rhs = np.zeros(N + 6 * m)
    iu = [i for i in range(N) if i % 11 < 6] + list(range(N, N + 6 * m))
    ie = [i for i in range(N) if i % 11 >= 6]
    for i in range(n):
        rhs[11 * i:11 * i + 3] = c['F'][i]
        rhs[11 * i + 3:11 * i + 6] = c['T'][i]
        rhs[11 * i + 6:11 * i + 11] = stokes.pack(np.array(c['E'][i]))
    rhs[N:] = np.ravel(c['f'])
    if c['form'] == 'fts':
        v = np.linalg.solve(R, rhs)
    else:
        v = rhs.copy()
        v[iu] = np.linalg.solve(R[np.ix_(iu, iu)],
                                rhs[iu] - R[np.ix_(iu, ie)] @ rhs[ie])
    ref = v[N:].reshape(-1, 3)
    sc = max(np.max(np.abs(ref)), np.max(np.abs(v[iu])) * 0.1)
    e = np.max(np.abs(u - ref))
    tol = 10 * gen.solve_tol(s, c['mu'], c['form'])
    if not e <= tol * sc:
        fail('bead velocities differ from those of separate beads: %.3g of '
             '%.3g' % (e, sc))
    for i in range(n):
        e = np.max(np.abs(o['Ua'][i] - v[11 * i:11 * i + 3]))
        if not e <= tol * sc:
            fail('sphere next to dumbbells moves differently: %.3g of %.3g'
                 % (e, sc))


def cl(c):
    s = w.from_case(c)
    m = s.nd
    p = c['perm']
    swaps = p != list(range(2 * m))
    return (m > 1 or s.ns > 0), gen.sys_tags(s) + [
        'form=' + c['form'], 'repaired' if swaps else 'same pairs']


SUBS = [
    Sub('re-pairing', cases(), repair_oracle, 300, 3000, shards=4,
        init=w.init(), classify=cl),
    Sub('bead level', cases(), bead_oracle, 250, 2500, shards=4,
        init=w.init(), classify=cl),
]
