"""C31: reduced models equal the full model minus the omitted part."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import perio
import world as w
from checks import c02, c03, c12, c14
from common import Sub, fail
from refs import stokes

TECHNIQUE = ('solves of generated suspensions in every reduced mode against '
             'independently assembled resistances')
RULE = ('Suspensions with random loads in every form, far-field-only, '
        'drag-only or both, without bead-bead interactions, and by drag in '
        'periodic boxes. Non-trivial: at least two particles.')


def drag_matrix(s, mu):
    d = ([a for a in s.sa for _ in range(3)]
         + [4 / 3 * a ** 3 for a in s.sa for _ in range(3)]
         + [10 / 9 * a ** 3 for a in s.sa for _ in range(5)]
         + [2 * a for a in s.da for _ in range(3)] * 2)
    return 6 * np.pi * mu * np.diag(d)


def solve_with(R, c, s):
    """Solve the case's form with a given grand resistance."""
    n, m = s.ns, s.nd
    E = np.array(c['E'], float).reshape(-1, 3, 3)
    e5 = np.array([stokes.pack(q) for q in E]).ravel()
    N = s.ndof
    f, v = np.zeros(N), np.zeros(N)
    known_f = np.ones(N, bool)
    f[:3 * n] = np.ravel(c['F'])
    f[3 * n:6 * n] = np.ravel(c['T'])
    if c['form'] == 'fts':
        f[6 * n:11 * n] = e5
    else:
        v[6 * n:11 * n] = e5
        known_f[6 * n:11 * n] = False
    f[11 * n:11 * n + 3 * m] = np.ravel(c['Fb'])
    f[11 * n + 3 * m:] = np.ravel(c['DFb'])
    if c['form'] in ('ufte', 'ufteu'):
        k = 3 * c['k']
        v[:k] = np.ravel(c['U'][:c['k']])
        known_f[:k] = False
    if c['form'] in ('ufteu', 'duf'):
        k = 3 * c['kb']
        for o, q in ((11 * n, 'Ub'), (11 * n + 3 * m, 'H')):
            v[o:o + k] = np.ravel(c[q][:c['kb']])
            known_f[o:o + k] = False
    a, b = np.where(known_f)[0], np.where(~known_f)[0]
    v[a] = np.linalg.solve(R[np.ix_(a, a)], f[a] - R[np.ix_(a, b)] @ v[b])
    f[b] = (R @ v)[b]

    def parts(x, nm):
        A = lambda i, j: x[i:j].reshape(-1, 3)
        u5 = np.array([stokes.unpack(q) for q in x[6 * n:11 * n].reshape(-1, 5)])
        return dict(zip(nm, (A(0, 3 * n), A(3 * n, 6 * n),
                             u5.reshape(-1, 3, 3), A(11 * n, 11 * n + 3 * m),
                             A(11 * n + 3 * m, N))))
    o = parts(v, ('Ua', 'Oa', 'Ea', 'Ub', 'HalfDUb'))
    o.update(parts(f, ('Fa', 'Ta', 'Sa', 'Fb', 'DFb')))
    return o


@st.composite
def cases(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(0, 3), dumbbells=(0, 2),
                                            **gen.SOLVE)))
    c['mode'] = draw(st.sampled_from(['far', 'drag', 'both', 'full']))
    return c


def oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, 2):
        return
    far, drag = c['mode'] in ('far', 'both'), c['mode'] in ('drag', 'both')
    o = w.solve(s, forms.inputs(c, s), form=c['form'], minf_only=far, drag=drag)
    R = drag_matrix(s, c['mu']) if drag else np.linalg.inv(
        c02.reference(s, c['mu']))
    if not far:
        R = R + c03.expected(s, c['mu'], 2)[0]
    ref = solve_with(R, c, s)
    tol = 20 * gen.solve_tol(s, c['mu'], c['form'])
    forms.compare(o, ref, s, tol, 'mode %s, form %s' % (c['mode'], c['form']))


@st.composite
def stokes_drag(draw):
    c = draw(gen.systems(spheres=(0, 0), dumbbells=(1, 4),
                         sizes=(1.0, 0.1, 0.37), gap_hi=2.0))
    m = len(c['da'])
    c.update(Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)),
             mu=draw(gen.logfl(0.1, 10)))
    return c


def stokes_drag_oracle(c):
    s = w.from_case(c)
    inp = w.Inputs(s, Fb=c['Fb'], DFb=c['DFb'], mu=c['mu'], Ea=[], Sa=[])
    o = w.solve(s, inp, form='stokes_drag_dumbbells_only')
    b = 6 * np.pi * c['mu'] * s.da[:, None]
    for k, v in (('Ub', np.array(c['Fb']) / 2 / b),
                 ('HalfDUb', np.array(c['DFb']) / 2 / b)):
        if not np.max(np.abs(o[k] - v)) <= 1e-12 * np.max(np.abs(v)) + 1e-300:
            fail('%s in drag form is not force over 6 pi mu a per bead' % k)


@st.composite
def bead_bead(draw):
    c = draw(gen.table_systems(spheres=(0, 2), dumbbells=(1, 3), min_total=2,
                               **gen.SOLVE))
    c['mu'] = draw(gen.logfl(0.2, 5))
    return c


def bead_oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, 2):
        return
    n, m = s.ns, s.nd
    R, Minv = w.resistance(s, mu=c['mu'])
    M = stokes.from_repo_order(np.linalg.inv(Minv), n, m, 'mobility')
    L = stokes.from_repo_order(R - Minv, n, m)
    refM = stokes.from_repo_order(c02.reference(s, c['mu']), n, m, 'mobility')
    refL = stokes.from_repo_order(c03.expected(s, c['mu'], 2)[0], n, m)
    who = np.concatenate([np.repeat(np.arange(n), 11),
                          n + np.repeat(np.arange(m), 3),
                          n + np.repeat(np.arange(m), 3)])
    bead = np.arange(len(who)) >= 11 * n
    other = (who[:, None] != who) & np.outer(bead, bead)
    mixed = ~np.outer(bead, bead)
    for A, ref, nm in ((M, refM, 'far field'), (L, refL, 'lubrication')):
        d = np.sqrt(np.abs(np.diag(refM)))
        sc = np.outer(d, d) if A is M else 1 / np.outer(d, d)
        if other.any() and not np.max(np.abs(A[other] / sc[other])) < 1e-9:
            fail('%s couples beads of different dumbbells although bead-bead '
                 'interactions are off' % nm)
        big = 1 + np.max(np.abs(ref / sc))
        if mixed.any() and not np.max(np.abs((A - ref)[mixed] / sc[mixed])
                                      ) < 1e-8 * big:
            fail('%s of spheres changes when bead-bead interactions are off'
                 % nm)


@st.composite
def in_box(draw):
    c = draw(c14.cases())
    n, m = len(c['sa']), len(c['da'])
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), S=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)),
             mode=draw(st.sampled_from(['drag', 'both'])))
    return c


def box_oracle(c):
    s = w.from_case(c)
    b = perio.basis(c)
    if any(abs(v / 2 - c['cutoff']) < 1e-6
           for v in perio.distances(s, b).values()):
        return
    v = c12.solve(c, s, drag=True, minf_only=c['mode'] == 'both',
                  cutoff=c['cutoff'])
    f = c12.load_vector(c)
    R = drag_matrix(s, c['mu'])
    d = np.sqrt(np.diag(R))
    if c['mode'] == 'drag':
        R = R + c03.expected(s, c['mu'], c['cutoff'], perio.nearest(b))[0]
    e = np.max(np.abs((R @ v - f) / d))
    lim = 1e-8 * (np.max(np.abs(R / np.outer(d, d))) * np.sum(np.abs(d * v))
                  + np.sum(np.abs(f / d)))
    if not e <= lim:
        fail('mode %s in a box: the loads are missed by %.3g (limit %.2g)'
             % (c['mode'], e, lim))


SUBS = [
    Sub('modes', cases(), oracle, 400, 4000, shards=5, init=w.init(),
        classify=lambda c: (forms.classify(c)[0],
                            forms.classify(c)[1] + ['mode=' + c['mode']])),
    Sub('stokes drag form', stokes_drag(), stokes_drag_oracle, 150, 1500,
        shards=1, init=w.init(),
        classify=lambda c: (len(c['da']) > 1, ['db=%d' % len(c['da'])])),
    Sub('no bead-bead', bead_bead(), bead_oracle, 200, 2000, shards=2,
        init=w.init(bead_bead_interactions=False),
        classify=lambda c: (True, gen.sys_tags(w.from_case(c)))),
    Sub('in a box', in_box(), box_oracle, 200, 2000, shards=4, init=w.init(),
        classify=lambda c: (c14.cl(c)[0] or c['mode'] == 'both',
                            c14.cl(c)[1] + ['mode=' + c['mode']])),
]
