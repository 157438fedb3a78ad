"""C13: periodic images are interchangeable."""
import numpy as np
from hypothesis import strategies as st

import gen
import perio
import world as w
from checks import c12
from common import Sub, fail

TECHNIQUE = ('metamorphic testing of periodic solves: lattice shifts, '
             'translations, full-period shears and replicated boxes')
RULE = ('One to four particles under generated loads with lubrication on. '
        'Non-trivial: a change was made to a box with two or more particles, '
        'or to the box of one.')


@st.composite
def cases(draw):
    c = draw(perio.systems((0, 2), (0, 1), sizes=(1.0, 0.1), lo=8.0,
                           near=(0.02, 0.8), amin=2.04))
    n, m = len(c['sa']), len(c['da'])
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), S=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)), mu=1.0,
             kind=draw(st.sampled_from(['shift', 'translate', 'shear']
                                       if c.get('tilt') else
                                       ['shift', 'translate'])))
    if c['kind'] == 'shift':
        sg = draw(st.sampled_from([1, -1]))
        c['shift'] = [[sg * draw(st.integers(0, 1)) for _ in range(3)]
                      for _ in range(n + m)]
    elif c['kind'] == 'translate':
        c['by'] = draw(gen.vec(0.5))
    else:
        c['turns'] = draw(st.sampled_from([-3, -1, 1, 2, 7]))
    return c


def changed(c):
    d = dict(c)
    b = perio.basis(c)
    n = len(c['sa'])
    x = np.array(c['sx'] + c['dx'], float).reshape(-1, 3)
    if c['kind'] == 'shift':
        x = x + np.array(c['shift'], float) @ b
    elif c['kind'] == 'translate':
        x = x + np.array(c['by']) @ b
        fr = x @ np.linalg.inv(b)
        x = x - np.round(fr) @ b          # and back into the box
    else:
        i, j = c['tilt']
        d['g'] = c['g'] + c['turns'] * c['box'][j] / c['box'][i]
    d.update(sx=x[:n].tolist(), dx=x[n:].tolist())
    return d


def scale(c, s):
    """Drag-based sizes of each component, for relative differences."""
    d = np.sqrt(np.abs(np.diag(perio.mobility(
        w.System(s.sx, s.sa, s.dx, s.dd, s.da), 1.0, 1e3 * np.eye(3)))))
    return d


def oracle(c):
    s = w.from_case(c)
    if gen_near(c):
        return
    d = changed(c)
    u, v = c12.solve(c, s), c12.solve(d, w.from_case(d))
    D = scale(c, s)
    f = np.sum(np.abs(D * c12.load_vector(c)))
    e = np.max(np.abs((u - v) / D))
    lim = 2e-5 * f + 1e-12
    if not e <= lim:
        fail('%s changes the computed motion by %.3g (limit %.2g)'
             % (c['kind'], e, lim))


def gen_near(c, cutoff=2):
    """A pair sitting on the cutoff may fall on either side."""
    return any(abs(v / 2 - cutoff) < 1e-6 for v in perio.distances(
        w.from_case(c), perio.basis(c)).values())


@st.composite
def replicated(draw):
    c = draw(perio.systems((0, 2), (0, 1), sizes=(1.0, 0.1), lo=8.0,
                           near=(0.02, 0.8), amin=2.04, aspect=1.2))
    if len(c['sa']) + len(c['da']) > 2:
        c['sx'], c['sa'] = c['sx'][:1], c['sa'][:1]
    n, m = len(c['sa']), len(c['da'])
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), S=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)), mu=1.0,
             axis=draw(st.integers(0, 2)))
    return c


def double(c):
    """The box and its contents twice, side by side along one box vector.

    A sheared vector keeps its own direction only if the strain is kept too,
    and then its offset doubles along with its length.
    """
    k = c['axis']
    b = perio.basis(c)
    d = dict(c)
    L = list(c['box'])
    L[k] = 2 * L[k]
    d['box'] = L
    for key in ('sx', 'dx'):
        x = np.array(c[key], float).reshape(-1, 3)
        d[key] = np.concatenate([x, x + b[k]]).tolist()
    for key in ('sa', 'da', 'dd', 'F', 'T', 'S', 'Fb', 'DFb'):
        d[key] = list(c[key]) * 2
    return d


def rep_oracle(c):
    d = double(c)
    b, bb = perio.basis(c), perio.basis(d)
    want = b.copy()
    want[c['axis']] *= 2
    # doubled lattice must be a sublattice spanned by the doubled vectors
    k = bb @ np.linalg.inv(want)
    if not np.allclose(k, np.round(k), atol=1e-7):
        return
    if gen_near(c):
        return
    s, t = w.from_case(c), w.from_case(d)
    _, cut1 = perio.far_field(c, s)
    _, cut2 = perio.far_field(d, t)
    u, v = c12.solve(c, s), c12.solve(d, t)
    n, m = s.ns, s.nd
    D = scale(c, s)
    f = np.sum(np.abs(D * c12.load_vector(c)))
    o = np.cumsum([0, 3 * n, 3 * n, 5 * n, 3 * m, 3 * m])
    for copy in (0, 1):
        part = np.concatenate([v[2 * o[q] + copy * (o[q + 1] - o[q]):][
            :o[q + 1] - o[q]] for q in range(5)])
        e = np.max(np.abs((u - part) / D))
        lim = (1e-6 + 20 * (cut1 + cut2)) * f + 1e-12
        if not e <= lim:
            fail('in a doubled box copy %d moves differently by %.3g '
                 '(limit %.2g)' % (copy, e, lim))


SUBS = [
    Sub('images', cases(), oracle, 160, 1600, shards=8, init=w.init(),
        classify=lambda c: (True, perio.tags(c)[1] + [c['kind']])),
    Sub('doubled box', replicated(), rep_oracle, 60, 500, shards=8,
        init=w.init(), classify=lambda c: (True, perio.tags(c)[1])),
]
