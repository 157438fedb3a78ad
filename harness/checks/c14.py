"""C14: lubrication acts between nearest images across box faces."""
import numpy as np
from hypothesis import strategies as st

import gen
import perio
import world as w
from checks import c03
from common import Sub, fail

TECHNIQUE = ('metamorphic testing: periodic lubrication of generated sheared '
             'boxes against the sum of isolated nearest-image pairs')
RULE = ('One to six spheres and dumbbells of table size ratios in boxes large '
        'against the cutoff. Non-trivial: at least one pair inside the '
        'cutoff.')


@st.composite
def cases(draw):
    sizes = draw(st.sampled_from([(1.0,), (1.0, 0.1), (2.0,), (0.5, 0.05),
                                  (1.0, 0.01)]))
    a = max(sizes)
    c = draw(perio.systems((0, 4), (0, 2), sizes=sizes, lo=12.5 * a, hi=20 * a,
                           aspect=2.0, tilt=0.97, amin=2.0005, close=0.8,
                           near=(1e-3, 1.2)))
    c.update(cutoff=draw(st.one_of(st.just(2), gen.fl(1.005, 2.24))),
             mu=draw(gen.logfl(0.1, 10)))
    return c


def lub(c, s, cutoff, mu):
    """Lubrication part alone; the slow far field is handed over as zero."""
    Ot, Et = perio.strain_of(c)
    R, _ = w.resistance(s, mu=mu, cutoff=cutoff, box=perio.box(c), Ot=Ot,
                        Et=Et, regenerate=False,
                        last=np.zeros((s.ndof, s.ndof)))
    return R


def oracle(c):
    s = w.from_case(c)
    b = perio.basis(c)
    if any(abs(v / 2 - c['cutoff']) < 1e-6
           for v in perio.distances(s, b).values()):
        return
    L = lub(c, s, c['cutoff'], c['mu'])
    ref, npairs, _ = c03.expected(s, c['mu'], c['cutoff'], perio.nearest(b))
    a = s.sa
    d = np.sqrt(6 * np.pi * c['mu'] * np.concatenate([
        np.repeat(a, 3), np.repeat(a ** 3, 3), np.repeat(a ** 3, 5),
        np.repeat(s.da, 3), np.repeat(s.da, 3)]))
    e = np.max(np.abs(L - ref) / np.outer(d, d))
    lim = 1e-8 * (1 + np.max(np.abs(ref) / np.outer(d, d)))
    if not e <= lim:
        fail('periodic lubrication differs from the sum over its %d nearest-'
             'image pairs by %.3g (limit %.2g)' % (npairs, e, lim))


def cl(c):
    s = w.from_case(c)
    k = sum(v / 2 < c['cutoff'] for v in perio.distances(
        s, perio.basis(c)).values())
    return k > 0, perio.tags(c)[1] + ['inside=%d' % min(k, 5)]


@st.composite
def full(draw):
    """Also through the solver, far field included."""
    c = draw(perio.systems((1, 2), (0, 1), sizes=(1.0,), lo=9.0, hi=11.0,
                           close=0.9, near=(0.01, 0.5)))
    c['mu'] = draw(gen.logfl(0.1, 10))
    return c


def full_oracle(c):
    s = w.from_case(c)
    b = perio.basis(c)
    if any(abs(v / 2 - 2) < 1e-6 for v in perio.distances(s, b).values()):
        return
    Ot, Et = perio.strain_of(c)
    R, Minv = w.resistance(s, mu=c['mu'], box=perio.box(c), Ot=Ot, Et=Et)
    ref = c03.expected(s, c['mu'], 2, perio.nearest(b))[0]
    e = w.rel(R - Minv, ref, 1 + np.max(np.abs(ref)))
    M, cut = perio.far_field(c, s, c['mu'])
    e2 = perio.scaled(np.linalg.inv(Minv), M)
    if not e <= 1e-8 or not e2 <= 1e-7 + 3 * cut:
        fail('grand resistance in the box is not far field plus nearest-image '
             'lubrication (%.3g, %.3g)' % (e, e2))


SUBS = [
    Sub('sum', cases(), oracle, 600, 6000, shards=6, init=w.init(),
        classify=cl),
    Sub('with far field', full(), full_oracle, 60, 600, shards=6,
        init=w.init(), classify=lambda c: perio.tags(c)),
]
