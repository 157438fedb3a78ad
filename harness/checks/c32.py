"""C32: stresslets and strains survive packing."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('round trips of generated tensors through packing and through '
             'solves in every form')
RULE = ('Symmetric traceless tensors of any size, zero to five at once. '
        'Non-trivial: a tensor with at least two distinct entries.')


@st.composite
def tensors(draw):
    k = draw(st.integers(1, 5))
    sc = draw(gen.logfl(1e-6, 1e6))
    return dict(A=draw(gen.nstrain(k)), B=draw(gen.nstrain(k)), sc=sc)


def oracle(c):
    """With drag only, strain is stresslet over (20/3) pi mu a^3, tensor by
    tensor, so what comes out is what went through packing and back."""
    A, B = c['sc'] * np.array(c['A']), c['sc'] * np.array(c['B'])
    n = len(A)
    s = w.System([[5.0 * i, 0, 0] for i in range(n)], [1.0] * n)
    k = 20 / 3 * np.pi
    for form, key, f in (('fts', 'Ea', 1 / k), ('fte', 'Sa', k)):
        inp = w.Inputs(s, Sa=A, Ea=A)
        o = w.solve(s, inp, form=form, drag=True, minf_only=True)
        e = np.max(np.abs(o[key] - f * A))
        if not e <= 1e-12 * f * c['sc']:
            fail('%s of %d separate spheres in %s form off by %.3g of %.3g'
                 % (key, n, form, e, f * c['sc']))
    cond, unc = w.find('condense'), w.find('uncondense')
    if cond is None or unc is None:
        return
    pack = lambda T: np.asarray(cond(T, len(T)), float)
    a, b = pack(A), pack(B)
    if a.size != 5 * n:
        fail('%d tensors pack into %d numbers' % (n, a.size))
    d = np.sum(A * B)
    if not abs(np.sum(a * b) - d) <= 1e-12 * c['sc'] ** 2 * 9 * n:
        fail('packing changes the double-dot product: %.12g against %.12g'
             % (np.sum(a * b), d))
    back = np.asarray(unc(a, n), float)
    if back.shape != A.shape or not np.max(np.abs(back - A)) <= (
            1e-12 * c['sc']):
        fail('tensor changed by packing and unpacking')


@st.composite
def solves(draw):
    return draw(forms.loaded(gen.table_systems(
        spheres=(1, 5), dumbbells=(0, 2), **gen.SOLVE)))


def solve_oracle(c):
    s = w.from_case(c)
    o = w.solve(s, forms.inputs(c, s), form=c['form'])
    for k in ('Sa', 'Ea'):
        T = o[k]
        sc = np.max(np.abs(T)) + 1e-300
        if not np.max(np.abs(T - np.transpose(T, (0, 2, 1)))) <= 1e-12 * sc:
            fail('%s is not symmetric' % k)
        if not np.max(np.abs(np.trace(T, axis1=1, axis2=2))) <= 1e-12 * sc:
            fail('%s is not traceless' % k)
    # feed the stresslets back in: the strain must come out again
    c2 = dict(c, form='fts', F=o['Fa'].tolist(), E=o['Sa'].tolist(),
              Fb=o['Fb'].tolist(), DFb=o['DFb'].tolist(), T=o['Ta'].tolist())
    o2 = w.solve(s, forms.inputs(c2, s), form='fts')
    tol = 30 * gen.solve_tol(s, c['mu'], c['form'])
    forms.compare(o2, o, s, tol, 'stresslets fed back in', keys=('Ea', 'Ua'))


def power_oracle(c):
    """Tensor power: S:E through the packed problem equals the full one."""
    s = w.from_case(c)
    R, _ = w.resistance(s, mu=c['mu'])
    o = w.solve(s, forms.inputs(c, s), form=c['form'])
    from refs import stokes
    v = np.concatenate([o['Ua'].ravel(), o['Oa'].ravel(),
                        np.array([stokes.pack(E) for E in o['Ea']]).ravel(),
                        o['Ub'].ravel(), o['HalfDUb'].ravel()])
    terms = [o['Fa'] * o['Ua'], o['Ta'] * o['Oa'], o['Sa'] * o['Ea'],
             o['Fb'] * o['Ub'], o['DFb'] * o['HalfDUb']]
    p, big = sum(t.sum() for t in terms), sum(np.abs(t).sum() for t in terms)
    q = v @ R @ v
    tol = 30 * gen.solve_tol(s, c['mu'], c['form'])
    if not abs(p - q) <= tol * (big + abs(q)):
        fail('power from tensors is %.9g but %.9g from packed vectors' % (p, q))


SUBS = [
    Sub('packing', tensors(), oracle, 400, 4000, shards=1, init=w.init(),
        classify=lambda c: (len(set(np.round(np.ravel(c['A']), 9))) > 2,
                            ['n=%d' % len(c['A'])])),
    Sub('solves', solves(), solve_oracle, 200, 2000, shards=4, init=w.init(),
        classify=forms.classify),
    Sub('power', solves(), power_oracle, 150, 1500, shards=3, init=w.init(),
        classify=forms.classify),
]
