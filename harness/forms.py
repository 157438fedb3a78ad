"""Random loads in every input form, and comparison of solved results."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import fail

FORMS = ('fts', 'fte', 'ufte', 'ufteu')
VEL, FOR = ('Ua', 'Oa', 'Ub', 'HalfDUb', 'Ea'), ('Fa', 'Ta', 'Sa', 'Fb', 'DFb')


@st.composite
def loaded(draw, systems, forms=FORMS, box=None, mu=True):
    c = draw(systems)
    n, m = len(c['sa']), len(c.get('da', []))
    c.update(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)), E=draw(gen.nstrain(n)),
             Fb=draw(gen.nvec(m)), DFb=draw(gen.nvec(m)), U=draw(gen.nvec(n)),
             Ub=draw(gen.nvec(m)), H=draw(gen.nvec(m)),
             k=draw(st.integers(0, n)), kb=draw(st.integers(0, m)))
    if n == 0:
        c['form'] = draw(st.sampled_from(['fts', 'duf']))
    else:
        c['form'] = draw(st.sampled_from(list(forms)))
    if mu:
        # large mu*a^3 costs precision in the package's elimination step
        amax = max(list(c['sa']) + list(c.get('da', [])))
        c['mu'] = draw(gen.logfl(0.1, max(0.3, 10 / max(1.0, amax) ** 3)))
    return c


def arr(c, k, shape):
    a = np.array(c[k], float)
    return a.reshape((-1,) + shape)


def inputs(c, s, form=None, **kw):
    """Inputs for the case's form; only what the form needs is set."""
    form = form or c['form']
    n, m = s.ns, s.nd
    d = dict(Fa=c['F'], Ta=c['T'], Fb=c['Fb'], DFb=c['DFb'], mu=c.get('mu', 1))
    if n == 0:
        d.update(Ea=[], Sa=[])
        if 'bl' in kw:
            d['Ea'] = [[[0.] * 3] * 3]
    elif form == 'fts':
        d['Sa'] = c['E']
    else:
        d['Ea'] = c['E']
    if form in ('ufte', 'ufteu'):
        k = c['k']
        d['Ua'] = [list(v) for v in c['U'][:k]] + w.unset(n - k)
        d['Fa'] = w.unset(k) + [list(v) for v in c['F'][k:]]
    if form in ('ufteu', 'duf'):
        k = c['kb']
        d['Ub'] = [list(v) for v in c['Ub'][:k]] + w.unset(m - k)
        d['HalfDUb'] = [list(v) for v in c['H'][:k]] + w.unset(m - k)
        d['Fb'] = w.unset(k) + [list(v) for v in c['Fb'][k:]]
        d['DFb'] = w.unset(k) + [list(v) for v in c['DFb'][k:]]
    d.update(kw)
    return w.Inputs(s, **d)


def scales(o, s):
    a = np.concatenate([s.sa, s.da])
    hi, lo = a.max(), a.min()

    def mx(*ks):
        v = [np.max(np.abs(np.asarray(o[k], float))) for k in ks
             if np.size(o[k])]
        return max(v) if v else 0.0
    vU = max(mx('Ua', 'Ub', 'HalfDUb'), mx('Oa', 'Ea') * lo)
    vF = max(mx('Fa', 'Fb', 'DFb'), mx('Ta', 'Sa') / hi)
    return dict(Ua=vU, Ub=vU, HalfDUb=vU, Oa=vU / lo, Ea=vU / lo, Fa=vF, Fb=vF,
                DFb=vF, Ta=vF * hi, Sa=vF * hi)


def compare(o, ref, s, tol, what, keys=VEL + FOR):
    sc = scales(ref, s)
    for k in keys:
        a, b = np.asarray(o[k], float), np.asarray(ref[k], float)
        if a.shape != b.shape:
            fail('%s: %s has shape %s instead of %s' % (what, k, a.shape, b.shape))
        if a.size == 0:
            continue
        e = np.max(np.abs(a - b))
        if not e <= tol * sc[k] + 1e-300:
            fail('%s: %s differs by %.3g (scale %.3g, tolerance %.1g)'
                 % (what, k, e, sc[k], tol))


def classify(c):
    s = w.from_case(c)
    return s.ns + s.nd >= 2, gen.sys_tags(s) + ['form=' + c.get('form', '-')]
