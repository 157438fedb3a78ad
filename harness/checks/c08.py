"""C08: all input forms describe the same physical solution."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('round-trip testing between input forms on generated '
             'suspensions')
RULE = ('Clusters with random loads and a random split into prescribed-velocity '
        'and prescribed-force particles. One form is solved and its results are '
        'fed through another. Non-trivial: at least two particles and a '
        'genuinely mixed split or a different form.')


@st.composite
def cases(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(1, 4), dumbbells=(0, 3),
                                            **gen.SOLVE),
                          forms=('fts', 'fte', 'ufte', 'ufteu')))
    n, m = len(c['sa']), len(c.get('da', []))
    c['form2'] = draw(st.sampled_from(list(forms.FORMS)))
    c['k2'] = draw(st.integers(0, n))
    c['kb2'] = draw(st.integers(0, m))
    return c


def imposed_back(c, o, s, form):
    """Whatever was imposed must be reported unchanged."""
    n, m = s.ns, s.nd
    k = c['k'] if form in ('ufte', 'ufteu') else 0
    kb = c['kb'] if form in ('ufteu', 'duf') else 0
    pairs = [('Ua', o['Ua'][:k], c['U'][:k]), ('Fa', o['Fa'][k:], c['F'][k:]),
             ('Ub', o['Ub'][:kb], c['Ub'][:kb]), ('Fb', o['Fb'][kb:], c['Fb'][kb:]),
             ('HalfDUb', o['HalfDUb'][:kb], c['H'][:kb]),
             ('DFb', o['DFb'][kb:], c['DFb'][kb:])]
    if n:
        pairs.append(('Ta', o['Ta'], c['T']))
        pairs.append(('Sa', o['Sa'], c['E']) if form == 'fts'
                     else ('Ea', o['Ea'], c['E']))
    for nm, got, want in pairs:
        want = np.array(want, float).reshape(got.shape)
        if not np.array_equal(got, want):
            fail('%s form does not report imposed %s unchanged' % (form, nm))


def oracle(c):
    s = w.from_case(c)
    o = w.solve(s, forms.inputs(c, s), form=c['form'])
    imposed_back(c, o, s, c['form'])
    f2 = c['form2']
    c2 = dict(c, F=o['Fa'].tolist(), T=o['Ta'].tolist(),
              E=(o['Sa'] if f2 == 'fts' else o['Ea']).tolist(),
              Fb=o['Fb'].tolist(), DFb=o['DFb'].tolist(), U=o['Ua'].tolist(),
              Ub=o['Ub'].tolist(), H=o['HalfDUb'].tolist(), k=c['k2'],
              kb=c['kb2'], form=f2)
    o2 = w.solve(s, forms.inputs(c2, s), form=f2)
    imposed_back(c2, o2, s, f2)
    forms.compare(o2, o, s, 10 * gen.solve_tol(s, c['mu'], 'ufte'),
                  '%s fed back as %s' % (c['form'], f2))


def cl(c):
    nt, tags = forms.classify(c)
    return nt or c['form'] != c['form2'], tags + ['to=' + c['form2']]


@st.composite
def dumbbells(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(0, 0), dumbbells=(1, 4),
                                            **gen.SOLVE)))
    c['kb2'] = draw(st.integers(0, len(c['da'])))
    c['form2'] = draw(st.sampled_from(['fts', 'duf']))
    return c


def oracle_db(c):
    s = w.from_case(c)
    o = w.solve(s, forms.inputs(c, s), form=c['form'])
    imposed_back(c, o, s, c['form'])
    c2 = dict(c, Fb=o['Fb'].tolist(), DFb=o['DFb'].tolist(),
              Ub=o['Ub'].tolist(), H=o['HalfDUb'].tolist(), kb=c['kb2'],
              form=c['form2'])
    o2 = w.solve(s, forms.inputs(c2, s), form=c['form2'])
    imposed_back(c2, o2, s, c['form2'])
    forms.compare(o2, o, s, 10 * gen.solve_tol(s, c['mu'], 'ufte'),
                  '%s fed back as %s' % (c['form'], c['form2']))


SUBS = [
    Sub('roundtrip', cases(), oracle, 480, 5000, shards=6, init=w.init(),
        classify=cl),
    Sub('dumbbells only', dumbbells(), oracle_db, 200, 2000, shards=2,
        init=w.init(), classify=cl),
]
