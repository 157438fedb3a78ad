"""C06: numbering of particles and of dumbbell ends does not matter."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from common import Sub

TECHNIQUE = ('metamorphic testing: generated renumberings and end swaps')
RULE = ('Clusters with mixed sizes and loads in each input form, a random '
        'permutation of spheres and of dumbbells (prescribed ones among '
        'themselves) and random end swaps. Non-trivial: the renumbering is not '
        'the identity.')


@st.composite
def cases(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(0, 5), dumbbells=(0, 3),
                                            min_total=2,
                                            **gen.SOLVE)))
    n, m = len(c['sa']), len(c.get('da', []))
    k = c['k'] if c['form'] in ('ufte', 'ufteu') else 0
    kb = c['kb'] if c['form'] in ('ufteu', 'duf') else 0
    p = draw(st.permutations(list(range(k)))) + draw(
        st.permutations(list(range(k, n))))
    pb = draw(st.permutations(list(range(kb)))) + draw(
        st.permutations(list(range(kb, m))))
    c.update(perm=list(p), permb=list(pb),
             swap=draw(st.lists(st.booleans(), min_size=m, max_size=m)))
    return c


def oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, 2):
        return
    p = np.array(c['perm'], int)
    pb = np.array(c['permb'], int)
    sg = np.where(np.array(c['swap'], bool), -1.0, 1.0).reshape(-1, 1)
    n, m = s.ns, s.nd
    s2 = w.System(s.sx[p], s.sa[p], s.dx[pb], (s.dd * sg)[pb], s.da[pb])
    c2 = dict(c)
    for k in ('F', 'T', 'E', 'U'):
        c2[k] = [c[k][i] for i in p]
    for k in ('Fb', 'Ub'):
        c2[k] = [c[k][i] for i in pb]
    for k in ('DFb', 'H'):
        c2[k] = [(np.array(c[k][i]) * sg[i, 0]).tolist() for i in pb]
    o1 = w.solve(s, forms.inputs(c, s), form=c['form'])
    o2 = w.solve(s2, forms.inputs(c2, s2), form=c['form'])
    ref = {k: o1[k][p] for k in ('Ua', 'Oa', 'Ea', 'Fa', 'Ta', 'Sa')}
    for k in ('Ub', 'Fb'):
        ref[k] = o1[k][pb]
    for k in ('HalfDUb', 'DFb'):
        ref[k] = (o1[k] * sg)[pb]
    # tables for a ratio and its reciprocal agree to about 2e-7 only
    mixed = len(set(np.concatenate([s.sa, s.da]).tolist())) > 1
    tol = 10 * gen.solve_tol(s, c['mu'], c['form'], 1e-5 if mixed else 1e-8)
    forms.compare(o2, ref, s, tol, 'after renumbering')


def cl(c):
    nt, tags = forms.classify(c)
    ident = (c['perm'] == sorted(c['perm']) and c['permb'] == sorted(c['permb'])
             and not any(c['swap']))
    if any(c['swap']):
        tags = tags + ['end swap']
    return not ident, tags


SUBS = [Sub('renumber', cases(), oracle, 480, 5000, shards=8, init=w.init(),
            classify=cl)]
