"""C05: results do not depend on the choice of axes or origin."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from common import Sub

TECHNIQUE = ('metamorphic testing: generated rigid motions and mirror '
             'images')
RULE = ('Clusters with random loads in each input form, together with a random '
        'rotation, reflection or axis permutation and a shift. Non-trivial: at '
        'least two particles.')


@st.composite
def cases(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(0, 4), dumbbells=(0, 2),
                                            **gen.SOLVE)))
    c['Q'] = draw(gen.rotation)
    c['mirror'] = draw(st.booleans())
    c['shift'] = draw(gen.vec(50))
    c['cutoff'] = draw(st.one_of(st.just(2), gen.fl(1.1, 2.2)))
    return c


def transform_case(c, Q, t):
    det = np.sign(np.linalg.det(Q))
    v = lambda k: [list(Q @ np.array(x)) for x in c[k]]
    d = dict(c)
    for k in ('F', 'Fb', 'DFb', 'U', 'Ub', 'H'):
        d[k] = v(k)
    d['T'] = [list(det * (Q @ np.array(x))) for x in c['T']]
    d['E'] = [(Q @ np.array(x) @ Q.T).tolist() for x in c['E']]
    return d


def transform_out(o, Q):
    det = np.sign(np.linalg.det(Q))
    r = {}
    for k in ('Ua', 'Ub', 'HalfDUb', 'Fa', 'Fb', 'DFb'):
        r[k] = o[k] @ Q.T
    for k in ('Oa', 'Ta'):
        r[k] = det * (o[k] @ Q.T)
    for k in ('Ea', 'Sa'):
        r[k] = np.einsum('ij,njk,lk->nil', Q, o[k], Q)
    return r


def oracle(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, c['cutoff']):
        return
    Q = gen.rot_matrix(c['Q'])
    if c['mirror']:
        Q = Q @ np.diag([1, 1, -1.0])
    t = np.array(c['shift'])
    o1 = w.solve(s, forms.inputs(c, s), form=c['form'], cutoff=c['cutoff'])
    s2 = s.mapped(lambda x: Q @ x + t, lambda x: Q @ x)
    c2 = transform_case(c, Q, t)
    o2 = w.solve(s2, forms.inputs(c2, s2), form=c['form'], cutoff=c['cutoff'])
    forms.compare(o2, transform_out(o1, Q), s, 10 * gen.solve_tol(s, c['mu'], c['form']),
                  'after moving/rotating/mirroring')


def cl(c):
    nt, tags = forms.classify(c)
    return nt, tags + ['mirror' if c['mirror'] else 'proper',
                       'permutation' if c['Q'][0] == 'perm' else 'rotation']


SUBS = [Sub('rigid', cases(), oracle, 480, 5000, shards=8, init=w.init(),
            classify=cl)]
