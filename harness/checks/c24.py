"""C24: unsupported particle sizes are refused before the run starts."""
import numpy as np
from hypothesis import strategies as st

import gen
import sim
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs over generated sets of radii against the tabulated '
             'ratios')
RULE = ('One to four spheres and dumbbells with radii that are, or nearly are, '
        'in tabulated ratios, or are not. Non-trivial: at least two radii.')
TABLE = np.array([0.01, 0.1, 1.0, 10.0, 100.0])


@st.composite
def cases(draw):
    base = draw(st.sampled_from([1.0, 1.0, 0.5, 0.3, 2.0]))
    pool = [1.0, 0.1, 10.0, 1.0, 0.1, 0.01, 0.5, 2.0, 0.2, 1.05, 0.001, 20.0]
    good = draw(st.booleans())
    k = draw(st.integers(1, 4))
    sizes = [float('%.12g' % (base * draw(st.sampled_from(
        pool[:6] if good else pool)))) for _ in range(k)]
    n = draw(st.integers(0, k))
    return dict(sa=sizes[:n], da=sizes[n:])


def allowed(c):
    a = np.array(c['sa'] + c['da'])
    r = (a[:, None] / a[None]).ravel()
    return bool(np.all(np.min(np.abs(r[:, None] / TABLE - 1), axis=1) < 1e-6))


def oracle(c):
    n, m = len(c['sa']), len(c['da'])
    big = max(c['sa'] + c['da'])
    s = w.System([[6 * big * i, 0, 0] for i in range(n)], c['sa'],
                 [[6 * big * i, 0, 9 * big] for i in range(m)],
                 [[0, 2.6 * a, 0] for a in c['da']], c['da'])
    r = sim.run(system=s, inputs=w.Inputs(s, Fb=[[0.1, 0, 0]] * m),
                argv=sim.args(0.01, 1, 'fte' if n else 'duf'))
    r.clean()
    if r.exc:
        fail('sizes %s end in %s' % (c, r.exc.strip()))
    if allowed(c):
        if r.code:
            fail('supported sizes %s refused: %s' % (c, r.msg))
        if len(r.files) != 1:
            fail('run with sizes %s left files %s' % (c, r.files))
    else:
        if not r.code:
            fail('unsupported sizes %s were accepted' % (c,))
        if 'ratio' not in (r.msg or '').lower():
            fail('unsupported sizes refused without naming the ratio: %s'
                 % r.msg)
        if r.files:
            fail('refused run left files %s' % (r.files,))
        if any(not q[3] for q in r.calls):
            fail('refused run had already started computing')


SUBS = [Sub('radii', cases(), oracle, 240, 1500, shards=8, init=w.init(),
            classify=lambda c: (len(c['sa'] + c['da']) > 1,
                                ['allowed=%s' % allowed(c),
                                 'spheres=%d' % len(c['sa'])]))]
