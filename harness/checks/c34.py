"""C34: a flat (2D) run keeps particles in their plane."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = 'whole runs with the two-dimensional option on and off against a model'
RULE = ('Suspensions with out-of-plane loads, flow and prescribed velocities, '
        'every scheme, option on and off. Non-trivial: two or more frames.')


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 3), dumbbells=(0, 2), frames=(1, 4),
                       push=2.0))
    c['flat'] = draw(st.sampled_from([True, True, True, False]))
    return c


def oracle(c):
    _, got = traj.run(c)
    if c['flat']:
        y = got['centres'][:, :, 1]
        e = np.max(np.abs(y - y[0]))
        if not e <= 1e-12 * (1 + np.max(np.abs(y))):
            fail('a centre left its plane by %.3g' % e)
        if len(c['da']):
            y = got['deltax'][:, :, 1]
            e = np.max(np.abs(y - y[0]))
            if not e <= 1e-12:
                fail('a separation left its plane by %.3g' % e)
    states, _ = traj.model(c)
    traj.row_error(c, got, states, 'flat=%s' % c['flat'])


SUBS = [Sub('runs', cases(), oracle, 160, 1600, shards=8, init=w.init(),
            classify=lambda c: (traj.classify(c)[0],
                                traj.classify(c)[1] + ['flat=%s' % c['flat']]))]
