"""C21: the far field is refreshed exactly as often as requested."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs over generated refresh intervals against a model that '
             'puts the resistance together from old far field and current '
             'lubrication itself')
RULE = ('Interacting particles moving fast enough for the far field to change, '
        'intervals 1 to 5, every scheme and stage option. Non-trivial: a '
        'reused far field shows up in the trajectory.')


@st.composite
def cases(draw, most=2, frames=(2, 8), box=False):
    c = draw(traj.runs(spheres=(0, most), dumbbells=(0, most), min_total=2,
                       frames=frames, push=8.0, form='fte', gap_hi=1.0,
                       sizes=((1.0,), (1.0, 0.1)), box=box, tilt=False))
    if not c['sa']:
        c['form'] = draw(st.sampled_from(['fts', 'duf']))
        c.update(kb=0, Ub0=[[0.] * 3] * len(c['da']),
                 H0=[[0.] * 3] * len(c['da']))
    if 'E' in c:
        c['E'] = np.zeros((3, 3)).tolist()
    c['invert_every'] = draw(st.integers(1, 5))
    c['rk4_each'] = draw(st.booleans())
    return c


def own_solver(c):
    """Velocities from (kept far field) + (lubrication at these positions)."""
    fn = traj.inputs_fn(c)

    def solver(s, state, q, regen, keep):
        pd = state.posdata(s)
        if 'box' in c:
            L = np.array(c['box'])
            on = dict(mu=c['mu'], posdata=pd, box=(-L / 2, L / 2))
            lub = w.resistance(s, regenerate=False,
                               last=np.zeros((s.ndof, s.ndof)), **on)[0]
            Minv = w.resistance(s, minf_only=True, **on)[1] if regen else 0
        else:
            R, Minv = w.resistance(s, mu=c['mu'], posdata=pd)
            lub = R - Minv
        far = Minv if regen else keep['M']
        i = fn(pd, q, c['dt'])
        n, m = s.ns, s.nd
        f = np.concatenate([np.ravel(i.Fa), np.ravel(i.Ta), np.ravel(i.Fb),
                            np.ravel(i.DFb)]).astype(float)
        use = np.concatenate([np.arange(6 * n), 11 * n + np.arange(6 * m)])
        T = (far + lub)[np.ix_(use, use)]      # rigid spheres: no strain
        v = np.linalg.solve(T, f)
        A = traj.A
        z = lambda k: np.zeros((k, 3))
        return dict(Ua=A(v[:3 * n]), Oa=A(v[3 * n:6 * n]),
                    Ub=A(v[6 * n:6 * n + 3 * m]), HalfDUb=A(v[6 * n + 3 * m:]),
                    Fa=z(n), Fb=z(m), DFb=z(m), Sa=z(n), Minv=Minv)
    return solver


def oracle(c):
    _, got = traj.run(c)
    states, _ = traj.model(c, solver=own_solver(c))
    traj.row_error(c, got, states, 'refresh every %d, stages %s'
                   % (c['invert_every'], c['rk4_each']))


def cl(c):
    return (c['frames'] > 1 and (c['invert_every'] > 1 or not c['rk4_each']),
            ['every=%d' % c['invert_every'], 'scheme=' + c['scheme'],
             'stages=%s' % c['rk4_each']])


SUBS = [Sub('runs', cases(), oracle, 200, 2000, shards=8, init=w.init(),
            classify=cl),
        Sub('in a box', cases(1, (2, 5), True), oracle, 40, 400, shards=8,
            init=w.init(), classify=cl)]
