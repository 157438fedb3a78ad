"""C40: inputs that leave a needed value unset are refused."""
from hypothesis import strategies as st

import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs with generated inputs from which one needed value is '
             'missing')
RULE = ('Runs in every input form whose inputs, from a generated frame on, '
        'leave a needed force, torque, strain or velocity of one particle '
        'unset. Non-trivial: not the first frame, or a mixed form.')
P = 'pippa'


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 2), frames=(1, 4),
                       gap_hi=1.0, flow=False))
    n, m = len(c['sa']), len(c['da'])
    if n and draw(st.integers(0, 4)) == 0:
        c['form'] = 'fts'
    k = c.get('k', 0) if c['form'] in ('ufte', 'ufteu') else 0
    kb = c.get('kb', 0) if c['form'] in ('ufteu', 'duf') else 0
    opts = [('Fa', i) for i in range(k, n)]
    opts += [(q, i) for q in ('Ta', 'Sa' if c['form'] == 'fts' else 'Ea')
             for i in range(n)]
    opts += [(q, i) for q in ('Fb', 'DFb') for i in range(kb, m)]
    opts += [('HalfDUb', i) for i in range(kb)]
    c['what'], c['who'] = draw(st.sampled_from(opts))
    c['since'] = draw(st.integers(0, c['frames'] - 1))
    return c


def oracle(c):
    f = traj.inputs_fn(c)

    def inputs(posdata, frameno, timestep):
        i = f(posdata, frameno, timestep)
        if frameno >= c['since']:
            v = list(getattr(i, c['what']))
            v[c['who']] = [[P] * 3] * 3 if c['what'] in ('Ea', 'Sa') else [P] * 3
            setattr(i, c['what'], v)
        return i
    spec = traj.script(c)
    spec['inputs'] = inputs
    r = sim.run(**spec)
    r.clean()
    what = '%s run without %s of particle %d from frame %d on' % (
        c['form'], c['what'], c['who'], c['since'])
    if not r.code:
        fail('%s went through' % what)
    done = [x for x in r.files if '_TEMP' not in x]
    if done:
        fail('%s left the finished file %s' % (what, done[0]))
    said = ' '.join(str(x) for x in (r.msg, r.exc) if x)
    if c['form'] not in said.lower():
        fail('%s stopped without saying so: %s' % (what, said[:300]))


SUBS = [Sub('runs', cases(), oracle, 160, 1600, shards=8, init=w.init(),
            classify=lambda c: (c['since'] > 0 or 'u' in c['form'],
                                ['form=' + c['form'], 'unset=' + c['what']]))]
