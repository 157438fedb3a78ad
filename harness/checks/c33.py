"""C33: results depend only on the inputs, not on what ran before."""
import contextlib
import copy
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import forms
import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('sequences of generated solves compared bit for bit with fresh '
             'ones, and repeated whole runs')
RULE = ('Two to four different problems solved in one process in a generated '
        'order with repetitions and printing levels; whole runs repeated in '
        'another process and directory. Non-trivial: two or more problems.')
KEYS = ('Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'HalfDUb')


@st.composite
def seqs(draw):
    k = draw(st.integers(2, 3))
    probs = [draw(forms.loaded(gen.table_systems(
        spheres=(0, 3), dumbbells=(0, 2), **gen.SOLVE))) for _ in range(k)]
    order = draw(st.lists(st.tuples(st.integers(0, k - 1),
                                    st.sampled_from([0, 0, 0, 1, 2])),
                          min_size=2, max_size=6))
    return dict(probs=probs, order=[list(o) for o in order],
                drag=draw(st.booleans()), far=draw(st.booleans()))


def freeze(o):
    return {k: np.array(o[k], float) for k in KEYS}


def quiet_solve(c, opts, level, pd=None):
    s = w.from_case(c)
    inp = forms.inputs(c, s)
    before = copy.deepcopy(inp.__dict__)
    pd = s.posdata() if pd is None else pd
    ref = copy.deepcopy(pd)
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o = w.solve(s, lambda *a: inputs_tuple(inp), form=c['form'],
                            posdata=pd, printout=level, **opts)
        finally:
            os.chdir(here)
    for a, b in zip(pd, ref):
        if not np.array_equal(a, b):
            fail('solving changed the positions or sizes it was given')
    for k, v in before.items():
        if not same(v, getattr(inp, k)):
            fail('solving changed the input %s it was given' % k)
    return freeze(o)


def inputs_tuple(i):
    """The user's own objects, not copies."""
    c5 = [[0.] * 5 for _ in range(len(i.Fa))]
    return (i.Fa, i.Ta, i.Sa, c5, i.Fb, i.DFb, i.Ua, i.Oa, i.Ea, c5, i.Ub,
            i.HalfDUb, '', i.U, i.O, i.centre, i.Ot, i.Et, i.bl, i.tr, i.mu)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def oracle(c):
    opts = [dict(), dict(drag=c['drag'], minf_only=c['far'])]
    first = {}
    for q, (i, level) in enumerate(c['order']):
        for j, op in enumerate(opts):
            o = quiet_solve(c['probs'][i], op, level)
            if (i, j) not in first:
                first[i, j] = o
                continue
            for k in KEYS:
                if not np.array_equal(o[k], first[i, j][k], equal_nan=True):
                    fail('solving problem %d again as number %d (printing %d) '
                         'changed %s' % (i, q, level, k))


@st.composite
def runs(draw):
    c = draw(traj.runs(frames=(1, 4)))
    c['printout'] = draw(st.sampled_from([0, 1, 2]))
    c['seed'] = draw(st.integers(0, 1000))
    return c


def run_oracle(c):
    """Same arguments and random state, other process and directory."""
    r1, a = traj.run(c, npseed=c['seed'])
    r2, b = traj.run(c, settings=dict(printout=c['printout']),
                     npseed=c['seed'])
    if set(a) != set(b):
        fail('two identical runs record different arrays')
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(
                a[k], b[k], equal_nan=a[k].dtype.kind == 'f'):
            fail('two identical runs (printing 0 and %d) record different %s'
                 % (c['printout'], k))


SUBS = [
    Sub('sequences', seqs(), oracle, 120, 1200, shards=4, init=w.init(),
        classify=lambda c: (len({o[0] for o in c['order']}) > 1,
                            ['problems=%d' % len({o[0] for o in c['order']}),
                             'repeats=%d' % (len(c['order'])
                                             - len({o[0] for o in c['order']}))])),
    Sub('runs', runs(), run_oracle, 60, 600, shards=4, init=w.init(),
        classify=traj.classify),
]
