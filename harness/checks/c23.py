"""C23: command-line arguments override settings; bad ones are refused."""
import re

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import world as w
from common import Sub, fail

TECHNIQUE = 'whole runs over generated argument lists, valid and invalid'
RULE = ('Leading subsets of the six arguments with generated values, and lists '
        'with one bad value. Non-trivial: at least two arguments, or a bad one.')
ON = ['True', 'true', 't', 'T', '1']
OFF = ['False', 'false', 'f', 'F', '0', 'no']


@st.composite
def good(draw):
    form = draw(st.sampled_from(['fte', 'ufte', 'ufteu']))
    full = [draw(st.sampled_from([-1, -3, -57])),
            draw(st.sampled_from([-1, 2, 88])),
            draw(st.sampled_from(['0.1', '0.25', '1', '1e-3', '2.5e-05', '.5'])),
            draw(st.integers(1, 6)), form,
            draw(st.sampled_from(ON + OFF))]
    return dict(argv=full[:draw(st.sampled_from([1, 2, 3, 4, 4, 5, 5, 6, 6]))],
                F=draw(gen.vec(3)))


def pair():
    return w.System([[0, 0, 0], [4.0, 0, 0]], [1, 1], [[0, 5.0, 0]],
                    [[1.0, 0, 0]], [0.1])


def inputs(s, form, F):
    kw = dict(Fa=[[0, 0, 0], F], Fb=[[0.3, 0, 0.1]])
    if form in ('ufte', 'ufteu'):
        kw['Ua'] = [[0.1, 0, 0]] + w.unset(1)
        kw['Fa'] = w.unset(1) + [F]
    return w.Inputs(s, **kw)


def oracle(c):
    a = c['argv']
    setup = a[0]
    inp = a[1] if len(a) > 1 else 1
    dt = float(a[2]) if len(a) > 2 else 0.1
    frames = a[3] if len(a) > 3 else 100
    form = a[4] if len(a) > 4 else 'fte'
    wall = len(a) > 5 and a[5] in ON
    s = pair()
    r, got = sim.ok(system=s, inputs=inputs(s, form, c['F']), argv=a, desc='')
    m = re.match(r'^\d{10}-s(-?\d+)-i(-?\d+)-(\d+)fr-t([^-]+(?:-\d+)?)-M(\d+)'
                 r'\.npz$', r.name)
    if not m:
        fail('output file is called %s for arguments %s' % (r.name, a))
    if (int(m[1]), int(m[2]), int(m[3])) != (setup, inp, frames):
        fail('file name %s does not show setup %s, input %s, %s frames'
             % (r.name, setup, inp, frames))
    if float(m[4].replace('p', '.')) != dt:
        fail('file name %s does not show step %s' % (r.name, dt))
    if len(got['centres']) != frames + 1:
        fail('%d rows recorded for %d frames' % (len(got['centres']), frames))
    used = {(q[1], q[2]) for q in r.calls[1:]}
    if used != {(dt, form)}:
        fail('run used step and form %s instead of %s' % (used, (dt, form)))
    # positions move with the given step
    wf = got['force_on_wall_due_to_dumbbells']
    if form == 'ufte' and wall:
        if wf.shape != (frames, 1, 3):
            fail('wall force recorded with shape %s' % (wf.shape,))
        if not np.any(wf):
            fail('wall force is all zero')
    elif np.any(wf):
        fail('wall force recorded although not asked for (%s)' % (a,))


@st.composite
def bad(draw):
    kind = draw(st.sampled_from(['number', 'number', 'setup', 'input', 'form',
                                 'form db']))
    argv = [-1, -1, '0.1', 2, 'fte']
    c = dict(kind=kind)
    if kind == 'number':
        k = draw(st.integers(0, 3))
        word = draw(st.sampled_from(['x', '', 'one', '1.5' if k != 2 else 'a',
                                     '0x10', '1,0', 'None']))
        argv[k] = word
        argv = argv[:draw(st.integers(k + 1, 5))]
    elif kind == 'setup':
        argv[0] = draw(st.sampled_from([99, 1000, 0, 57]))
    elif kind == 'input':
        argv[1] = draw(st.sampled_from([99, 1000, 0, 57]))
    elif kind == 'form':
        argv[4] = draw(st.sampled_from(['duf', 'stokes_drag_dumbbells_only',
                                        'RPY_dumbbells_only']))
    else:
        argv[4] = draw(st.sampled_from(['fte', 'ufte', 'ufteu']))
    c['argv'] = argv
    return c


def bad_oracle(c):
    s = pair()
    if c['kind'] == 'form db':
        s = w.System(dx=[[0, 5.0, 0]], dd=[[1.0, 0, 0]], da=[0.1])
    i = None if c['kind'] == 'input' else w.Inputs(s, Fb=[[0.3, 0, 0.1]])
    r = sim.run(system=s, inputs=i, argv=c['argv'])
    r.clean()
    if r.exc:
        fail('bad arguments %s end in %s' % (c['argv'], r.exc.strip()))
    if not r.code:
        fail('bad arguments %s were accepted' % (c['argv'],))
    if not r.msg or len(r.msg.strip()) < 10:
        fail('bad arguments %s are refused without a message' % (c['argv'],))
    if r.files:
        fail('refused run left files %s' % (r.files,))


SUBS = [
    Sub('accepted', good(), oracle, 90, 600, shards=5, init=w.init(),
        classify=lambda c: (len(c['argv']) > 1, ['args=%d' % len(c['argv'])])),
    Sub('refused', bad(), bad_oracle, 60, 300, shards=3, init=w.init(),
        classify=lambda c: (True, [c['kind']])),
]
