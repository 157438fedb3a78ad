"""C18: the output file records exactly what the run computed."""
import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs over generated save settings; rows are compared with '
             'those an independent model selects')
RULE = ('Small suspensions, 1 to 9 frames, every mix of save intervals, delayed '
        'start and backup settings. Non-trivial: an interval above one, a '
        'delayed start or saving of one kind switched off.')


def first(every, start):
    return -(-start // every) * every


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(1, 9),
                       gap_hi=1.0))
    N = c['frames']
    p, q = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    start = draw(st.integers(0, N - 1))
    if p == 0 and q == 0:
        p = 1
    # at least one row of each kind that is asked for
    for every in (p, q):
        if every and first(every, start) >= N:
            start = 0
    c.update(p=p, q=q, start=start, temp=draw(st.integers(1, 5)),
             temp_on=draw(st.booleans()))
    return c


def settings(c):
    return dict(save_positions_every_n_timesteps=c['p'],
                save_forces_every_n_timesteps=c['q'],
                start_saving_after_first_n_timesteps=c['start'],
                save_to_temp_file_every_n_timesteps=c['temp'],
                save_forces_and_positions_to_temp_file_as_well=c['temp_on'])


def oracle(c):
    r = sim.run(**traj.script(c, settings=settings(c)))
    try:
        if r.exc:
            fail('run stopped with %s' % r.exc.strip())
        if r.code:
            fail('run stopped with: %s' % r.msg)
        if len(r.files) != 1 or not r.files[0].endswith('.npz'):
            fail('output folder holds %s after the run' % (r.files,))
        got = r.main()
    finally:
        r.clean()
    N, n, m = c['frames'], len(c['sa']), len(c['da'])
    states, outs = traj.model(c)
    names = {'Fa', 'Fb', 'DFb', 'Sa', 'centres', 'deltax', 'sphere_rotations',
             'force_on_wall_due_to_dumbbells'}
    if not names <= set(got):
        fail('arrays missing from the file: %s' % (names - set(got)))
    size = max(c['sa'] + c['da'])
    rows = []
    if c['p']:
        rows = [f for f in range(c['start'], N) if f % c['p'] == 0] + [N]
    for key, shape in (('centres', (n + m, 3)), ('deltax', (m, 3)),
                       ('sphere_rotations', (n, 2, 3))):
        g = got[key]
        if not rows:
            if g.size:
                fail('%s saved although saving positions is off' % key)
            continue
        if g.shape != (len(rows),) + shape:
            fail('%s has shape %s, expected %s' % (key, g.shape,
                                                   (len(rows),) + shape))
        for k, f in enumerate(rows):
            if f >= len(states):
                continue
            s = states[f]
            ref = (np.concatenate([s.sx, s.dx]) if key == 'centres' else s.dd
                   if key == 'deltax' else s.sx[:, None] + s.mk)
            if ref.size == 0:
                continue
            e = np.max(np.abs(g[k] - ref))
            if not e <= 1e-6 * (size + np.max(np.abs(ref))):
                fail('%s row %d (frame %d) is off by %.3g' % (key, k, f, e))
    frows = []
    if c['q']:
        frows = [f for f in range(c['start'], N) if f % c['q'] == 0]
    for key, shape in (('Fa', (n, 3)), ('Fb', (m, 3)), ('DFb', (m, 3)),
                       ('Sa', (n, 3, 3))):
        g = got[key]
        if not frows:
            if g.size:
                fail('%s saved although saving forces is off' % key)
            continue
        if len(g) != len(frows) or (g.size != len(frows) * int(np.prod(shape))):
            fail('%s has shape %s, expected %s' % (key, g.shape,
                                                   (len(frows),) + shape))
        if np.prod(shape) == 0:
            continue
        for k, f in enumerate(frows):
            if f >= len(outs):
                continue
            ref = outs[f][key]
            scale = max(1e-3, max(np.max(np.abs(v)) if v.size else 0
                                  for v in outs[f].values()))
            e = np.max(np.abs(g[k] - ref))
            if not e <= 1e-6 * scale:
                fail('%s row %d (frame %d) is off by %.3g' % (key, k, f, e))


SUBS = [Sub('save settings', cases(), oracle, 240, 2000, shards=8,
            init=w.init(), classify=lambda c: (
                c['p'] != 1 or c['q'] != 1 or c['start'] > 0,
                ['p=%d' % c['p'], 'q=%d' % c['q'], 'start>0=%s' % (c['start'] > 0),
                 'scheme=' + c['scheme']]))]
