"""C19: an interrupted run resumes to the same result."""
import os
import signal

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail
from checks.c18 import first

TECHNIQUE = ('crash injection: whole runs killed at generated points, started '
             'again, and compared with the uninterrupted run')
RULE = ('Small suspensions under Euler and Runge-Kutta, generated backup and '
        'save intervals, one to three kills at any frame, before, during or '
        'after writing a file. Non-trivial: a backup existed at some kill.')
KEYS = ('centres', 'deltax', 'sphere_rotations', 'Fa', 'Fb', 'DFb', 'Sa',
        'force_on_wall_due_to_dumbbells')


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(2, 9),
                       scheme=draw(st.sampled_from(['euler', 'rk4'])),
                       gap_hi=1.0, dts=(0.02, 0.2)))
    N = c['frames']
    p, q = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    start = draw(st.sampled_from([0, 0, 0, 1, 2, 3])) % N
    if first(p, start) >= N or first(q, start) >= N:
        start = 0
    kills = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['frame', 'frame', 'write']))
        kills.append([kind, draw(st.integers(0, N)),
                      draw(st.sampled_from(['before', 'after', 'partial']))])
    c.update(p=p, q=q, start=start, later=draw(st.sampled_from([0, 0, 1, 700])), temp=draw(st.integers(1, 5)), kills=kills,
             invert_every=1)
    if c['scheme'] == 'rk4':
        c['rk4_each'] = True
    if c['form'] == 'ufte' and c['da'] and draw(st.booleans()):
        c['extract'] = True
    return c


def settings(c):
    return dict(save_positions_every_n_timesteps=c['p'],
                save_forces_every_n_timesteps=c['q'],
                start_saving_after_first_n_timesteps=c['start'],
                save_to_temp_file_every_n_timesteps=c['temp'],
                extract_force_on_wall_due_to_dumbbells=c.get('extract', False))


def killer(k, when):
    """Make the k-th array file write fatal, before, after or halfway."""
    def prepare():
        real = np.savez_compressed
        count = [0]

        def deadly(file, *a, **kw):
            hit = count[0] == k
            count[0] += 1
            if hit and when == 'before':
                os.kill(os.getpid(), signal.SIGKILL)
            real(file, *a, **kw)
            if hit:
                name = str(file)
                if not name.endswith('.npz'):
                    name += '.npz'
                if when == 'partial' and os.path.exists(name):
                    os.truncate(name, os.path.getsize(name) // 2)
                os.kill(os.getpid(), signal.SIGKILL)
        np.savez_compressed = deadly
    return prepare


def check_ok(r):
    if r.exc:
        fail('resumed run stopped with %s' % r.exc.strip())
    if r.code:
        fail('resumed run stopped with: %s' % r.msg)


def progress(c, r):
    """Frame up to which a readable backup in the folder holds positions."""
    best = 0
    for f in r.files:
        if f.endswith('_TEMP.npz'):
            try:
                rows = len(r.load(f)['centres'])
            except Exception:
                continue
            if rows:
                best = max(best, first(c['p'], c['start'])
                           + (rows - 1) * c['p'])
    return min(best, c['frames'])


def usable(r, name):
    try:
        return len(r.load(name)['centres']) > 0
    except Exception:
        return False


def must_continue(r, upto):
    """The restarted run may not compute frames the backup already holds."""
    frames = [q[0] for q in r.calls if not q[3]]
    if frames and upto > 0 and min(frames) < upto:
        fail('started again at frame %s although the backup reaches frame %d'
             % (min(frames), upto))


def oracle(c):
    _, ref = traj.run(c, settings=settings(c))
    wd, r, upto = None, None, 0
    try:
        for j, (kind, k, when) in enumerate(c['kills']):
            spec = traj.script(c, settings=settings(c))
            spec['later'] = j * c['later']
            if kind == 'frame':
                spec['crash'] = k
            else:
                spec['prepare'] = killer(k, when)
            r = sim.run(wd=wd, killed_ok=True, **spec)
            wd = r.dir
            must_continue(r, upto)
            upto = progress(c, r)
            if r.code == 0 or r.exc or r.msg:
                check_ok(r)
                break
            # a file cut short while being written as the final result is
            # a leftover the user sees; only backups take part in resuming
        else:
            r = sim.run(wd=wd, later=len(c['kills']) * c['later'],
                        **traj.script(c, settings=settings(c)))
            check_ok(r)
            must_continue(r, upto)
        done = [f for f in r.files if f.endswith('.npz')]
        temp = [f for f in done if f.endswith('_TEMP.npz')]
        done = [f for f in done if f not in temp]
        # a backup of an earlier minute that is damaged, or holds no positions
        # yet, cannot be resumed and is not this run's to remove
        if any(usable(r, f) for f in temp):
            fail('backup left behind after a finished run: %s' % temp)
        if not done:
            fail('no output file after resuming')
        got = r.load(sorted(done)[-1])
        for key in KEYS:
            a, b = got[key], ref[key]
            if a.shape != b.shape:
                fail('%s has shape %s after resuming, %s uninterrupted'
                     % (key, a.shape, b.shape))
            if a.size:
                e = np.max(np.abs(a - b))
                if not e <= 1e-9 * (1 + np.max(np.abs(b))):
                    bad = int(np.argmax(np.max(np.abs(a - b).reshape(
                        len(a), -1), axis=1)))
                    fail('%s differs by %.3g after resuming (first worst row '
                         '%d)' % (key, e, bad))
    finally:
        if r is not None:
            r.clean()


def classify(c):
    backups = [f for f in range(c['frames']) if f % c['temp'] == 0
               and f >= c['start']]
    nt = any((k == 'frame' and backups and n > backups[0])
             or (k == 'write' and n >= 1) for k, n, _ in c['kills'])
    return nt, ['kills=%d' % len(c['kills']), 'p=%d' % c['p'],
                'temp=%d' % c['temp'], 'start>0=%s' % (c['start'] > 0),
                'scheme=' + c['scheme']] + sorted({k for k, _, _ in c['kills']})


@st.composite
def histories(draw):
    """Runs whose steps depend on earlier ones, killed once or twice."""
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(3, 8),
                       gap_hi=1.0, dts=(0.02, 0.2)))
    c['invert_every'] = (draw(st.integers(1, 4)) if c['scheme'] == 'ab2'
                         else draw(st.integers(2, 4)))
    if c['scheme'] == 'rk4':
        c['rk4_each'] = draw(st.booleans())
    c.update(p=1, q=1, start=0, temp=draw(st.integers(1, 2)),
             kills=[draw(st.integers(1, c['frames'] - 1))
                    for _ in range(draw(st.integers(1, 2)))])
    return c


def off(got, ref, c):
    """How far the file is from a model run, and where."""
    states, outs = ref
    size = max(c['sa'] + c['da'])
    for k, s in enumerate(states):
        for key, b in (('centres', np.concatenate([s.sx, s.dx])),
                       ('deltax', s.dd),
                       ('sphere_rotations', s.sx[:, None] + s.mk)):
            if b.size == 0:
                continue
            e = np.max(np.abs(got[key][k] - b))
            if not e <= 1e-6 * (size + np.max(np.abs(b))):
                return '%s row %d differs by %.3g' % (key, k, e)
    for k, o in enumerate(outs):
        if k in c['at']:
            continue    # this frame was computed by both runs; either counts
        scale = max(1e-3, max(np.max(np.abs(v)) if v.size else 0
                              for v in o.values()))
        for key in ('Fa', 'Fb', 'DFb', 'Sa'):
            if o[key].size == 0:
                continue
            e = np.max(np.abs(got[key][k] - o[key]))
            if not e <= 1e-6 * scale:
                return '%s row %d differs by %.3g' % (key, k, e)
    return None


def history(c):
    wd, r, upto, restarts = None, None, 0, []
    try:
        for k in c['kills'] + [None]:
            spec = traj.script(c, settings=settings(c))
            if k is not None:
                spec['crash'] = k
            r = sim.run(wd=wd, killed_ok=k is not None, **spec)
            frames = [q[0] for q in r.calls if not q[3]]
            if wd and frames:
                must_continue(r, upto)
                f = int(min(frames))
                restarts = [x for x in restarts if x < f] + [f]
            wd = r.dir
            upto = progress(c, r)
            if r.code == 0 or r.exc or r.msg:
                check_ok(r)
                break
        done = [f for f in r.files if not f.endswith('_TEMP.npz')]
        if len(done) != 1:
            fail('output folder holds %s after resuming' % (r.files,))
        got = r.load(done[0])
    finally:
        if r is not None:
            r.clean()
    N = c['frames']
    if len(got['centres']) != N + 1 or len(got['Fa']) != N:
        fail('%d rows of positions and %d of forces for %d frames'
             % (len(got['centres']), len(got['Fa']), N))
    # the history may start afresh at the resumption, or be carried across it
    c = dict(c, at=restarts)
    bad = off(got, traj.model(dict(c, restarts=restarts)), c)
    if bad and off(got, traj.model(c), c):
        fail('resumed at %s under %s, far field every %d frames: %s'
             % (restarts, c['scheme'], c['invert_every'], bad))


SUBS = [Sub('kill and resume', cases(), oracle, 160, 1600, shards=8,
            init=w.init(), classify=classify),
        Sub('history', histories(), history, 80, 800, shards=8,
            init=w.init(), classify=lambda c: (
                max(c['kills']) >= 2, ['scheme=' + c['scheme'],
                                       'every=%d' % c['invert_every']]))]
