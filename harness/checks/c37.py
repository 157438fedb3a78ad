"""C37: saved runs can be plotted and filmed; live graphics change nothing."""
import ast
import os
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('files of generated runs go through the plotting scripts and the '
             'rendered pixels are compared with the recorded particles; runs '
             'with live graphics are compared with runs without')
RULE = ('Suspensions of spheres and dumbbells carried along by a flow, so that '
        'frames differ; all frames, save intervals, view angles and boxes. '
        'Non-trivial: at least one particle and two recorded frames.')

PLOTS = os.path.join(sim.PKG, 'plotting')


@st.composite
def cases(draw, kind='plot'):
    box = kind == 'video' and draw(st.integers(0, 2)) == 0
    c = draw(traj.runs(spheres=(0, 3), dumbbells=(1 if box else 0, 2), frames=(1, 4),
                       box=box, gap_hi=1.0, push=0.3, timedep=False,
                       scheme='euler', flow=False,
                       sizes=((1.0,),) if kind == 'plot' else gen.SOLVE_SIZES))
    c.pop('tilt', None), c.pop('gam', None), c.pop('gamom', None)
    for k in ('k', 'U0', 'kb', 'Ub0', 'H0'):
        c.pop(k, None)
    c['form'] = 'fte' if c['sa'] else 'fts'
    if kind == 'plot':
        # the sizes the script assumes, which the file does not hold
        c['da'] = [0.1] * len(c['da'])
    c['dt'] = draw(st.sampled_from([0.1, 0.25, 1.0]))
    d = np.array(draw(gen.vec(1.0)))
    d = d if np.linalg.norm(d) > 0.2 else np.array([1.0, 0.5, -0.4])
    amax = max(c['sa'] + c['da'])
    c['U'] = gen.r9(d / np.linalg.norm(d) * draw(gen.fl(0.5, 1.2)) * amax
                    / c['dt'])
    c.update(
        p=draw(st.sampled_from([1, 1, 2])), q=draw(st.sampled_from([1, 1, 0, 2])),
        view=[draw(st.one_of(st.sampled_from([0, 30, -30, 90]),
                             gen.fl(-90, 90, steps=180))),
              draw(st.one_of(st.sampled_from([-90, 0, 45]),
                             gen.fl(-180, 180, steps=360)))],
        labels=draw(st.integers(0, 2)) == 0, flatview=draw(st.booleans()),
        trace=draw(st.integers(0, 2)), pick=draw(gen.fl(0, 1)),
        every=draw(st.sampled_from([1, 1, 2])), start=draw(st.integers(0, 1)),
        inp=draw(st.integers(1, 12)), setup=draw(st.integers(1, 12)))
    if kind == 'video' and draw(st.booleans()):
        c['end'] = draw(gen.fl(0, 1))
    if c['labels'] and c['sa'] and not box:
        # forces are shown of spheres in front only
        y = c['sx'][0][1] + 0.3
        for k in ('sx', 'dx'):
            c[k] = [[x[0], round(x[1] - y, 9), x[2]] for x in c[k]]
    return c


def viewbox(c, arr):
    """A cube around everything recorded."""
    m = max(np.abs(beads(c, x, d)[0]).max()
            for x, d in zip(arr['centres'], arr['deltax']))
    m = float(np.ceil(1.05 * (m + max(c['sa'] + c['da']))))
    return [[-m] * 3, [m] * 3]


def classify(c):
    t = ['spheres' if c['sa'] else 'no-spheres',
         'dumbbells' if c['da'] else 'no-dumbbells']
    t += ['labels'] if c['labels'] else []
    t += ['periodic'] if 'box' in c else []
    return True, t


def saved(c):
    """A run of the case; returns its file's bytes, name and arrays."""
    r = sim.run(**traj.script(c, settings=dict(
        save_positions_every_n_timesteps=c['p'],
        save_forces_every_n_timesteps=c['q'])))
    try:
        if r.exc or r.code:
            fail('run stopped with %s' % (r.exc or r.msg).strip())
        data = r.main()
        with open(os.path.join(r.dir, 'output', r.name), 'rb') as f:
            return f.read(), r.name, data
    finally:
        r.clean()


def edited(path, values):
    """The script as a user would edit it: new values for its variables."""
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read(), path)
    left = dict(values)
    for node in ast.walk(tree):
        if (isinstance(node, ast.Assign) and len(node.targets) == 1
                and isinstance(node.targets[0], ast.Name)
                and node.targets[0].id in left):
            new = ast.parse(left.pop(node.targets[0].id), mode='eval').body
            node.value = ast.copy_location(new, node.value)
            for sub in ast.walk(node.value):
                ast.copy_location(sub, node)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec'), left


def execute(path, values, wd):
    code, left = edited(path, values)
    glob = {'__name__': '__main__',
            '__file__': os.path.join(wd, 'plotting', os.path.basename(path)),
            '__builtins__': __builtins__}
    exec(code, glob)
    return glob


def common_values(c, arr):
    return dict(viewing_angle=repr(tuple(c['view'])),
                viewbox_bottomleft_topright='np.array(%r)' % viewbox(c, arr),
                two_d_plot=repr(bool(c['flatview'])),
                view_labels=repr(bool(c['labels'])),
                trace_paths=repr(c['trace']))


def pixels(pr, x, shape):
    """Pixel (column, row) of points in space."""
    x = np.atleast_2d(x)
    h = np.c_[x, np.ones(len(x))] @ pr['M'].T
    h = h[:, :2] / h[:, 3:]
    f = pr['o'] + h[:, :1] * pr['ex'] + h[:, 1:] * pr['ey']
    return np.c_[f[:, 0] * shape[1], (1 - f[:, 1]) * shape[0]]


def discs(pr, centres, radii, shape):
    """Projected centre and outline of every particle."""
    e, a = np.radians(pr['elev']), np.radians(pr['azim'])
    u = np.array([-np.sin(a), np.cos(a), 0])
    v = np.array([-np.sin(e) * np.cos(a), -np.sin(e) * np.sin(a), np.cos(e)])
    th = np.linspace(0, 2 * np.pi, 60, endpoint=False)[:, None]
    out = []
    for x, r in zip(centres, radii):
        out.append((pixels(pr, x, shape)[0],
                    pixels(pr, x + r * (np.cos(th) * u + np.sin(th) * v), shape)))
    return out


def compare(img, pr, centres, radii, what, outside=True):
    """Every particle is drawn where and as large as it should be."""
    sh = img.shape
    col = img.astype(int).max(2) - img.astype(int).min(2) > 75
    dark = ~col & (img.max(2) < 160)     # marks and letters hide what is below
    ds = discs(pr, centres, radii, sh)
    size = [np.linalg.norm(o - c, axis=1).mean() for c, o in ds]

    def at(p):
        p = np.round(p - 0.5).astype(int)
        ok = ((p >= 0) & (p < [sh[1], sh[0]])).all(1)
        return p[ok], ok

    for k, (c, o) in enumerate(ds):
        rings = [c + f * (o - c) for f in (0.3, 0.5, 0.65, 0.8)]
        p, _ = at(np.concatenate(rings if size[k] > 4 else rings[:2]))
        p = p[~dark[p[:, 1], p[:, 0]]]
        if len(p) < 20:
            continue
        share = col[p[:, 1], p[:, 0]].mean()
        if share < 0.5:
            fail('%s: particle %d (radius %.3g) is not drawn at its place'
                 ' %s (only %.0f%% of its disc is painted)'
                 % (what, k, radii[k], np.round(centres[k], 3).tolist(),
                    100 * share))
        if not outside:
            continue
        q = np.concatenate([c + (o - c) * (f + g / size[k])
                            for f, g in ((1.1, 2.5), (1.2, 3), (1.35, 3.5))])
        free = np.ones(len(q), bool)
        for j, (d, b) in enumerate(ds):
            if j != k:
                free &= (np.linalg.norm(q - d, axis=1)
                         > 1.1 * np.linalg.norm(b - d, axis=1).max() + 2.5)
        q, _ = at(q[free])
        if len(q) >= 30 and col[q[:, 1], q[:, 0]].mean() > 0.4:
            fail('%s: particle %d (radius %.3g) at %s is drawn too large or '
                 'something else is drawn there'
                 % (what, k, radii[k], np.round(centres[k], 3).tolist()))


def beads(c, centres, deltax):
    """Places and radii of the spheres and beads of one row."""
    n = len(c['sa'])
    x, d = centres[:n], centres[n:]
    return (np.concatenate([x, d - deltax / 2, d + deltax / 2]),
            np.array(c['sa'] + c['da'] * 2, float))


class Draw:
    """Hook for sim.run: executes a plotting script in the run directory."""

    def __init__(self, c, path, values):
        self.c, self.path, self.values = c, path, values

    def prepare(self):
        import livemode
        import matplotlib
        matplotlib.use('module://livemode', force=True)
        del livemode.pictures[:]
        self.wd = os.getcwd()
        os.chdir('plotting')
        os.environ['PATH'] = (os.path.join(self.wd, 'bin') + os.pathsep
                              + os.environ['PATH'])
        c = self.c
        import setups.inputs as si
        import setups.positions as sp
        pd = w.from_case(c).posdata()
        f = traj.inputs_fn(c)
        sp.pos_setup = lambda n, *a, **k: (
            tuple(pd), 'test') if n == c['setup'] else self.wrong('setup', n)
        si.input_ftsuoe = lambda n, posdata, frameno, timestep, *a, **k: (
            f(w.from_case(c).posdata(), frameno, timestep).tuple(
                bool(k.get('skip_computation'))) if n == c['inp']
            else self.wrong('input', n))
        execute(self.path, self.values, self.wd)

    def wrong(self, what, n):
        raise ValueError('asked for %s number %r' % (what, n))

    def after(self):
        import livemode
        import matplotlib.pyplot as plt
        from matplotlib._pylab_helpers import Gcf
        figs = [m.canvas.figure for m in Gcf.get_all_fig_managers()]
        return dict(pictures=livemode.pictures,
                    proj=[livemode.project(f) for f in figs])


def rendered(c, script, values, name, data):
    """Run a plotting script next to the saved file; returns the result."""
    wd = tempfile.mkdtemp(prefix='plot-', dir=os.getcwd())
    for d in ('output', 'plotting', 'bin'):
        os.makedirs(os.path.join(wd, d))
    ff = os.path.join(wd, 'bin', 'ffmpeg')
    with open(ff, 'w') as f:
        f.write('#!/bin/sh\nfor a in "$@"; do echo "$a" >> "%s/args"; o="$a"; '
                'done\ncat > "$o"\n' % wd)
    os.chmod(ff, 0o755)
    empty = os.path.join(wd, 'empty.py')
    open(empty, 'w').close()
    with open(os.path.join(wd, 'output', '2001010000-s99-i99-3fr-t0p1-M1-old'
                           '.npz'), 'wb') as f:
        f.write(b'an older file')
    time.sleep(0.02)
    h = Draw(c, os.path.join(PLOTS, script), values)
    r = sim.run(wd=wd, files={name: data}, argv=[], script=empty,
                prepare=h.prepare, after=h.after)
    try:
        if r.exc:
            fail('%s stopped with %s' % (script, r.exc.strip()))
        if r.code:
            fail('%s stopped with %s' % (script, r.msg))
        with open(os.path.join(wd, 'output', name), 'rb') as f:
            if f.read() != data:
                fail('%s changed the saved file' % script)
        if len(r.files) != 2:
            fail('%s changed the output folder: %s' % (script, r.files))
    except BaseException:
        r.clean()
        raise
    return r


def plot(c):
    data, name, arr = saved(c)
    rows = arr['centres']
    n = len(rows)
    k = min(int(c['pick'] * n), n - 1)
    values = common_values(c, arr)
    values.update(filename=repr(name[:-4]), frameno=repr(k))
    r = rendered(c, 'plot_positions.py', values, name, data)
    r.clean()
    if len(r.after['pictures']) != 1:
        fail('plot_positions.py showed %d windows' % len(r.after['pictures']))
    img, pr = r.after['pictures'][0]
    compare(img, pr, *beads(c, rows[k], arr['deltax'][k]),
            'frame %d of %d' % (k, n), outside=not c['labels'])


def video(c):
    data, name, arr = saved(c)
    rows = arr['centres']
    name = '2611160101-s%d-i%d-%dfr-t%s-M1-test.npz' % (
        c['setup'], c['inp'], c['frames'], str(c['dt']).replace('.', 'p'))
    start = min(c['start'], len(rows) - c['every'])
    values = common_values(c, arr)
    values.update(display_every_n_frames=repr(c['every']),
                  num_frames_override_start=repr(start))
    end = len(rows)
    if 'end' in c:
        end = start + c['every'] + int(c['end'] * (end - start - c['every'] + 1))
        end = min(end, len(rows))
        values['num_frames_override_end'] = repr(end)
    r = rendered(c, 'make_video.py', values, name, data)
    try:
        out = os.path.join(r.dir, 'output_videos')
        made = os.listdir(out) if os.path.isdir(out) else []
        if made != [name[:-4] + '.mp4']:
            fail('make_video.py left %s in output_videos; it printed: %s'
                 % (made, r.out.strip()[-300:]))
        args = open(os.path.join(r.dir, 'args')).read().split('\n')
        size = args[args.index('-s') + 1]
        wide, high = map(int, size.split('x'))
        if args[args.index('-pix_fmt') + 1] != 'rgba':
            raise RuntimeError('unexpected pixel format')
        raw = np.fromfile(os.path.join(out, made[0]), np.uint8)
        raw = raw.reshape(-1, high, wide, 4)[..., :3]
    finally:
        r.clean()
    want = (end - start) // c['every']
    if len(raw) != want:
        fail('the video has %d frames, expected %d' % (len(raw), want))
    for k in range(want):
        f = start + k * c['every']
        compare(raw[k], r.after['proj'][0],
                *beads(c, rows[f], arr['deltax'][f]),
                'video frame %d (recorded frame %d)' % (k, f),
                outside=not c['labels'] and 'box' not in c)


def live(c):
    sets = dict(save_positions_every_n_timesteps=c['p'],
                save_forces_every_n_timesteps=c['q'])

    def backend():
        import livemode
        import matplotlib
        matplotlib.use('module://livemode', force=True)
        del livemode.pictures[:]

    def after():
        import livemode
        return livemode.pictures

    r, plain = sim.ok(**traj.script(c, settings=sets))
    r, shown = sim.ok(prepare=backend, after=after, **traj.script(
        c, settings=dict(sets, view_graphics=True,
                         viewing_angle=tuple(c['view']),
                         viewbox_bottomleft_topright=np.array(
                             viewbox(c, plain)),
                         two_d_plot=bool(c['flatview']),
                         view_labels=bool(c['labels']),
                         trace_paths=c['trace'])))
    if set(plain) != set(shown):
        fail('graphics change the recorded arrays: %s' % sorted(shown))
    for k in plain:
        if (plain[k].shape != shown[k].shape
                or not np.array_equal(plain[k], shown[k], equal_nan=True)):
            fail('graphics change the recorded %s' % k)
    if not r.after:
        fail('no window was shown although graphics are on')
    img, pr = r.after[0]
    compare(img, pr, *beads(c, plain['centres'][-1], plain['deltax'][-1]),
            'live picture', outside=not c['labels'])


SUBS = [Sub('plot', cases(), plot, 36, classify=classify),
        Sub('video', cases('video'), video, 16, classify=classify),
        Sub('live', cases('live'), live, 24, classify=classify)]
