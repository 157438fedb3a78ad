"""C20: foreign, damaged or leftover backups never disturb a run."""
import io
import os
import zipfile

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('fault injection: whole runs started among generated foreign, '
             'truncated and corrupted files, compared with a run in an empty '
             'folder')
RULE = ('One to five files per case: backups of other runs, damaged backups of '
        'this run, unrelated names. Non-trivial: at least one damaged or '
        'near-miss backup.')
KEYS = ('centres', 'deltax', 'sphere_rotations', 'Fa', 'Fb', 'DFb', 'Sa')
DTS = ['0.1', '0.05', '1e-05', '2.5e-05', '1.0', '0.25']


def name_of(setup, inp, frames, dt, stamp='0101010101', tail='test'):
    return '%s-s%s-i%s-%sfr-t%s-M1-%s_TEMP.npz' % (
        stamp, setup, inp, frames, str(float(dt)).replace('.', 'p'), tail)


FOREIGN = ['setup', 'input', 'frames', 'dt', 'setup sign', 'input sign',
           'exponent', 'more digits']
DAMAGE = ['empty', 'garbage', 'truncated', 'short', 'missing', 'flipped',
          'not a zip of arrays', 'no rows']
OTHER = ['notes.txt', 'readme_TEMP.npz', 'a-b-c-d-e_TEMP.npz', '_TEMP.npz',
         '1-s1_TEMP.npz', '0101010101-sX-iY-Zfr-tQ-M1_TEMP.npz', 'result.npz',
         '0101010101-s1-i1-5fr-t0p1-M1', 'old_TEMP.npz.bak',
         '0101010101-s1-i1-fr-t-M_TEMP.npz', '-s1-i1-5fr-t0p1-M1_TEMP.npz']


@st.composite
def cases(draw):
    c = draw(traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(1, 5),
                       gap_hi=1.0))
    c['dt'] = draw(st.sampled_from(DTS))
    c['setup'] = draw(st.sampled_from([-7, -12, -123]))
    c['inp'] = draw(st.sampled_from([-7, 3, 41]))
    files = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['foreign', 'damaged', 'damaged', 'other']))
        files.append([kind, draw(st.sampled_from(
            dict(foreign=FOREIGN, damaged=DAMAGE, other=OTHER)[kind])),
            draw(st.integers(0, 99)), draw(st.booleans())])
    c['files'] = files
    c['temp'] = draw(st.integers(1, 4))
    return c


def backup_bytes(c, rows=2, shift=5.0):
    """A readable backup with misleading contents."""
    n, m = len(c['sa']), len(c['da'])
    b = io.BytesIO()
    np.savez_compressed(
        b, Fa=np.ones((rows, n, 3)), Fb=np.ones((rows, m, 3)),
        DFb=np.ones((rows, m, 3)), Sa=np.ones((rows, n, 3, 3)),
        centres=shift + np.random.RandomState(1).rand(rows, n + m, 3) * 9,
        deltax=np.ones((rows, m, 3)),
        force_on_wall_due_to_dumbbells=np.zeros(rows),
        sphere_rotations=np.zeros((rows, n, 2, 3)))
    return b.getvalue()


def make(c, k, spec):
    kind, which, x, big = spec
    stamp = '01010101%02d' % k
    s, i, f, dt = c['setup'], c['inp'], c['frames'], float(c['dt'])
    data = backup_bytes(c, 1 + x % 3)
    if kind == 'other':
        return which, data if big else b'hello'
    if kind == 'foreign':
        if which == 'setup':
            s = s - 1 if big else s + 1
        elif which == 'input':
            i = i + 1 if big else i - 1
        elif which == 'frames':
            f = f * 10 if big else f + 1
        elif which == 'dt':
            dt = dt * 10 if big else dt * 2
        elif which == 'setup sign':
            s = -s
        elif which == 'input sign':
            i = -i
        elif which == 'exponent':
            dt = 3e-07 if dt != 3e-07 else 4e-07
        else:
            s, f = int('%d1' % s), f
        if x % 4 == 0:
            data = data[:len(data) // 2]
        return name_of(s, i, f, dt, stamp), data
    name = name_of(s, i, f, dt, stamp)
    if which == 'empty':
        data = b''
    elif which == 'garbage':
        data = bytes((7 * j + x) % 251 for j in range(300 + x))
    elif which == 'truncated':
        data = data[:max(1, len(data) * (x + 1) // 101)]
    elif which == 'short':
        data = data[:-1 - x % 20]
    elif which == 'missing':
        z = zipfile.ZipFile(io.BytesIO(data))
        drop = sorted(z.namelist())[x % len(z.namelist())]
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as out:
            for nm in z.namelist():
                if nm != drop:
                    out.writestr(nm, z.read(nm))
        data = b.getvalue()
    elif which == 'flipped':
        # damage the compressed body of one member
        z = zipfile.ZipFile(io.BytesIO(data))
        members = [m for m in z.infolist() if m.compress_size > 40]
        m = members[x % len(members)]
        at = m.header_offset + 30 + len(m.filename) + m.compress_size // 2
        at += data[m.header_offset + 28] + 256 * data[m.header_offset + 29]
        data = data[:at] + bytes(b ^ 0x5a for b in data[at:at + 12]) + data[
            at + 12:]
        try:
            with np.load(io.BytesIO(data)) as f_:
                for kk in f_.files:
                    f_[kk]
            data = data[:len(data) // 2]      # happened to stay readable
        except Exception:
            pass
    elif which == 'no rows':
        b = io.BytesIO()
        np.savez_compressed(b, centres=np.array([]), deltax=np.array([]),
                            Fa=np.array([]))
        data = b.getvalue()
    else:
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as out:
            out.writestr('hello.txt', 'hello')
        data = b.getvalue()
    return name, data


def spec_of(c):
    c = dict(c, dt=float(c['dt']))
    return traj.script(c, settings=dict(
        save_to_temp_file_every_n_timesteps=c['temp']),
        argv=[c['setup'], c['inp'], c['dt'], c['frames'], c['form']])


def oracle(c):
    files = {}
    for k, f in enumerate(c['files']):
        nm, data = make(c, k, f)
        files[nm] = data
    _, ref = sim.ok(**spec_of(c))
    r = sim.run(files=files, **spec_of(c))
    try:
        if r.exc:
            fail('a run among %s stopped with %s'
                 % ([f[:2] for f in c['files']], r.exc.strip()))
        if r.code:
            fail('a run among %s stopped with: %s'
                 % ([f[:2] for f in c['files']], r.msg))
        for nm, data in files.items():
            p = os.path.join(r.dir, 'output', nm)
            if not os.path.exists(p):
                fail('file %s was removed' % nm)
            if open(p, 'rb').read() != data:
                fail('file %s was changed' % nm)
        got = r.main()
        for key in KEYS:
            if got[key].shape != ref[key].shape or not np.array_equal(
                    got[key], ref[key]):
                fail('%s differs from the run in an empty folder (files %s)'
                     % (key, [f[:2] for f in c['files']]))
    finally:
        r.clean()


@st.composite
def resumes(draw):
    c = draw(cases())
    c['frames'] = draw(st.integers(4, 7))
    c['scheme'] = draw(st.sampled_from(['euler', 'rk4']))
    c['files'] = [f for f in c['files'] if f[0] != 'damaged']
    c['crash'] = draw(st.integers(3, c['frames'] - 1))
    c['temp'] = 1
    return c


def resume_oracle(c):
    """A matching readable backup is resumed even among foreign files."""
    files = dict(make(c, k, f) for k, f in enumerate(c['files']))
    r = sim.run(files=files, killed_ok=True, **dict(spec_of(c), crash=c['crash']))
    try:
        if r.code != 'crash':
            fail('a run among %s stopped with %s %s'
                 % ([f[:2] for f in c['files']], r.exc, r.msg))
        r2 = sim.run(wd=r.dir, **spec_of(c))
        if r2.exc or r2.code:
            fail('resumed run stopped with %s %s' % (r2.exc, r2.msg))
        frames = [q[0] for q in r2.calls if not q[3]]
        # Runge-Kutta asks for inputs of the next frame's start in each frame
        upto = c['crash'] - (2 if c['scheme'] == 'rk4' else 1)
        if min(frames) < upto:
            fail('own backup reaching frame %d was not resumed (step %s, setup '
                 '%s): started at frame %s' % (upto, c['dt'], c['setup'],
                                               min(frames)))
    finally:
        r.clean()


def classify(c):
    nt = any(f[0] in ('damaged', 'foreign') for f in c['files'])
    return nt, sorted({f[0] + ':' + f[1] for f in c['files']}) + [
        'dt=' + c['dt']]


SUBS = [
    Sub('strange files', cases(), oracle, 130, 1500, shards=6, init=w.init(),
        classify=classify),
    Sub('own backup among them', resumes(), resume_oracle, 40, 400, shards=2,
        init=w.init(), classify=classify),
]
