"""C22: compiled and uncompiled runs give the same numbers."""
import os
import pickle
import struct
import sys

import numpy as np
from hypothesis import strategies as st

import forms
import gen
import perio
import sim
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('differential testing of compiled against uncompiled code on '
             'generated suspensions, boxes and whole runs')
RULE = ('Suspensions of spheres and dumbbells with table size ratios, unbounded '
        'or in sheared periodic boxes. Non-trivial: two or more particles.')

_pipe = []


# An uncompiled twin lives in a child process that answers questions.
def serve(rd, wr):
    w.load(jit=False)
    while True:
        h = rd.read(8)
        if len(h) < 8:
            os._exit(0)
        c = pickle.loads(rd.read(struct.unpack('q', h)[0]))
        try:
            r = compute(c)
        except BaseException as e:
            r = '%s: %s' % (type(e).__name__, e)
        b = pickle.dumps(r)
        wr.write(struct.pack('q', len(b)) + b)
        wr.flush()


def start():
    a, b = os.pipe(), os.pipe()
    sys.stdout.flush()
    if os.fork() == 0:
        os.close(a[1])
        os.close(b[0])
        try:
            serve(os.fdopen(a[0], 'rb'), os.fdopen(b[1], 'wb'))
        finally:
            os._exit(1)
    os.close(a[0])
    os.close(b[1])
    _pipe[:] = [os.fdopen(a[1], 'wb'), os.fdopen(b[0], 'rb')]
    w.load(jit=True)


def ask(c):
    b = pickle.dumps(c)
    _pipe[0].write(struct.pack('q', len(b)) + b)
    _pipe[0].flush()
    h = _pipe[1].read(8)
    if len(h) < 8:
        raise RuntimeError('uncompiled twin died')
    return pickle.loads(_pipe[1].read(struct.unpack('q', h)[0]))


def compute(c):
    s = w.from_case(c)
    kw = {}
    if 'box' in c:
        Ot, Et = perio.strain_of(c)
        kw = dict(box=perio.box(c), Ot=Ot, Et=Et)
    R, Minv = w.resistance(s, mu=c['mu'], cutoff=c['cutoff'], **kw)
    out = dict(lub=R - Minv, Minv=Minv)
    extra = {}
    if 'box' in c:
        extra = dict(bl=kw['box'][0], tr=kw['box'][1], Ot=Ot, Et=Et)
    o = w.solve(s, forms.inputs(c, s, **extra), form=c['form'],
                cutoff=c['cutoff'])
    for k in forms.VEL + forms.FOR:
        out[k] = o[k]
    return out


@st.composite
def with_cutoff(draw, inner):
    c = draw(inner)
    c['cutoff'] = draw(gen.fl(1.1, 2.2)) if draw(st.booleans()) else 2
    return c


def unbounded():
    return with_cutoff(forms.loaded(gen.table_systems(
        spheres=(0, 5), dumbbells=(0, 3), min_total=1, gap_hi=2.0)))


def periodic():
    return with_cutoff(forms.loaded(perio.systems(
        (0, 3), (0, 2), sizes=(1.0, 0.1), lo=9.0, near=(0.01, 0.8)),
        forms=('fts', 'fte', 'ufte')))


def oracle(c):
    s = w.from_case(c)
    dist = (perio.distances(s, perio.basis(c)) if 'box' in c else None)
    if dist is not None:
        if any(abs(v / 2 - c['cutoff']) < 1e-9 for v in dist.values()):
            return
    elif gen.near_cutoff(s, c['cutoff']):
        return
    try:
        got = compute(c)
    except Exception as e:
        err = e
        got = None
    want = ask(c)
    if isinstance(want, str):
        fail('uncompiled code stops with ' + want)
    if got is None:
        raise err
    tol = gen.solve_tol(s, c['mu'], c['form'])
    if dist:
        g = min(dist.values()) - 2          # closest image, not closest given
        tol = max(tol, 1e-8 + 2.5e-12 * (10 + 1 / g) ** 2 * max(1, c['mu']) ** 2)
    for k, lim in (('lub', 1e-11), ('Minv', 1e-9)):
        sc = np.max(np.abs(want[k]))
        e = np.max(np.abs(want[k] - got[k]))
        if not e <= lim * sc + 1e-10 * np.max(np.abs(want['Minv'])):
            fail('%s differs by %.3g (of %.3g) when compiled' % (k, e, sc))
    forms.compare(got, want, s, tol, 'compiled against uncompiled')


def runs_oracle(c):
    _, a = traj.run(c, jit=True, limit=600)
    _, b = traj.run(c)
    # once particles nearly touch, rounding decides what follows
    safe = len(traj.model(c)[0])
    for k in ('centres', 'deltax', 'sphere_rotations', 'Fa', 'Fb', 'DFb', 'Sa'):
        if a[k].shape != b[k].shape:
            fail('%s recorded with shape %s compiled, %s uncompiled'
                 % (k, a[k].shape, b[k].shape))
        x, y = a[k][:safe], b[k][:safe]
        if k in ('Fa', 'Fb', 'DFb', 'Sa'):
            x, y = x[:-1], y[:-1]
        if x.size:
            e = np.max(np.abs(x - y))
            if not e <= 1e-6 * (1 + np.max(np.abs(y))):
                fail('recorded %s differ by %.3g when compiled' % (k, e))


def cl(c):
    return (len(c['sa']) + len(c.get('da', [])) > 1,
            ['spheres=%d' % len(c['sa']), 'form=' + c['form'],
             'dumbbells=%d' % len(c.get('da', [])),
             'tilt=%s' % (c.get('tilt'),)])


SUBS = [
    Sub('unbounded', unbounded(), oracle, 150, 1500, shards=2, init=start,
        classify=cl),
    Sub('periodic', periodic(), oracle, 44, 600, shards=2, init=start,
        classify=cl),
    Sub('whole runs', traj.runs(frames=(1, 4)), runs_oracle, 10, 80, shards=1,
        init=w.init(), classify=traj.classify),
]
