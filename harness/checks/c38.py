"""C38: progress estimates and durations are reported truthfully."""
import datetime
import re

import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('generated timing histories against a direct count, and printed '
             'values parsed back')
RULE = ('Timing histories with any refresh interval and resume point; '
        'durations and sizes over many orders of magnitude. Non-trivial: '
        'frames remain, or a value above one minute or one kilobyte.')


@st.composite
def histories(draw):
    n = draw(st.integers(1, 25))
    start = draw(st.integers(0, n - 1)) if draw(st.booleans()) else 0
    f = draw(st.integers(start, n - 1))
    ts = [draw(gen.logfl(0.01, 100)) for _ in range(n)]
    return dict(n=n, start=start, f=f, ts=ts, every=draw(st.integers(1, 6)),
                jit=draw(st.booleans()))


def oracle(c):
    fn = w.find('calculate_time_left', 'timestepping', 'shared')
    if fn is None:
        return
    import numba
    n, f, st_, ev = c['n'], c['f'], c['start'], c['every']
    # frames still to come have no measured time
    times = [c['ts'][i] if st_ <= i <= f else 0 for i in range(n)]
    was = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = not c['jit']
    try:
        left, flags = fn(list(times), f, n, ev, st_)
        left2, _ = fn(np.array(times, float), f, n, ev, st_)
    finally:
        numba.config.DISABLE_JIT = was
    slow = [i for i in range(st_, f + 1) if i % ev == 0 or i == st_]
    fast = [i for i in range(st_, f + 1) if i not in slow]
    if c['jit'] and len(slow) > 1:
        slow = slow[1:]           # the first frame includes compilation
    ms = np.mean([times[i] for i in slow])
    mf = np.mean([times[i] for i in fast]) if fast else ms
    rest = range(f + 1, n)
    want = 1.03 * sum(ms if i % ev == 0 else mf for i in rest)
    for v in (left, left2):
        if not abs(v - want) <= 1e-9 * (want + 1e-9):
            fail('estimate is %.9g s, expected %.9g (frame %d of %d, refresh '
                 'every %d, start %d)' % (v, want, f, n, ev, st_))
    if f == n - 1 and left != 0:
        fail('time left on the last frame: %s' % left)
    if not isinstance(flags, str) or set(flags) - {'<'}:
        fail('unexpected flags %r' % (flags,))


def parse(s):
    """Seconds and precision of a printed duration."""
    s = s.strip()
    m = re.fullmatch(r'([\d.]+)s', s)
    if m:
        return float(m[1]), 0.0501
    m = re.fullmatch(r'(?:(\d+)d\s*)?(?:(\d+):)?\s*(\d+):(\d+)', s)
    if not m:
        return None
    d, h, mi, se = [int(x) if x else 0 for x in m.groups()]
    if se > 59 or (mi > 59) or (m[1] and h > 23):
        return None
    return ((d * 24 + h) * 60 + mi) * 60 + se, 1.0


@st.composite
def durations(draw):
    k = draw(st.sampled_from([0, 0, 0, 60, 3600, 86400, 18000, 600]))
    t = (k + draw(gen.sym(3)) if k else draw(gen.logfl(1e-4, 3e6)))
    return dict(t=max(t, 0.0), flags=draw(st.sampled_from(['', '<', '<<'])))


def duration_oracle(c):
    t = c['t']
    el, tl = w.find('format_elapsed_time'), w.find('format_time_left')
    ff = w.find('format_finish_time')
    if el:
        p = parse(el(t))
        if p is None or not abs(p[0] - t) <= p[1]:
            fail('duration %.6g s is printed as %r' % (t, el(t)))
        if t >= 86400 and 'd' not in el(t):
            fail('duration %.6g s is printed as %r' % (t, el(t)))
    if tl:
        s = re.sub('\033\\[[0-9;]*m', '', tl(t, c['flags']))
        if not s.startswith(c['flags']):
            fail('time left %r lost its flags' % s)
        p = parse(s[len(c['flags']):])
        if p is None or not abs(p[0] - t) <= p[1]:
            fail('time left %.6g s is printed as %r' % (t, s))
    if ff:
        ok = set()
        before = datetime.datetime.now()
        s = ff(t, c['flags'])
        after = datetime.datetime.now()
        for now in (before, after):
            e = now + datetime.timedelta(seconds=t)
            days = (e.date() - now.date()).days
            ok.add(c['flags'] + e.strftime(
                '%H:%M' if days == 0 else '%a %H:%M' if days < 7
                else '%d/%m/%y %H:%M'))
        if s not in ok:
            fail('finish in %.6g s is printed as %r, expected one of %s'
                 % (t, s, sorted(ok)))


@st.composite
def amounts(draw):
    if draw(st.booleans()):
        k = draw(st.integers(0, 7))
        return dict(b=float(1024 ** k) * draw(gen.fl(0.95, 1.05)))
    return dict(b=draw(gen.logfl(1, 1e20)))


def size_oracle(c):
    f = w.find('sizeof_fmt')
    if f is None:
        return
    s = f(c['b'])
    m = re.fullmatch(r'\s*([\d.]+(?:e[+-]?\d+)?)\s*([KMGTPEZY]?)B', s)
    if not m:
        fail('%.6g bytes are printed as %r' % (c['b'], s))
    v = float(m[1]) * 1024 ** ' KMGTPEZY'.index(m[2] or ' ')
    if not abs(v - c['b']) <= 6e-3 * c['b']:
        fail('%.6g bytes are printed as %r' % (c['b'], s))


SUBS = [
    Sub('estimate', histories(), oracle, 500, 5000, shards=1, init=w.init(),
        classify=lambda c: (c['f'] < c['n'] - 1,
                            ['every=%d' % c['every'],
                             'resumed' if c['start'] else 'fresh'])),
    Sub('durations', durations(), duration_oracle, 500, 5000, shards=1,
        init=w.init(), classify=lambda c: (
            c['t'] > 60, ['1e%d' % int(np.log10(c['t'] + 1e-3))])),
    Sub('sizes', amounts(), size_oracle, 300, 3000, shards=1, init=w.init(),
        classify=lambda c: (c['b'] > 1024, [])),
]
