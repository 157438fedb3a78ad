"""C29: the generator of resistance tables against the two-sphere solution."""
import functools
import inspect
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen
from common import REPO, Hang, Sub, arm, fail
from refs import scalars, twosphere

TECHNIQUE = ('differential testing of the table generator, step by step, against '
             'an independent multipole solution of two spheres')
RULE = ('Random size ratios and gaps: near-field functions (one sub-check per '
        'recurrence), midfield script with the Fortran program built from the '
        'working tree, and the assembling scripts fed with exact scalars up to a '
        'solve with the new tables. Non-trivial: a ratio not in the shipped '
        'tables.')
SRC = os.path.join(REPO, 'find_resistance_scalars')
HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = scalars.NAMES


@functools.lru_cache(maxsize=64)
def exact_matrix(lam, xi, digits=9.0):
    d = (2 + xi) * (1 + lam) / 2
    return twosphere.resistance(lam, d, twosphere.orders(lam, d, digits))


def exact(lam, xi, digits=9.0):
    return scalars.from_matrix(exact_matrix(lam, xi, digits))


# ------------------------------------------------------------- near field
# slowest first
FAMILIES = dict(zm=['ZM'], ym=['YM'], ya=['YA', 'YB', 'YG'], yc=['YC', 'YH'],
                xa=['XA', 'XG', 'XC'], xm=['XM'])
GRID = ([0.25, 0.5, 0.8, 1.0], [2e-3, 4e-3])


TERMS = 80


def shorten(f):
    """Sum up to 80 terms instead of 200, if sums are still told how many.

    The rest changes the results by less than 5e-4 of their regular part, but
    its recurrences take most of ten minutes to fill.
    """
    for name in ('intermediate_sum', 'intermediate_sum_no_f0_coeff'):
        g = getattr(f, name, None)
        try:
            sig = inspect.signature(g)
        except (TypeError, ValueError):
            continue
        if 'N' not in sig.parameters:
            continue

        def short(*a, _g=g, _sig=sig, **k):
            b = _sig.bind(*a, **k)
            b.apply_defaults()
            b.arguments['N'] = min(b.arguments['N'], TERMS)
            return _g(*b.args, **b.kwargs)
        setattr(f, name, short)


@functools.lru_cache(maxsize=1)
def functions():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    try:
        import functions_nearfield as f
        if os.environ.get('VERIF_TIER') != 'thorough':
            shorten(f)
        return {n + g: getattr(f, n[0] + g + n[1]) for n in NAMES
                for g in ('11', '12')}
    except (ImportError, AttributeError):
        return None


@functools.lru_cache(maxsize=1)
def script_table():
    """The same numbers from the script, should the functions have moved."""
    with Copy() as c:
        c.lists(GRID[0], near=[2 + x for x in GRID[1]])
        c.run('generate_scalars_nearfield.py', 840)
        return c.load('scalars_general_resistance_nearfield.npy')


def near(names, lam, xi):
    f = functions()
    if f is not None:
        return lam, xi, np.array([[f[n + g](xi, lam) for g in ('11', '12')]
                                  for n in names])
    T = script_table()
    lams = wide(GRID[0])
    i = int(np.argmin(np.abs(np.log(np.array(lams) / lam))))
    k = int(np.argmin(np.abs(np.array(GRID[1]) - xi)))
    return lams[i], GRID[1][k], T[[NAMES.index(n) for n in names], :, k, i]


def near_oracle(names):
    def oracle(c):
        arm(880)                 # the first case fills the recurrences
        lam = 1 / c['lam'] if c['flip'] else c['lam']
        lam, xi, T = near(names, lam, c['xi'])
        rows = [NAMES.index(n) for n in names]
        E = exact(lam, xi, 14.0)[rows]
        size = np.max(np.abs(exact(lam, 0.3)[rows]), axis=1)[:, None]
        err = np.abs(T - E) / size
        # the expansion leaves out terms of the order of the gap over the
        # smaller sphere; measured to stay below 2.4 times that
        lim = 5 * xi * max(lam, 1 / lam) + 5e-4
        if not np.max(err) < lim:
            i, g = np.unravel_index(np.argmax(err), err.shape)
            fail('near-field %s1%d at size ratio %.9g, gap %.9g: %.9g, exact '
                 '%.9g (error limit %.2g of its regular part)'
                 % (names[i][0] + names[i][1], g + 1, lam, xi, T[i, g], E[i, g],
                    lim))
    return oracle


@st.composite
def near_cases(draw):
    return dict(lam=draw(gen.logfl(0.15, 1)), flip=draw(st.booleans()),
                xi=draw(gen.fl(2e-3, 4e-3)))


def near_cl(c):
    return c['lam'] not in (1.0, 0.1), [
        'second larger' if c['flip'] else 'first larger',
        'ratio<0.3' if c['lam'] < 0.3 else 'ratio>=0.3']


# ------------------------------------------------------------ the scripts
class Copy:
    """Scratch copy of the generator and of the package."""

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='tables-', dir=os.getcwd())
        self.dir = os.path.join(self.top, 'find_resistance_scalars')
        skip = shutil.ignore_patterns('__pycache__', '*.exe', 'output', '.git')
        shutil.copytree(SRC, self.dir, ignore=skip)
        self.pkg = os.path.join(self.top, 'stokesian_dynamics')
        shutil.copytree(os.path.join(REPO, 'stokesian_dynamics'), self.pkg,
                        ignore=skip)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def lists(self, lams, near=None, mid=None):
        for name, v in (('lambda', lams), ('s_dash_nearfield', near),
                        ('s_dash_midfield', mid)):
            if v is not None:
                with open(self.path('values_of_%s.txt' % name), 'w') as f:
                    f.write('\n'.join(repr(float(x)) for x in v) + '\n')

    def run(self, script, limit=300):
        try:
            p = subprocess.run([sys.executable, script], cwd=self.dir,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=limit, text=True, errors='replace',
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise Hang('%s gave no answer within %d s' % (script, limit)) from None
        if p.returncode:
            self.last = p.stdout
            fail('%s stopped: %s' % (script, p.stdout.strip()[-300:]))
        return p.stdout

    def load(self, name):
        if not os.path.exists(self.path(name)):
            fail('%s was not written' % name)
        return np.load(self.path(name))

    def text(self, name, rows):
        """Last `rows` rows of a human-readable table."""
        with open(self.path(name)) as f:
            lines = f.read().strip().split('\n')[-rows:]
        try:
            return np.array([[float(x) for x in l.split()] for l in lines])
        except ValueError:
            fail('%s does not end with a table of %d rows' % (name, rows))


def wide(lams):
    """All ratios of a table: those given and their reciprocals."""
    return sorted(set(lams) | {1 / x for x in lams if 1 / x not in lams})


def exact_table(lams, gaps):
    return np.array([[exact(l, x) for x in gaps] for l in wide(lams)]
                    ).transpose(2, 3, 1, 0)


def compare(T, E, what, lim):
    if T.shape != E.shape:
        fail('%s has shape %s, expected %s' % (what, T.shape, E.shape))
    size = np.max(np.abs(E), axis=1, keepdims=True)
    err = np.abs(T - E) / size
    if not np.max(err) < lim:
        k = np.unravel_index(np.argmax(err), err.shape)
        fail('%s: %s1%d for distance number %d, ratio number %d is %.9g, '
             'expected %.9g' % (what, NAMES[k[0]], k[1] + 1, k[2], k[3], T[k],
                                E[k]))


def compare_text(c, name, table, lams, s):
    rows = c.text(name, 2 * len(lams) * len(s))
    got = {}
    for r in rows:
        got[(round(r[0], 6), float('%.6g' % r[1]), int(r[2]))] = r[3:]
    for i, l in enumerate(lams):
        for k, x in enumerate(s):
            for g in (0, 1):
                r = got.get((round(x, 6), float('%.6g' % l), g))
                if r is None or not np.allclose(r, table[:, g, k, i], rtol=1e-6,
                                                atol=1e-9):
                    fail('%s: row for distance %.6g, ratio %.6g, %d is %s'
                         % (name, x, l, g, r))


@st.composite
def ratios(draw, most, lo):
    """Distinct ratios up to 1, as a user would list them."""
    return draw(st.lists(st.one_of(
        st.integers(round(100 * lo), 99).map(lambda k: k / 100),
        gen.fl(lo, 0.99)), min_size=1, max_size=most,
        unique_by=lambda x: round(x, 2)))


@st.composite
def mid_cases(draw):
    # the Fortran program's accuracy drops for smaller ratios
    return dict(lams=draw(ratios(2, 0.2)),
                s=sorted(draw(st.lists(st.integers(25, 45), min_size=1,
                                       max_size=2, unique=True))))


def mid_oracle(c):
    arm(880)
    lams, s = c['lams'], [x / 10 for x in c['s']]
    with Copy() as k:
        k.lists(lams, mid=s)
        fdir = k.path('helen_fortran')
        p = subprocess.run(['gfortran', '2sphere.f', 'base.f', 'reflect.f', '-o',
                            'lamb.exe'], cwd=fdir, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            fail('the Fortran program does not build: %s' % p.stdout[-300:])
        k.run('generate_scalars_midfield.py', 800)
        T = k.load('scalars_general_resistance_midfield.npy')
        compare(T, exact_table(lams, [x - 2 for x in s]),
                'midfield resistance table', 1e-5)
        compare_text(k, 'scalars_general_resistance_midfield.txt', T,
                     wide(lams), s)
        mobilities(k, lams, s)


def mobilities(k, lams, s):
    """Force and torque mobilities from the written text table."""
    L = wide(lams)
    for r in k.text('scalars_general_mobility_midfield.txt', 2 * len(L) * len(s)):
        lam = min(L, key=lambda x: abs(x - r[1]))
        x = min(s, key=lambda y: abs(y - r[0]))
        R = exact_matrix(lam, x - 2)
        i = list(range(6)) + list(range(11, 17))
        M = np.linalg.inv(R[np.ix_(i, i)])
        g = 6 * int(r[2])
        pi = np.pi
        E = np.array([M[2, g + 2] * 6 * pi, M[0, g] * 6 * pi, -M[4, g] * 4 * pi,
                      M[5, g + 5] * 8 * pi, M[3, g + 3] * 8 * pi])
        size = np.array([abs(M[2, 2]) * 6 * pi, abs(M[0, 0]) * 6 * pi,
                         np.max(np.abs(M[4, [0, 6]])) * 4 * pi,
                         abs(M[5, 5]) * 8 * pi, abs(M[3, 3]) * 8 * pi])
        err = np.abs(r[3:8] - E) / size
        if not np.max(err) < 1e-5:
            fail("mobility scalars at s'=%g, ratio %.6g, %d: %s, exact %s"
                 % (x, lam, int(r[2]), r[3:8], E))


STUB = '''
import os
import numpy as np
_t = np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stub.npz'))
_names = list(_t['names'])


def _make(name):
    def f(xi, lam):
        i = np.argmin(np.abs(np.log(_t['lam'] / lam)))
        k = np.argmin(np.abs(_t['xi'] - xi))
        return _t['table'][_names.index(name[0] + name[3]), int(name[2]) - 1, k, i]
    f.__name__ = name
    return f


for _n in _names:
    for _g in '12':
        globals()[_n[0] + '1' + _g + _n[1]] = _make(_n[0] + '1' + _g + _n[1])
'''
SOLVER = '''
import sys
sys.path.insert(0, %r)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import world as w
path, drag = sys.argv[1], sys.argv[2] == 'drag'
f = np.load(path)
w.load(**(dict(use_drag_Minfinity=True, use_drag_R2Binfinity=True) if drag else {}))
out = []
for x, a in zip(f['x'], f['a']):
    out.append(w.resistance(w.System(x, a), cutoff=2.3, drag=drag)[0])
np.save(path + '.out.npy', np.array(out))
'''


@st.composite
def table_cases(draw):
    near = draw(st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True))
    mid = draw(st.lists(st.integers(1, 24), min_size=1, max_size=3, unique=True))
    lams = draw(ratios(2, 0.05))
    lams.insert(draw(st.integers(0, len(lams))), 1.0)    # the solver needs it
    return dict(lams=lams, near=[round(0.01 * k, 2) for k in near],
                mid=[round(0.1 * k, 1) for k in mid] + [2.5],
                drag=draw(st.booleans()), d=draw(gen.direction()),
                a=draw(st.sampled_from([1.0, 2.0, 0.5])))


def table_oracle(c):
    arm(600)
    lams, near, mid = c['lams'], c['near'], c['mid']
    L = wide(lams)
    with Copy() as k:
        k.lists(lams, near=[2 + x for x in near], mid=[2 + x for x in mid])
        near_t, mid_t = exact_table(lams, near), exact_table(lams, mid)
        np.save(k.path('scalars_general_resistance_midfield.npy'), mid_t)
        with open(k.path('functions_nearfield.py'), 'w') as f:
            f.write(STUB)
        np.savez(k.path('stub.npz'), names=NAMES, lam=L, xi=near, table=near_t)
        done = 'scalars_general_resistance_nearfield.npy'
        os.remove(k.path(done))
        if functions() is not None:
            k.run('generate_scalars_nearfield.py')
            compare(k.load(done), near_t, 'near-field table', 1e-12)
            compare_text(k, done[:-3] + 'txt', near_t, L, [2 + x for x in near])
        else:
            np.save(k.path(done), near_t)
        k.run('combine_scalars.py')
        s = np.loadtxt(k.path('values_of_s_dash.txt'), ndmin=1)
        order = np.argsort(near + mid)
        want = 2 + np.array(near + mid)[order]
        if s.shape != want.shape or not np.allclose(s, want, atol=1e-8):
            fail('combined distances are %s, expected %s' % (s, want))
        both = np.concatenate([near_t, mid_t], axis=2)[:, :, order]
        T = k.load('scalars_general_resistance.npy')
        compare(T, both, 'combined table', 1e-12)
        compare_text(k, 'scalars_general_resistance.txt', both, L, want)
        script = 'subtract_R2Binfinity%s_from_scalars.py' % (
            'drag' if c['drag'] else '')
        k.run(script)
        name = 'scalars_general_resistance_d%s' % ('_drag' if c['drag'] else '')
        D = k.load(name + '.npy')
        compare_text(k, name + '.txt', D, L, want)
        use = os.path.join(k.pkg, 'resistance_scalars')
        for f in ('scalars_general_resistance.npy', name + '.npy',
                  'values_of_lambda.txt', 'values_of_s_dash.txt'):
            shutil.copy(k.path(f), use)
        solve(k, c, L, want)


def solve(k, c, L, s):
    X, A, E = [], [], []
    for lam in L:
        for y in s:
            a = c['a']
            X.append([[0, 0, 0], np.array(c['d']) * a * (1 + lam) * y / 2])
            A.append([a, a * lam])
            u = np.tile(np.repeat([1, a, a], [3, 3, 5]), 2)
            E.append(twosphere.rotate(exact_matrix(lam, round(y - 2, 6)), c['d'])
                     * np.outer(u, u) * a)
    npz = os.path.join(k.top, 'pairs.npz')
    np.savez(npz, x=X, a=A)
    p = subprocess.run(
        [sys.executable, '-c', SOLVER % os.path.dirname(HERE), npz,
         'drag' if c['drag'] else 'full'], cwd=k.top, text=True,
        env=dict(os.environ, SDVERIF_REPO=k.top), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=300)
    if p.returncode and k.pkg not in p.stdout:
        raise RuntimeError(p.stdout[-2000:])
    if p.returncode:
        fail('solving with the new tables stopped: %s' % p.stdout.strip()[-300:])
    i = [j for q in range(2) for j in
         [3 * q, 3 * q + 1, 3 * q + 2, 6 + 3 * q, 7 + 3 * q, 8 + 3 * q]
         + [12 + 5 * q + m for m in range(5)]]
    for R, e, a, x in zip(np.load(npz + '.out.npy'), E, A, X):
        R = R[np.ix_(i, i)]
        D = np.sqrt(np.diag(e))
        err = np.max(np.abs(R - e) / np.outer(D, D))
        if not err < 1e-5:
            fail('with tables made of exact scalars, a pair of radii %s at %s is '
                 'off the exact solution by %.3g' % (a, x[1], err))


def list_cl(c):
    return not set(c['lams']) <= {1.0, 0.1}, ['%d ratios' % len(c['lams'])] + (
        ['drag'] if c.get('drag') else []) + (
        ['unsorted'] if c['lams'] != sorted(c['lams']) else [])


SUBS = [Sub('near-' + n, near_cases(), near_oracle(f), 24, 120, shards=1,
            classify=near_cl, max_shards_thorough=1)
        for n, f in FAMILIES.items()]
SUBS += [
    Sub('midfield', mid_cases(), mid_oracle, 6, 30, shards=3, classify=list_cl,
        examples=[dict(lams=[0.9, 0.3], s=[30])]),
    Sub('tables', table_cases(), table_oracle, 16, 120, shards=4,
        classify=list_cl),
]
