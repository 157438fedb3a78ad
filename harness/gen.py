"""Hypothesis strategies. Cases are JSON-friendly and built, not filtered."""
import numpy as np
from hypothesis import strategies as st


# Hypothesis draws integers of wide ranges mostly near their lower end, so
# numbers are put together from two small, evenly drawn integers.
_unit = st.tuples(st.integers(0, 100), st.integers(0, 99)).map(
    lambda k: min(1.0, (100 * k[0] + k[1]) / 10000))
_signed = st.tuples(st.integers(0, 200), st.integers(0, 99)).map(
    lambda k: (-1) ** k[0] * min(1.0, (100 * ((k[0] + 1) // 2) + k[1]) / 10000))


def fl(lo, hi, steps=None):
    """Evenly spread float in [lo, hi] that shrinks towards lo."""
    return _unit.map(lambda u: round(lo + (hi - lo) * u, 9))


def logfl(lo, hi):
    r = np.log(hi / lo)
    return _unit.map(lambda u: float('%.9g' % (lo * np.exp(r * u))))


def sym(hi):
    """Float in [-hi, hi], shrinks towards 0."""
    return _signed.map(lambda u: round(hi * u, 9))


def vec(hi=1.0):
    return st.tuples(sym(hi), sym(hi), sym(hi)).map(list)


@st.composite
def direction(draw):
    """Unit vector: coordinate axes and planes sometimes, generic mostly."""
    kind = draw(st.integers(0, 7))
    if kind == 0:
        ax, sg = draw(st.integers(0, 2)), draw(st.sampled_from([1, -1]))
        d = np.zeros(3)
        d[ax] = sg
        return d.tolist()
    c = draw(fl(-1, 1))
    p = draw(fl(0, 2 * np.pi))
    s = np.sqrt(max(0.0, 1 - c * c))
    d = np.array([s * np.cos(p), s * np.sin(p), c])
    if kind == 1:
        d[draw(st.integers(0, 2))] = 0.0
    n = np.linalg.norm(d)
    return [1.0, 0.0, 0.0] if n < 1e-6 else (d / n).tolist()


def rotation_from(q):
    q = np.array(q, float)
    if np.linalg.norm(q) < 1e-6:
        q = np.array([1.0, 0, 0, 0])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


quat = st.tuples(sym(1), sym(1), sym(1), sym(1)).map(list)


def rot_matrix(spec):
    """spec: quaternion, or ['perm', k] for one of 48 signed permutations."""
    if spec and spec[0] == 'perm':
        import itertools
        k = spec[1]
        p = list(itertools.permutations(range(3)))[k % 6]
        s = [1 if (k // 6) >> b & 1 == 0 else -1 for b in range(3)]
        R = np.zeros((3, 3))
        for i in range(3):
            R[i, p[i]] = s[i]
        return R
    return rotation_from(spec)


rotation = st.one_of(quat, st.integers(0, 47).map(lambda k: ['perm', k]))


def place(specs, min_factor):
    """Chain placement: each bead set relative to an earlier one, pushed outward
    along its direction until every pair is at least min_factor*(a+b) apart."""
    pts, sizes = [], []
    for a, parent, d, gap in specs:
        d = np.array(d)
        if not pts:
            pts.append(np.zeros(3))
            sizes.append(a)
            continue
        j = parent % len(pts)
        dist = (sizes[j] + a) * (1 + gap)
        for _ in range(200):
            p = pts[j] + dist * d
            nxt = dist
            for k in range(len(pts)):
                lim = min_factor * (a + sizes[k])
                if k == j or np.linalg.norm(p - pts[k]) >= lim:
                    continue
                # leave sphere k along the ray: larger root of a quadratic
                rel = pts[j] - pts[k]
                bb = rel @ d
                disc = max(0.0, bb * bb - rel @ rel + lim * lim)
                nxt = max(nxt, -bb + np.sqrt(disc) + (0.02 + gap) * a)
            if nxt == dist:
                break
            dist = nxt
        pts.append(p)
        sizes.append(a)
    return np.array(pts), sizes


def r9(a):
    return np.round(np.asarray(a, float), 9).tolist()


@st.composite
def systems(draw, spheres=(1, 4), dumbbells=(0, 2), sizes=(1.0,), gap_lo=1e-3,
            gap_hi=3.0, close=0.4, min_total=1, scale=None, offset=0.0,
            min_factor=1.002, bead_sizes=None):
    """Non-overlapping system; `close` is the share of near-contact pairs."""
    n = draw(st.integers(*spheres))
    m = draw(st.integers(*dumbbells))
    if n + m < min_total:
        n = min_total - m
    s = draw(scale) if scale is not None else 1.0
    specs = []
    bs = bead_sizes or sizes
    allsizes = [draw(st.sampled_from(list(sizes))) for _ in range(n)]
    dbs = [draw(st.sampled_from(list(bs))) for _ in range(m)]
    order = []
    for a in allsizes:
        order.append(a)
    for a in dbs:
        order += [a, a]
    for i, a in enumerate(order):
        near = draw(st.integers(0, 99)) < close * 100
        gap = draw(logfl(gap_lo, 0.3)) if near else draw(fl(0.05, gap_hi))
        par = draw(st.integers(0, max(0, i - 1)))
        if i >= n and (i - n) % 2 == 1:
            par = i - 1          # bead 2 hangs off its own bead 1
            gap = max(gap, 0.05)
        specs.append((a * s, par, draw(direction()), gap))
    pts, _ = place(specs, min_factor)
    off = np.array(draw(vec(offset))) if offset else np.zeros(3)
    pts = pts + off
    case = dict(sx=r9(pts[:n]), sa=[a * s for a in allsizes])
    if m:
        b1, b2 = pts[n::2], pts[n + 1::2]
        case.update(dx=r9((b1 + b2) / 2), dd=r9(b2 - b1), da=[a * s for a in dbs])
    return case


def strain(hi=1.0):
    """Symmetric traceless matrix."""
    def mk(v):
        a, b, c, d, e = v
        return [[a, b, c], [b, d, e], [c, e, round(-a - d, 9)]]
    return st.tuples(sym(hi), sym(hi), sym(hi), sym(hi), sym(hi)).map(mk)


def nvec(n, hi=1.0):
    return st.lists(vec(hi), min_size=n, max_size=n)


def nstrain(n, hi=1.0):
    return st.lists(strain(hi), min_size=n, max_size=n)


def min_gap(sysm):
    """Smallest s' = 2d/(a+b) over all beads, and whether any pair is close."""
    pos, a = sysm.beads()
    best = np.inf
    for i in range(len(a)):
        for j in range(i):
            best = min(best, 2 * np.linalg.norm(pos[i] - pos[j]) / (a[i] + a[j]))
    return best


def sys_tags(sysm):
    t = ['spheres=%d' % sysm.ns, 'dumbbells=%d' % sysm.nd]
    g = min_gap(sysm) - 2
    t.append('gap<0.01' if g < 0.01 else 'gap<0.3' if g < 0.3 else 'gap>=0.3')
    if len(set(np.round(np.concatenate([sysm.sa, sysm.da]), 12))) > 1:
        t.append('mixed sizes')
    return t


TABLE_SIZES = ((1.0,), (1.0,), (1.0, 0.1), (1.0, 0.1, 0.01), (1.0, 10.0))
# The stresslet elimination loses precision for radii far above 1, so checks of
# solved quantities keep radii below about 3. Ratio 1:100 (table defect, see
# DESIGN.md) is left to the checks of resistance matrices.
SOLVE_SIZES = ((1.0,), (1.0,), (1.0, 0.1), (1.0, 0.1), (0.5, 0.05))
SOLVE = dict(table=SOLVE_SIZES, gap_lo=4e-3)


@st.composite
def table_systems(draw, spheres=(1, 4), dumbbells=(0, 2), min_total=1,
                  gap_lo=1e-3, gap_hi=2.0, close=0.5, offset=3.0, scales=True,
                  table=TABLE_SIZES, **kw):
    """Systems whose size ratios are all in the supported table."""
    return draw(systems(
        spheres=spheres, dumbbells=dumbbells, min_total=min_total,
        sizes=draw(st.sampled_from(table)), gap_lo=gap_lo, gap_hi=gap_hi,
        close=close, offset=offset,
        scale=st.sampled_from([1.0, 1.0, 2.5, 0.2]) if scales else None, **kw))


def near_cutoff(sysm, cutoff, tol=1e-7):
    """Is some pair so close to the cutoff that rounding decides?"""
    pos, a = sysm.beads()
    for i in range(len(a)):
        for j in range(i):
            sp = 2 * np.linalg.norm(pos[i] - pos[j]) / (a[i] + a[j])
            if abs(sp - 2 * cutoff) < tol:
                return True
    return False


@st.composite
def loads(draw, c, stress=False, flow=False):
    """Adds F, T, E (or S), Fb, DFb to the case in natural units."""
    n, m = len(c['sa']), len(c.get('da', []))
    c.update(F=draw(nvec(n)), T=draw(nvec(n)), E=draw(nstrain(n)),
             Fb=draw(nvec(m)), DFb=draw(nvec(m)))
    return c


def solve_tol(sysm, mu=1.0, form='fte', base=1e-8):
    """Relative tolerance for solves. The package eliminates stresslets by a
    Schur complement with unit blocks, which loses the square of the largest
    resistance (in the run's own units) of precision; prescribed velocities
    lose another factor."""
    pos, a = sysm.beads()
    kappa = 10.0
    for i in range(len(a)):
        for j in range(i):
            g = 2 * np.linalg.norm(pos[i] - pos[j]) / (a[i] + a[j]) - 2
            r = max(a[i], a[j]) / min(a[i], a[j])
            if g < 2:
                kappa = max(kappa, 10 * np.sqrt(r) + 1 / max(g, 1e-5))
    unit = max(1.0, mu) * max(1.0, a.max()) ** 3
    t = 2.5e-12 * (kappa * unit) ** 2
    if form in ('ufte', 'ufteu', 'duf'):
        t *= max(1.0, kappa / 20)
    return base + t
