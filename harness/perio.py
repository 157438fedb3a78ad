"""Periodic boxes: generators, lattices and the reference far field."""
import numpy as np
from hypothesis import strategies as st

import gen
import world as w
from refs import stokes


def basis(c):
    """Rows: lattice vectors; one offset, taken between 0 and one box."""
    b = np.diag(np.array(c['box'], float))
    if c.get('tilt'):
        i, j = c['tilt']
        b[i, j] = (c['g'] * c['box'][i]) % c['box'][j]
    return b


def strain_of(c):
    """Accumulated rotation and strain (Ot, Et) of the sheared box."""
    G = np.zeros((3, 3))
    if c.get('tilt'):
        i, j = c['tilt']
        G[j, i] = c['g']
    A = (G - G.T) / 2
    return np.array([A[2, 1], A[0, 2], A[1, 0]]), (G + G.T) / 2


def box(c):
    """Corners; the package cares about the difference only."""
    L = np.array(c['box'], float)
    o = np.array(c.get('corner', [0, 0, 0]), float)
    return o - L / 2, o + L / 2


_cells = np.array([k for k in np.ndindex(5, 5, 5)], float) - 2


def nearest(b):
    X = _cells @ b

    def f(r):
        v = np.asarray(r, float) + X
        return v[np.argmin(np.sum(v * v, axis=1))]
    return f


def distances(s, b):
    """Scaled separations s' of all bead pairs, nearest images."""
    pos, a = s.beads()
    f = nearest(b)
    return {(i, j): 2 * np.linalg.norm(f(pos[j] - pos[i])) / (a[i] + a[j])
            for i in range(len(a)) for j in range(i + 1, len(a))}


@st.composite
def boxes(draw, lo=7.0, hi=12.0, aspect=1.6, tilt=0.6):
    L0 = draw(gen.fl(lo, hi))
    L = [L0] * 3 if draw(st.integers(0, 3)) == 0 else [
        L0 * draw(gen.fl(1, aspect)) for _ in range(3)]
    c = dict(box=gen.r9(L), corner=draw(gen.vec(5)) if draw(st.booleans())
             else [0.0, 0.0, 0.0])
    if draw(st.integers(0, 2)):
        i, j = draw(st.sampled_from([(2, 0), (0, 2), (2, 0), (0, 1), (1, 0),
                                     (1, 2), (2, 1)]))
        part = draw(gen.fl(0.03, tilt)) + draw(st.integers(-2, 2))
        c.update(tilt=[i, j], g=round(part * L[j] / L[i], 9))
    return c


@st.composite
def systems(draw, spheres=(0, 3), dumbbells=(0, 2), sizes=(1.0,), amin=2.02,
            close=0.5, near=(0.005, 0.6), **kw):
    """Particles anywhere in a box, images kept apart by construction."""
    c = draw(boxes(**kw))
    b = basis(c)
    n, m = draw(st.integers(*spheres)), draw(st.integers(*dumbbells))
    if n + m == 0 or (n + m == 1 and draw(st.booleans())):
        n, m = max(spheres[1], 1), m if spheres[1] else 1
    # one bead radius per system keeps every pair in the resistance table
    bead = draw(st.sampled_from(sizes))
    f = nearest(b)
    pos, rad = [], []
    c.update(sx=[], sa=[], dx=[], dd=[], da=[])

    def fits(pts, radii, inner):
        P, A = pos + pts, rad + radii
        for k in range(len(pos), len(P)):
            for q in range(k):
                r = P[k] - P[q]
                if 2 * np.linalg.norm(f(r)) < amin * (A[k] + A[q]):
                    return False
        return True
    for k in range(n + m):
        a = draw(st.sampled_from(sizes)) if k < n else bead
        for _ in range(4):
            if pos and draw(st.integers(0, 99)) < 100 * close:
                q = draw(st.integers(0, len(pos) - 1))
                gap = draw(gen.logfl(*near))
                x = pos[q] + np.array(draw(gen.direction())) * (
                    (a + rad[q]) * (1 + gap) * max(1, amin / 2))
            else:
                fr = np.array(draw(gen.vec(0.5)))
                face = draw(st.integers(0, 7))      # near a face, edge, corner
                for q in range(3):
                    if face >> q & 1:
                        fr[q] = np.sign(fr[q] or 1) * (0.5 - 0.1 * abs(fr[q]))
                x = fr @ b
            x = np.round(x, 9)
            if k < n:
                if fits([x], [a], 0):
                    c['sx'].append(x.tolist())
                    c['sa'].append(a)
                    pos.append(x)
                    rad.append(a)
                    break
            else:
                d = np.round(np.array(draw(gen.direction())) * a * (
                    amin + draw(gen.fl(0.05, 2.0))), 9)
                if fits([x, x + d], [a, a], 1):
                    c['dx'].append(gen.r9(x + d / 2))
                    c['dd'].append(d.tolist())
                    c['da'].append(a)
                    pos += [x, x + d]
                    rad += [a, a]
                    break
    if draw(st.integers(0, 3)):
        # what the solver sees during a run: every centre inside the box
        for key in ('sx', 'dx'):
            x = np.array(c[key], float).reshape(-1, 3)
            k = np.floor(x @ np.linalg.inv(b) + 0.5)
            c[key] = np.round(x - k @ b, 9).tolist()
    return c


class Truncated(stokes.Periodic):
    """The same sums stopped where the package's default setting stops."""

    def __init__(self, mu, b, far=2):
        super().__init__(mu, b)
        L = self.vol ** (1 / 3)
        idx = np.array([k for k in np.ndindex(*[2 * far + 1] * 3)], float) - far
        X = idx @ self.basis
        self.X = X[np.linalg.norm(X, axis=1) <= 1.4142 * far * L]
        K = idx @ (2 * np.pi * np.linalg.inv(self.basis).T)
        k = np.linalg.norm(K, axis=1)
        self.K = K[(k <= 1.4142 * far * 2 * np.pi / L) & (k > 1e-12)]
        self._min = nearest(self.basis)


def mobility(s, mu, b, cls=stokes.Periodic):
    pos, a = s.beads()
    M, _ = stokes.bead_mobility(cls(mu, b), pos, a, s.ns)
    return stokes.to_repo_order(M, s.ns, s.nd)


def scaled(A, B):
    d = np.sqrt(np.abs(np.diag(B)))
    return np.max(np.abs((A - B) / np.outer(d, d)))


def far_field(c, s, mu=1.0):
    """(converged mobility, how far the truncated sums are from it)."""
    b = basis(c)
    M = mobility(s, mu, b)
    return M, scaled(mobility(s, mu, b, Truncated), M)


def tags(c):
    s = w.from_case(c)
    b = basis(c)
    pos, a = s.beads()
    fr = pos @ np.linalg.inv(b)
    across = False
    for (i, j), sd in distances(s, b).items():
        if sd < 3 and np.max(np.abs(fr[i] - fr[j])) > 0.5:
            across = True
    return (s.ns + s.nd >= 1, ['spheres=%d' % s.ns, 'dumbbells=%d' % s.nd,
                               'tilt=%s' % (c.get('tilt'),),
                               'close across a face=%s' % across])
