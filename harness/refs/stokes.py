"""Independent reference for far-field mobility (free space and periodic).

Nothing here is taken from the code under test.  Every block is obtained by
applying Faxen differential operators to the biharmonic Green's function
f(r) = r (free space) or to its Ewald split r*erfc(xi r) + r*erf(xi r)
(periodic), with radial derivatives generated by a small symbolic engine.
"""
import math
import itertools
import numpy as np
from scipy.special import erfc as _erfc

EPS = np.zeros((3, 3, 3))
for _i, _j, _k in itertools.permutations(range(3)):
    EPS[_i, _j, _k] = ((_j - _i) * (_k - _i) * (_k - _j)) / 2
I3 = np.eye(3)


class Rad:
    """P(r)*erfc(xi r) + Q(r)*exp(-xi^2 r^2); P, Q Laurent polynomials."""

    def __init__(self, xi, p, q=None):
        self.xi = xi
        self.p = {k: v for k, v in p.items() if v != 0}
        self.q = {k: v for k, v in (q or {}).items() if v != 0}

    def d(self):
        xi = self.xi
        p, q = {}, {}
        for n, c in self.p.items():
            if n:
                p[n - 1] = p.get(n - 1, 0) + n * c
            if xi:
                q[n] = q.get(n, 0) - 2 * xi / math.sqrt(math.pi) * c
        for n, c in self.q.items():
            if n:
                q[n - 1] = q.get(n - 1, 0) + n * c
            q[n + 1] = q.get(n + 1, 0) - 2 * xi * xi * c
        return Rad(xi, p, q)

    def over_r(self, m=1):
        return Rad(self.xi, {n - m: c for n, c in self.p.items()},
                   {n - m: c for n, c in self.q.items()})

    def add(self, o, s=1.0):
        p, q = dict(self.p), dict(self.q)
        for n, c in o.p.items():
            p[n] = p.get(n, 0) + s * c
        for n, c in o.q.items():
            q[n] = q.get(n, 0) + s * c
        return Rad(self.xi, p, q)

    def lap(self):
        return self.d().d().add(self.d().over_r(), 2.0)

    def g(self, m):
        f = self
        for _ in range(m):
            f = f.d().over_r()
        return f

    def __call__(self, r):
        out = np.zeros_like(r)
        if self.p:
            e = _erfc(self.xi * r) if self.xi else 1.0
            out = out + e * sum(c * r ** float(n) for n, c in self.p.items())
        if self.q:
            out = out + np.exp(-(self.xi * r) ** 2) * sum(
                c * r ** float(n) for n, c in self.q.items())
        return out


def _pair_tensors(x, gs, n):
    """n-th derivative tensor summed over points x (N,3); gs[m] = g_m(r)."""
    if n == 0:
        return gs[0].sum()
    if n == 1:
        return np.einsum('q,qi->i', gs[1], x)
    if n == 2:
        return np.einsum('q,qi,qj->ij', gs[2], x, x) + gs[1].sum() * I3
    if n == 3:
        v = np.einsum('q,qi->i', gs[2], x)
        return (np.einsum('q,qi,qj,qk->ijk', gs[3], x, x, x)
                + np.einsum('ij,k->ijk', I3, v) + np.einsum('ik,j->ijk', I3, v)
                + np.einsum('jk,i->ijk', I3, v))
    if n == 4:
        v = np.einsum('q,qi,qj->ij', gs[3], x, x)
        s = gs[2].sum()
        e = np.einsum
        return (e('q,qi,qj,qk,ql->ijkl', gs[4], x, x, x, x, optimize=True)
                + e('ij,kl->ijkl', I3, v) + e('ik,jl->ijkl', I3, v)
                + e('il,jk->ijkl', I3, v) + e('jk,il->ijkl', I3, v)
                + e('jl,ik->ijkl', I3, v) + e('kl,ij->ijkl', I3, v)
                + s * (e('ij,kl->ijkl', I3, I3) + e('ik,jl->ijkl', I3, I3)
                       + e('il,jk->ijkl', I3, I3)))
    raise ValueError(n)


class Kernel:
    """J, grad J, grad grad J and their Laplacians at displacement(s)."""

    def __init__(self, J, DJ, DDJ, LJ, DLJ, DDLJ):
        self.J, self.DJ, self.DDJ = J, DJ, DDJ      # DJ[i,j,l] = d_l J_ij
        self.LJ, self.DLJ, self.DDLJ = LJ, DLJ, DDLJ

    def __add__(self, o):
        return Kernel(*[getattr(self, n) + getattr(o, n) for n in
                        ('J', 'DJ', 'DDJ', 'LJ', 'DLJ', 'DDLJ')])


_fam = {}


def _family(xi):
    if xi not in _fam:
        f = Rad(xi, {1: 1.0})
        B = f.lap()
        C = B.lap()
        fam = []
        for h in (f, B, C):
            fam.append([h.g(m) for m in range(5)])
        if len(_fam) > 200:
            _fam.clear()
        _fam[xi] = fam
    return _fam[xi]


def _assemble(F, B, C):
    """F,B,C: dict n -> derivative tensor of f, lap f, lap lap f."""
    e = np.einsum
    J = I3 * B[0] - F[2]
    DJ = e('ij,l->ijl', I3, B[1]) - F[3]
    DDJ = e('ij,lm->ijlm', I3, B[2]) - F[4]
    LJ = I3 * C[0] - B[2]
    DLJ = e('ij,l->ijl', I3, C[1]) - B[3]
    DDLJ = e('ij,lm->ijlm', I3, C[2]) - B[4]
    return Kernel(J, DJ, DDJ, LJ, DLJ, DDLJ)


def real_kernel(x, xi=0.0):
    """Kernel summed over displacement vectors x (N,3), all nonzero."""
    x = np.atleast_2d(np.asarray(x, float))
    r = np.sqrt((x ** 2).sum(1))
    fam = _family(xi)
    out = []
    for hs in fam:
        gs = [h(r) for h in hs]
        out.append({n: _pair_tensors(x, gs, n) for n in range(5)})
    return _assemble(*out)


def wave_kernel(x, ks, vol, xi):
    """Wave-space part at displacement x, k-vectors ks (no zero)."""
    k2 = (ks ** 2).sum(1)
    ph = -8 * np.pi / k2 ** 2 * (1 + k2 / (4 * xi ** 2) + k2 ** 2 / (8 * xi ** 4)) \
        * np.exp(-k2 / (4 * xi ** 2)) / vol
    ang = ks @ np.asarray(x, float)
    c, s = np.cos(ang), np.sin(ang)
    e = np.einsum

    def fam(w):
        d = {}
        d[0] = (w * c).sum()
        d[1] = e('q,qi->i', -w * s, ks)
        d[2] = e('q,qi,qj->ij', -w * c, ks, ks)
        d[3] = e('q,qi,qj,qk->ijk', w * s, ks, ks, ks)
        d[4] = e('q,qi,qj,qk,ql->ijkl', w * c, ks, ks, ks, ks, optimize=True)
        return d
    return _assemble(fam(ph), fam(-ph * k2), fam(ph * k2 ** 2))


def self_kernel(xi):
    """Derivatives at the origin of r*erf(xi r) (to be subtracted)."""
    # r erf(xi r) = sum_n b_n r^(2n+2), b_n = 2/sqrt(pi) (-1)^n xi^(2n+1)/(n!(2n+1))
    b = [2 / math.sqrt(math.pi) * (-1) ** n * xi ** (2 * n + 1)
         / (math.factorial(n) * (2 * n + 1)) for n in range(6)]
    poly = {2 * n + 2: b[n] for n in range(6)}

    def lap(p):
        return {n - 2: n * (n + 1) * c for n, c in p.items() if n >= 2}

    def tens(p):
        # r^2m at origin: derivative of order 2m
        e = np.einsum
        d = {0: p.get(0, 0.0), 1: np.zeros(3), 2: 2 * p.get(2, 0.0) * I3,
             3: np.zeros((3, 3, 3))}
        s4 = (e('ij,kl->ijkl', I3, I3) + e('ik,jl->ijkl', I3, I3)
              + e('il,jk->ijkl', I3, I3))
        d[4] = 8 * p.get(4, 0.0) * s4
        return d
    B = lap(poly)
    C = lap(B)
    return _assemble(tens(poly), tens(B), tens(C))


def blocks(K, a1, a2, c):
    """FTS mobility blocks (velocity of 1, force on 2) for r = x1 - x2."""
    e = np.einsum
    out = {}
    out['UF'] = c * (K.J + (a1 ** 2 + a2 ** 2) / 6 * K.LJ)
    # U_i = -1/2 eps_jlk d_l J_ik T_j
    out['UT'] = -0.5 * c * e('jlk,ikl->ij', EPS, K.DJ + a1 ** 2 / 6 * K.DLJ)
    # velocity gradient of 1 from force on 2 -> Omega_i = 1/2 eps_ilm d_l u_m
    out['OF'] = 0.5 * c * e('ilm,mjl->ij', EPS, K.DJ + a2 ** 2 / 6 * K.DLJ)
    # Omega from torque
    DDJ = K.DDJ  # [i,j,l,m] = d_l d_m J_ij
    # u_m = -1/2 eps_jpk d_p J_mk T_j ; Omega_i = 1/2 eps_ilm d_l u_m
    out['OT'] = -0.25 * c * e('ilm,jpk,mklp->ij', EPS, EPS, DDJ)
    sym = lambda t: 0.5 * (t + np.swapaxes(t, -1, -2))
    out['US'] = -c * sym(e('ijk->ijk', K.DJ + (a1 ** 2 / 6 + a2 ** 2 / 10) * K.DLJ))
    # Omega_i = 1/2 eps_ilm d_l u_m, u_m = -d_k J_mj S_jk
    out['OS'] = -0.5 * c * sym(e('ilm,mjlk->ijk', EPS, DDJ + a2 ** 2 / 10 * K.DDLJ))
    # E_ij from force on 2: sym grad (1+a1^2/10 lap)(1+a2^2/6 lap) J
    G = c * (K.DJ + (a1 ** 2 / 10 + a2 ** 2 / 6) * K.DLJ)      # d_l u_i F_j -> G[i,j,l]
    out['EF'] = 0.5 * (e('ikj->ijk', G) + e('jki->ijk', G))    # [i,j; k=force]
    H = -0.5 * c * e('kpq,iqjp->ijk', EPS, DDJ + a1 ** 2 / 10 * K.DDLJ)
    out['ET'] = 0.5 * (H + np.swapaxes(H, 0, 1))
    m = -c * (DDJ + (a1 ** 2 + a2 ** 2) / 10 * K.DDLJ)  # u_i = -d_l J_ik S_kl ; d_j
    m = e('ikjl->ijkl', m)
    m = 0.5 * (m + np.swapaxes(m, 0, 1))
    m = 0.5 * (m + np.swapaxes(m, 2, 3))
    out['ES'] = m
    return out


def self_blocks(a, mu):
    t = np.zeros((3, 3, 3))
    d = np.einsum('ik,jl->ijkl', I3, I3)
    m = 0.5 * (d + np.swapaxes(d, 2, 3)) - np.einsum('ij,kl->ijkl', I3, I3) / 3
    return {'UF': I3 / (6 * np.pi * mu * a), 'UT': np.zeros((3, 3)),
            'OF': np.zeros((3, 3)), 'OT': I3 / (8 * np.pi * mu * a ** 3),
            'US': t, 'OS': t.copy(), 'EF': t.copy(), 'ET': t.copy(),
            'ES': m / (20 / 3 * np.pi * mu * a ** 3)}


# --- five-component basis for symmetric traceless tensors (orthonormal) -----
S3 = math.sqrt(3.0)
_a, _b = 0.5 * (S3 + 1), 0.5 * (S3 - 1)
# c_0 = a*T00 + b*T11 ; c_2 = b*T00 + a*T11 ; others sqrt2 * T
COND = np.zeros((5, 3, 3))
COND[0, 0, 0], COND[0, 1, 1] = _a, _b
COND[2, 0, 0], COND[2, 1, 1] = _b, _a
for _n, (_p, _q) in ((1, (0, 1)), (3, (0, 2)), (4, (1, 2))):
    COND[_n, _p, _q] = COND[_n, _q, _p] = math.sqrt(2) / 2
# traceless version, so that contraction with non-traceless input is projected
CONDT = COND - np.einsum('nii->n', COND)[:, None, None] / 3 * I3


def pack(T):
    return np.einsum('nij,...ij->...n', CONDT, T)


def unpack(v):
    return np.einsum('nij,...n->...ij', CONDT, v)


def cond_blocks(b):
    """-> 11x11 matrix in order U(3) Omega(3) E(5) vs F T S."""
    M = np.zeros((11, 11))
    M[0:3, 0:3] = b['UF']
    M[0:3, 3:6] = b['UT']
    M[0:3, 6:11] = np.einsum('njk,ijk->in', CONDT, b['US'])
    M[3:6, 0:3] = b['OF']
    M[3:6, 3:6] = b['OT']
    M[3:6, 6:11] = np.einsum('njk,ijk->in', CONDT, b['OS'])
    M[6:11, 0:3] = np.einsum('nij,ijk->nk', CONDT, b['EF'])
    M[6:11, 3:6] = np.einsum('nij,ijk->nk', CONDT, b['ET'])
    M[6:11, 6:11] = np.einsum('nij,ijkl,mkl->nm', CONDT, b['ES'], CONDT)
    return M


class FreeSpace:
    """Free-space pair provider; `clamp` mirrors the documented minimum s'."""

    def __init__(self, mu, clamp=2.001):
        self.c = 1 / (8 * np.pi * mu)
        self.mu = mu
        self.clamp = clamp

    def self11(self, a):
        return cond_blocks(self_blocks(a, self.mu))

    def pair11(self, r, a1, a2):
        r = np.asarray(r, float)
        s = np.linalg.norm(r)
        smin = self.clamp * (a1 + a2) / 2
        if s < smin:
            r = r * (smin / s)
        return cond_blocks(blocks(real_kernel(r), a1, a2, self.c))


class Periodic:
    def __init__(self, mu, basis, xi=None, tol_cut=6.0):
        """basis rows = lattice vectors."""
        self.mu = mu
        self.c = 1 / (8 * np.pi * mu)
        self.basis = np.asarray(basis, float)
        self.vol = abs(np.linalg.det(self.basis))
        L = self.vol ** (1 / 3)
        self.xi = math.sqrt(math.pi) / L if xi is None else xi
        rc = tol_cut / self.xi
        kc = 2 * self.xi * tol_cut
        recip = 2 * np.pi * np.linalg.inv(self.basis).T
        self.X = self._pts(self.basis, rc + np.linalg.norm(self.basis, axis=1).sum())
        self.K = self._pts(recip, kc)
        self.K = self.K[(self.K ** 2).sum(1) > 1e-12]
        self.rc = rc
        self.selfk = self_kernel(self.xi)

    @staticmethod
    def _pts(b, rc):
        inv = np.linalg.inv(b)
        n = [int(math.ceil(rc * np.linalg.norm(inv[:, i]))) for i in range(3)]
        g = np.array([[i, j, k] for i in range(-n[0], n[0] + 1)
                      for j in range(-n[1], n[1] + 1)
                      for k in range(-n[2], n[2] + 1)], float)
        p = g @ b
        return p[np.linalg.norm(p, axis=1) <= rc]

    def _min(self, r):
        f = np.linalg.solve(self.basis.T, r)
        return (f - np.round(f)) @ self.basis

    def self11(self, a):
        X = self.X[(self.X ** 2).sum(1) > 1e-12]
        K = real_kernel(X, self.xi) + wave_kernel(np.zeros(3), self.K, self.vol, self.xi)
        s = self.selfk
        K = Kernel(*[getattr(K, n) - getattr(s, n) for n in
                     ('J', 'DJ', 'DDJ', 'LJ', 'DLJ', 'DDLJ')])
        return cond_blocks(blocks(K, a, a, self.c)) + cond_blocks(self_blocks(a, self.mu))

    def pair11(self, r, a1, a2):
        r = self._min(np.asarray(r, float))
        x = r + self.X
        K = real_kernel(x, self.xi) + wave_kernel(r, self.K, self.vol, self.xi)
        return cond_blocks(blocks(K, a1, a2, self.c))


def bead_mobility(prov, positions, sizes, n_spheres):
    """Mobility over spheres (11 dof) followed by point-force beads (3 dof)."""
    n = len(sizes)
    P = np.asarray(positions, float)

    def dof(i):
        return 11 if i < n_spheres else 3
    off = np.concatenate([[0], np.cumsum([dof(i) for i in range(n)])])
    M = np.zeros((off[-1], off[-1]))
    for i in range(n):
        for j in range(n):
            b = prov.self11(sizes[i]) if i == j else prov.pair11(P[i] - P[j], sizes[i], sizes[j])
            M[off[i]:off[i + 1], off[j]:off[j + 1]] = b[:dof(i), :dof(j)]
    return M, off


def to_repo_order(M, n_spheres, n_db, kind='mobility'):
    """Rearrange per-particle dof to [U all, O all, E all, Ub all, HalfDUb all].

    Bead order in M: spheres, bead1 of each dumbbell, bead2 of each dumbbell.
    """
    T = repo_transform(n_spheres, n_db, 0.5 if kind == 'mobility' else 1.0)
    return T @ M @ T.T


def from_repo_order(R, n_spheres, n_db, kind='resistance'):
    """Inverse of to_repo_order: per-particle dof, beads separate."""
    T = np.linalg.inv(repo_transform(n_spheres, n_db,
                                     0.5 if kind == 'mobility' else 1.0))
    return T @ R @ T.T


def repo_transform(n_spheres, n_db, h):
    n = 11 * n_spheres + 6 * n_db
    T = np.zeros((n, n))   # v_repo = T v_bead
    for i in range(n_spheres):
        for k in range(3):
            T[3 * i + k, 11 * i + k] = 1
            T[3 * n_spheres + 3 * i + k, 11 * i + 3 + k] = 1
        for k in range(5):
            T[6 * n_spheres + 5 * i + k, 11 * i + 6 + k] = 1
    o = 11 * n_spheres
    for d in range(n_db):
        for k in range(3):
            b1 = o + 3 * d + k
            b2 = o + 3 * n_db + 3 * d + k
            T[o + 3 * d + k, b1] = h
            T[o + 3 * d + k, b2] = h
            T[o + 3 * n_db + 3 * d + k, b1] = -h
            T[o + 3 * n_db + 3 * d + k, b2] = h
    return T
