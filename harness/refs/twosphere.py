"""Exact two-sphere Stokes solution by multipole (Lamb) expansion.

Two rigid spheres on the z axis: sphere 1 of radius 1 at the origin, sphere 2 of
radius lam at z = d.  Each sphere's surface velocity is U + Omega x r + E.r.
The flow is the sum of Lamb's exterior solutions about both centres, matched to
the surface velocities by projection on vector spherical harmonics, azimuthal
mode by azimuthal mode.  Independent of the code under test.

Result: 22x22 resistance matrix, order (U1,O1,E1[5],U2,O2,E2[5]) with the
five-component packing of refs.stokes, for viscosity 1.
"""
import numpy as np
from scipy.special import roots_legendre

from . import stokes


def legendre(m, N, x):
    """Normalised P_n^m (int P^2 dx = 1, no Condon-Shortley sign), n = m..N.

    Returns P, dP/dtheta, P/sin(theta), each shape (N-m+1, len(x)); for m = 0
    the third is zero (never used)."""
    x = np.asarray(x, float)
    s = np.sqrt(np.maximum(0.0, 1 - x * x))
    s = np.maximum(s, 1e-300)
    K = N - m + 1
    # Q = P/sin^m to stay finite at the poles
    Q = np.zeros((K, len(x)))
    c = np.sqrt((2 * m + 1) / 2.0)
    for k in range(1, m + 1):
        c *= np.sqrt((2 * k - 1) / (2.0 * k))
    Q[0] = c
    if K > 1:
        Q[1] = np.sqrt(2 * m + 3.0) * x * Q[0]
    for n in range(m + 2, N + 1):
        a = np.sqrt((4.0 * n * n - 1) / (n * n - m * m))
        b = np.sqrt(((n - 1.0) ** 2 - m * m) / (4.0 * (n - 1) ** 2 - 1))
        Q[n - m] = a * (x * Q[n - m - 1] - b * Q[n - m - 2])
    n = np.arange(m, N + 1)[:, None].astype(float)
    # sin(theta) dP/dtheta = n x P_n - f P_{n-1}
    f = np.sqrt(np.maximum(0, (2 * n + 1) * (n * n - m * m) / np.maximum(2 * n - 1, 1)))
    prev = np.vstack([np.zeros((1, len(x))), Q[:-1]])
    sdP = n * x * Q - f * prev            # times sin^m
    if m == 0:
        # dP/dtheta = (n x P_n - f P_{n-1}) / sin
        return Q, sdP / s, np.zeros_like(Q)
    return Q * s ** m, sdP * s ** (m - 1), Q * s ** (m - 1)


def coeffs(n, radial, alpha):
    """Lamb p and Phi coefficients giving surface (radial, tangential)."""
    A = n * (2 * n - 1) * (radial / (n + 1) + alpha)
    B = alpha + (n - 2) / (2 * n * (2 * n - 1)) * A
    return A, B


class Mode:
    """One azimuthal mode of two spheres; kind 'full' or 'torsion' (m=0)."""

    def __init__(self, m, lam, d, N, torsion=False):
        self.m, self.torsion = m, torsion
        self.rad = (1.0, lam)
        self.pos = (0.0, d)
        self.N = N
        self.n0 = max(1, m)
        self.n = [np.arange(self.n0, N[i] + 1).astype(float) for i in (0, 1)]
        self.C = {}
        for i in (0, 1):
            self.C[i] = self.cross(i, 1 - i)

    def fields(self, j, x, r, own):
        """Velocity (radial, theta, phi) of unit y=(ur,alpha,beta) of sphere j.

        r in units of sphere j's radius."""
        n = self.n[j][:, None]
        P, dP, Ps = legendre(self.m, self.N[j], x)
        if self.m == 0:
            P, dP, Ps = P[1:], dP[1:], Ps[1:]
        lr = np.log(r)[None, :]
        rn = np.exp(-n * lr)
        rn1 = np.exp(-(n + 1) * lr)
        rn2 = np.exp(-(n + 2) * lr)
        m = self.m
        if self.torsion:
            return [(0 * P, 0 * P, -rn1 * dP)]
        out = []
        for (ur, al) in ((1.0, 0.0), (0.0, 1.0)):
            A, B = coeffs(n, ur, al)
            fr = (n + 1) / (2 * (2 * n - 1)) * A * rn - (n + 1) * B * rn2
            ft = -(n - 2) / (2 * n * (2 * n - 1)) * A * rn + B * rn2
            out.append((fr * P, ft * dP, -ft * m * Ps))
        if m > 0:
            out.append((0 * P, rn1 * m * Ps, -rn1 * dP))
        return out

    def cross(self, i, j):
        """Projection on sphere i's harmonics of sphere j's fields."""
        Nq = int(1.3 * self.N[i]) + 60
        x, wq = roots_legendre(Nq)
        s = np.sqrt(1 - x * x)
        a = self.rad[i]
        rho, z = a * s, a * x + self.pos[i] - self.pos[j]
        rj = np.hypot(rho, z)
        xj, sj = z / rj, rho / rj
        P, dP, Ps = legendre(self.m, self.N[i], x)
        if self.m == 0:
            P, dP, Ps = P[1:], dP[1:], Ps[1:]
        n = self.n[i][:, None]
        m = self.m
        cols = []
        for (fr, ft, fp) in self.fields(j, xj, rj / self.rad[j], False):
            # to cylindrical, then to sphere i's spherical components
            ur = fr * sj + ft * xj
            uz = fr * xj - ft * sj
            er = (ur * s + uz * x) * wq
            et = (ur * x - uz * s) * wq
            ep = fp * wq
            if self.torsion:
                blk = [-(dP @ ep.T) / (n * (n + 1))]
            else:
                blk = [P @ er.T,
                       (dP @ et.T - m * (Ps @ ep.T)) / (n * (n + 1))]
                if m > 0:
                    blk.append((m * (Ps @ et.T) - dP @ ep.T) / (n * (n + 1)))
            cols.append(np.vstack(blk))
        return np.hstack(cols)

    def nblk(self):
        return 1 if self.torsion else (2 if self.m == 0 else 3)

    def solve(self, b1, b2):
        """y1 + C01 y2 = b1; y2 + C10 y1 = b2 (columns = loads)."""
        C01, C10 = self.C[0], self.C[1]
        if len(b2) <= len(b1):
            y2 = np.linalg.solve(np.eye(len(b2)) - C10 @ C01, b2 - C10 @ b1)
            y1 = b1 - C01 @ y2
        else:
            y1 = np.linalg.solve(np.eye(len(b1)) - C01 @ C10, b1 - C01 @ b2)
            y2 = b2 - C10 @ y1
        return y1, y2

    def surface(self, i, ur, ut, up):
        """Coefficients of a prescribed surface field (functions of x, s)."""
        x, wq = roots_legendre(40)
        s = np.sqrt(1 - x * x)
        P, dP, Ps = legendre(self.m, 8, x)
        if self.m == 0:
            P, dP, Ps = P[1:], dP[1:], Ps[1:]
        n8 = np.arange(self.n0, 9).astype(float)[:, None]
        R, T, F = ur(x, s) * wq, ut(x, s) * wq, up(x, s) * wq
        m = self.m
        K = len(self.n[i])
        out = np.zeros((self.nblk(), K))
        if self.torsion:
            q = [-(dP @ F) / (n8[:, 0] * (n8[:, 0] + 1))]
        else:
            q = [P @ R, (dP @ T - m * (Ps @ F)) / (n8[:, 0] * (n8[:, 0] + 1))]
            if m > 0:
                q.append((m * (Ps @ T) - dP @ F) / (n8[:, 0] * (n8[:, 0] + 1)))
        for b in range(self.nblk()):
            k = min(K, len(q[b]))
            out[b, :k] = q[b][:k]
        return out.ravel()


def _zero(x, s):
    return 0 * x


def resistance(lam, d, N):
    """22x22 resistance matrix; N = (N1, N2) multipole orders."""
    a = (1.0, lam)
    R = np.zeros((22, 22))
    T5 = {}
    E_zz = np.diag([-0.5, -0.5, 1.0])
    E_xz = np.zeros((3, 3)); E_xz[0, 2] = E_xz[2, 0] = 1.0
    E_yz = np.zeros((3, 3)); E_yz[1, 2] = E_yz[2, 1] = 1.0
    E_xx = np.diag([1.0, -1.0, 0.0])
    E_xy = np.zeros((3, 3)); E_xy[0, 1] = E_xy[1, 0] = 1.0
    pk = stokes.pack

    def norm1(m, n):          # normalised P_n^m at given n as multiple of basic
        return None

    # ---- m = 0 : U_z, E_zz
    M0 = Mode(0, lam, d, N)
    loads = []
    for i in (0, 1):
        U = M0.surface(i, lambda x, s: x, lambda x, s: -s, _zero)
        ai = a[i]
        E = M0.surface(i, lambda x, s: ai * (1.5 * x * x - 0.5),
                       lambda x, s: ai * (-1.5 * x * s), _zero)
        loads += [(i, U), (i, E)]
    z = [np.zeros(2 * len(M0.n[0])), np.zeros(2 * len(M0.n[1]))]
    b1 = np.array([v if i == 0 else z[0] for i, v in loads]).T
    b2 = np.array([v if i == 1 else z[1] for i, v in loads]).T
    y = M0.solve(b1, b2)
    c1 = np.sqrt(3 / 2.)      # normalised P_1 = c1 x
    c2 = np.sqrt(5 / 2.)      # normalised P_2 = c2 (3x^2-1)/2
    F, S = [], []
    for i in (0, 1):
        K = len(M0.n[i])
        A1, _ = coeffs(1.0, y[i][0], y[i][K])
        A2, _ = coeffs(2.0, y[i][1], y[i][K + 1])
        # p = (mu/a) A (r/a)^-n-1 P ; F_z = 4 pi a A1 c1 ; see module notes
        F.append(4 * np.pi * a[i] * A1 * c1)
        # on-fluid stresslet: (2 pi/3) grad grad (r^5 p_-3)
        # r^5 p = a^2 A2 c2 (3z^2-r^2)/2 -> hess zz = 2, xx = -1
        S.append(2 * np.pi / 3 * a[i] ** 2 * A2 * c2 * 2.0)
    ez = pk(E_zz)
    for k, (i, _) in enumerate(loads):
        isE = k % 2
        for j in (0, 1):
            col = np.zeros(11)
            col[2] = F[j][k]
            col[6:11] = S[j][k] * ez
            if not isE:
                R[11 * j:11 * j + 11, 11 * i + 2] += col
            else:
                R[11 * j:11 * j + 11, 11 * i + 6:11 * i + 11] += np.outer(
                    col, ez) / (ez @ ez)
    # ---- torsion : Omega_z
    Mt = Mode(0, lam, d, N, torsion=True)
    loads = []
    for i in (0, 1):
        ai = a[i]
        loads.append((i, Mt.surface(i, _zero, _zero, lambda x, s: ai * s)))
    z = [np.zeros(len(Mt.n[0])), np.zeros(len(Mt.n[1]))]
    y = Mt.solve(np.array([v if i == 0 else z[0] for i, v in loads]).T,
                 np.array([v if i == 1 else z[1] for i, v in loads]).T)
    for k, (i, _) in enumerate(loads):
        for j in (0, 1):
            # u_phi = -C r^-2 dP1, P1 = c1 x -> u_phi = C c1 sin; T = 8 pi a^2 C c1
            R[11 * j + 5, 11 * i + 5] = 8 * np.pi * a[j] ** 2 * y[j][0][k] * c1
    # ---- m = 1 : U_x, Omega_y, E_xz  (u ~ cos phi, u_phi ~ sin phi)
    M1 = Mode(1, lam, d, N)
    loads = []
    for i in (0, 1):
        ai = a[i]
        # e_x = s cos r^ + x cos th^ - sin ph^
        loads.append((i, M1.surface(i, lambda x, s: s, lambda x, s: x,
                                    lambda x, s: -1 + 0 * x)))
        # e_y x r = a (z, 0, -x): (x-comp = a cos th, z-comp = -a sin th cos phi)
        # = a [ th^ cos phi  - ph^ cos th sin phi ]
        loads.append((i, M1.surface(i, _zero, lambda x, s: ai + 0 * x,
                                    lambda x, s: -ai * x)))
        # E_xz . r = a (z, 0, x): r: 2 s x cos ; th: (x^2 - s^2) cos; ph: -x sin
        loads.append((i, M1.surface(i, lambda x, s: 2 * ai * s * x,
                                    lambda x, s: ai * (x * x - s * s),
                                    lambda x, s: -ai * x)))
    K3 = [3 * len(M1.n[0]), 3 * len(M1.n[1])]
    z = [np.zeros(K3[0]), np.zeros(K3[1])]
    y = M1.solve(np.array([v if i == 0 else z[0] for i, v in loads]).T,
                 np.array([v if i == 1 else z[1] for i, v in loads]).T)
    c11 = np.sqrt(3 / 4.)     # normalised P_1^1 = c11 sin
    c21 = np.sqrt(15 / 4.)    # normalised P_2^1 = c21 sin cos
    F, T, S = [], [], []
    for i in (0, 1):
        K = len(M1.n[i])
        A1, _ = coeffs(1.0, y[i][0], y[i][K])
        A2, _ = coeffs(2.0, y[i][1], y[i][K + 1])
        C1 = y[i][2 * K]
        F.append(4 * np.pi * a[i] * A1 * c11)
        # chi = C r^-2 c11 sin sin(phi) ~ C c11 y/r^3 ; T = 8 pi C c11 e_y
        T.append(8 * np.pi * a[i] ** 2 * C1 * c11)
        # r^5 p = a^2 A2 c21 x z -> hess xz = 1
        S.append(2 * np.pi / 3 * a[i] ** 2 * A2 * c21)
    exz, eyz = pk(E_xz), pk(E_yz)
    for k, (i, _) in enumerate(loads):
        q = k % 3
        for j in (0, 1):
            f, t, s_ = F[j][k], T[j][k], S[j][k]
            J = 11 * j
            I = 11 * i
            # x-polarised and, rotated by 90 degrees, y-polarised
            cx, cy = np.zeros(11), np.zeros(11)
            cx[0], cx[4], cx[6:] = f, t, s_ * exz
            cy[1], cy[3], cy[6:] = f, -t, s_ * eyz
            if q == 0:
                R[J:J + 11, I + 0] += cx
                R[J:J + 11, I + 1] += cy
            elif q == 1:
                R[J:J + 11, I + 4] += cx
                R[J:J + 11, I + 3] -= cy
            else:
                R[J:J + 11, I + 6:I + 11] += np.outer(cx, exz) / (exz @ exz)
                R[J:J + 11, I + 6:I + 11] += np.outer(cy, eyz) / (eyz @ eyz)
    # ---- m = 2 : E_xx-yy
    M2 = Mode(2, lam, d, N)
    loads = []
    for i in (0, 1):
        ai = a[i]
        # E.r = a (s cos, -s sin, 0): r: s^2 cos2; th: s x cos2; ph: -s sin2
        loads.append((i, M2.surface(i, lambda x, s: ai * s * s,
                                    lambda x, s: ai * s * x,
                                    lambda x, s: -ai * s)))
    z = [np.zeros(3 * len(M2.n[0])), np.zeros(3 * len(M2.n[1]))]
    y = M2.solve(np.array([v if i == 0 else z[0] for i, v in loads]).T,
                 np.array([v if i == 1 else z[1] for i, v in loads]).T)
    c22 = np.sqrt(15 / 16.)   # normalised P_2^2 = c22 sin^2
    exx, exy = pk(E_xx), pk(E_xy)
    for k, (i, _) in enumerate(loads):
        for j in (0, 1):
            K = len(M2.n[j])
            A2, _ = coeffs(2.0, y[j][0][k], y[j][K][k])
            # r^5 p = a^2 A2 c22 (x^2-y^2) -> hess = 2 E_xx
            s_ = 2 * np.pi / 3 * a[j] ** 2 * A2 * c22 * 2.0
            for e in (exx, exy):
                R[11 * j + 6:11 * j + 11, 11 * i + 6:11 * i + 11] += (
                    s_ * np.outer(e, e) / (e @ e))
    return R


def orders(lam, d, digits=6.0):
    """Multipole orders giving about exp(-digits) truncation."""
    c2 = ((d * d - 1 - lam * lam) ** 2 - 4 * lam * lam) / (4 * d * d)
    c = np.sqrt(c2)
    out = []
    for a in (1.0, lam):
        al = np.arcsinh(c / a)
        out.append(int(max(12, np.ceil(digits / al) + 6)))
    return tuple(out)


def turn(direction):
    """22x22 change of axes that takes z to `direction`."""
    z = np.array([0, 0, 1.0])
    d = np.asarray(direction, float)
    d = d / np.linalg.norm(d)
    v = np.cross(z, d)
    c = d[2]
    if 1 + c < 1e-10:
        Q = np.diag([1.0, -1.0, -1.0])
    else:
        K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
        Q = np.eye(3) + K + K @ K / (1 + c)
    B = np.zeros((5, 5))
    for k in range(5):
        e = np.zeros(5)
        e[k] = 1
        B[:, k] = stokes.pack(Q @ stokes.unpack(e) @ Q.T)
    W = np.zeros((22, 22))
    for i in (0, 11):
        W[i:i + 3, i:i + 3] = Q
        W[i + 3:i + 6, i + 3:i + 6] = Q
        W[i + 6:i + 11, i + 6:i + 11] = B
    return W


def rotate(R, direction):
    """22x22 matrix for line of centres along `direction`."""
    W = turn(direction)
    return W @ R @ W.T
