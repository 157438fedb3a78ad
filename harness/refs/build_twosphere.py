"""Development tool: builds twosphere.npz from the output of
make_twosphere_table.py and from what the package gives (the entries at which
its shipped table is off by more than 0.45%). Not run by any check.

Usage: PYTHONPATH=/verif/harness python build_twosphere.py DIRECT.npz OUT.npz
"""
import sys

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np

import world as w

SRC, OUT = sys.argv[1:3]
d = np.load(SRC)
w.load()
IDX = [k for i in range(2) for k in
       [3 * i, 3 * i + 1, 3 * i + 2, 6 + 3 * i, 7 + 3 * i, 8 + 3 * i]
       + [12 + 5 * i + j for j in range(5)]]


def repo(lam, xi):
    s = w.System([[0, 0, 0], [0, 0, (2 + xi) * (1 + lam) / 2]], [1, lam])
    return w.resistance(s, cutoff=2.3)[0][np.ix_(IDX, IDX)]


def basis(x, n):
    """Terms of the near-contact expansion."""
    f = [1 / x, np.log(x), np.ones_like(x), x * np.log(x), x,
         x * x * np.log(x), x * x]
    return np.array(f[:n]).T


def fit(lam, lo, hi, n):
    xs = np.array(sorted(float(k.split('_')[1]) for k in d.files
                         if float(k.split('_')[0]) == lam and k.endswith('_18')))
    xs = xs[(xs >= lo) & (xs <= hi)]
    Y = np.array([d['%g_%g_18' % (lam, x)].ravel() for x in xs])
    wt = xs[:, None] ** .5
    return n, np.linalg.lstsq(basis(xs, n) * wt, Y * wt, rcond=None)[0]


# the direct solution converges down to 2e-4; below that the expansion is used
fits = {1.: fit(1., 2e-4, .02, 5), .1: fit(.1, 2e-4, .01, 7)}
nothing = np.full((22, 22), np.nan)
L, X, E, S = [], [], [], []
for lam in (1., .1, .01):
    for s in np.loadtxt(w.PKG + '/resistance_scalars/values_of_s_dash.txt'):
        xi = round(s - 2, 6)
        key = '%g_%g_18' % (lam, xi)
        if key in d.files and xi >= 2e-4 - 1e-12:
            R = d[key]
        elif lam in fits:
            n, C = fits[lam]
            R = (basis(np.array([xi]), n) @ C).reshape(22, 22)
        else:
            R = nothing
        R = (R + R.T) / 2
        P = repo(lam, xi)
        D = np.sqrt(np.diag(R))
        good = np.max(np.abs(P - R) / np.outer(D, D)) < .0045
        L.append(lam)
        X.append(xi)
        E.append(R)
        S.append(nothing if good else P)
clean = lambda a: np.where(np.abs(a) < 1e-11 * np.max(np.abs(a)), 0, a)
np.savez_compressed(OUT, lam=L, xi=X, exact=np.array([clean(a) for a in E]),
                    shipped=np.array([clean(a) for a in S]))
