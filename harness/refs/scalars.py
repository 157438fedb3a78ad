"""Nondimensional two-sphere resistance scalars from a 22x22 matrix.

Kim & Karrila's definitions (sec. 11.3): matrix of spheres of radius 1 (at the
origin) and lam (on the z axis), unit viscosity, as refs.twosphere gives it.
"""
import numpy as np

from . import stokes

NAMES = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']


def _sym(i, j):
    E = np.zeros((3, 3))
    E[i, j] = E[j, i] = 0.5
    return E


def from_matrix(R):
    """(11, 2) array: scalars '11' and '12'."""
    pi = np.pi
    out = np.zeros((11, 2))
    dd = np.diag([-1 / 3, -1 / 3, 2 / 3])
    for g in (0, 1):
        o = 11 * g
        U, W, E = o, o + 3, o + 6
        S = lambda col: stokes.unpack(R[6:11, col])
        SE = lambda T: stokes.unpack(R[6:11, E:E + 5] @ stokes.pack(T))
        out[:, g] = [
            R[2, U + 2] / (6 * pi), R[0, U] / (6 * pi),
            R[4, U] / (-4 * pi),
            R[5, W + 2] / (8 * pi), R[3, W] / (8 * pi),
            S(U + 2)[2, 2] * 1.5 / (4 * pi), S(U)[0, 2] / (4 * pi),
            S(W + 1)[0, 2] / (8 * pi),
            SE(dd)[2, 2] * 1.5 / (20 / 3 * pi),
            SE(_sym(0, 2))[0, 2] * 2 / (20 / 3 * pi),
            SE(_sym(0, 1))[0, 1] * 2 / (20 / 3 * pi)]
    return out
