"""Development tool: computes twosphere_direct.npz with refs.twosphere.

Usage: python make_twosphere_table.py OUT.npz   (about 30 minutes on 8 cores).
Not run by any check.
"""
import os
import sys
from multiprocessing import Pool

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from refs import twosphere as t  # noqa: E402

TAB = [1e-5, 2e-5, 5e-5, 1e-4, 2e-4, 5e-4, 1e-3, 2e-3, 5e-3, .01, .02, .025,
       .05] + [round(.1 * k, 1) for k in range(1, 26)]
EXTRA = [3e-4, 7e-4, 1.5e-3, 3e-3, 7e-3, .015]
LIM = {1.0: 1e-4, 0.1: 1e-4, 0.01: 2e-4}


def job(p):
    lam, xi, dig = p
    d = (2 + xi) * (1 + lam) / 2
    N = t.orders(lam, d, dig)
    return lam, xi, dig, N, t.resistance(lam, d, N)


if __name__ == '__main__':
    jobs = [(lam, xi, dig) for lam in LIM for xi in TAB + EXTRA
            for dig in (14., 18.) if xi >= LIM[lam]]
    jobs.sort(key=lambda p: p[1])
    out = {}
    with Pool(int(os.environ.get('NP', '4')), maxtasksperchild=4) as pool:
        for lam, xi, dig, N, R in pool.imap_unordered(job, jobs, chunksize=1):
            out['%g_%g_%g' % (lam, xi, dig)] = R
            print(lam, xi, dig, N, flush=True)
            np.savez(sys.argv[1], **out)
