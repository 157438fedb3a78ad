"""C07: linearity, viscosity and length scaling."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import world as w
from common import Sub, fail

TECHNIQUE = ('metamorphic testing: superposition and scaling laws on '
             'generated loads')
RULE = ('Clusters with two independent loads in the same input form, weights, '
        'a viscosity factor and a length factor. Non-trivial: at least two '
        'particles.')


@st.composite
def cases(draw):
    c = draw(forms.loaded(gen.table_systems(spheres=(0, 4), dumbbells=(0, 2),
                                            **gen.SOLVE)))
    n, m = len(c['sa']), len(c.get('da', []))
    c['second'] = dict(F=draw(gen.nvec(n)), T=draw(gen.nvec(n)),
                       E=draw(gen.nstrain(n)), Fb=draw(gen.nvec(m)),
                       DFb=draw(gen.nvec(m)), U=draw(gen.nvec(n)),
                       Ub=draw(gen.nvec(m)), H=draw(gen.nvec(m)))
    c.update(w1=draw(gen.sym(3)), w2=draw(gen.sym(3)),
             fmu=draw(gen.logfl(0.05, 4)), fL=draw(gen.logfl(0.3, 1.6)))
    return c


LOADS = ('F', 'T', 'E', 'Fb', 'DFb', 'U', 'Ub', 'H')


def lin(c1, c2, a, b):
    out = dict(c1)
    for k in LOADS:
        if len(c1[k]):
            out[k] = (a * np.array(c1[k]) + b * np.array(c2[k])).tolist()
    return out


def oracle_linear(c):
    s = w.from_case(c)
    c2 = dict(c, **c['second'])
    form = c['form']
    o1 = w.solve(s, forms.inputs(c, s), form=form)
    o2 = w.solve(s, forms.inputs(c2, s), form=form)
    o3 = w.solve(s, forms.inputs(lin(c, c2, c['w1'], c['w2']), s), form=form)
    ref = {k: c['w1'] * o1[k] + c['w2'] * o2[k] for k in forms.VEL + forms.FOR}
    sc1, sc2, sc3 = (forms.scales(o, s) for o in (o1, o2, o3))
    tol = 10 * gen.solve_tol(s, c['mu'], c['form'])
    for k in ref:
        lim = tol * (abs(c['w1']) * sc1[k] + abs(c['w2']) * sc2[k] + sc3[k])
        if ref[k].size and not np.max(np.abs(o3[k] - ref[k])) <= lim + 1e-300:
            fail('superposition: %s differs by %.3g (limit %.3g)' % (
                k, np.max(np.abs(o3[k] - ref[k])), lim))


def scaled_inputs(c, fF, fU, L):
    """Loads with forces times fF, velocities times fU; torques, stresslets,
    strains take the matching power of L."""
    out = dict(c)
    isE = c['form'] not in ('fts',)
    f = dict(F=fF, Fb=fF, DFb=fF, T=fF * L, U=fU, Ub=fU, H=fU,
             E=fU / L if isE else fF * L)
    for k in LOADS:
        if len(c[k]):
            out[k] = (f[k] * np.array(c[k])).tolist()
    return out


def oracle_scale(c):
    s = w.from_case(c)
    if gen.near_cutoff(s, 2, 1e-6):
        return
    mu, fmu, L = c['mu'], c['fmu'], c['fL']
    tol = 10 * gen.solve_tol(s, c['mu'], c['form'])
    o1 = w.solve(s, forms.inputs(c, s), form=c['form'])
    # viscosity: same velocities need forces times fmu
    c2 = scaled_inputs(c, fmu, 1.0, 1.0)
    o2 = w.solve(s, forms.inputs(dict(c2, mu=mu * fmu), s), form=c['form'])
    ref = {k: o1[k] * (fmu if k in forms.FOR else 1) for k in forms.VEL + forms.FOR}
    tol = 10 * gen.solve_tol(s, mu * max(1, fmu), c['form'])
    forms.compare(o2, ref, s, tol, 'viscosity times %g' % fmu)
    # length: velocities same, forces times L, torques/stresslets times L^2
    sL = s.mapped(lambda x: L * x, s=L)
    if gen.near_cutoff(sL, 2, 1e-6):
        return
    c3 = scaled_inputs(c, L, 1.0, L)
    o3 = w.solve(sL, forms.inputs(c3, sL), form=c['form'])
    g = dict(Ua=1, Ub=1, HalfDUb=1, Oa=1 / L, Ea=1 / L, Fa=L, Fb=L, DFb=L,
             Ta=L * L, Sa=L * L)
    ref = {k: o1[k] * g[k] for k in g}
    tol = tol + 10 * gen.solve_tol(sL, mu, c['form'])
    forms.compare(o3, ref, sL, tol, 'lengths times %g' % L)


@st.composite
def mixed(draw):
    """Wide size and length factors at matrix level."""
    c = draw(gen.table_systems(spheres=(0, 4), dumbbells=(0, 2), gap_lo=1e-4))
    c.update(fL=draw(gen.logfl(0.01, 100)), mu=draw(gen.logfl(0.01, 100)),
             cutoff=draw(gen.fl(1.1, 2.2)))
    return c


def oracle_matrix(c):
    s = w.from_case(c)
    L, mu = c['fL'], c['mu']
    sL = s.mapped(lambda x: L * x, s=L)
    if gen.near_cutoff(s, c['cutoff']) or gen.near_cutoff(sL, c['cutoff']):
        return
    n, m = s.ns, s.nd
    R1, M1 = w.resistance(s, mu=1, cutoff=c['cutoff'])
    R2, M2 = w.resistance(sL, mu=mu, cutoff=c['cutoff'])
    # power of L: a force/velocity pair scales as L, each rotation/strain adds 1
    e = np.concatenate([np.zeros(3 * n), np.ones(8 * n), np.zeros(6 * m)])
    f = mu * L ** (1 + e[:, None] + e[None, :])
    for A, B, nm in ((M1, M2, 'far field'), (R1, R2, 'resistance')):
        ref = A * f
        d = np.sqrt(np.abs(np.diag(ref)))
        err = np.max(np.abs(B - ref) / np.outer(d, d))
        if not err < 1e-7:
            fail('%s does not scale with length %g and viscosity %g: %.3g'
                 % (nm, L, mu, err))


SUBS = [
    Sub('linear', cases(), oracle_linear, 250, 2500, shards=3, init=w.init(),
        classify=forms.classify),
    Sub('scaling', cases(), oracle_scale, 250, 2500, shards=3, init=w.init(),
        classify=forms.classify),
    Sub('matrix', mixed(), oracle_matrix, 250, 2500, shards=2, init=w.init(),
        classify=forms.classify),
]
