"""Generated whole runs and an independent model of how they step in time."""
import numpy as np
from hypothesis import strategies as st

import forms
import gen
import sim
import world as w
from common import fail

A = lambda v, n=3: np.array(v, float).reshape((-1, n))


@st.composite
def runs(draw, spheres=(0, 3), dumbbells=(0, 2), frames=(1, 5), scheme=None,
         form=None, flow=True, timedep=True, box=False, sizes=gen.SOLVE_SIZES,
         tilt=True, min_total=1, push=1.0, dts=(0.02, 0.4), gap_hi=2.0):
    """A run: particles, loads depending on time and position, flow, box."""
    n = draw(st.integers(*spheres))
    m = draw(st.integers(*dumbbells))
    if n + m < min_total:
        n, m = (min_total, m) if spheres[1] else (n, min_total)
    c = draw(gen.table_systems(
        spheres=(n, n), dumbbells=(m, m), table=sizes, gap_lo=0.05,
        gap_hi=gap_hi, close=0.4, offset=1.0, min_factor=1.04, scales=False))
    c.update(dx=c.get('dx', []), dd=c.get('dd', []), da=c.get('da', []))
    amax = max(c['sa'] + c['da'])
    k = push
    c.update(F=draw(gen.nvec(n, 4 * k)), T=draw(gen.nvec(n, 4 * k)),
             Fb=draw(gen.nvec(m, k)), DFb=draw(gen.nvec(m, k)),
             scheme=scheme or draw(st.sampled_from(['euler', 'ab2', 'rk4'])),
             dt=draw(st.one_of(st.sampled_from([0.1, 0.05, 0.25]),
                               gen.fl(*dts, steps=1000))),
             frames=draw(st.integers(*frames)), mu=draw(gen.logfl(0.3, 4.0)))
    fs = (['fte', 'ufte', 'ufteu'] if n else ['duf', 'fts'])
    c['form'] = form or draw(st.sampled_from(fs))
    if c['form'] in ('ufte', 'ufteu'):
        c['k'] = draw(st.integers(0, n))
        c['U0'] = draw(gen.nvec(n, 0.5))
    if c['form'] in ('ufteu', 'duf'):
        c['kb'] = draw(st.integers(0, m))
        c['Ub0'], c['H0'] = draw(gen.nvec(m, 0.5)), draw(gen.nvec(m, 0.2))
    if timedep:
        c.update(A=draw(gen.sym(0.8)), om=draw(gen.fl(0.5, 12)),
                 spring=draw(gen.fl(0, 0.5)), dspring=draw(gen.fl(0, 0.2)))
    if flow and draw(st.integers(0, 3)):
        c.update(U=draw(gen.vec(0.5)), O=draw(gen.vec(0.5)),
                 E=draw(gen.strain(0.3)), cen=draw(gen.vec(2.0)),
                 B=draw(gen.sym(0.8)))
    if box:
        sysm = w.from_case(c)
        pos, rad = sysm.beads()
        lo, hi = (pos - rad[:, None]).min(0), (pos + rad[:, None]).max(0)
        L = np.maximum(6.5 * amax, hi - lo + 2.5 * amax) * (
            1 + 0.3 * np.array(draw(gen.vec(1.0))) ** 2)
        L = np.round(L, 6)
        c['box'] = L.tolist()
        off = np.array([draw(gen.fl(0, 1)) for _ in range(3)]) * L
        for kk in ('sx', 'dx'):
            x = A(c[kk]) + off
            c[kk] = gen.r9(x - L * np.floor(x / L + 0.5))
        for kk in ('O', 'E', 'cen', 'B'):
            c.pop(kk, None)
        if tilt:
            c['tilt'] = draw(st.sampled_from([None, 0, 1]))
            c['gam'], c['gamom'] = draw(gen.sym(0.6)), draw(gen.fl(0, 3))
            if c['tilt'] is None:
                c.pop('gam'), c.pop('gamom')
    return c


def gamma(c, t):
    """Shear rate and its integral for a sheared periodic run."""
    g, o = c['gam'], c['gamom']
    if o < 0.1:
        return g, g * t
    return g * np.cos(o * t), g * np.sin(o * t) / o


def flow_of(c, t):
    """(U, O, E, centre, Ot, Et) at time t."""
    z, z3 = np.zeros(3), np.zeros((3, 3))
    if c.get('tilt') is not None:
        r, G = gamma(c, t)
        ax = c['tilt']       # 0: u_x = g*z ; 1: u_z = g*x

        def parts(q):
            L = np.zeros((3, 3))
            L[(0, 2) if ax == 0 else (2, 0)] = q
            E, W = (L + L.T) / 2, (L - L.T) / 2
            return np.array([W[2, 1], W[0, 2], W[1, 0]]), E
        O, E = parts(r)
        Ot, Et = parts(G)
        return np.array(c.get('U', z), float), O, E, z, Ot, Et
    if 'U' not in c:
        return z, z, z3, z, z, z3
    g = 1 + c.get('B', 0) * np.cos(c.get('om', 1) * t)
    return (g * np.array(c['U'], float), g * np.array(c.get('O', z), float),
            g * np.array(c.get('E', z3), float), np.array(c.get('cen', z), float),
            z, z3)


def inputs_fn(c):
    """What the user's input function does, for the run and for the model."""
    n, m = len(c['sa']), len(c['da'])
    s = w.from_case(c)

    def f(posdata, frameno, timestep):
        t = frameno * timestep
        fac = 1 + c.get('A', 0) * np.sin(c.get('om', 1) * t)
        U, O, E, cen, Ot, Et = flow_of(c, t)
        sx, dx, dd = A(posdata[1]), A(posdata[4]), A(posdata[5])
        per = 'box' in c
        Fa = fac * A(c['F']) - (0 if per else c.get('spring', 0) * sx)
        Ta = fac * A(c['T'])
        Fb = fac * A(c['Fb']) - (0 if per else c.get('spring', 0) * dx)
        DFb = fac * A(c['DFb']) - c.get('dspring', 0) * dd
        d = dict(Ta=Ta, mu=c['mu'], U=U, O=O, centre=cen, Ot=Ot, Et=Et,
                 Ea=[E.tolist() for _ in range(max(n, 1))])
        k = c.get('k', 0) if c['form'] in ('ufte', 'ufteu') else 0
        kb = c.get('kb', 0) if c['form'] in ('ufteu', 'duf') else 0
        d['Fa'] = w.unset(k) + w.lst(Fa[k:])
        d['Fb'] = w.unset(kb) + w.lst(Fb[kb:])
        d['DFb'] = w.unset(kb) + w.lst(DFb[kb:])
        if c['form'] in ('ufte', 'ufteu'):
            d['Ua'] = w.lst(fac * A(c['U0'][:k])) + w.unset(n - k)
        if c['form'] in ('ufteu', 'duf'):
            d['Ub'] = w.lst(fac * A(c['Ub0'][:kb])) + w.unset(m - kb)
            d['HalfDUb'] = w.lst(fac * A(c['H0'][:kb])) + w.unset(m - kb)
        if per:
            L = np.array(c['box'])
            d.update(bl=-L / 2, tr=L / 2)
        return w.Inputs(s, **d)
    return f


def rotate(v, ang):
    """Rodrigues rotation of v by the rotation vector ang."""
    th = np.linalg.norm(ang)
    if th == 0:
        return np.array(v, float)
    k = ang / th
    return (v * np.cos(th) + np.cross(k, v) * np.sin(th)
            + k * (k @ v) * (1 - np.cos(th)))


class Touch(Exception):
    pass


class State:
    """Sphere centres, mark offsets, dumbbell centres and separations."""

    def __init__(self, sx, mk, dx, dd):
        self.sx, self.mk, self.dx, self.dd = sx, mk, dx, dd

    def posdata(self, s):
        return (s.sa.copy(), self.sx.copy(), self.sx[:, None] + self.mk,
                s.da.copy(), self.dx.copy(), self.dd.copy())

    def moved(self, v, h):
        mk = np.array([[rotate(self.mk[i, j], h * v.O[i]) for j in range(2)]
                       for i in range(len(self.sx))]).reshape(-1, 2, 3)
        return State(self.sx + h * v.U, mk, self.dx + h * v.Ub,
                     self.dd + h * v.D)


class Vel:
    """Total velocities: spheres, spins, dumbbell centres, separations."""

    def __init__(self, U, O, Ub, D):
        self.U, self.O, self.Ub, self.D = U, O, Ub, D

    def __add__(self, o):
        return Vel(self.U + o.U, self.O + o.O, self.Ub + o.Ub, self.D + o.D)

    def __rmul__(self, k):
        return Vel(k * self.U, k * self.O, k * self.Ub, k * self.D)


def box_vectors(c, t):
    """Rows: the lattice vectors of the sheared box at time t."""
    L = np.diag(np.array(c['box'], float))
    if c.get('tilt') is not None:
        # the package describes the lattice by offsets between 0 and one box
        G = gamma(c, t)[1]
        if c['tilt'] == 0:
            L[2, 0] = (G * c['box'][2]) % c['box'][0]
        else:
            L[0, 2] = (G * c['box'][0]) % c['box'][2]
    return L


def wrap(x, Lm):
    fr = x @ np.linalg.inv(Lm)
    return x - np.floor(fr + 0.5) @ Lm


def closest(c, s, state, q):
    """Smallest s' between beads (periodic images included)."""
    st_ = w.System(state.sx, s.sa, state.dx, state.dd, s.da)
    if 'box' not in c:
        return gen.min_gap(st_) if s.ns + 2 * s.nd > 1 else np.inf
    pos, a = st_.beads()
    Lm = box_vectors(c, q * c['dt'])
    best = np.inf
    for i in range(len(a)):
        for j in range(i):
            d = wrap(pos[i] - pos[j], Lm)
            for k in np.ndindex(3, 3, 3):
                e = np.linalg.norm(d + (np.array(k) - 1) @ Lm)
                best = min(best, 2 * e / (a[i] + a[j]))
    return best


TOUCH = 2.02


def model(c, wrapping=True, solver=None):
    """Model trajectory: list of states 0..frames, list of frame forces.

    Ends early at the frame where particles (nearly) touch: there the solve is
    so stiff that rounding decides.
    """
    s = w.from_case(c)
    fn = inputs_fn(c)
    flat = c.get('flat', False)
    every = c.get('invert_every', 1)
    each = c.get('rk4_each', True)
    restarts = c.get('restarts', ())     # frames the history begins afresh at
    keep = {}

    def inp(posdata, frameno, timestep):
        return fn(posdata, frameno, timestep).tuple()

    def vel(state, q, regen):
        if closest(c, s, state, q) < TOUCH:
            raise Touch()
        o = solver(s, state, q, regen, keep) if solver else w.solve(
            s, inp, form=c['form'], frameno=q, dt=c['dt'],
                    posdata=state.posdata(s), cutoff=c.get('cutoff', 2),
                    drag=c.get('drag', False), minf_only=c.get('minf', False),
                    extract=c.get('extract', False),
                    regenerate=regen, last_minv=keep.get('M', 0))
        keep['new'] = o['Minv']
        U, O, E, cen, _, _ = flow_of(c, q * c['dt'])
        f = lambda x: U + np.cross(O, x - cen) + (x - cen) @ E
        v = Vel(o['Ua'] + A([f(x) for x in state.sx]), o['Oa'] + O,
                o['Ub'] + A([f(x) for x in state.dx]),
                2 * o['HalfDUb'] + A([np.cross(O, d) + E @ d
                                      for d in state.dd]))
        if flat:
            v.U[:, 1] = 0
            v.Ub[:, 1] = 0
            v.D[:, 1] = 0
        return v, o
    pd = s.posdata()
    mk = np.array(c['marks'], float) if 'marks' in c else pd[2] - pd[1][:, None]
    st_ = State(s.sx, mk.reshape(-1, 2, 3), s.dx, s.dd)
    states, outs, prev = [st_], [], None
    dt = c['dt']

    def step(n, st_, prev):
        regen = n % every == 0 or n in restarts
        if n in restarts:
            prev = None
        v1, o1 = vel(st_, n, regen)
        if regen:
            keep['M'] = keep['new']
        if c['scheme'] == 'euler' or (c['scheme'] == 'ab2' and prev is None):
            v, os_ = v1, [(1, o1)]
        elif c['scheme'] == 'ab2':
            v, os_ = 1.5 * v1 + (-0.5) * prev, [(1, o1)]
        else:
            rg = regen and each
            v2, o2 = vel(st_.moved(v1, dt / 2), n + 0.5, rg)
            v3, o3 = vel(st_.moved(v2, dt / 2), n + 0.5, rg)
            v4, o4 = vel(st_.moved(v3, dt), n + 1, rg)
            v = (1 / 6) * (v1 + 2 * v2 + 2 * v3 + v4)
            os_ = [(1 / 6, o1), (1 / 3, o2), (1 / 3, o3), (1 / 6, o4)]
        new = st_.moved(v, dt)
        prev = v1
        if 'box' in c and wrapping:
            Lm = box_vectors(c, (n + 1) * dt)
            U, O, E, cen, _, _ = flow_of(c, n * dt)
            sx, dx = wrap(new.sx, Lm), wrap(new.dx, Lm)
            shift = lambda d: np.cross(O, d) + d @ E
            # the image inside the box moved with the flow of its own place
            prev = Vel(v1.U + A([shift(d) for d in sx - new.sx]), v1.O,
                       v1.Ub + A([shift(d) for d in dx - new.dx]), v1.D)
            if flat:
                prev.U[:, 1] = 0
                prev.Ub[:, 1] = 0
            new = State(sx, new.mk, dx, new.dd)
        out = {k: sum(a * np.asarray(o[k], float) for a, o in os_)
               for k in ('Fa', 'Fb', 'DFb', 'Sa')}
        if c.get('extract'):
            out['wall'] = sum(a * np.asarray(o['wall'], float) for a, o in os_)
        return new, prev, out

    for n in range(c['frames']):
        try:
            st_, prev, out = step(n, st_, prev)
        except Touch:
            break
        states.append(st_)
        outs.append(out)
    return states, outs


def script(c, settings=None, **spec):
    """Run the script for this case; returns (result, arrays)."""
    sets = dict(timestepping_scheme=c['scheme'])
    if c.get('flat'):
        sets['fully_2d_problem'] = True
    if 'invert_every' in c:
        sets['invert_m_every'] = c['invert_every']
    if 'rk4_each' in c:
        sets['rk4_generate_minfinity_for_each_stage'] = c['rk4_each']
    if 'cutoff' in c:
        sets['cutoff_factor'] = c['cutoff']
    sets.update(settings or {})
    s = w.from_case(c)
    if 'marks' in c and 'marks' not in spec:
        spec['marks'] = s.sx[:, None] + np.array(c['marks'], float).reshape(
            -1, 2, 3)
    spec.setdefault('argv', sim.args(float(c['dt']), c['frames'], c['form']))
    return dict(system=s, inputs=inputs_fn(c), settings=sets, **spec)


def run(c, settings=None, **spec):
    return sim.ok(**script(c, settings, **spec))


def row_error(c, got, states, what='positions'):
    """Compare recorded rows with model states; fail on any difference."""
    n, m = len(c['sa']), len(c['da'])
    size = max(c['sa'] + c['da'])
    cen, dlt = got['centres'], got['deltax']
    rows = c['frames'] + 1
    if cen.shape != (rows, n + m, 3):
        fail('centres recorded with shape %s, expected %s'
             % (cen.shape, (rows, n + m, 3)))
    if dlt.shape != (rows, m, 3):
        fail('separations recorded with shape %s, expected %s'
             % (dlt.shape, (rows, m, 3)))
    for k, s in enumerate(states):
        ref = np.concatenate([s.sx, s.dx])
        tol = 1e-7 * (size + np.max(np.abs(ref)))
        e = np.max(np.abs(cen[k] - ref))
        if not e <= tol:
            fail('%s: row %d centres differ from the %s rule by %.3g'
                 % (what, k, c['scheme'], e))
        if m:
            e = np.max(np.abs(dlt[k] - s.dd))
            if not e <= tol:
                fail('%s: row %d separations differ from the %s rule by %.3g'
                     % (what, k, c['scheme'], e))


def classify(c):
    s = w.from_case(c)
    t = gen.sys_tags(s) + ['scheme=' + c['scheme'], 'form=' + c['form'],
                           'frames=%d' % c['frames']]
    if 'U' in c:
        t.append('flow')
    if c.get('tilt') is not None:
        t.append('sheared box')
    return c['frames'] >= 2, t
