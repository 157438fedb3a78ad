"""C15: recorded trajectories follow the chosen timestepping scheme."""
import numpy as np
from hypothesis import strategies as st

import gen
import traj
import world as w
from common import Sub, fail

TECHNIQUE = ('whole runs of the script on generated suspensions against an '
             'independent model of the three schemes, and against an '
             'independent equation of motion for one particle')
RULE = ('Spheres and dumbbells with forces depending on time and position, '
        'time-dependent background flow, prescribed velocities, every scheme, '
        'unbounded and periodic. Non-trivial: two or more frames.')


def oracle(c):
    _, got = traj.run(c)
    states, _ = traj.model(c)
    traj.row_error(c, got, states)


@st.composite
def lone(draw):
    """One sphere or dumbbell whose equation of motion is known outright."""
    c = draw(traj.runs(spheres=(0, 1), dumbbells=(0, 0), frames=(2, 12),
                       sizes=((1.0,), (0.4,), (2.0,)), form='fte',
                       dts=(0.02, 1.0)))
    return c


def lone_oracle(c):
    _, got = traj.run(c)
    a, mu, dt = c['sa'][0], c['mu'], c['dt']
    x = np.array(c['sx'][0], float)
    F = np.array(c['F'][0])

    def v(x, t):
        U, O, E, cen, _, _ = traj.flow_of(c, t)
        f = (1 + c['A'] * np.sin(c['om'] * t)) * F - c['spring'] * x
        return (U + np.cross(O, x - cen) + E @ (x - cen)
                + f / (6 * np.pi * mu * a))
    rows, prev = [x], None
    for n in range(c['frames']):
        t = n * dt
        k1 = v(x, t)
        if c['scheme'] == 'euler' or (c['scheme'] == 'ab2' and prev is None):
            x = x + dt * k1
        elif c['scheme'] == 'ab2':
            x = x + dt * (3 * k1 - prev) / 2
        else:
            k2 = v(x + dt / 2 * k1, t + dt / 2)
            k3 = v(x + dt / 2 * k2, t + dt / 2)
            k4 = v(x + dt * k3, t + dt)
            x = x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        prev = k1
        rows.append(x)
    e = np.max(np.abs(got['centres'][:, 0] - np.array(rows)))
    tol = 1e-8 * (a + np.max(np.abs(rows)))
    if not e <= tol:
        fail('single sphere leaves its equation of motion under %s by %.3g'
             % (c['scheme'], e))


def init():
    w.load()


SUBS = [
    Sub('runs', traj.runs(frames=(1, 5)), oracle, 240, 2400, shards=5,
        init=init, classify=traj.classify),
    Sub('periodic', traj.runs(spheres=(0, 2), dumbbells=(0, 1), frames=(2, 3),
                              box=True, push=4.0), oracle, 14, 160, shards=6,
        init=init, classify=traj.classify),
    Sub('lone sphere', lone(), lone_oracle, 100, 800, shards=2, init=init,
        classify=traj.classify),
]
