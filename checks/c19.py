"""C19: light-time correction."""
import numpy as np

from lib.harness import harness
from lib.env import arr
from sorcha.ephemeris.simulation_geometry import integrate_light_time

BOUNDS = "every object trajectory with constant velocity up to 0.06 au/day (104 km/s) in three dimensions, every observer position, observation time and first guess; convergence for motion along ten lines of sight at 0.001-100 au; the default and 1-5 iterations"
OUTSIDE = "acceleration during the light time; the integrator itself (C30)"
ASSUMPTIONS = ["the integrator delivers the object's position and velocity at exactly the time it is asked for (stub)"]
C_AU = 2.99792458e5 * 86400 / 149597870.7


class World:
    """object on a straight line; state is available only after integrating to a time"""

    def __init__(self, c, p0, v, acc=None):
        self.c, self.p0, self.v, self.acc, self.times = c, p0, v, acc, []
        self.particles = [self]

    def integrate_or_interpolate(self, t):
        self.times.append(t)

    def at(self, t):
        return [p + v * t for p, v in zip(self.p0, self.v)]

    @property
    def xyz(self):
        return arr(self.at(self.times[-1]))

    @property
    def vxyz(self):
        # velocity that tells the time it belongs to
        return arr([v * (1 + self.times[-1]) for v in self.v])


@harness(cases=[dict(n=None), dict(n=1), dict(n=3), dict(n=5)], thorough=[dict(n=n) for n in (None, 1, 2, 3, 4, 5, 8)])
def emission(c, n):
    """the returned state, vector, range and light time belong to one emission time, obtained by the previous light time"""
    p0 = [c.real("p%d" % k, -100, 100) for k in range(3)]
    v = [c.real("v%d" % k, -0.06, 0.06) for k in range(3)]
    o = [c.real("o%d" % k, -1.1, 1.1) for k in range(3)]
    t, lt0 = c.real("t", 0, 100), c.real("lt0", 0, 1)
    w = World(c, p0, v)
    k = {} if n is None else dict(iter=n)
    rho, mag, lt, ast, vast = integrate_light_time(w, w, t, arr(o), lt0=lt0, **k)
    T = w.times
    c.prove(len(T) >= (n or 3), "iterations")
    if not T:
        return
    last = T[-1]
    pos = w.at(last)
    for j in range(3):
        c.prove(c.And(c.eq(ast[j], pos[j], 1e-9), c.eq(rho[j], pos[j] - o[j], 1e-9)), "state-at-emission")
        c.prove(c.eq(vast[j], v[j] * (1 + last), 1e-9), "velocity-at-emission")
    c.prove(c.eq(mag * mag, sum(x * x for x in rho), 1e-7), "range")
    c.prove(mag >= 0, "range-positive")
    c.prove(c.eq(lt * C_AU, mag, 1e-7), "light-time")
    prev = lt0
    for q in T:
        c.prove(c.eq(q, t - prev, 1e-9), "retarded-time")
        d = [a - b for a, b in zip(w.at(q), o)]
        prev = c.sqrt_(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) / C_AU


DIRS = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (0.6, 0.8, 0), (-0.8, 0.6, 0), (0, 0.28, 0.96), (0.28, 0, -0.96), (-0.6, 0, -0.8), (0, -0.6, 0.8), (0.96, -0.28, 0)]


@harness(cases=[dict(k=k) for k in range(len(DIRS))])
def convergence(c, k):
    """default settings: what is left of the light-time error is negligible (motion along the line of sight, the worst case)"""
    d, u = c.real("dist", 0.01, 100), c.real("speed", -0.06, 0.06)
    t = 5.0
    h = [float(x) for x in DIRS[k]]
    o = [0.5, -0.25, 0.125]
    # distance at time t is d; never through the observer during the light time
    p0 = [a + (d - u * t) * b for a, b in zip(o, h)]
    w = World(c, p0, [u * b for b in h])
    if c.mode == "sym":
        # the object stays on one side of the observer for the whole correction (distance > speed * light time)
        c.assume(d > 0.002)
    rho, mag, lt, ast, vast = integrate_light_time(w, w, t, arr(o), lt0=0.01)
    e = lt - (t - w.times[-1])
    c.prove(c.And(e < 2e-7, e > -2e-7), "converged")
