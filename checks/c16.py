"""C16: sky-tile cache of the ephemeris generator."""
import numpy as np

from lib.harness import harness, patched
from sorcha.ephemeris import pixel_dict as M
from sorcha.ephemeris.simulation_constants import AU_KM

BOUNDS = "every history of up to 3 visit times (thorough: 4) in any order within 6 snapshot intervals of one another, every start time, intervals of 0.5, 1 and 3 days (any interval for one visit), two objects, 3-5 sub-intervals; tile coverage: real HEALPix tiles of order 1-7 around pole, equator and mid-latitude"
OUTSIDE = "the size of the sub-intervals relative to a tile; healpy itself; real arithmetic for times"
ASSUMPTIONS = ["integrate_light_time and the observatory position are replaced by functions that identify the time they are asked for (C19, C18 decide the former)"]
BASE = 2460000.5
JREF = 2451545.0


class Eph:
    jd_ref = JREF


class Obs:
    def __init__(self, c):
        self.c = c

    def barycentricObservatory(self, et, obsCode, *a, **k):
        self.c.prove(obsCode == "X05", "observatory-code")
        return np.array([et * AU_KM, 0.0 * et, 0.0 * et])


class World:
    def __init__(self, c, names=("A", "B")):
        self.c, self.names, self.gen, self.samples, self.half = c, names, -1, {}, None
        self.sims = {n: dict(sim="s" + n, ex="x" + n) for n in names}

    def light(self, sim, ex, t, r_obs, lt0=0, iter=3, speed_of_light=None, **k):
        c = self.c
        c.prove(sim[1:] == ex[1:] and sim[0] == "s", "own-simulation")
        x = t + JREF - BASE
        et = r_obs[0]
        c.prove(c.eq(et / 86400 + 2451545.0 - BASE, x, 1e-6), "observer-at-snapshot-time")
        tag = self.names.index(sim[1:])
        v = np.empty(3, dtype=object)
        v[:] = [2 * x, 2 * x * x * x, 2.0 * tag]
        if c.mode == "conc":
            v = v.astype(float)
        return v, 2.0, 0.01, v, v

    def vec2pix(self, nside, x, y, z, nest=False, **k):
        c = self.c
        who = 1 if z[0] > 0.5 else 0
        if who in self.samples or not self.samples:
            self.gen += 1
            self.samples = {}
        self.samples[who] = list(x)
        c.prove(nside == 32 and nest, "tiling")
        return np.array([100 * self.gen + 10 * who] * len(x))

    def neighbours(self, nside, pix, *a, nest=False, **k):
        p = np.atleast_1d(np.array(list(pix)))
        return np.array([p + 1, p + 2, p * 0 - 1])

    def patches(self):
        return [(M, "integrate_light_time", self.light), (M.hp, "vec2pix", self.vec2pix), (M.hp, "get_all_neighbours", self.neighbours)]

    def make(self, t0, p, nsub):
        return M.PixelDict(t0, self.sims, Eph(), "X05", Obs(self.c), picket_interval=p, nside=32, nested=True, n_sub_intervals=nsub)

    def middle(self, x, p):
        """bracketing of visit time x (days since BASE) by the snapshots in use; their middle time"""
        c = self.c
        c.prove(len(self.samples) == 2, "all-objects-tiled")
        s = list(self.samples.values())
        first, last = s[0][0], s[0][-1]
        for q in s:
            c.prove(c.And(c.eq(q[0], first, 1e-7), c.eq(q[-1], last, 1e-7)), "same-times-for-all-objects")
        mid = (first + last) / 2
        c.prove(c.eq(last - first, 2 * p, 1e-7), "window-of-two-intervals")
        c.prove(c.And(x - mid <= p / 2 + 1e-7, mid - x <= p / 2 + 1e-7), "middle-within-half-interval")
        return mid


def visit(c, w, pd, i, x, p, op=None, n=1):
    op = op or c.choose("op%d" % i, ["tiles", "interp"])
    if op == "tiles":
        ask = c.choose("ask%d" % i, [10, 1, -190, 12, 21]) if n == 1 else 12
        seen = []

        def near(ra_c, dec_c, search_radius, nside=32, nested=True):
            seen.append((ra_c, dec_c, search_radius, nside, nested))
            return np.array([100 * max(w.gen, 0) + ask])

        with patched((M, "get_hp_neighbors", near)):
            got = pd.get_designations(x + BASE, 33.0, -7.0, 2.5)
        c.prove(seen == [(33.0, -7.0, 2.5, 32, True)], "search-disc")
        want = {10: {"B"}, 1: {"A"}, 12: {"B"}}.get(ask, set())
        c.prove(set(got) == want, "objects-of-current-tiles")
        w.middle(x, p)
        return
    u = pd.interpolate_unit_vectors(["B"], x + BASE)
    mid = w.middle(x, p)
    c.prove(set(u) == {"B"}, "asked-objects")
    v, d = u["B"], x - mid
    c.prove(c.And(c.eq(v[0], x, 1e-6), c.eq(v[2], 1.0, 1e-7)), "weights-reproduce-linear")
    c.prove(c.eq(v[1], x * x * x - d * (d * d - p * p), 1e-5), "quadratic-through-snapshots")


@harness(cases=[dict(n=1, p=p, nsub=3) for p in (0.5, 1, 3)] + [dict(n=2, p=1, nsub=3), dict(n=2, p=0.5, nsub=5), dict(n=3, p=1, nsub=3)],
         thorough=[dict(n=n, p=p, nsub=q) for n in (1, 2, 3) for p in (0.5, 1, 3) for q in (3, 5)] + [dict(n=4, p=1, nsub=3)], job_s=400)
def history(c, n, p, nsub):
    w = World(c)
    t0 = c.real("t0", 0, 2)
    with patched(*w.patches()):
        pd = w.make(t0 + BASE, p, nsub)
        last = t0
        for i in range(n):
            x = last + c.real("dx%d" % i, -6, 6) * p
            if c.mode == "sym":
                c.assume(c.And(x - t0 < 9 * p, t0 - x < 9 * p))
            visit(c, w, pd, i, x, p, "tiles" if i + 1 < n else None, n)
            last = x


@harness()
def any_interval(c):
    w = World(c)
    t0, p, k = c.real("t0", 0, 2), c.real("p", 0.25, 8), c.real("k", -1.5, 1.5)
    with patched(*w.patches()):
        pd = w.make(t0 + BASE, p, 3)
        x = t0 + k * p
        visit(c, w, pd, 0, x, p)


@harness(cases=[dict(order=o) for o in (1, 3, 5, 7)])
def own_tile(c, order):
    """an object is a candidate for a visit pointed at it, even when it never leaves its tile and however small the search disc"""
    import healpy as hp

    nside = 2**order
    npix = 12 * nside * nside
    pix = c.choose("pix", [0, npix // 2, npix // 3 + 1, npix - 1])
    vec = np.array(hp.pix2vec(nside, pix, nest=True))
    t0, k = c.real("t0", 0, 2), c.real("k", -2, 2)
    radius = c.choose("radius", [0.01, 2.06, 12.0])

    def light(sim, ex, t, r_obs, lt0=0, **kw):
        return vec * 3.0, 3.0, 0.01, vec, vec

    class O:
        def barycentricObservatory(self, et, code, *a):
            return np.zeros(3)

    lon = np.degrees(np.arctan2(vec[1], vec[0])) % 360
    lat = np.degrees(np.arcsin(vec[2]))
    with patched((M, "integrate_light_time", light)):
        # times are concrete here: the direction does not depend on them
        pd = M.PixelDict(BASE, {"A": dict(sim=0, ex=0)}, Eph(), "X05", O(), picket_interval=1.0, nside=nside, nested=True, n_sub_intervals=3)
        step = 0.0 if k < -1 else (1.2 if k < 1 else 4.0)
        got = pd.get_designations(BASE + step, lon, lat, radius)
    c.prove(set(got) == {"A"}, "own-tile")
