"""C17: rates and viewing geometry."""
import numpy as np
import pandas as pd

from lib.harness import harness, patched
from lib.env import arr
from sorcha.ephemeris import simulation_driver as D
from sorcha.ephemeris import simulation_geometry as G
from sorcha.ephemeris.simulation_driver import calculate_rates_and_geometry, get_residual_vectors, EphemerisGeometryParameters

BOUNDS = "every line of sight (declination within 89.9 degrees of the equator), range and object, observer and Sun position and velocity; phase angles for lines of sight along ten directions with every object-Sun vector; every vector for the rotations and every right ascension and declination for the conversions"
OUTSIDE = "a source exactly at a celestial pole (RA undefined); rounding of arccos at exact opposition; terms of second order in v/c"
ASSUMPTIONS = ["the geometry parameters handed over are consistent (rho = object - observer, rho_mag its length), which C19 and C20 establish"]

AU = 149597870.7
C_AU = 2.99792458e5 * 86400 / AU
NAMES = ("ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range", "RangeRate", "RA", "RARate", "Dec", "DecRate", "osx", "osy", "osz", "osvx", "osvy", "osvz",
         "bsx", "bsy", "bsz", "bsvx", "bsvy", "bsvz", "phase")


def vec(c, name, lim):
    return [c.real("%s_%s" % (name, k), -lim, lim) for k in "xyz"]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def row(r_sun, v_sun, r_obs, v_obs):
    d = dict(FieldID=77, fieldJD_TDB=2460000.75, observationMidpointMJD_TAI=60000.2)
    for n, v in (("r_sun", r_sun), ("v_sun", v_sun), ("r_obs", r_obs), ("v_obs", v_obs)):
        for k, q in zip("xyz", v):
            d["%s_%s" % (n, k)] = q
    return pd.Series(d, dtype=object)


def call(c, pointing, rho, mag, hat, ast, vast):
    p = EphemerisGeometryParameters()
    p.obj_id, p.mjd_tai = "obj7", 60000.2
    p.rho, p.rho_mag, p.rho_hat, p.r_ast, p.v_ast = arr(rho), mag, arr(hat), arr(ast), arr(vast)
    out = calculate_rates_and_geometry(pointing, p)
    c.prove(len(out) == len(NAMES), "columns")
    return dict(zip(NAMES, out))


@harness()
def rates(c):
    a, d, mag = c.real("a", 0, 359.9), c.real("d", -89.9, 89.9), c.real("mag", 0.001, 200)
    ca, sa, cd, sd = c.cos(c.rad(a)), c.sin(c.rad(a)), c.cos(c.rad(d)), c.sin(c.rad(d))
    if c.mode == "sym":
        c.assume(cd > 0.001)
    hat = [cd * ca, cd * sa, sd]
    rho = [mag * h for h in hat]
    vast, vobs = vec(c, "va", 0.1), vec(c, "vo", 0.02)
    robs, rsun, vsun = [0.5, -0.7, 0.25], [0.003, -0.004, 0.001], [1e-5, 2e-5, -1e-5]
    if c.mode == "conc":
        ast = [r + o for r, o in zip(rho, robs)]
    else:
        ast = [2.0, 1.0, 0.5]
    o = call(c, row(rsun, vsun, robs, vobs), rho, mag, hat, ast, vast)
    w = [x - y for x, y in zip(vast, vobs)]
    rr = dot(hat, w)
    c.prove(o["ObjID"] == "obj7" and o["FieldID"] == 77 and o["fieldMJD_TAI"] == 60000.2 and o["fieldJD_TDB"] == 2460000.75, "identity")
    c.prove(c.eq(o["Range"], mag * AU, 1e-9 * AU), "range")
    c.prove(c.eq(o["RangeRate"], rr * AU / 86400, 1e-6), "range-rate")
    k = [x * (1 - rr / C_AU) - y for x, y in zip(vast, vobs)]
    deg = 180 / c.pi
    c.prove(c.eq(o["RARate"] * mag, dot([-sa, ca, 0.0], k) * deg, 1e-9), "ra-rate")
    c.prove(c.eq(o["DecRate"] * mag, dot([-sd * ca, -sd * sa, cd], k) * deg, 1e-9), "dec-rate")
    c.prove(c.And(c.eq(c.sin(c.rad(o["Dec"])), sd, 1e-9), o["Dec"] <= 90, o["Dec"] >= -90), "dec")
    ro = c.rad(o["RA"])
    c.prove(c.And(c.eq(c.cos(ro) * cd, hat[0], 1e-9), c.eq(c.sin(ro) * cd, hat[1], 1e-9), o["RA"] >= 0, o["RA"] <= 360), "ra")


DIRS = [(1, 0, 0), (0, -1, 0), (0.6, 0.8, 0), (-0.8, 0.6, 0), (2 / 3, -1 / 3, 2 / 3), (-2 / 7, 3 / 7, -6 / 7), (0.48, 0.6, -0.64), (-0.36, -0.48, 0.8), (0.0, 0.28, 0.96), (1 / 9, 4 / 9, -8 / 9)]


@harness(cases=[dict(k=k) for k in range(len(DIRS))], job_s=200)
def viewing(c, k):
    """object-Sun and observer-Sun vectors, phase angle"""
    hat = [float(v) for v in DIRS[k]]
    mag = c.real("mag", 0.01, 100)
    rsun, robs = vec(c, "rs", 0.02), vec(c, "ro", 1.2)
    s = vec(c, "s", 100)  # object as seen from the Sun
    vast, vobs, vsun = vec(c, "va", 0.1), vec(c, "vo", 0.02), vec(c, "vs", 1e-3)
    rho = [mag * h for h in hat]
    ast = [a + b for a, b in zip(s, rsun)]
    robs = [a - b for a, b in zip(ast, rho)]
    c.assume_pos(dot(s, s))
    if c.mode == "sym":
        c.assume(dot(s, s) > 1e-4)
    # Cauchy-Schwarz
    n2 = dot(s, s)
    cr = [s[1] * hat[2] - s[2] * hat[1], s[2] * hat[0] - s[0] * hat[2], s[0] * hat[1] - s[1] * hat[0]]
    c.lemma(c.eq(n2 * dot(hat, hat) - dot(s, hat) * dot(s, hat), dot(cr, cr), 1e-9), "cauchy-schwarz")
    o = call(c, row(rsun, vsun, robs, vobs), rho, mag, hat, ast, vast)
    for j, x in enumerate("xyz"):
        c.prove(c.eq(o["os" + x], s[j] * AU, 1e-3), "object-sun-position")
        c.prove(c.eq(o["osv" + x], (vast[j] - vsun[j]) * AU / 86400, 1e-8), "object-sun-velocity")
        c.prove(c.eq(o["bs" + x], (robs[j] - rsun[j]) * AU, 1e-3), "observer-sun-position")
        c.prove(c.eq(o["bsv" + x], (vobs[j] - vsun[j]) * AU / 86400, 1e-8), "observer-sun-velocity")
    ph = o["phase"]
    c.prove(c.eq(c.cos(c.rad(ph)) * c.sqrt_(n2), dot(s, hat), 1e-7), "phase-angle")
    c.prove(c.And(ph >= 0, ph <= 180), "phase-range")


@harness()
def tangent(c):
    """local east and north directions"""
    a, d = c.real("a", 0, 360), c.real("d", -89.9, 89.9)
    ca, sa, cd, sd = c.cos(c.rad(a)), c.sin(c.rad(a)), c.cos(c.rad(d)), c.sin(c.rad(d))
    if c.mode == "sym":
        c.assume(cd > 0.001)
    v = [cd * ca, cd * sa, sd]
    A, N = get_residual_vectors(arr(v))
    for x, y, w, l in ((A, A, 1.0, "unit"), (N, N, 1.0, "unit"), (A, N, 0.0, "orthogonal"), (A, v, 0.0, "tangent"), (N, v, 0.0, "tangent")):
        c.prove(c.eq(dot(x, y), w, 1e-9), l)
    c.prove(c.And(c.eq(A[2], 0.0, 1e-12), c.eq(N[2], cd, 1e-9), c.eq(A[0], -sa, 1e-9), c.eq(A[1], ca, 1e-9)), "east-and-north")


@harness()
def conversions(c):
    ra, dec = c.real("ra", 0, 359.99), c.real("dec", -89.9, 89.9)
    v = G.ra_dec2vec(ra, dec)
    a, d = c.rad(ra), c.rad(dec)
    for q, w in zip(v, [c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]):
        c.prove(c.eq(q, w, 1e-12), "unit-vector")
    if c.mode == "sym":
        c.assume(c.cos(d) > 0.001)
    r2, d2 = G.vec2ra_dec(v)
    c.prove(c.And(r2 >= 0, r2 <= 360, d2 >= -90, d2 <= 90), "ranges")
    for q, w in zip(v, [c.cos(c.rad(d2)) * c.cos(c.rad(r2)), c.cos(c.rad(d2)) * c.sin(c.rad(r2)), c.sin(c.rad(d2))]):
        c.prove(c.eq(q, w, 1e-8), "inverse")


@harness()
def vectors(c):
    """several directions at once (the form used for the pointing table)"""
    ra, dec = [c.real("ra%d" % i, 0, 360) for i in range(2)], [c.real("dec%d" % i, -90, 90) for i in range(2)]
    v = G.ra_dec2vec(pd.Series(arr(ra)), pd.Series(arr(dec)))
    c.prove(np.shape(v) == (2, 3), "shape")
    for i in range(2):
        a, d = c.rad(ra[i]), c.rad(dec[i])
        for k, w in enumerate([c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]):
            c.prove(c.eq(v[i, k], w, 1e-12), "unit-vector")


@harness()
def rotation(c):
    v = vec(c, "v", 100)
    e = 84381.448 / 3600 * np.pi / 180
    q = G.ecliptic_to_equatorial(arr(v))
    c.prove(c.And(c.eq(q[0], v[0], 1e-9), c.eq(q[1], v[1] * np.cos(e) - v[2] * np.sin(e), 1e-9), c.eq(q[2], v[1] * np.sin(e) + v[2] * np.cos(e), 1e-9)), "ecliptic-to-equatorial")
    b = G.equatorial_to_ecliptic(q)
    b2 = G.ecliptic_to_equatorial(G.equatorial_to_ecliptic(arr(v)))
    for k in range(3):
        c.prove(c.And(c.eq(b[k], v[k], 1e-9), c.eq(b2[k], v[k], 1e-9)), "inverse")
    c.prove(c.eq(dot(q, q), dot(v, v), 1e-6), "isometry")
