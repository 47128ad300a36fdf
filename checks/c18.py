"""C18: orbit formats become the state (and the perihelion) they describe."""
import math

import numpy as np
import pandas as pd

from lib.harness import harness, patched
from lib.env import arr
from sorcha.ephemeris import orbit_conversion_utilities as U
from sorcha.ephemeris import simulation_parsing as P
from sorcha.ephemeris.simulation_geometry import ecliptic_to_equatorial, equatorial_to_ecliptic

BOUNDS = "every element value of all six formats, every Sun state (formats, perihelion rows); conversion of elements for every q, angle, time and mass, eccentricity any value below, at and above one, given a converged universal anomaly; series for |x| <= 0.1 and two halvings; root finder on affine functions with any bracket; inverse conversion for orbits of any size and mass, with orientation, eccentricity and anomaly from a grid including the axes"
OUTSIDE = "convergence of the root finder on the universal Kepler equation itself (it reports failure as NaN, which C20 shows is refused); series beyond two halvings"
ASSUMPTIONS = ["sine, cosine, square root as real functions"]
OBL = 84381.448 / 3600 * math.pi / 180
FORMATS = ("COM", "BCOM", "KEP", "BKEP", "CART", "BCART")
GS, GT, JREF = 2.9591220828559115e-04, 2.963092749241593e-04, 2451545.0


class Ephem:
    jd_ref = JREF

    def __init__(self, c, jd):
        self.c, self.jd = c, jd

    def get_particle(self, name, t):
        self.c.prove(str(name).lower() == "sun", "sun")
        i = [k for k, j in enumerate(self.jd) if abs(t - (j - JREF)) < 1e-6]
        self.c.prove(len(i) >= 1, "sun-at-own-epoch")
        i = i[0] if i else 0
        return pd.Series({k: self.c.real("sun%d_%s" % (self.jd.index(self.jd[i]), k), -0.02, 0.02) for k in ("x", "y", "z", "vx", "vy", "vz")}, dtype=object)


def row(c, fmt, i=0):
    g = lambda n, lo, hi: c.real("%s_%d" % (n, i), lo, hi)
    d = dict(ObjID="o%d" % i, FORMAT=fmt)
    if fmt in ("CART", "BCART"):
        for k in ("x", "y", "z"):
            d[k], d[k + "dot"] = g(k, -50, 50), g(k + "dot", -0.1, 0.1)
    else:
        d.update(inc=g("inc", 0, 179), node=g("node", 0, 360), argPeri=g("argPeri", 0, 360))
        if fmt in ("COM", "BCOM"):
            d.update(q=g("q", 0.01, 50), e=g("e", 0, 1.5), t_p_MJD_TDB=g("tp", 50000, 70000))
        else:
            d.update(a=g("a", 0.5, 100), e=g("e", 0, 0.99), ma=g("ma", 0, 360))
    return pd.Series(d, dtype=object)


def near(c, a, b, tol=1e-9):
    return c.eq(a, b, tol)


def args_ok(c, r, jd, a):
    """the conversion was asked for this row's own elements"""
    mu, q, e, inc, node, peri, tp, ep = a
    bary = r["FORMAT"][0] == "B"
    gm = GT if bary else GS
    c.prove(near(c, mu, gm, 1e-16), "mass-parameter")
    k = math.pi / 180
    c.prove(c.And(near(c, inc, r["inc"] * k), near(c, node, r["node"] * k), near(c, peri, r["argPeri"] * k)), "angles-in-radians")
    c.prove(near(c, e, r["e"], 1e-15), "eccentricity")
    c.prove(near(c, ep, jd, 1e-7), "epoch")
    if "q" in r:
        c.prove(near(c, q, r["q"], 1e-12), "perihelion")
        c.prove(near(c, tp, r["t_p_MJD_TDB"] + 2400000.5, 1e-6), "perihelion-time")
    else:
        c.prove(near(c, q, r["a"] * (1 - r["e"]), 1e-9), "perihelion")
        n = c.sqrt_(gm / (r["a"] * r["a"] * r["a"]))
        # (epoch - tp) n is the mean anomaly up to whole turns
        m = (ep - tp) * n
        turn = 2 * c.pi
        c.prove(c.Or(*[near(c, m, r["ma"] * k + j * turn, 1e-9 if c.mode == "sym" else 1e-6) for j in (0, -1, 1)]), "perihelion-time")


def stub_cart(c, rows, jd, calls):
    def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
        i = len(calls)
        r = rows[min(i, len(rows) - 1)]
        calls.append(i)
        args_ok(c, r, jd[min(i, len(rows) - 1)], (mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB))
        return tuple(c.real("st%d_%d" % (i, k), -40, 40) for k in range(6))

    return universal_cartesian


@harness(cases=[dict(fmt=f) for f in FORMATS] + [dict(fmt=f, two=g) for f, g in (("COM", "BCOM"), ("KEP", "KEP"), ("CART", "BCART"), ("BKEP", "CART"))])
def formats(c, fmt, two=None):
    """state vector: own mass parameter, own elements, own Sun exactly once for heliocentric formats"""
    fs = [fmt] + ([two] if two else [])
    rows = [row(c, f, i) for i, f in enumerate(fs)]
    jd = [2460000.5, c.choose("jd1", [2460000.5, 2460000.53125, 2460031.25])][: len(fs)]
    eph, sun = Ephem(c, jd), {}
    calls = []
    conv = [i for i, f in enumerate(fs) if "CART" not in f]
    with patched((P, "universal_cartesian", stub_cart(c, [rows[i] for i in conv], [jd[i] for i in conv], calls))):
        outs = [P.parse_orbit_row(r, j, eph, sun, GS, GT) for r, j in zip(rows, jd)]
    c.prove(len(calls) == len(conv), "one-conversion-per-row")
    co, so = math.cos(OBL), math.sin(OBL)
    for i, (r, o, j) in enumerate(zip(rows, outs, jd)):
        if i in conv:
            st = [c.real("st%d_%d" % (conv.index(i), k), -40, 40) for k in range(6)]
        else:
            st = [r[k] for k in ("x", "y", "z", "xdot", "ydot", "zdot")]
        S = eph.get_particle("Sun", j - JREF)
        c.prove(len(o) == 6, "six-components")
        for b, names in ((0, ("x", "y", "z")), (3, ("vx", "vy", "vz"))):
            x, y, z = st[b : b + 3]
            want = [x, y * co - z * so, y * so + z * co]
            for k in range(3):
                w = want[k] + (S[names[k]] if fs[i][0] != "B" else 0)
                c.prove(c.And(o[b + k] - w <= 1e-9, w - o[b + k] <= 1e-9), "position" if b == 0 else "velocity")


@harness()
def unknown(c):
    for f, kind in ((P.parse_orbit_row, "state"), (P.get_perihelion_row, "perihelion")):
        r = pd.Series(dict(FORMAT=c.choose("f_" + kind, ["", "XYZ", "com", "CAR"]), x=1.0, y=1.0, z=1.0, xdot=0.0, ydot=0.0, zdot=0.0, q=1.0, e=0.1, inc=1.0, node=1.0, argPeri=1.0, t_p_MJD_TDB=60000.0, a=1.0, ma=1.0))
        ok = False
        try:
            f(r, 2460000.5, Ephem(c, [2460000.5]), {}, GS, GT)
        except ValueError:
            ok = True
        c.prove(ok, "unknown-format-refused")


@harness(cases=[dict(fmt=f) for f in FORMATS])
def perihelia(c, fmt):
    """heliocentric cometary elements used to cull"""
    r = row(c, fmt)
    jd = 2460000.5
    eph, cache = Ephem(c, [jd, jd - 0.03125]), {}
    got, calls = [], []

    def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
        got.append((mu, x, y, z, vx, vy, vz, epochMJD_TDB))
        return tuple(c.real("el%d" % k, lo, hi) for k, (lo, hi) in enumerate([(0.01, 40), (0, 2), (0, 3), (0, 6), (0, 6), (2450000, 2470000)]))

    with patched((P, "universal_cartesian", stub_cart(c, [r], [jd], calls)), (P, "universal_cometary", universal_cometary)):
        if c.flag("after_another"):
            # an orbit of a little earlier epoch went first
            P.get_perihelion_row(pd.Series(dict(FORMAT="BCART", x=1.0, y=0.0, z=0.0, xdot=0.0, ydot=0.0, zdot=0.0), dtype=object), jd - 0.03125, eph, cache, GS, GT)
            del got[:]
        o = P.get_perihelion_row(r, jd, eph, cache, GS, GT)
    c.prove(len(o) == 6, "six-elements")
    deg = 180 / math.pi
    if fmt == "COM":
        want = [r["q"], r["e"], r["inc"], r["node"], r["argPeri"], r["t_p_MJD_TDB"]]
        c.prove(c.And(*[near(c, a, b, 1e-12) for a, b in zip(o, want)]), "own-elements")
    elif fmt == "KEP":
        want = [r["a"] * (1 - r["e"]), r["e"], r["inc"], r["node"], r["argPeri"]]
        c.prove(c.And(*[near(c, a, b, 1e-12) for a, b in zip(o, want)]), "own-elements")
        n = c.sqrt_(GS / (r["a"] * r["a"] * r["a"]))
        m = (jd - 2400000.5 - o[5]) * n
        c.prove(c.Or(*[near(c, m, r["ma"] * math.pi / 180 + j * 2 * c.pi, 1e-8 if c.mode == "sym" else 1e-6) for j in (0, -1)]), "perihelion-time")
    else:
        c.prove(len(got) == 1, "one-conversion")
        if len(got) != 1:
            return
        g = got[0]
        if "CART" in fmt:
            st = [r[k] for k in ("x", "y", "z", "xdot", "ydot", "zdot")]
        else:
            c.prove(len(calls) == 1, "one-state")
            st = [c.real("st0_%d" % k, -40, 40) for k in range(6)]
        S = eph.get_particle("Sun", jd - JREF)
        co, so = math.cos(OBL), math.sin(OBL)
        for b, names in ((0, ("x", "y", "z")), (3, ("vx", "vy", "vz"))):
            x, y, z = [S[k] for k in names]
            sh = [x, y * co + z * so, z * co - y * so] if fmt[0] == "B" else [0, 0, 0]
            for k in range(3):
                w = st[b + k] - sh[k]
                c.prove(c.And(g[1 + b + k] - w <= 1e-9, w - g[1 + b + k] <= 1e-9), "heliocentric-state")
        c.prove(near(c, g[0], GS, 1e-16), "solar-mass-parameter")
        c.prove(near(c, g[7], jd, 1e-7), "epoch")
        el = [c.real("el%d" % k, lo, hi) for k, (lo, hi) in enumerate([(0.01, 40), (0, 2), (0, 3), (0, 6), (0, 6), (2450000, 2470000)])]
        want = [el[0], el[1], el[2] * deg, el[3] * deg, el[4] * deg, el[5] - 2400000.5]
        c.prove(c.And(*[near(c, a, b, 1e-7) for a, b in zip(o, want)]), "own-elements")


# ------------------------------------------------------------------------------------- elements -> state
def kepler(e, q, mu, t):
    """(cos nu, sin nu) at time t after pericentre, by bisection (concrete oracle)"""
    if abs(e - 1) < 1e-12:
        f = lambda D: D + D**3 / 3 - t / math.sqrt(2 * q**3 / mu)
        lo, hi = -1e4, 1e4
        fin = lambda D: ((1 - D * D) / (1 + D * D), 2 * D / (1 + D * D))
    elif e < 1:
        M = math.fmod(t * math.sqrt(mu * ((1 - e) / q) ** 3), 2 * math.pi)
        f = lambda E: E - e * math.sin(E) - M
        lo, hi = -10.0, 10.0
        fin = lambda E: ((math.cos(E) - e) / (1 - e * math.cos(E)), math.sqrt(1 - e * e) * math.sin(E) / (1 - e * math.cos(E)))
    else:
        M = t * math.sqrt(mu * ((e - 1) / q) ** 3)
        f = lambda H: e * math.sinh(H) - H - M
        lo, hi = -25.0, 25.0
        fin = lambda H: ((e - math.cosh(H)) / (e * math.cosh(H) - 1), math.sqrt(e * e - 1) * math.sinh(H) / (e * math.cosh(H) - 1))
    for _ in range(200):
        m = (lo + hi) / 2
        if f(m) > 0:
            hi = m
        else:
            lo = m
    return fin(lo)


@harness(cases=[dict(kind=k, turn=0) for k in ("ell", "par", "hyp")] + [dict(kind="ell", turn=t) for t in (-1, 2)])
def elements(c, kind, turn):
    """position and velocity from elements, given the root of the universal Kepler equation"""
    mu, q = c.real("mu", 2.9e-4, 3e-4), c.real("q", 0.1, 40)
    e = dict(ell=lambda: c.real("e", 0, 0.95), par=lambda: 1.0, hyp=lambda: c.real("e", 1.05, 1.5))[kind]()
    inc, node, peri = c.real("inc", 0, 3.1), c.real("node", 0, 6.2), c.real("peri", 0, 6.2)
    ep = 60000.0
    if kind == "ell":
        frac = c.real("frac", 0.01, 0.99)
        a = q / (1 - e)
        per = 2 * c.pi / c.sqrt_(mu / (a * a * a))
        t = frac * per
        tp = ep - t - turn * per
    else:
        t = c.real("t", -3000, 3000)
        tp = ep - t
    asked = []
    if c.mode == "sym":
        ss = c.real("ss", -1e5, 1e5)
        cs = [c.real("c%d" % k, -1e4, 1e4) for k in range(4)]

        def stumpff(x):
            if not hasattr(x, "t"):
                c.assume(x == 0)
                return 1.0, 1.0, 0.5, 1 / 6
            asked.append(("x", x))
            return tuple(cs)

        def root_function(s, mu, alpha, r0, r0dot, t):
            asked.append(("f", (mu, alpha, r0, r0dot, t)))
            if not hasattr(s, "t") and s == 0:
                return -t, r0, 0.0, 0.0
            return t, r0, 0.0, 0.0

        def halley_safe(x1, x2, mu, alpha, r0, r0dot, t, xacc=1e-14, maxit=100):
            asked.append(("h", (mu, alpha, r0, r0dot, t)))
            return True, ss, q * cs[0] + mu * ss * ss * cs[2]

        r = q * cs[0] + mu * ss * ss * cs[2]
        c.assume(r > 0)
        c.assume(c.eq(q * ss * cs[1] + mu * ss * ss * ss * cs[3], t))
        with patched((U, "stumpff", stumpff), (U, "root_function", root_function), (U, "halley_safe", halley_safe)):
            o = U.universal_cartesian(mu, q, e, inc, node, peri, tp, ep)
        al = mu * (1 - e) / q
        hs = [a for k, a in asked if k == "h"]
        xs = [a for k, a in asked if k == "x"]
        c.prove(len(hs) >= 1, "root-sought")
        for k, a in asked:
            if k in "hf":
                c.prove(c.And(c.eq(a[0], mu), c.eq(a[1], al), c.eq(a[2], q), c.eq(a[3], 0), c.eq(a[4], t)), "root-of-own-orbit")
        for x in xs:
            c.prove(c.eq(x, al * ss * ss), "series-of-own-anomaly")
        v0 = c.sqrt_(mu * (1 + e) / q)
        X, Y = q - mu * ss * ss * cs[2], (t - mu * ss * ss * ss * cs[3]) * v0
        VX, VY = -mu * ss * cs[1] / r, (1 - mu * ss * ss * cs[2] / r) * v0
    else:
        o = U.universal_cartesian(mu, q, e, inc, node, peri, tp, ep)
        if any(math.isnan(v) for v in o):
            return
        co, si = kepler(e, q, mu, t)
        p = q * (1 + e)
        r = p / (1 + e * co)
        X, Y = r * co, r * si
        VX, VY = -math.sqrt(mu / p) * si, math.sqrt(mu / p) * (e + co)
    cw, sw, ci, si, cn, sn = c.cos(peri), c.sin(peri), c.cos(inc), c.sin(inc), c.cos(node), c.sin(node)
    Pv = (cw * cn - sw * ci * sn, cw * sn + sw * ci * cn, sw * si)
    Qv = (-sw * cn - cw * ci * sn, -sw * sn + cw * ci * cn, cw * si)
    for k in range(3):
        tol = 0.0 if c.mode == "sym" else 1e-6
        c.prove(c.eq(o[k], X * Pv[k] + Y * Qv[k], tol), "position")
        c.prove(c.eq(o[3 + k], VX * Pv[k] + VY * Qv[k], tol), "velocity")


@harness()
def at_pericentre(c):
    """elements exactly at the time of perihelion"""
    mu, q, e = c.real("mu", 2.9e-4, 3e-4), c.real("q", 0.1, 40), c.choose("e", [0.0, 0.3, 1.0, 1.4])
    inc, node, peri = c.real("inc", 0, 3.1), c.real("node", 0, 6.2), c.real("peri", 0, 6.2)
    o = U.universal_cartesian(mu, q, e, inc, node, peri, 60000.0, 60000.0)
    v0 = c.sqrt_(mu * (1 + e) / q)
    cw, sw, ci, si, cn, sn = c.cos(peri), c.sin(peri), c.cos(inc), c.sin(inc), c.cos(node), c.sin(node)
    Pv = (cw * cn - sw * ci * sn, cw * sn + sw * ci * cn, sw * si)
    Qv = (-sw * cn - cw * ci * sn, -sw * sn + cw * ci * cn, cw * si)
    for k in range(3):
        c.prove(c.eq(o[k], q * Pv[k], 1e-9), "position")
        c.prove(c.eq(o[3 + k], v0 * Qv[k], 1e-9), "velocity")


def series(c, x, k, n=14):
    s, f = 0, math.factorial(k)
    term = c.frac(1, f)
    s = term
    for j in range(1, n + 1):
        term = -term * x * c.frac(1, (2 * j + k) * (2 * j + k - 1))
        s = s + term
    return s


@harness(cases=[dict(lo=-0.1, hi=0.1, tol=1e-12), dict(lo=0.1000001, hi=0.4, tol=1e-10), dict(lo=-0.4, hi=-0.1000001, tol=1e-10), dict(lo=0.4000001, hi=1.6, tol=1e-9), dict(lo=-1.6, hi=-0.4000001, tol=1e-9)])
def stumpff_values(c, lo, hi, tol):
    x = c.real("x", lo, hi)
    d = U.stumpff(x)
    for k in range(4):
        w = series(c, x, k, 8)
        c.prove(c.And(d[k] - w <= tol, w - d[k] <= tol), "series%d" % k)


@harness()
def kepler_function(c):
    """the universal Kepler function and its slope"""
    s, mu, al, r0, rd, t = c.real("s", -1000, 1000), c.real("mu", 1e-4, 2), c.real("al", -3, 3), c.real("r0", 0.01, 50), c.real("rd", -1, 1), c.real("t", -1e5, 1e5)
    if c.mode == "sym":
        cs = [c.real("c%d" % k, -1e4, 1e4) for k in range(4)]
        seen = []

        def stumpff(x):
            seen.append(x)
            return tuple(cs)

        with patched((U, "stumpff", stumpff)):
            f = U.root_function(s, mu, al, r0, rd, t)
        c.prove(len(seen) >= 1 and c.And(*[c.eq(x, al * s * s) for x in seen]), "argument")
    else:
        f = U.root_function(s, mu, al, r0, rd, t)
        cs = U.stumpff(al * s * s)
    want = (r0 * s * cs[1] + r0 * rd * s * s * cs[2] + mu * s * s * s * cs[3] - t, r0 * cs[0] + r0 * rd * s * cs[1] + mu * s * s * cs[2])
    for a, b, l in zip(f, want, ("value", "slope")):
        c.prove(c.eq(a, b, 0.0 if c.mode == "sym" else 1e-6 * (1 + abs(b))), l)


@harness(cases=[dict(up=u, swap=s) for u in (False, True) for s in (False, True)])
def root(c, up, swap):
    """root finder: exact on affine functions, refuses brackets without a sign change"""
    z, k = c.real("z", -50, 50), c.real("k", 0.1, 10) * (1 if up else -1)
    d1, d2 = c.real("d1", -30, 30), c.real("d2", -30, 30)
    x1, x2 = z + d1, z + d2
    c.assume(c.abs(z) > 0.5)
    c.assume(c.abs(d1) > 0.01)
    c.assume(c.abs(d2) > 0.01)
    c.assume(c.abs(d1 - d2) > 0.01)
    c.assume(c.Or(d1 * d2 > 0, (d1 > d2) if swap else (d1 < d2)))

    def root_function(s, mu, alpha, r0, r0dot, t):
        c.prove((mu, alpha, r0, r0dot, t) == (0.5, 0.25, 2.0, 0.125, 3.0), "own-arguments")
        return k * (s - z), k, 0.0, 0.0

    if c.mode == "conc":
        # compiled code cannot be given another function: run its Python source
        import types

        f = U.halley_safe.py_func
        g = dict(U.__dict__, root_function=root_function)
        f = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
        ok, x, _ = f(x1, x2, 0.5, 0.25, 2.0, 0.125, 3.0)
    else:
        with patched((U, "root_function", root_function)):
            ok, x, _ = U.halley_safe(x1, x2, 0.5, 0.25, 2.0, 0.125, 3.0)
    c.prove(c.Iff(bool(ok), d1 * d2 < 0), "found-iff-bracketed")
    if ok:
        c.prove(c.eq(x, z, 1e-9), "root")


# ------------------------------------------------------------------------------------- state -> elements
ORI = {"plain": ((3, 4, 5), (5, 12, 13), (8, 15, 17)), "equatorial": ((1, 0, 1), (1, 0, 1), (8, 15, 17)), "node0": ((3, 4, 5), (1, 0, 1), (8, 15, 17)), "node90": ((3, 4, 5), (0, 1, 1), (4, 3, 5)),
       "node180": ((3, 4, 5), (-1, 0, 1), (3, 4, 5)), "peri0": ((3, 4, 5), (5, 12, 13), (1, 0, 1)), "retro": ((-3, 4, 5), (-5, 12, 13), (-8, 15, 17)), "peri90": ((4, 3, 5), (5, 12, 13), (0, 1, 1))}
ANOM = {"plain": (3, 4, 5), "behind": (-3, -4, 5), "peri": (1, 0, 1), "apo": (-1, 0, 1), "side": (0, 1, 1)}


@harness(cases=[dict(ori=o, anom=a, e=e) for o in ORI for a in ANOM for e in ((1, 2),)] + [dict(ori="plain", anom=a, e=e) for a in ("plain", "side", "peri") for e in ((1, 1), (3, 2))]
         + [dict(ori="node0", anom="apo", e=(1, 8)), dict(ori="plain", anom="behind", e=(9, 10))])
def inverse(c, ori, anom, e):
    """cometary elements of a state: any orbit size and mass"""
    (ci, si, d1), (cn, sn, d2), (cw, sw, d3) = ORI[ori]
    F = c.frac
    ci, si, cn, sn, cw, sw = F(ci, d1), F(si, d1), F(cn, d2), F(sn, d2), F(cw, d3), F(sw, d3)
    cv, sv, d4 = ANOM[anom]
    cv, sv, ec = F(cv, d4), F(sv, d4), F(*e)
    lam, m = c.real("lam", 0.5, 4), c.real("m", 0.01, 1)
    p, mu = lam * lam, m * m
    r = p / (1 + ec * cv)
    X, Y, VX, VY = r * cv, r * sv, -(m / lam) * sv, (m / lam) * (ec + cv)
    Pv = (cw * cn - sw * ci * sn, cw * sn + sw * ci * cn, sw * si)
    Qv = (-sw * cn - cw * ci * sn, -sw * sn + cw * ci * cn, cw * si)
    pos = [X * a + Y * b for a, b in zip(Pv, Qv)]
    vel = [VX * a + VY * b for a, b in zip(Pv, Qv)]
    out = U.universal_cometary(mu, *pos, *vel, 60000.0)
    q, eo, inc, node, peri, tp = out
    tol = 1e-9 if c.mode == "sym" else 1e-5
    near = lambda a, b: c.And(a - b <= tol, b - a <= tol)
    c.prove(near(q, p / (1 + ec)), "perihelion")
    c.prove(near(eo, ec), "eccentricity")
    c.prove(near(c.cos(inc), ci), "inclination")
    if ori != "equatorial":
        c.prove(c.And(near(c.cos(node), cn), near(c.sin(node), sn)), "node")
        c.prove(c.And(near(c.cos(peri), cw), near(c.sin(peri), sw)), "argument-of-perihelion")
    else:
        s = node + peri
        c.prove(c.And(near(c.cos(s), cw), near(c.sin(s), sw)), "longitude-of-perihelion")
    # time since perihelion from the concrete anomaly
    ef, cvf, svf = e[0] / e[1], ANOM[anom][0] / d4, ANOM[anom][1] / d4
    if ef < 1:
        E = math.atan2(math.sqrt(1 - ef * ef) * svf, ef + cvf)
        M = E - ef * math.sin(E)
        n = (1 - ef * ef) ** 1.5
        dt = (60000.0 - tp) * m * n / (lam * lam * lam)
        c.prove(c.Or(*[near(dt, M + j * 2 * math.pi) for j in (-1, 0, 1)]), "perihelion-time")
    elif ef == 1:
        D = math.tan(math.atan2(svf, cvf) / 2)
        c.prove(near((60000.0 - tp) * m / (lam * lam * lam), (D + D**3 / 3) / 2), "perihelion-time")
    else:
        H = 2 * math.atanh(math.sqrt((ef - 1) / (ef + 1)) * math.tan(math.atan2(svf, cvf) / 2))
        c.prove(near((60000.0 - tp) * m * (ef * ef - 1) ** 1.5 / (lam * lam * lam), ef * math.sinh(H) - H), "perihelion-time")
