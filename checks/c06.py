"""C06: faint-object culling."""
import numpy as np

from lib.harness import harness, frame, patched
from lib.env import rowids
from sorcha.modules import PPFaintObjectCullingFilter as M
from sorcha.ephemeris import simulation_parsing as SP

BOUNDS = "1-2 objects, every absolute magnitude, colour, depth, perihelion (Cartesian: every position and velocity); one to three observing filters, visits missing in any of them; all six formats"
OUTSIDE = "more objects (rules are per row); the conversion of a state into a perihelion distance (its arguments are checked here, the conversion in C18); Earth's eccentricity (0.017 au) is absorbed by the two-magnitude margin"
ASSUMPTIONS = ["culling assumes heliocentric elements (Sun at the origin), as documented in the code"]

MU_SUN, MU_TOT = 2.9591220828559115e-04, 2.9630927487993194e-04
def log10(c, x):
    return c.log10(x)


def survey(c, filters, main):
    """objects' photometry and visits; returns (columns, pointing columns, brightest-magnitude function, deepest per filter)"""
    visits = dict(optFilter=[], fieldFiveSigmaDepth_mag=[])
    deepest = {}
    for f in filters:
        n = c.choose("visits_" + f, [1, 0, 2] if f == filters[-1] else [1])
        d = [c.real("m5_%s%d" % (f, i), 15, 28) for i in range(n)]
        visits["optFilter"] += [f] * n
        visits["fieldFiveSigmaDepth_mag"] += d
        deepest[f] = d
    if not visits["optFilter"]:
        visits = dict(optFilter=["none"], fieldFiveSigmaDepth_mag=[20.0])
    return visits, deepest


def phot(c, n, filters, main):
    cols = {"H_" + main: [c.real("H%d" % i, -5, 30) for i in range(n)]}
    for f in filters:
        if f != main:
            cols["%s-%s" % (f, main)] = [c.real("%s%d" % (f, i), -3, 3) for i in range(n)]
    return cols


def hopeless(c, i, q, cols, deepest, filters, main, offset=0.0, margin=1.9):
    """too faint in every filter that is observed at all, at the closest conceivable geometry"""
    faint = []
    for f in filters:
        h = cols["H_" + main][i] + (0.0 if f == main else cols["%s-%s" % (f, main)][i])
        m = h + 5 * (c.log10(q) + c.log10(q - 1)) + offset
        faint += [m > d + margin for d in deepest[f]]
    return c.And([q >= 1.9999] + faint)


def check(c, cols, ids, q, out, deepest, filters, main, offset=0.0):
    kept = rowids(out)
    c.prove(kept == [i for i in range(len(ids)) if i in kept], "order")
    for i in range(len(ids)):
        if i not in kept:
            c.prove(hopeless(c, i, q[i], cols, deepest, filters, main, offset), "detectable-object-culled")
            c.reached("culled")
    for p, i in enumerate(kept):
        for k in cols:
            v = out[k].iloc[p]
            c.prove(v == cols[k][i] if isinstance(cols[k][i], str) else c.eq(v, cols[k][i]), "surviving-values")


def run(c, cols, visits, main, filters, lc=None, ca=None, gap=False):
    n = len(cols["ObjID"])
    df = frame(dict(rowid=list(range(n)), **cols), index=[3 * i + 2 for i in range(n)] if gap else None)
    return M.PPFaintObjectCullingFilter(df, frame(visits), main, list(filters), lc, ca)


def elements(c, fmt, i, lo=0.05, hi=60):
    """element columns of one object and its perihelion distance"""
    k = fmt.lstrip("B")
    out = dict(FORMAT=fmt, epochMJD_TDB=60000.0 + i)
    if k == "COM":
        q = c.real("q%d" % i, lo, hi)
        out.update(q=q, e=c.real("e%d" % i, 0, 3), inc=10.0, node=20.0, argPeri=30.0, t_p_MJD_TDB=60100.0)
        return out, q
    a, e = c.real("a%d" % i, lo, hi), c.real("e%d" % i, 0, 1)
    c.assume(e < 1)
    out.update(a=a, e=e, inc=10.0, node=20.0, argPeri=30.0, ma=c.choose("ma", [0.0, 200.0]))
    return out, a * (1 - e)


def table(rows):
    return {k: [r[k] for r in rows] for k in rows[0]}


FILTERS = {1: (("r",), "r"), 2: (("r", "g"), "r"), 3: (("g", "r", "i"), "g")}


@harness(cases=[dict(fmt=f, n=n, nf=nf) for f in ("COM", "KEP") for n, nf in ((1, 1), (1, 2), (2, 1), (1, 3))] + [dict(fmt="BCOM", n=1, nf=2)],
         thorough=[dict(fmt=f, n=n, nf=nf) for f in ("COM", "KEP", "BCOM") for n in (1, 2) for nf in (1, 2, 3)])
def culling(c, fmt, n, nf):
    filters, main = FILTERS[nf]
    rows, q = zip(*[elements(c, fmt, i) for i in range(n)])
    cols = dict(ObjID=["o%d" % (5 - i) for i in range(n)], **table(rows))
    cols.update(phot(c, n, filters, main))
    visits, deepest = survey(c, filters, main)
    out = run(c, cols, visits, main, filters, gap=n > 1)
    check(c, cols, cols["ObjID"], q, out, deepest, filters, main)


@harness(cases=[dict(fmt=f) for f in ("CART", "BCART", "BKEP")])
def vectors(c, fmt):
    """formats whose perihelion is worked out from the state"""
    filters, main = ("r",), "r"
    st = [c.real(k, -60, 60) for k in ("x", "y", "z")] + [c.real(k, -0.1, 0.1) for k in ("vx", "vy", "vz")]
    q = c.real("q", 0.05, 60)
    called, conv = [], []

    def cart(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
        called.append((mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB))
        return tuple(st)

    def com(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
        conv.append((mu, x, y, z, vx, vy, vz, epochMJD_TDB))
        return q, 0.3, 0.1, 0.2, 0.3, 60000.0

    if fmt.endswith("CART"):
        row = dict(FORMAT=fmt, epochMJD_TDB=60000.0)
        row.update(zip(("x", "y", "z", "xdot", "ydot", "zdot"), st))
    else:
        row, _ = elements(c, fmt, 0)
    cols = dict(ObjID=["o"], **table([row]))
    cols.update(phot(c, 1, filters, main))
    visits, deepest = survey(c, filters, main)
    with patched((SP, "universal_cartesian", cart), (SP, "universal_cometary", com)):
        out = run(c, cols, visits, main, filters)
    for k in called:
        a, e = row["a"], row["e"]
        c.prove(c.And(c.eq(k[0], MU_TOT, 1e-9), c.eq(k[1], a * (1 - e), 1e-9), c.eq(k[2], e, 1e-9)), "converted-elements")
    for k in conv:
        c.prove(c.And(c.eq(k[0], MU_SUN, 1e-9), *[c.eq(a, b, 1e-9) for a, b in zip(k[1:7], st)]), "state-of-the-object")
    c.prove(bool(conv) and (bool(called) or fmt.endswith("CART")), "perihelion-from-state")
    check(c, cols, ["o"], [q], out, deepest, filters, main)


class LC:
    def __init__(self, c):
        self.c = c

    def __call__(self):
        return self

    def maxBrightness(self, df):
        return np.array([self.c.real("amp%d" % i, -5, 0) for i in range(len(df))], dtype=object if self.c.mode == "sym" else float)


class CA:
    def __init__(self, c):
        self.c = c

    def __call__(self):
        return self

    def maxBrightness(self, df, filters, rho, delta, alpha):
        """brighter than the nucleus magnitude it is handed by an arbitrary amount"""
        c = self.c
        c.prove(len(filters) == 1 and (df["optFilter"] == filters[0]).all(), "activity-filter")
        c.prove(c.And([c.eq(a, b - 1) for a, b in zip(delta, rho)]), "activity-geometry")
        c.prove(all(a == 0 for a in alpha), "activity-opposition")
        return df["trailedSourceMagTrue"] - c.real("coma", 0, 6)


@harness(cases=[dict(lc=True, ca=False, nf=1), dict(lc=True, ca=False, nf=2), dict(lc=False, ca=True, nf=2), dict(lc=True, ca=True, nf=1)])
def models(c, lc, ca, nf):
    """light-curve and activity models may brighten the object: their brightest value is what is compared"""
    filters, main = FILTERS[nf]
    row, q = elements(c, "COM", 0)
    c.assume(q >= 2)
    cols = dict(ObjID=["o"], **table([row]))
    cols.update(phot(c, 1, filters, main))
    visits, deepest = survey(c, filters, main)
    off = 0.0
    if lc:
        off = off + c.real("amp0", -5, 0)
    if ca:
        off = off - c.real("coma", 0, 6)
    with patched((M, "LC_METHODS", dict(mylc=LC(c))), (M, "CA_METHODS", dict(myca=CA(c)))):
        out = run(c, cols, visits, main, filters, "mylc" if lc else None, "myca" if ca else None)
    check(c, cols, ["o"], [q], out, deepest, filters, main, off)
