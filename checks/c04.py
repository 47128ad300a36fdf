"""C04: circular field of view and fill factor."""
from types import SimpleNamespace as NS

from lib.harness import harness, frame, patched
from lib.env import StubRngs, rowids, separation, sky
from sorcha.modules import PPApplyFOVFilter as M

BOUNDS = "0-2 rows (3 for the fill factor); RA in [0,360], Dec in [-90,90], radius in [0,180] deg, fill factor in [0,1], draws in [0,1); contiguous and arbitrary row labels; radius/fill factor present or absent"
OUTSIDE = "astropy's own angular-separation code (replaced by the great-circle distance when executed symbolically, the real one is used on replay); rounding at the exact radius"
ASSUMPTIONS = ["astropy SkyCoord.separation is the great-circle distance in degrees", "uniform draws are arbitrary values in [0,1)"]


def table(c, n, gap):
    cols = dict(
        rowid=list(range(n)),
        FieldID=[10 + i % 2 for i in range(n)],
        RA_deg=[c.real("ra%d" % i, 0, 360) for i in range(n)],
        Dec_deg=[c.real("dec%d" % i, -90, 90) for i in range(n)],
        fieldRA_deg=[c.real("fra%d" % i, 0, 360) for i in range(n)],
        fieldDec_deg=[c.real("fdec%d" % i, -90, 90) for i in range(n)],
        PSFMag=[c.real("m%d" % i, 10, 30) for i in range(n)],
    )
    return cols, frame(cols, index=[2 * i + 1 for i in range(n)] if gap else None)


def check(c, cols, out, keep, n, tag):
    ids = rowids(out)
    c.prove(ids == sorted(set(ids)), tag + ":order")
    for i in range(n):
        c.prove(c.Iff(i in ids, keep(i)), tag + ":kept-iff")
    for pos, i in enumerate(ids):
        for k in cols:
            if k not in ("rowid",):
                c.prove(c.eq(out[k].iloc[pos], cols[k][i]), tag + ":values")
    c.prove(set(out.columns) == set(cols), tag + ":columns")


def env(c):
    return [(M, "SkyCoord", sky(c))] if c.mode == "sym" else []


CASES = [dict(n=n, gap=g) for n in (0, 1, 2) for g in (False, True) if n or not g]


@harness(cases=CASES)
def circle(c, n, gap):
    cols, df = table(c, n, gap)
    R = c.real("radius", 0, 180)
    with patched(*env(c)):
        out = M.PPCircleFootprint(df, R)
    check(c, cols, out, lambda i: separation(c, cols["RA_deg"][i], cols["Dec_deg"][i], cols["fieldRA_deg"][i], cols["fieldDec_deg"][i]) < R, n, "circle")


@harness(cases=CASES + [dict(n=3, gap=True)])
def fill_factor(c, n, gap):
    cols, df = table(c, n, gap)
    ff = c.real("ff", 0, 1)
    r = StubRngs(c)
    out = M.PPSimpleSensorArea(df, r, ff)
    u = r.draws()
    c.prove(len(u) == n, "own-draw-per-row")
    if len(u) == n:
        check(c, cols, out, lambda i: c.Not(u[i] > ff), n, "fill")
    if len(out) == n:
        c.reached("all kept")


@harness(cases=[dict(n=n, gap=g, rad=r, ff=f) for n in (1, 2) for g in (False, True) for r in (False, True) for f in (False, True)])
def dispatch(c, n, gap, rad, ff):
    """the configured combination, including the limits 0 and 1 of each value"""
    cols, df = table(c, n, gap)
    R = c.real("radius", 0, 180) if rad else None
    F = c.real("ff", 0, 1) if ff else None
    cfg = NS(fov=NS(camera_model="circle", circle_radius=R, fill_factor=F, footprint_edge_threshold=None), simulation=NS(ar_ang_fov=2.1, ar_fov_buffer=0.2))
    r = StubRngs(c)
    with patched(*env(c)):
        out = M.PPApplyFOVFilter(df, cfg, r)
    sep = [separation(c, cols["RA_deg"][i], cols["Dec_deg"][i], cols["fieldRA_deg"][i], cols["fieldDec_deg"][i]) for i in range(n)]
    u = r.draws()
    ids = rowids(out)
    if not ff:
        check(c, cols, out, lambda i: sep[i] < R if rad else True, n, "dispatch")
        return
    # which rows got a draw: those inside the circle, in order
    inside = [i for i in range(n) if not rad or bool(sep[i] < R)]
    if len(u) == n and len(inside) != n:
        draw = {i: u[i] for i in range(n)}
    else:
        c.prove(len(u) == len(inside), "own-draw-per-row")
        if len(u) != len(inside):
            return
        draw = dict(zip(inside, u))
    check(c, cols, out, lambda i: c.And(i in inside, c.Not(draw[i] > F)) if i in draw else False, n, "dispatch")


@harness()
def no_camera(c):
    cols, df = table(c, 2, True)
    cfg = NS(fov=NS(camera_model="none", circle_radius=None, fill_factor=None, footprint_edge_threshold=None))
    out = M.PPApplyFOVFilter(df, cfg, StubRngs(c))
    check(c, cols, out, lambda i: True, 2, "none")


@harness()
def helper_separation(c):
    p = [c.real("ra1", 0, 360), c.real("dec1", -90, 90), c.real("ra2", 0, 360), c.real("dec2", -90, 90)]
    with patched(*env(c)):
        s = M.PPGetSeparation(*p)
    c.prove(c.eq(s, separation(c, *p), 1e-5), "separation")
