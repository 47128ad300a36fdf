"""C08: trailing losses."""
from lib.harness import harness, frame, exits
from lib.env import arr
from sorcha.modules import PPTrailingLoss as M

BOUNDS = "1-3 rows; every rate in [-30,30] deg/day, seeing in [0.1,10] arcsec, exposure in [0,300] s"
OUTSIDE = "zero or negative seeing, NaN, rounding of log10"
ASSUMPTIONS = ["log10 is any strictly increasing function with log10(1)=0 and log(ab)=log(a)+log(b)"]

AB = {"trailedSource": (0.761, 1.162), "circularPSF": (0.420, 0.003)}


def oracle(c, ra, dec, seeing, texp, model):
    a, b = AB[model]
    x = c.sqrt_(ra * ra + dec * dec) * texp / (24 * seeing)
    return 1.25 * c.log10(1 + a * x * x / (1 + b * x))


def inputs(c, n, tag=""):
    return (
        [c.real("ra%s%d" % (tag, i), -30, 30) for i in range(n)],
        [c.real("dec%s%d" % (tag, i), -30, 30) for i in range(n)],
        [c.real("see%s%d" % (tag, i), 0.1, 10) for i in range(n)],
        [c.real("exp%s%d" % (tag, i), 0, 300) for i in range(n)],
    )


@harness(cases=[dict(model=m, n=n) for m in AB for n in (1, 2)], thorough=[dict(model=m, n=n) for m in AB for n in (1, 2, 3)])
def table(c, model, n):
    ra, dec, see, texp = inputs(c, n)
    df = frame(
        dict(
            RARateCosDec_deg_day=ra,
            DecRate_deg_day=dec,
            Dec_deg=[c.real("d%d" % i, -90, 90) for i in range(n)],
            seeingFwhmEff_arcsec=see,
            seeingFwhmGeom_arcsec=[c.real("geom%d" % i, 0.1, 10) for i in range(n)],
            visitExposureTime=texp,
            visitTime=[c.real("vt%d" % i, 0, 300) for i in range(n)],
        ),
        index=[2 * i + 1 for i in range(n)],
    )
    out = M.PPTrailingLoss(df, model)
    out = list(getattr(out, "values", out))
    c.prove(len(out) == n, "length")
    for i in range(n):
        c.prove(c.eq(out[i], oracle(c, ra[i], dec[i], see[i], texp[i], model), 1e-9), "formula")
        c.prove(out[i] >= 0, "non-negative")
        c.prove(c.Implies(c.And(ra[i] == 0, dec[i] == 0), c.eq(out[i], 0, 1e-12)), "zero-at-rest")


@harness()
def default_is_detection_loss(c):
    ra, dec, see, texp = (v[0] for v in inputs(c, 1))
    c.prove(c.eq(M.calcTrailingLoss(ra, dec, see), oracle(c, ra, dec, see, 30.0, "circularPSF"), 1e-9), "formula")
    df = frame(dict(RARateCosDec_deg_day=[ra], DecRate_deg_day=[dec], Dec_deg=[0.0], seeingFwhmEff_arcsec=[see], visitExposureTime=[texp]))
    c.prove(c.eq(list(M.PPTrailingLoss(df))[0], oracle(c, ra, dec, see, texp, "circularPSF"), 1e-9), "table-default")


@harness(cases=[dict(model=m) for m in AB])
def monotone(c, model):
    """faster motion or longer exposure never loses less"""
    ra, dec, see, texp = (v[0] for v in inputs(c, 1))
    k = c.real("k", 1, 10)
    l1 = M.calcTrailingLoss(ra, dec, see, texp=texp, model=model)
    l2 = M.calcTrailingLoss(ra * k, dec * k, see, texp=texp, model=model)
    eps = 0 if c.mode == "sym" else 1e-9
    c.prove(l2 >= l1 - eps, "monotone-rate")
    c.prove(c.eq(l2, oracle(c, ra * k, dec * k, see, texp, model), 1e-9), "formula")
    c.prove(c.eq(M.calcTrailingLoss(-ra, dec, see, texp=texp, model=model), l1, 1e-9), "sign-independent")


@harness()
def unknown_model(c):
    ra, dec, see, texp = (v[0] for v in inputs(c, 1))
    bad = c.choose("m", ["bogus", "trailed", "circularPSF ", ""])
    ex, r = exits(M.calcTrailingLoss, ra, dec, see, texp=texp, model=bad)
    c.prove(ex and r.code not in (0, None), "stops")
