"""C02: fading function filters."""
from lib.harness import harness, frame
from lib.env import StubRngs, rowids
from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
from sorcha.modules.PPDetectionProbability import PPDetectionProbability
from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter
from sorcha.modules.DESDetectionProbability import DESDetectionProbability
from sorcha.modules.PPDropObservations import PPDropObservations

BOUNDS = "up to 2 rows through the filters, 3 rows through the draw step; every magnitude/limit in [0,40], width in [1e-3,0.5], peak in [0,1], draw in [0,1)"
OUTSIDE = "floating-point rounding of exp at the exact decision boundary; NaN"
ASSUMPTIONS = ["exp is any strictly increasing positive function with exp(0)=1, exp(x)>=1+x and exp(-x)=1/exp(x)",
               "the generator's uniform draws are arbitrary values in [0,1), in row order"]


def rows(c, n, perchip=False, des=False, gap=False):
    cols = dict(
        rowid=list(range(n)),
        optFilter=["r"] * n,
        PSFMag=[c.real("psf%d" % i, 0, 40) for i in range(n)],
        trailedSourceMag=[c.real("ts%d" % i, 0, 40) for i in range(n)],
        fiveSigmaDepth_mag=[c.real("lim%d" % i, 0, 40) for i in range(n)],
    )
    if perchip:
        cols["limMag_perChip"] = [c.real("chip%d" % i, 0, 40) for i in range(n)]
    if des:
        cols["c"] = [c.real("c%d" % i, 0, 1) for i in range(n)]
        cols["k"] = [c.real("k%d" % i, 0.1, 10) for i in range(n)]
    return cols, frame(cols, index=[2 * i + 1 for i in range(n)] if gap else None)


def subset(c, cols, out, ids, tag):
    c.prove(ids == sorted(set(ids)), tag + ":order")
    c.prove(set(out.columns) == set(cols), tag + ":columns")
    for pos, i in enumerate(ids):
        for k in cols:
            if k in ("rowid", "optFilter"):
                continue
            c.prove(c.eq(out[k].iloc[pos], cols[k][i]), tag + ":values")


@harness(cases=[dict(n=n, perchip=p, gap=g) for n in (0, 1, 2) for p in (False, True) for g in (False, True) if n or not g],
         thorough=[dict(n=n, perchip=p, gap=g) for n in (0, 1, 2, 3) for p in (False, True) for g in (False, True)])
def rubin(c, n, perchip, gap):
    cols, df = rows(c, n, perchip, gap=gap)
    F = c.real("peak", 0, 1)
    w = c.real("width", 1e-3, 0.5)
    r = StubRngs(c)
    out = PPFadingFunctionFilter(df, F, w, r)
    u = r.draws()
    c.prove(len(u) == n, "own-draw-per-row")
    ids = rowids(out)
    lim = cols["limMag_perChip"] if perchip else cols["fiveSigmaDepth_mag"]
    if len(u) == n:
        for i in range(n):
            P = F / (1 + c.exp((cols["PSFMag"][i] - lim[i]) / w))
            c.prove(c.Iff(i in ids, P >= u[i]), "kept-iff")
    subset(c, cols, out, ids, "rubin")


@harness(cases=[dict(n=n, gap=g) for n in (0, 1, 2) for g in (False, True) if n or not g])
def des(c, n, gap):
    cols, df = rows(c, n, des=True, gap=gap)
    T = c.real("T", 0, 1)
    r = StubRngs(c)
    out = DESFadingFunctionFilter(df, T, r)
    u = r.draws()
    c.prove(len(u) == n, "own-draw-per-row")
    ids = rowids(out)
    if len(u) == n:
        for i in range(n):
            P = T * cols["c"][i] / (1 + c.exp(cols["k"][i] * (cols["PSFMag"][i] - cols["fiveSigmaDepth_mag"][i])))
            c.prove(c.Iff(i in ids, P >= u[i]), "kept-iff")
    subset(c, cols, out, ids, "des")


@harness(cases=[dict(trailing=t, perchip=p, names=k) for t in (False, True) for p in (False, True) for k in (False, True)])
def probability_shape(c, trailing, perchip, names):
    """range, monotonicity and inputs of the efficiency itself, with trailing losses and
    per-CCD depths present or not, and with default or caller-chosen column names"""
    cols, df = rows(c, 2, perchip=perchip)
    F = c.real("peak", 0, 1)
    w = c.real("width", 1e-3, 0.5)
    loss = [c.real("loss%d" % i, 0, 3) for i in range(2)]
    df["dmagDetect"] = frame(dict(x=loss))["x"]
    field = "limMag_perChip" if perchip else "fiveSigmaDepth_mag"
    lim = cols[field][0]
    df[field] = frame(dict(x=[lim] * 2))["x"]
    kw, mags = {}, cols["PSFMag"]
    if names:
        df["otherLoss"] = frame(dict(x=[l + 1 for l in loss]))["x"]
        loss = [l + 1 for l in loss]
        kw, mags = dict(trailing_loss_name="otherLoss", magnitude_name="trailedSourceMag"), cols["trailedSourceMag"]
    P = list(PPDetectionProbability(df, trailing_losses=trailing, fillFactor=F, w=w, **kw))
    m = [mags[i] + loss[i] if trailing else mags[i] for i in range(2)]
    for i in range(2):
        c.prove(c.And(P[i] >= 0, P[i] <= F), "in-range")
        c.prove(c.eq(P[i], F / (1 + c.exp((m[i] - lim) / w)), 1e-9), "formula")
    c.prove(c.Implies(m[0] <= m[1], P[0] >= P[1] - (0 if c.mode == "sym" else 1e-12)), "monotone")
    c.prove(c.Implies(m[0] == lim, c.eq(P[0], F / 2, 1e-9)), "half-at-limit")


@harness()
def des_probability(c):
    cols, df = rows(c, 2, des=True)
    T = c.real("T", 0, 1)
    P = list(DESDetectionProbability(df, T))
    for i in range(2):
        e = T * cols["c"][i] / (1 + c.exp(cols["k"][i] * (cols["PSFMag"][i] - cols["fiveSigmaDepth_mag"][i])))
        c.prove(c.eq(P[i], e, 1e-9), "formula")
        c.prove(c.And(P[i] >= 0, P[i] <= cols["c"][i] + 1e-12), "in-range")


@harness(cases=[dict(n=n) for n in (0, 1, 3)], thorough=[dict(n=n) for n in range(6)])
def draw(c, n):
    """the survival rule for an arbitrary probability column and arbitrary labels"""
    cols = dict(rowid=list(range(n)), p=[c.real("p%d" % i, 0, 1) for i in range(n)])
    df = frame(cols, index=[5 - i for i in range(n)])
    r = StubRngs(c)
    out = PPDropObservations(df, r, "p")
    u = r.draws()
    c.prove(len(u) == n, "own-draw-per-row")
    ids = rowids(out)
    if len(u) == n:
        for i in range(n):
            c.prove(c.Iff(i in ids, cols["p"][i] >= u[i]), "kept-iff")
    c.prove(ids == sorted(set(ids)), "order")
