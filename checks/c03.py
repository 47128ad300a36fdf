"""C03: SNR, magnitude and saturation cuts."""
from lib.harness import harness, frame
from lib.env import rowids
from sorcha.modules.PPSNRLimit import PPSNRLimit
from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
from sorcha.modules.PPBrightLimit import PPBrightLimit

BOUNDS = "up to 4 rows (5 thorough), every real value of magnitudes/SNRs/limits, 3 filters, contiguous and non-contiguous row labels"
OUTSIDE = "NaN entries; more rows (the code has no cross-row interaction in these functions)"
ASSUMPTIONS = ["finite doubles: comparisons are exact in the reals"]

FILTERS = ["g", "r", "i"]


def table(c, n, labels):
    cols = dict(
        rowid=list(range(n)),
        ObjID=["o%d" % (i % 2) for i in range(n)],
        optFilter=[c.choose("f%d" % i, FILTERS) for i in range(n)] if labels.get("filters") else ["r"] * n,
        PSFMag=[c.real("psf%d" % i, 5, 30) for i in range(n)],
        trailedSourceMag=[c.real("ts%d" % i, 5, 30) for i in range(n)],
        SNR=[c.real("snr%d" % i, 0, 1000) for i in range(n)],
        SNRPSFMag=[c.real("snrpsf%d" % i, 0, 1000) for i in range(n)],
    )
    idx = list(range(n)) if not labels.get("gap") else [3 * i + 2 for i in range(n)]
    return cols, frame(cols, index=idx)


def check_subset(c, cols, out, keep_cond, n, tag):
    ids = rowids(out)
    c.prove(ids == sorted(ids) and len(set(ids)) == len(ids), tag + ":order")
    for i in range(n):
        c.prove(c.Iff(i in ids, keep_cond(i)), tag + ":kept-iff")
    for pos, i in enumerate(ids):
        for k in cols:
            if k == "rowid":
                continue
            v = out[k].iloc[pos]
            c.prove(v == cols[k][i] if isinstance(cols[k][i], str) else c.eq(v, cols[k][i]), tag + ":values")
    c.prove(set(out.columns) == set(cols), tag + ":columns")


CASES = [dict(n=n, gap=g) for n in (0, 1, 3) for g in (False, True)]


@harness(cases=CASES, thorough=[dict(n=n, gap=g) for n in (0, 1, 2, 3, 4, 5) for g in (False, True)])
def snr(c, n, gap):
    cols, df = table(c, n, dict(gap=gap))
    lim = c.real("limit", 0, 100)
    out = PPSNRLimit(df, lim)
    check_subset(c, cols, out, lambda i: cols["SNRPSFMag"][i] > lim, n, "snr")


@harness(cases=CASES, thorough=[dict(n=n, gap=g) for n in (0, 1, 2, 3, 4, 5) for g in (False, True)])
def maglimit(c, n, gap):
    cols, df = table(c, n, dict(gap=gap))
    lim = c.real("limit", 5, 30)
    out = PPMagnitudeLimit(df, lim)
    check_subset(c, cols, out, lambda i: cols["trailedSourceMag"][i] < lim, n, "mag")



SAT = [dict(n=n, gap=g) for n in (0, 1, 2) for g in (False, True)]
PAT3 = [dict(n=3, gap=True, pat=p) for p in ("rgi", "iig", "ggg", "grg")]


@harness(cases=SAT + PAT3, thorough=SAT + PAT3 + [dict(n=4, gap=True, pat=p) for p in ("rgig", "iigg", "giri")])
def saturation_list(c, n, gap, pat=None):
    cols, df = table(c, n, dict(gap=gap, filters=not pat))
    if pat:
        cols["optFilter"] = list(pat)
        df["optFilter"] = list(pat)
    lims = [c.real("sat%d" % k, 5, 30) for k in range(3)]
    out = PPBrightLimit(df, list(FILTERS), list(lims))
    lim = dict(zip(FILTERS, lims))
    check_subset(c, cols, out, lambda i: c.Not(cols["PSFMag"][i] < lim[cols["optFilter"][i]]), n, "satlist")


@harness(cases=[dict(n=n, gap=g) for n in (0, 1, 3) for g in (False, True)])
def saturation_single(c, n, gap):
    cols, df = table(c, n, dict(gap=gap, filters=True) if n <= 2 else dict(gap=gap))
    lim = c.real("limit", 5, 30)
    out = PPBrightLimit(df, list(FILTERS), lim)
    check_subset(c, cols, out, lambda i: c.Not(cols["PSFMag"][i] < lim), n, "sat")
