"""C07: apparent magnitudes."""
import os

import numpy as np
import astropy.units as u

from lib.harness import harness, frame, patched, exits
from lib.env import arr, rowids, scratch
from lib.sym import is_sym
from lib.shim import SymQuantity
from sorcha.modules import PPCalculateApparentMagnitudeInFilter as INF
from sorcha.modules import PPCalculateSimpleCometaryMagnitude as COM
from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude
from sorcha.modules.PPGetMainFilterAndColourOffsets import PPGetMainFilterAndColourOffsets
import sbpy.photometry as sb

BOUNDS = "1-3 detections, every filter mix over 1-3 observing filters, every H, colour, distance vector, phase angle and phase parameter; five phase laws with one parameter set or one per filter; light-curve and activity models on or off"
OUTSIDE = "the phase laws themselves (sbpy); more rows (rules are per row); real activity and light-curve models (they live in sorcha-addons)"
ASSUMPTIONS = ["sbpy models are functions of H, phase angle and parameters that add to H (replays use sbpy itself)", "row labels are unique, as in the pipeline"]

PAR = {"HG1G2": ["G1", "G2"], "HG": ["GS"], "HG12": ["G12"], "linear": ["S"], "none": []}
SB = {"HG1G2": "HG1G2", "HG": "HG", "HG12": "HG12_Pen16", "linear": "LinearPhaseFunc"}
AU = 149597870.7


def val(x, unit, factor=None):
    if isinstance(x, SymQuantity) or hasattr(x, "to"):
        v = x.to(unit)
        return v.value
    return x if factor is None else x * factor


def generic(alpha, pars):
    """arbitrary stand-in for a phase law: any mixed-up argument changes it"""
    t = 3 * alpha + 0.5
    for i, p in enumerate(pars):
        t = t + (7 + 4 * i) * p + (i + 1) * alpha * p
    return t


def stub(name, fn):
    class Model:
        def __init__(self, H=8 * u.mag, **k):
            self.h = val(H, u.mag)
            keys = {"HG1G2": ["G1", "G2"], "HG": ["G"], "HG12": ["G12"], "linear": ["S"]}[fn]
            if set(k) != set(keys):
                raise TypeError("phase model arguments %s" % sorted(k))
            self.p = [val(k[q], u.mag / u.deg) if fn == "linear" else k[q] for q in keys]

        def __call__(self, alpha):
            a = val(alpha, u.deg, 180 / np.pi)
            out = [h + generic(x, [q[i] if np.ndim(q) else q for q in self.p]) for i, (h, x) in enumerate(zip(np.asarray(self.h, dtype=object), np.asarray(a, dtype=object)))]
            return SymQuantity(arr(out), u.mag) if any(is_sym(v) for v in out) else arr(out) * u.mag

    return Model


def phase(c, fn, h, alpha, pars):
    """magnitude h dimmed by the phase law (oracle)"""
    if fn == "none":
        return h
    if c.mode == "sym":
        return h + generic(alpha, pars)
    k = dict(zip({"HG1G2": ["G1", "G2"], "HG": ["G"], "HG12": ["G12"], "linear": ["S"]}[fn], pars))
    if fn == "linear":
        k["S"] = k["S"] * u.mag / u.deg
    return float(getattr(sb, SB[fn])(H=h * u.mag, **k)(alpha * u.deg).value)


def detections(c, n, filters, main, fn, per_filter, vectors=True):
    flt = [c.choose("flt%d" % i, filters if i < 2 else filters[:2]) for i in range(n)]
    cols = dict(rowid=list(range(n)), ObjID=["o%d" % (i % 2) for i in range(n)], optFilter=flt)
    cols["H_" + main] = [c.real("H%d" % i, -5, 30) for i in range(n)]
    for f in filters:
        if f != main:
            cols["%s-%s" % (f, main)] = [c.real("col_%s%d" % (f, i), -3, 3) for i in range(n)]
    cols["Range_LTC_km"] = [c.real("delta%d" % i, 1e5, 1e11) for i in range(n)]
    if vectors:
        for k in "xyz":
            cols["Obj_Sun_%s_LTC_km" % k] = [c.real("s%s%d" % (k, i), 1e5, 1e11) for i in range(n)]
    else:
        cols["Obj_Sun_LTC_km"] = [c.real("rho%d" % i, 1e5, 1e11) for i in range(n)]
    cols["phase_deg"] = [c.real("alpha%d" % i, 0, 120) for i in range(n)]
    for p in PAR[fn]:
        for f in filters if per_filter else [""]:
            cols[p + f] = [c.real("%s%s_%d" % (p, f, i), 0.05, 0.4) for i in range(n)]
    return cols, flt


def expected(c, i, cols, flt, filters, main, fn, per_filter):
    h = cols["H_" + main][i] + (0.0 if flt[i] == main else cols["%s-%s" % (flt[i], main)][i])
    pars = [cols[p + (flt[i] if per_filter else "")][i] for p in PAR[fn]]
    if "Obj_Sun_LTC_km" in cols:
        rho = cols["Obj_Sun_LTC_km"][i]
    else:
        x, y, z = (cols["Obj_Sun_%s_LTC_km" % k][i] for k in "xyz")
        rho = c.sqrt_(x * x + y * y + z * z)
    m = 5 * c.log10(cols["Range_LTC_km"][i] / AU) + 5 * c.log10(rho / AU) + phase(c, fn, h, cols["phase_deg"][i], pars)
    return h, m, rho


class LC:
    def __init__(self, c, cols):
        self.c, self.cols = c, cols

    def __call__(self):
        return self

    def compute(self, df):
        return arr([self.c.real("lc%d" % r, -2, 2) for r in rowids(df)])


class CA:
    def __init__(self, c, filters):
        self.c, self.filters, self.seen = c, filters, None

    def __call__(self):
        return self

    def compute(self, df, filters, rho, delta, alpha):
        c = self.c
        self.seen = (list(df["trailedSourceMagTrue"]), list(filters), list(rho), list(delta), list(alpha))
        df["trailedSourceMagTrue"] = arr([m - c.real("coma%d" % r, 0, 5) for r, m in zip(rowids(df), df["trailedSourceMagTrue"])])
        return df


def verify(c, n, filters, main, fn, per_filter, vectors=True, lc=False, ca=False, gap=False):
    cols, flt = detections(c, n, filters, main, fn, per_filter, vectors)
    df = frame(cols, index=[4 * i + 1 for i in range(n)][::-1] if gap else None)
    subs = []
    if c.mode == "sym":
        subs = [(INF, SB[f], stub(SB[f], f)) for f in SB]
    model = CA(c, filters)
    subs += [(INF, "LC_METHODS", dict(mylc=LC(c, cols))), (COM, "CA_METHODS", dict(myca=model))]
    with patched(*subs):
        out = PPCalculateApparentMagnitude(df, fn, main, ["%s-%s" % (f, main) for f in filters if f != main], list(filters),
                                           cometary_activity_choice="myca" if ca else None, lightcurve_choice="mylc" if lc else None)
    c.prove(rowids(out) == list(range(n)), "rows")
    if rowids(out) != list(range(n)):
        return
    tol = 1e-7
    for i in range(n):
        h, m, rho = expected(c, i, cols, flt, filters, main, fn, per_filter)
        if lc:
            m = m + c.real("lc%d" % i, -2, 2)
        if ca:
            c.prove(model.seen is not None, "activity-used")
            if model.seen is None:
                return
            mm, ff, rr, dd, aa = model.seen
            c.prove(c.And(c.eq(mm[i], m, tol), c.eq(rr[i], rho / AU, tol), c.eq(dd[i], cols["Range_LTC_km"][i] / AU, tol), c.eq(aa[i], cols["phase_deg"][i], tol)), "activity-input")
            c.prove(ff == list(filters), "activity-filters")
            m = m - c.real("coma%d" % i, 0, 5)
        c.prove(c.eq(out["trailedSourceMagTrue"].iloc[i], m, tol), "apparent-magnitude")
        c.prove(c.eq(out["H_filter"].iloc[i], h, tol), "H-in-own-filter")
        c.prove(c.eq(out["H_" + main].iloc[i], cols["H_" + main][i], 0.0), "catalogue-H-kept")
        c.prove(out["optFilter"].iloc[i] == flt[i] and out["ObjID"].iloc[i] == cols["ObjID"][i], "own-row")
        for k in ("Range_LTC_km", "phase_deg"):
            c.prove(c.eq(out[k].iloc[i], cols[k][i], 0.0), "other-values-kept")


CASES = [dict(n=1, filters="r", main="r", fn=f, per_filter=False) for f in PAR]
CASES += [dict(n=2, filters="rgi", main="r", fn=f, per_filter=p) for f in PAR for p in ((False, True) if PAR[f] else (False,))]
CASES += [dict(n=2, filters="gr", main="g", fn="HG", per_filter=True, gap=True), dict(n=2, filters="iz", main="i", fn="HG1G2", per_filter=False, gap=True, vectors=False),
          dict(n=3, filters="rgi", main="r", fn="HG12", per_filter=True), dict(n=2, filters="r", main="r", fn="linear", per_filter=False, vectors=False)]


@harness(cases=CASES, thorough=[dict(n=n, filters=f, main=f[0], fn=p, per_filter=q, gap=g) for n in (1, 2, 3) for f in ("r", "gr", "rgi") for p in PAR for q in ((False, True) if PAR[p] and len(f) > 1 else (False,)) for g in (False, True)])
def magnitude(c, n, filters, main, fn, per_filter, gap=False, vectors=True):
    verify(c, n, list(filters), main, fn, per_filter, vectors=vectors, gap=gap)


@harness(cases=[dict(lc=a, ca=b, fn=f) for a, b in ((True, False), (False, True), (True, True)) for f in ("HG", "none")])
def models(c, lc, ca, fn):
    verify(c, 2, ["g", "r"], "g", fn, False, lc=lc, ca=ca)


@harness(cases=[dict(fn=f, what=w) for f in ("HG", "HG1G2", "HG12", "linear") for w in ("missing", "partial")] + [dict(fn="HGX", what="law")])
def incomplete(c, fn, what):
    """missing phase parameters or an unknown law stop the run"""
    filters = ["g", "r"]
    cols, flt = detections(c, 2, filters, "g", fn if fn in PAR else "none", what == "partial")
    if what == "missing":
        del cols[PAR[fn][-1]]
    elif what == "partial":
        del cols[PAR[fn][-1] + c.choose("which", filters)]
    subs = [(INF, SB[f], stub(SB[f], f)) for f in SB] if c.mode == "sym" else []
    with patched(*subs):
        stop, out = exits(PPCalculateApparentMagnitude, frame(cols), fn, "g", ["r-g"], filters)
    c.prove(stop, "incomplete-accepted")
    if stop:
        c.prove(out.code not in (0, None), "exit-code")


@harness()
def header(c):
    """the main filter and colours come from the header of the physical parameters file"""
    sep = c.choose("sep", ["comma", "csv", "whitespace"])
    main = c.choose("main", ["r", "g", "none"])
    obs = c.choose("obs", [["r"], ["r", "g"], ["g", "r"], ["g"], ["r", "g", "i"]])
    have = c.choose("have", [["g-r"], ["r-g"], ["g-r", "i-r"], ["i-r", "g-r"], []])
    pos = c.choose("pos", [0, 1])
    cols = ["ObjID"] + (["H_" + main] if main != "none" else []) + have + ["GS"]
    if pos:
        cols = [cols[0]] + cols[:0:-1]
    j = " " if sep == "whitespace" else ","
    with scratch() as d:
        p = os.path.join(d, "phys")
        with open(p, "w") as f:
            f.write(j.join(cols) + "\n" + j.join(["0"] * len(cols)) + "\n")
        stop, out = exits(PPGetMainFilterAndColourOffsets, p, list(obs), sep)
    want = ["%s-%s" % (f, main) for f in obs if f != main]
    ok = main != "none" and main == obs[0] and set(want) <= set(have)
    c.prove(stop == (not ok), "header-accepted-iff-complete")
    if stop:
        c.prove(out.code not in (0, None), "exit-code")
    else:
        c.prove(out[0] == main and sorted(out[1] or []) == sorted(want), "main-filter-and-colours")
