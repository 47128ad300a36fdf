"""C21: output files hold exactly the surviving detections with the configured columns."""
import math
import os
import sqlite3
from types import SimpleNamespace as NS

import pandas as pd

from lib.harness import harness, frame, patched, exits
from lib.env import OutTokens, scratch
from lib.sym import is_sym
from sorcha.modules.PPOutput import PPWriteOutput, PPIndexSQLDatabase

BOUNDS = "1-3 chunks of 0-2 detections written one after the other, every value of every column, basic/all/chosen columns, decimals unset and 0-9, three formats, every linking setting, identifiers of growing length and numeric look"
OUTSIDE = "the CSV, sqlite and HDF5 libraries (real files are written and read back); digits of decimal text beyond double precision"
ASSUMPTIONS = []

BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag", "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]
POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
OTHER = ["fieldMJD_TAI", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "H_filter", "rate_deg_day"]
SUN = ["Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"]
ODD = 0.00731946285017
NAMES = [["a", "0012"], ["longer_name", "7"], ["b", "1e5"]]


def table(c, k, n, linking):
    cols = dict(ObjID=NAMES[k][:n], optFilter=[["g", "r"][(i + k) % 2] for i in range(n)], FieldID=[10 * k + i for i in range(n)])
    for name in POS + MAG + OTHER + SUN:
        lo, hi = (-90, 360) if name in POS else (-5, 40) if name in MAG else (-1000, 70000)
        cols[name] = [c.real("%s_%d_%d" % (name, k, i), lo, hi) + ODD for i in range(n)]
    if linking:
        cols["object_linked"] = [bool((i + k) % 2) for i in range(n)]
        cols["date_linked_MJD"] = [c.real("date_%d_%d" % (k, i), 59000, 70000) + ODD for i in range(n)]
    f = frame(cols, index=[5 * i + 2 for i in range(n)])
    f["optFilter"] = pd.Categorical(f["optFilter"], categories=["g", "r"])
    return cols, f


def floor(x):
    return x.floor() if is_sym(x) else math.floor(x)


def rounded(c, got, want, d):
    s = c.frac(10) ** d
    t = 0.0 if c.mode == "sym" else 1e-10 + 1e-15 * abs(want)
    near = c.And(got - want <= c.frac(1, 2) / s + t, want - got <= c.frac(1, 2) / s + t)
    q = got * s
    w = floor(q + c.frac(1, 2))
    whole = c.eq(q, w) if c.mode == "sym" else abs(q - w) <= 1e-12 * abs(q) + 1e-6
    return c.And(near, whole)


def read(fmt, d, stem):
    if fmt == "csv":
        return pd.read_csv(os.path.join(d, stem + ".csv"), dtype={"ObjID": str}, float_precision="round_trip")
    if fmt == "sqlite3":
        con = sqlite3.connect(os.path.join(d, stem + ".db"))
        try:
            return pd.read_sql("SELECT * FROM sorcha_results", con)
        finally:
            con.close()
    return pd.read_hdf(os.path.join(d, stem + ".h5"), "sorcha_results")


CASES = []
for f in ("csv", "sqlite3", "hdf5"):
    CASES += [dict(fmt=f, cols="basic", pd_=None, md=None, chunks=(2, 1)), dict(fmt=f, cols="all", pd_=None, md=None, chunks=(1, 2)),
              dict(fmt=f, cols="basic", pd_=0, md=3, chunks=(1, 1)), dict(fmt=f, cols="all", pd_=5, md=0, chunks=(2,)), dict(fmt=f, cols="all", pd_=0, md=0, chunks=(1,)),
              dict(fmt=f, cols="list", pd_=7, md=None, chunks=(1, 2)), dict(fmt=f, cols="list", pd_=None, md=9, chunks=(2, 1)),
              dict(fmt=f, cols="list", pd_=2, md=4, chunks=(1, 1, 1)), dict(fmt=f, cols="basic", pd_=1, md=1, chunks=(1, 1, 1))]


@harness(cases=CASES)
def written(c, fmt, cols, pd_, md, chunks):
    linking = c.flag("linking_on")
    drop = c.flag("drop_unlinked")
    chosen = ["phase_deg", "RATrue_deg", "ObjID", "PSFMag", "optFilter", "RA_deg", "trailedSourceMag", "FieldID", "Obj_Sun_LTC_km"]
    sc = NS(output=NS(output_columns=chosen if cols == "list" else cols, output_format=fmt, position_decimals=pd_, magnitude_decimals=md),
            linkingfilter=NS(ssp_linking_on=linking, drop_unlinked=drop))
    tk = OutTokens(c)
    data, after = [], []
    with scratch() as d, patched(*tk.patches()):
        args = NS(outpath=d, outfilestem="res.v1")
        for k, n in enumerate(chunks):
            cc, f = table(c, k, n, linking)
            data.append(cc)
            PPWriteOutput(args, sc, f, verbose=c.flag("verbose") if not k else False)
            after.append(f)
        names = sorted(os.listdir(d))
        if fmt == "sqlite3":
            PPIndexSQLDatabase(os.path.join(d, "res.v1.db"))
        c.prove(names == ["res.v1" + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt]], "one-file")
        out = read(fmt, d, "res.v1")
        if fmt == "csv":
            lines = open(os.path.join(d, "res.v1.csv")).read().splitlines()
            c.prove(len(lines) == 1 + sum(chunks) and all("phase_deg" not in l for l in lines[1:]), "single-header")
    internal = list(data[0]) + ["Obj_Sun_LTC_km"]
    want = BASIC + (["object_linked"] if linking and not drop else []) if cols == "basic" else internal if cols == "all" else chosen
    c.prove(sorted(out.columns) == sorted(want), "columns")
    rows = [(k, i) for k, n in enumerate(chunks) for i in range(n)]
    c.prove(len(out) == len(rows), "row-count")
    if sorted(out.columns) != sorted(want) or len(out) != len(rows):
        return
    for p, (k, i) in enumerate(rows):
        for name in want:
            v = out[name].iloc[p]
            if name == "Obj_Sun_LTC_km":
                r2 = sum(data[k][s][i] * data[k][s][i] for s in SUN)
                c.prove(c.And(v >= 0, c.eq(v * v, r2, 0.0 if c.mode == "sym" else 1e-6 + 1e-13 * r2)), "sun-distance")
                continue
            w = data[k][name][i]
            if isinstance(w, (str, bool, int)):
                c.prove(type(w)(v) == w, "identity-values")
            elif name in POS and pd_ is not None:
                c.prove(rounded(c, v, w, pd_), "position-rounding")
            elif name in MAG and md is not None:
                c.prove(rounded(c, v, w, md), "magnitude-rounding")
            else:
                c.prove(c.eq(v, w), "values")
    for k, n in enumerate(chunks):
        for name in POS + MAG + OTHER:
            for i in range(n):
                c.prove(c.eq(after[k][name].iloc[i], data[k][name][i]), "internal-table-unchanged")
    c.reached("written")


@harness(cases=[dict(fmt=f) for f in ("csv", "sqlite3", "hdf5")])
def missing_column(c, fmt):
    which = c.choose("missing", ["nosuch", "object_linked", "none"])
    linking = c.flag("linking_on")
    names = ["ObjID", "RA_deg"] + ([which] if which != "none" else [])
    sc = NS(output=NS(output_columns=names, output_format=fmt, position_decimals=None, magnitude_decimals=c.choose("md", [None, 0, 3])),
            linkingfilter=NS(ssp_linking_on=linking, drop_unlinked=False))
    tk = OutTokens(c)
    with scratch() as d, patched(*tk.patches()):
        cc, f = table(c, 0, 2, linking)
        stop, e = exits(PPWriteOutput, NS(outpath=d, outfilestem="r"), sc, f)
        files = os.listdir(d)
    bad = which == "nosuch" or (which == "object_linked" and not linking)
    c.prove(stop == bad, "stops-iff-column-missing")
    if stop:
        c.prove(e.code not in (0, None) and files == [], "nothing-written")


@harness(cases=[dict(chosen=x) for x in (("ObjID", "RA_deg"), ("RA_deg", "optFilter"), ("fieldMJD_TAI", "phase_deg"), ("phase_deg", "RA_deg"), ("ObjID", "fieldMJD_TAI", "optFilter"))])
def indexing(c, chosen):
    """indexing the database changes no row, whatever columns were chosen"""
    sc = NS(output=NS(output_columns=list(chosen), output_format="sqlite3", position_decimals=None, magnitude_decimals=None),
            linkingfilter=NS(ssp_linking_on=False, drop_unlinked=True))
    tk = OutTokens(c)
    with scratch() as d, patched(*tk.patches()):
        cc, f = table(c, 0, 2, False)
        PPWriteOutput(NS(outpath=d, outfilestem="r"), sc, f)
        try:
            PPIndexSQLDatabase(os.path.join(d, "r.db"))
            ok = True
        except sqlite3.Error:
            ok = False
        c.prove(ok, "indexing-failed")
        out = read("sqlite3", d, "r")
    c.prove(len(out) == 2, "row-count")
    for name in chosen:
        for i in range(2):
            v, w = out[name].iloc[i], cc[name][i]
            c.prove(v == w if isinstance(w, str) else c.eq(v, w), "values")
