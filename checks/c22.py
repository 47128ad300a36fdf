"""C22: summary statistics are those of each object in each filter."""
import os
from types import SimpleNamespace as NS

import pandas as pd

from lib.harness import harness, frame, patched
from lib.env import OutTokens, scratch
from sorcha.modules.PPStats import stats

BOUNDS = "1-4 detections in 1-2 chunks over <=3 objects and 2 filters (text or categorical with unused categories), every assignment, magnitude, phase angle, linking flag and date, four linking settings, written and returned"
OUTSIDE = "the CSV library (real files are written and read back); pandas aggregates are replaced by their definitions while values are symbolic (the replay uses pandas itself)"
ASSUMPTIONS = ["linking flag and date are the same for all detections of an object (C01)"]
ODD = 0.00731946285017


def table(c, k, n, objs, cat, linking, drop, info):
    ids = [c.choose("obj_%d_%d" % (k, i), objs) if i else objs[0] for i in range(n)]
    flt = [c.choose("flt_%d_%d" % (k, i), ["r", "g"]) for i in range(n)]
    cols = dict(ObjID=ids, optFilter=flt)
    cols["trailedSourceMag"] = [c.real("mag_%d_%d" % (k, i), 10, 30) + ODD for i in range(n)]
    cols["phase_deg"] = [c.real("ph_%d_%d" % (k, i), 0, 180) + ODD for i in range(n)]
    cols["trailedSourceMagTrue"] = [c.real("true_%d_%d" % (k, i), 10, 30) for i in range(n)]
    cols["PSFMag"] = [c.real("psf_%d_%d" % (k, i), 10, 30) for i in range(n)]
    if linking:
        for o in objs:
            if o not in info:
                lk = True if drop else c.flag("linked_" + o)
                info[o] = (lk, c.real("date_" + o, 59000, 70000) + ODD if lk else float("nan"))
        cols["object_linked"] = [info[o][0] for o in ids]
        cols["date_linked_MJD"] = [info[o][1] for o in ids]
    f = frame(cols, index=[3 * i + 1 for i in range(n)])
    if cat:
        f["optFilter"] = pd.Categorical(f["optFilter"], categories=["u", "g", "r"])
    return cols, f


def is_median(c, m, vals):
    n, tol = len(vals), 0.0 if c.mode == "sym" else 1e-9
    if n == 1:
        return c.eq(m, vals[0], tol)
    pairs = []
    for i in range(n):
        for j in range(n):
            if (n % 2 == 0) == (i == j):
                continue
            rest_lo = n // 2 - 1 if n % 2 == 0 else n // 2
            lo, hi = vals[i], vals[j]
            rest = [v for q, v in enumerate(vals) if q not in (i, j)]
            # as many of the remaining values below the middle as above it
            splits = []
            for mask in range(1 << len(rest)):
                if bin(mask).count("1") == rest_lo:
                    splits.append(c.And([v <= lo if mask >> q & 1 else v >= hi for q, v in enumerate(rest)] + [lo <= hi]))
            pairs.append(c.And(c.eq(m, (lo + hi) / 2, tol), c.Or(splits)))
    return c.Or(pairs)


CASES = []
for lm in ("off", "drop", "keep"):
    CASES += [dict(chunks=(1,), cat=True, lm=lm), dict(chunks=(3,), cat=True, lm=lm), dict(chunks=(2, 1), cat=True, lm=lm), dict(chunks=(2, 2) if lm != "keep" else (1, 2), cat=False, lm=lm)]
CASES += [dict(chunks=(4,), cat=True, lm="off")]


@harness(cases=CASES, max_paths=20000)
def summary(c, chunks, cat, lm):
    linking, drop = lm != "off", lm != "keep"
    sc = NS(linkingfilter=NS(ssp_linking_on=linking, drop_unlinked=c.flag("drop_flag") if lm == "off" else drop))
    tk = OutTokens(c)
    groups, info = [], {}
    with scratch() as d, patched(*tk.patches()):
        mem = []
        for k, n in enumerate(chunks):
            cols, f = table(c, k, n, ["b%d" % k, "a%d" % k] if not k or not cat else ["007", "x"], cat, linking, drop, info)
            keys = sorted({(cols["ObjID"][i], cols["optFilter"][i]) for i in range(n)})
            groups += [(q, [i for i in range(n) if (cols["ObjID"][i], cols["optFilter"][i]) == q], cols) for q in keys]
            mem.append(stats(f.copy(), "st.v1", d, sc, return_only=True))
            c.prove(os.listdir(d) == ([] if not k else ["st.v1.csv"]), "return-only-writes-nothing")
            r = stats(f, "st.v1", d, sc)
            c.prove(r is None, "written-returns-nothing")
        out = pd.read_csv(os.path.join(d, "st.v1.csv"), dtype={"ObjID": str}, float_precision="round_trip")
        lines = open(os.path.join(d, "st.v1.csv")).read().splitlines()
    c.prove(sum("number_obs" in l for l in lines) == 1, "single-header")
    for t, label in ((out, "file"), (pd.concat(mem).reset_index(), "returned")):
        cols = ["ObjID", "optFilter", "number_obs", "min_apparent_mag", "max_apparent_mag", "median_apparent_mag", "min_phase", "max_phase"]
        cols += (["object_linked"] if linking and not drop else []) + (["date_linked_MJD"] if linking else [])
        c.prove(sorted(t.columns) == sorted(cols), label + "-columns")
        c.prove(sorted(zip(t["ObjID"], t["optFilter"])) == sorted(g[0] for g in groups), label + "-one-row-per-combination")
        if sorted(t.columns) != sorted(cols) or sorted(zip(t["ObjID"], t["optFilter"])) != sorted(g[0] for g in groups):
            return
        for p in range(len(t)):
            r = {k: t[k].iloc[p] for k in cols}
            (q, idx, src), = [g for g in groups if g[0] == (r["ObjID"], r["optFilter"])]
            c.prove(int(r["number_obs"]) == len(idx), label + "-number")
            for col, lo, hi in (("trailedSourceMag", "min_apparent_mag", "max_apparent_mag"), ("phase_deg", "min_phase", "max_phase")):
                v = [src[col][i] for i in idx]
                c.prove(c.And([r[lo] <= x for x in v] + [c.Or([c.eq(r[lo], x) for x in v])]), label + "-minimum")
                c.prove(c.And([r[hi] >= x for x in v] + [c.Or([c.eq(r[hi], x) for x in v])]), label + "-maximum")
            c.prove(is_median(c, r["median_apparent_mag"], [src["trailedSourceMag"][i] for i in idx]), label + "-median")
            if linking and not drop:
                c.prove(bool(r["object_linked"]) == info[q[0]][0], label + "-linked-flag")
            if linking:
                c.prove(c.eq(r["date_linked_MJD"], info[q[0]][1]), label + "-date")
    c.reached("summary")
