"""C13: joining detections with the pointing of their own visit; pointing database reader."""
import os
import sqlite3

import pandas as pd

from lib.harness import harness, frame, patched, exits
from lib.env import Tokens, scratch, rowids
from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase

BOUNDS = "join: 0-3 detections over 4 visit identifiers (one absent from the table) and 3 visits in any order, every value of every pointing column and time; reader: 1-3 visits, every filter assignment over 4 filters, every time, both surveys, fading parameters present, absent or null"
OUTSIDE = "sqlite itself (real databases are written and read); visit tables with repeated identifiers"
ASSUMPTIONS = ["times within 40000-80000 MJD; a time mismatch is one beyond the code's relative tolerance 1e-5 (0.6 day)"]

NUM = ["seeingFwhmGeom", "seeingFwhmEff", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg", "visitTime", "visitExposureTime"]
SKIP = ["fieldJD_TDB", "pixels_begin", "pixels_end"] + ["%s_%s" % (n, a) for n in ("visit_vector", "r_obs", "v_obs", "r_sun", "v_sun") for a in "xyz"]


def visits(c, ids, skip):
    n = len(ids)
    cols = dict(FieldID=ids, optFilter=[c.choose("flt%d" % i, ["g", "r", "i"][: i + 1]) for i in range(n)])
    cols["observationId_"] = list(ids)
    cols["observationStartMJD_TAI"] = [c.real("start%d" % i, 59000, 64000) for i in range(n)]
    cols["observationMidpointMJD_TAI"] = [s + 0.0002 for s in cols["observationStartMJD_TAI"]]
    for k in NUM:
        cols[k] = [c.real("%s_%d" % (k, i), -360, 360) for i in range(n)]
    if skip:
        for k in SKIP:
            cols[k] = [1.5] * n
        cols["pixels"] = [3] * n
    return cols


@harness(cases=[dict(n=n, ids=i, skip=s) for n, i, s in [(0, (5,), False), (1, (7, 5), False), (1, (5,), True), (2, (7, 5), True), (2, (5, 7, 9), False), (2, (9, 5, 7), True)]]
         + [dict(n=2, ids=(5, 7), skip=False, gap=True)], max_paths=20000)
def join(c, n, ids, skip, gap=False):
    ids = list(ids)
    vc = visits(c, ids, skip)
    if n == 3:
        for i in range(len(ids)):
            vc["optFilter"][i] = "gri"[i]
    options = sorted(set(ids)) + [99]
    det = dict(
        rowid=list(range(n)),
        ObjID=["o%d" % (i % 2) for i in range(n)],
        FieldID=[c.choose("fid%d" % i, options) for i in range(n)],
        fieldMJD_TAI=[c.real("mjd%d" % i, 59000, 64000) for i in range(n)],
        RA_deg=[c.real("ra%d" % i, 0, 360) for i in range(n)],
        Dec_deg=[c.real("dec%d" % i, -90, 90) for i in range(n)],
    )
    df, vf = frame(det, index=[4 * i + 3 for i in range(n)] if gap else None), frame(vc, index=[2 * i + 11 for i in range(len(ids))] if gap else None)
    vf["optFilter"] = vf["optFilter"].astype("category")
    stop, out = exits(PPMatchPointingToObservations, df, vf)
    kept = [i for i in range(n) if det["FieldID"][i] in ids]
    row = {i: ids.index(det["FieldID"][i]) for i in kept}
    diff = [det["fieldMJD_TAI"][i] - vc["observationStartMJD_TAI"][row[i]] for i in kept]
    if stop:
        c.prove(c.Or([c.Or(d > 0.55, d < -0.55) for d in diff]), "matching-times-stopped")
        c.prove(out.code not in (0, None), "exit-code")
        return
    for d in diff:
        c.prove(c.And(d < 0.68, d > -0.68), "time-mismatch-accepted")
    got = rowids(out) if len(out) else []
    c.prove(got == kept, "one-row-per-detection")
    if got != kept:
        return
    for p, i in enumerate(got):
        for k in det:
            v = out[k].iloc[p]
            c.prove(v == det[k][i] if isinstance(det[k][i], str) else c.eq(v, det[k][i]), "detection-values")
        c.prove(out["optFilter"].iloc[p] == vc["optFilter"][row[i]], "own-visit-filter")
        for k in NUM:
            c.prove(k in out.columns and c.eq(out[k].iloc[p], vc[k][row[i]]), "own-visit-values")
    if got:
        c.reached("joined")


def db(path, cols):
    con = sqlite3.connect(path)
    pd.DataFrame(cols).to_sql("observations", con, index=False)
    con.close()


@harness(cases=[dict(n=n, survey=s, obs=o) for n in (1, 2) for s in ("rubin_sim", "DES") for o in (("r",), ("r", "g"), ("i", "z", "r"))] + [dict(n=3, survey="RUBIN_SIM", obs=("g", "i")), dict(n=2, survey="des", obs=("g",))])
def reader(c, n, survey, obs):
    rub = survey.lower() == "rubin_sim"
    flt = [c.choose("flt%d" % i, ["r", "g", "i"] if n < 3 else ["g", "r"]) for i in range(n)]
    cols = dict(observationId=[30 - i for i in range(n)], filter=flt)
    t = "observationStartMJD_TAI" if rub else "observationMidpointMJD_TAI"
    cols[t] = [c.real("t%d" % i, 59000, 64000) for i in range(n)]
    for k in NUM:
        cols[k] = [c.real("%s_%d" % (k, i), 1, 360) for i in range(n)]
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        p = os.path.join(d, "p.db")
        db(p, tk.numeric(cols))
        stop, out = exits(PPReadPointingDatabase, p, list(obs), "SELECT * FROM observations order by observationId desc", survey)
    want = [i for i in range(n) if flt[i] in obs]
    if stop:
        c.prove(not want, "stopped-with-visits")
        c.prove(out.code not in (0, None), "exit-code")
        return
    c.prove(bool(want), "no-visits-accepted")
    c.prove([int(v) for v in out["FieldID"]] == [30 - i for i in want], "observing-filters-only")
    if len(out) != len(want):
        return
    s = 0.0 if c.mode == "sym" else 1e-9
    for q, i in enumerate(want):
        c.prove(out["optFilter"].iloc[q] == flt[i], "filter")
        for k in NUM + [t]:
            c.prove(c.eq(out[k].iloc[q], cols[k][i], s), "values")
        if rub:
            c.prove(c.eq(out["observationMidpointMJD_TAI"].iloc[q], cols[t][i] + cols["visitTime"][i] / 2 / 86400, 1e-9), "midpoint")
        else:
            c.prove(c.eq(out["observationStartMJD_TAI"].iloc[q], cols[t][i] - cols["visitExposureTime"][i] / 2 / 86400, 1e-9), "start")


@harness(cases=[dict(survey=s, on=o) for s in ("DES", "des", "rubin_sim", "other") for o in (False, True)])
def fading_columns(c, survey, on):
    """DES fading needs its per-exposure parameters; unknown surveys are refused"""
    n = 2
    cols = dict(observationId=[1, 2], filter=["g", "g"], observationStartMJD_TAI=[60000.0, 60001.0], observationMidpointMJD_TAI=[60000.1, 60001.1], visitTime=[30.0] * 2, visitExposureTime=[30.0] * 2)
    have = {}
    for k in ("c", "k"):
        have[k] = c.choose(k, ["ok", "absent", "null"])
        if have[k] != "absent":
            cols[k] = [c.real("%s%d" % (k, i), 0.1, 9) for i in range(n)]
    tk = Tokens(c)
    num = tk.numeric(cols)
    for k in ("c", "k"):
        if have[k] == "null":
            num[k][c.choose("row" + k, [0, 1])] = None
    with scratch() as d, patched(*tk.patches()):
        p = os.path.join(d, "p.db")
        db(p, num)
        stop, out = exits(PPReadPointingDatabase, p, ["g"], "SELECT * FROM observations", survey, on)
    bad = survey == "other" or (on and survey.lower() == "des" and any(v != "ok" for v in have.values()))
    c.prove(stop == bad, "stops-iff-unusable")
    if stop:
        c.prove(out.code not in (0, None), "exit-code")


@harness()
def bad_query(c):
    with scratch() as d:
        p = os.path.join(d, "p.db")
        db(p, dict(observationId=[1], filter=["g"], observationStartMJD_TAI=[c.real("t", 1, 2) * 0 + 1.0 if c.mode == "conc" else 1.0], visitTime=[1.0]))
        stop, out = exits(PPReadPointingDatabase, p, ["g"], "SELECT * FROM nosuchtable", "rubin_sim")
    c.prove(stop and out.code not in (0, None), "bad-query-stops")
