"""C34: user-supplied light-curve and activity models are found by their own name, validated and applied, and never shadow each other."""
import gc
import logging
import os
import sys
from types import SimpleNamespace as NS

import pandas as pd

import sorcha.activity.activity_registration as AR
import sorcha.activity.base_activity as AB
import sorcha.lightcurves.base_lightcurve as LB
import sorcha.lightcurves.lightcurve_registration as LR
import sorcha.modules.PPCalculateApparentMagnitudeInFilter as INF
import sorcha.modules.PPCalculateSimpleCometaryMagnitude as COM
import sorcha.sorcha
import sorcha.utilities.sorchaConfigs as CF
import sorcha_cmdline.run as run
from lib.env import arr, scratch
from lib.harness import exits, frame, harness, patched

BOUNDS = "up to three user models next to up to two registered ones, every equality pattern of their names; every subset of three required columns against every subset of three table columns; magnitudes, distances and brightness changes of every value for tables of two rows"
OUTSIDE = "models that subclass another model instead of the abstract class (documented as not registered); errors inside a user's own code"
ASSUMPTIONS = ["Python reports the direct subclasses of a class in the order of their definition"]
KINDS = {
    "lc": NS(reg=LR, base="AbstractLightCurve", table="LC_METHODS", register="register_lc_subclasses", update="update_lc_subclasses", abstract=LB.AbstractLightCurve),
    "ca": NS(reg=AR, base="AbstractCometaryActivity", table="CA_METHODS", register="register_activity_subclasses", update="update_activity_subclasses", abstract=AB.AbstractCometaryActivity),
}
AU = 149597870.7


class Registry:
    """a registry that knows only the models defined here: a base class without other subclasses, and the tables emptied meanwhile"""

    def __init__(self, kind):
        self.k = KINDS[kind]
        self.table = getattr(self.k.reg, self.k.table)

    def __enter__(self):
        self.base = type("Base", (self.k.abstract,), {})
        self.classes = []
        self.saved = dict(self.table)
        self.table.clear()
        self.p = patched((self.k.reg, self.k.base, self.base))
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
        self.table.clear()
        self.table.update(self.saved)
        # the base class lives on as a subclass of the abstract one; a name of its own keeps it harmless, collection removes it
        self.base.name_id = staticmethod(lambda n="verif%d" % id(self.base): n)
        self.base = self.classes = None
        gc.collect()
        return False

    def model(self, name, compute=None, columns=()):
        def init(this):
            super(cls, this).__init__(list(columns))

        cls = type("Model", (self.base,), dict(__init__=init, name_id=staticmethod(lambda: name), compute=compute or (lambda this, df, *a: None)))
        self.classes.append(cls)
        return cls

    def register(self):
        return getattr(self.k.reg, self.k.register)()

    def update(self):
        return getattr(self.k.reg, self.k.update)()


@harness(cases=[dict(kind=k, n=n) for k in KINDS for n in (0, 1, 2, 3)])
def register(c, kind, n):
    """every model under its own name; two models of one name are refused"""
    with Registry(kind) as r:
        names = [c.choose("name%d" % i, ["a", "b", "A"]) for i in range(n)]
        classes = [r.model(x) for x in names]
        try:
            got, failed = r.register(), False
        except ValueError:
            got, failed = None, True
        c.prove(failed == (len(set(names)) < n), "duplicates-refused")
        if not failed:
            c.prove(sorted(got) == sorted(names) and all(got[x] is k for x, k in zip(names, classes)), "each-under-its-name")
            c.prove(len(r.table) == 0, "table-not-touched")


@harness(cases=[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3)])
def update(c, kind, n):
    """updating adds the new names and replaces or removes nothing"""
    with Registry(kind) as r:
        old = {}
        for x in ("a", "d"):
            if c.flag("had_" + x):
                old[x] = r.table[x] = object()
        names = [c.choose("name%d" % i, ["a", "b", "B"]) for i in range(n)]
        classes = [r.model(x) for x in names]
        r.update()
        c.prove(getattr(r.k.reg, r.k.table) is r.table, "same-table")
        c.prove(sorted(r.table) == sorted(set(old) | set(names)), "names")
        c.prove(all(r.table[x] is old[x] for x in old), "nothing-replaced")
        c.prove(all(x in old or any(r.table[x] is k for y, k in zip(names, classes) if x == y) for x in r.table), "own-class")
        before = dict(r.table)
        r.update()
        c.prove(dict(r.table) == before, "twice-the-same")


@harness(cases=[dict(kind=k) for k in KINDS])
def columns(c, kind):
    """a table that lacks a required column is refused, any other accepted, and the table is left alone"""
    pool = ["p", "q", "fieldMJD_TAI"]
    with Registry(kind) as r:
        need = [x for x in pool if c.flag("need_" + x)]
        have = [x for x in pool if c.flag("have_" + x)]
        cols = {"ObjID": ["o0", "o1"]}
        if c.flag("similar"):  # columns whose names contain the required ones
            cols.update({x: [0.0, 1.0] for x in ("p_r", "Q", "xq", "fieldMJD_TAI_old")})
        first = list(cols)
        cols.update({x: [c.real("%s%d" % (x, i), -1e5, 1e5) for i in range(2)] for x in have})
        df = frame(cols)
        m = r.model("x", columns=need)()
        try:
            m._validate_column_names(df)
            failed = False
        except ValueError:
            failed = True
        c.prove(failed == (not set(need) <= set(have)), "missing-column-refused")
        c.prove(list(df.columns) == first + have, "table-kept")
        for e in (ValueError("text"), KeyError("k"), RuntimeError()):
            said = []
            with patched((sys.modules[r.k.abstract.__module__].logger, "error", lambda s, *a: said.append(s))):
                m._log_exception(e)
            c.prove(said == [str(e)], "error-logged")


def detections(c, n):
    cols = dict(rowid=list(range(n)), ObjID=["o%d" % i for i in range(n)], optFilter=["r"] * n)
    cols["H_filter"] = [c.real("H%d" % i, -5, 30) for i in range(n)]
    cols["H_r"] = list(cols["H_filter"])
    cols["Range_LTC_km"] = [c.real("delta%d" % i, 1e5, 1e11) for i in range(n)]
    cols["Obj_Sun_LTC_km"] = [c.real("rho%d" % i, 1e5, 1e11) for i in range(n)]
    cols["phase_deg"] = [c.real("alpha%d" % i, 0, 120) for i in range(n)]
    cols["fieldMJD_TAI"] = [c.real("t%d" % i, 60000, 64000) for i in range(n)]
    return cols


@harness(cases=[dict(late=x, fn=f) for x in (False, True) for f in ("lc", "ca", "both", "none")])
def applied(c, late, fn):
    """the configured model, and only it, changes the magnitudes of the run, also when it is defined after sorcha was imported"""
    n = 2
    shift = {x: [c.real("%s%d" % (x, i), -3, 3) for i in range(n)] for x in ("a", "b")}
    fade = {x: [c.real("f%s%d" % (x, i), -3, 3) for i in range(n)] for x in ("a", "b")}
    with Registry("lc") as lc, Registry("ca") as ca:

        def lightcurve(name):
            lc.model(name, lambda this, df: arr(shift[name]))

        def activity(name):
            def compute(this, df, filters, rho, delta, alpha):
                df["trailedSourceMagTrue"] = arr([m + s for m, s in zip(df["trailedSourceMagTrue"], fade[name])])
                return df

            ca.model(name, compute)

        order = c.choose("order", ["ab", "ba"])
        for x in order:
            lightcurve(x)
            activity(x)
            if not late and x == order[0]:
                lc.update()
                ca.update()
        lc.update()
        ca.update()
        lcm = c.choose("lcm", ["a", "b"]) if fn in ("lc", "both") else None
        cam = c.choose("cam", ["a", "b"]) if fn in ("ca", "both") else None
        c.prove(CF.lightcurveConfigs(lc_model=lcm).lc_model == lcm and CF.activityConfigs(comet_activity=cam).comet_activity == cam, "configuration-accepts")
        cols = detections(c, n)
        df = frame(cols)
        out = INF.PPCalculateApparentMagnitudeInFilter(df, "none", ["r"], lightcurve_choice=lcm, cometary_activity_choice=cam)
        for i in range(n):
            m = cols["H_filter"][i] + 5 * c.log10(cols["Range_LTC_km"][i] / AU) + 5 * c.log10(cols["Obj_Sun_LTC_km"][i] / AU)
            if lcm:
                m = m + shift[lcm][i]
                c.prove(c.eq(out["Delta_m"].iloc[i], shift[lcm][i], 1e-9), "light-curve-column")
            if cam:
                m = m + fade[cam][i]
            c.prove(c.eq(out["trailedSourceMagTrue"].iloc[i], m, 1e-7), "magnitude")


@harness(cases=[dict(kind=k) for k in KINDS])
def configured(c, kind):
    """the configuration accepts exactly the registered names, and none"""
    with Registry(kind) as r:
        have = [x for x in ("a", "b") if c.flag("has_" + x)]
        for x in have:
            r.model(x)
        r.update()
        want = c.choose("want", ["a", "b", "A", "a ", "none", "identity", None])
        if kind == "lc":
            stop, cfg = exits(CF.lightcurveConfigs, lc_model=want)
        else:
            stop, cfg = exits(CF.activityConfigs, comet_activity=want)
        ok = want in have or want in ("none", None)
        c.prove(stop == (not ok), "accepted-iff-registered")
        if stop:
            c.prove(cfg.code not in (0, None), "failure-status")
        else:
            c.prove((cfg.lc_model if kind == "lc" else cfg.comet_activity) == (None if want == "none" else want), "as-configured")


class Stop(Exception):
    pass


@harness()
def at_start(c):
    """sorcha run registers the models before it reads the configuration that names them"""
    which = c.choose("which", ["lc", "ca"])
    seen = []

    def configs(config_file_location=None, survey_name=None):
        seen.append([dict(LR.LC_METHODS), dict(AR.CA_METHODS)])
        raise Stop

    with Registry("lc") as lc, Registry("ca") as ca, scratch() as d:
        k = (lc if which == "lc" else ca).model("mine")
        p = {}
        for f in ("c.ini", "p.csv", "ob.csv", "pd.db"):
            p[f] = os.path.join(d, f)
            open(p[f], "w").close()
        argv = ["sorcha run", "-c", p["c.ini"], "-p", p["p.csv"], "--orbits", p["ob.csv"], "--pointing-db", p["pd.db"], "-o", d, "-t", "stem"]
        with patched((sys, "argv", argv), ("sorcha.sorcha", "sorchaGetLogger", lambda *a, **kw: logging.getLogger("verif")), ("sorcha.sorcha", "sorchaConfigs", configs)):
            try:
                run.main()
            except Stop:
                pass
        c.prove(len(seen) == 1 and seen[0][which == "ca"].get("mine") is k, "registered-before-configuration")


@harness()
def identity(c):
    """the identity models change nothing"""
    n = c.choose("n", [0, 1, 2])
    cols = {"fieldMJD_TAI": [c.real("t%d" % i, 50000, 70000) for i in range(n)], "trailedSourceMagTrue": [c.real("m%d" % i, 0, 40) for i in range(n)]}
    df = frame(cols)
    z = LR.LC_METHODS["identity"]().compute(df)
    c.prove(len(z) == n, "one-per-row")
    for i in range(n):
        c.prove(c.eq(z[i], 0.0, 1e-12), "no-change")
    out = AR.CA_METHODS["identity"]().compute(df)
    c.prove(list(out.columns) == list(cols) and len(out) == n, "same-table")
    for i in range(n):
        for k in cols:
            c.prove(c.eq(out[k].iloc[i], cols[k][i], 0.0), "same-values")
