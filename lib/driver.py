"""Harness of the two survey drivers (C23, C24): real driver, real readers on real files, real row filters; the heavy
calculations are replaced by stand-ins that check their arguments and deliver arbitrary values."""
import dataclasses
import importlib
import inspect
import os
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd
import sorcha.des
import sorcha.sorcha
import sorcha.utilities.sorchaConfigs

from .env import arr, scratch, StubRngs
from .harness import frame, patched, exits
from .sym import is_sym

EPH = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
       "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]
FILTERS = ["r", "g"]
AU = 149597870.7


def section(name, **kw):
    m = importlib.import_module("sorcha.utilities.sorchaConfigs")
    d = {}
    for f in dataclasses.fields(getattr(m, name + "Configs")):
        d[f.name] = None if f.default is dataclasses.MISSING else f.default
    d.update(kw)
    return NS(**d)


def same(c, a, b):
    if isinstance(a, (str, bool, type(None), list)) or isinstance(b, (str, bool, type(None), list)):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return c.And([same(c, x, y) for x, y in zip(a, b)] + [True])
        return type(a) is type(b) and a == b
    return c.eq(a, b, 0.0 if c.mode == "sym" else 1e-12)


class Driver:
    def __init__(self, c, survey, objs, rows, size, ephem="external", brute=True, on=(), camera="none", bright="list", linking="off", fmt="csv", stats=None, lc=None, act=None, ret=False, verbose=False, prefix_rows=()):
        """objs: identifiers in catalogue order; rows: {objid: [visit ids]} (>= 90: visit not in the pointing table)"""
        self.c, self.survey, self.objs, self.rows, self.size, self.ephem, self.brute = c, survey, objs, rows, size, ephem, brute
        self.on, self.camera, self.bright, self.linking, self.fmt, self.stats, self.ret = set(on), camera, bright, linking, fmt, stats, ret
        self.lc, self.act = lc, act
        self.lsst = survey == "lsst"
        self.mod = importlib.import_module("sorcha.sorcha" if self.lsst else "sorcha.des")
        self.owner = {f: o for o, l in rows.items() for f in l}
        self.log, self.writes, self.statlog, self.link_rows, self.culled = [], [], [], [], {}
        self.v = {}
        self.rngs = NS(getModuleRNG=None)
        self.verbose = verbose
        self.config()

    # one arbitrary value per (name, row)
    def val(self, name, f, lo, hi):
        k = "%s_%d" % (name, f)
        if k not in self.v:
            self.v[k] = self.c.real(k, lo, hi)
        return self.v[k]

    def flag(self, name, f):
        k = "%s_%s" % (name, f)
        if k not in self.v:
            self.v[k] = self.c.flag(k)
        return self.v[k]

    def off(self, lim, values):
        """the limit is none of the values (exact ties are decided by rounding)"""
        for v in values:
            self.c.assume(self.c.Or(lim > v * (1 + 1e-9), lim < v * (1 - 1e-9)))
        return lim

    def config(self):
        c, on = self.c, self.on
        num = lambda n, lo, hi: c.real("cfg_" + n, lo, hi)
        des = not self.lsst
        link = {}
        if self.lsst:
            lk = self.linking != "off"
            link = dict(ssp_linking_on=lk, drop_unlinked=self.linking != "keep")
            if lk:
                link.update(ssp_detection_efficiency=num("eff", 0, 1), ssp_number_observations=num("nobs", 1, 9), ssp_separation_threshold=num("sep", 0.1, 9), ssp_maximum_time=num("maxt", 0.1, 9),
                            ssp_number_tracklets=num("ntr", 1, 9), ssp_track_window=num("win", 1, 90), ssp_night_start_utc=num("utc", 0, 24))
        else:
            link = dict(ssp_linking_on=False, drop_unlinked=True, des_discovery_on="discovery" in on, distance_cut_on="distance" in on or None, motion_cut_on="motion" in on or None)
            if "distance" in on:
                v = [self.dist(f) for f in self.owner]
                link.update(distance_cut_lower=self.off(num("dlo", 1, 60), v), distance_cut_upper=self.off(num("dhi", 30, 90), v))
            if "motion" in on:
                v = [self.motion(f) for f in self.owner]
                link.update(motion_cut_lower=self.off(num("mlo", 0.01, 0.5), v), motion_cut_upper=self.off(num("mhi", 0.1, 3), v))
        fad = dict(fading_function_on="fading" in on)
        if "fading" in on:
            if des:
                fad.update(des_transient_efficency=num("trans", 0, 1))
            else:
                fad.update(fading_function_peak_efficiency=num("peak", 0, 1), fading_function_width=num("width", 0.01, 0.5))
        bl = None
        if "bright" in on:
            bl = [num("bright%d" % i, 10, 18) for i in range(len(FILTERS))] if self.bright == "list" else num("bright", 10, 18)
        self.sc = NS(
            input=section("input", ephemerides_type=self.ephem, eph_format="csv", size_serial_chunk=self.size, aux_format="csv", pointing_sql_query="SELECT this"),
            simulation=section("simulation", ar_ang_fov=2.0, ar_fov_buffer=0.2, ar_picket=1, ar_obs_code="X05", ar_healpix_order=6),
            filters=section("filters", observing_filters=list(FILTERS), survey_name=self.survey),
            saturation=section("saturation", bright_limit_on="bright" in on, bright_limit=bl),
            phasecurves=section("phasecurves", phase_function="HG12"),
            fov=section("fov", camera_model=self.camera, footprint_path="foot.csv" if self.camera == "footprint" else None, circle_radius=1.5 if self.camera == "circle" else None, visits_query="V", survey_name=self.survey),
            fadingfunction=section("fadingfunction", survey_name=self.survey, **fad),
            linkingfilter=section("linkingfilter", survey_name=self.survey, **link),
            output=section("output", output_format=self.fmt, output_columns="all"),
            lightcurve=section("lightcurve", lc_model=self.lc),
            activity=section("activity", comet_activity=self.act),
            expert=section("expert", snr_limit_on="snr" in on, snr_limit=num("snr", 1, 10) if "snr" in on else None, mag_limit_on="mag" in on, mag_limit=num("mag", 18, 25) if "mag" in on else None,
                           trailing_losses_on="trailing" in on, default_snr_cut=True, randomization_on="random" in on, vignetting_on="vignetting" in on, brute_force=self.brute, survey_name=self.survey),
            auxiliary=NS(),
            survey_name=self.survey,
        )

    # ------------------------------------------------------------------ files
    def files(self, d):
        n = len(self.objs)
        pd.DataFrame(dict(ObjID=self.objs, FORMAT=["COM"] * n, q=[2.5] * n, e=[0.1] * n, inc=[3.0] * n, node=[5.0] * n, argPeri=[7.0] * n, t_p_MJD_TDB=[59000.0] * n, epochMJD_TDB=[60000.0] * n)).to_csv(os.path.join(d, "orb.csv"), index=False)
        back = list(reversed(self.objs))
        pd.DataFrame({"ObjID": back, "H_r": [15.0 + i for i in range(n)], "GS": [0.15] * n, "g-r": [0.5] * n}).to_csv(os.path.join(d, "par.csv"), index=False)
        pd.DataFrame({"ObjID": self.objs, "amplitude": [0.25 * i for i in range(n)]}).to_csv(os.path.join(d, "cpx.csv"), index=False)
        self.ephemeris(self.objs).to_csv(os.path.join(d, "eph.csv"), index=False)

    def ephemeris(self, ids):
        ids = [str(i) for i in ids]
        l = [f for f in self.owner if self.owner[f] in ids]
        l.sort(key=lambda f: f % 10)
        d = dict(ObjID=[self.owner[f] for f in l], FieldID=np.array(l, dtype=int), fieldMJD_TAI=np.array([60000.0 + f for f in l]))
        for k in EPH[3:]:
            d[k] = np.array([self.cell(k, f) for f in l], dtype=float)
        return pd.DataFrame(d)[EPH]

    def cell(self, k, f):
        if k in ("RARateCosDec_deg_day", "DecRate_deg_day"):
            return (0.002 if k[0] == "R" else -0.001) * (100.0 + f)
        if k in ("Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"):
            return (0.1 + "xyz".index(k[8]) * 0.05) * (100.0 + 20 * f) * AU
        return 100.0 + f

    def dist(self, f):
        return float(np.sqrt(sum(self.cell("Obj_Sun_%s_LTC_km" % a, f) ** 2 for a in "xyz"))) / AU

    def motion(self, f):
        return float(np.hypot(self.cell("RARateCosDec_deg_day", f), self.cell("DecRate_deg_day", f)))

    def pointings(self):
        l = [f for f in sorted(self.owner, reverse=True) if f < 90]
        d = dict(FieldID=l, observationId_=list(l), observationStartMJD_TAI=[60000.0 + f for f in l], observationMidpointMJD_TAI=[60000.0 + f for f in l], optFilter=[FILTERS[f % 2] for f in l])
        for k in ("seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg", "visitTime", "visitExposureTime"):
            d[k] = [1.0] * len(l)
        d["fieldFiveSigmaDepth_mag"] = [self.val("depth", f, 20, 25) for f in l]
        p = frame(d)
        p["optFilter"] = p["optFilter"].astype("category")
        return p

    # ------------------------------------------------------------------ stand-ins
    def args_ok(self, name, got, **want):
        for k, w in want.items():
            self.c.prove(same(self.c, got[k], w) if not isinstance(w, NS) and not hasattr(w, "is_stub") else got[k] is w, "%s-argument-%s" % (name, k))

    def fids(self, df):
        return [int(f) for f in df["FieldID"].tolist()]

    def true_depth(self, f):
        return self.val("vig", f, 20, 25) if "vignetting" in self.on else self.val("depth", f, 20, 25)

    def psf_true(self, f):
        m = self.val("mag", f, 12, 27)
        return self.val("dmag", f, 0, 3) + m if "trailing" in self.on else m

    def psf(self, f):
        return self.val("rpsf", f, 12, 27) if "random" in self.on else self.psf_true(f)

    def trailed(self, f):
        return self.val("rmag", f, 12, 27) if "random" in self.on else self.val("mag", f, 12, 27)

    def snr(self, f):
        return self.val("snr", f, 0.1, 50)

    def state(self, name, df, *cols):
        c = self.c
        for i, f in enumerate(self.fids(df)):
            for k in cols:
                w = dict(fiveSigmaDepth_mag=self.true_depth, PSFMagTrue=self.psf_true, PSFMag=self.psf, trailedSourceMag=self.trailed, trailedSourceMagTrue=lambda f: self.val("mag", f, 12, 27))[k](f)
                c.prove(k in df.columns and c.eq(df[k].iloc[i], w), "%s-sees-%s" % (name, k))

    def stub(self, name, fn, mod=None):
        """replace every place the driver can get the function from, keeping its signature"""
        real = getattr(importlib.import_module(mod), name) if mod else getattr(self.mod, name)
        sig = inspect.signature(real)

        def wrapper(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.log.append(name)
            return fn(b.arguments)

        wrapper.is_stub = True
        out = [(self.mod.__name__, name, wrapper)] if hasattr(self.mod, name) else []
        if mod:
            out.append((mod, name, wrapper))
        return out

    def keep(self, df, flagname):
        m = [self.flag(flagname, f) for f in self.fids(df)]
        return df[np.array(m, dtype=bool)].reset_index(drop=True)

    def patches(self):
        c, sc, ar = self.c, self.sc, self.args

        def pointing(a):
            self.args_ok("pointing", a, bsdbname="point.db", observing_filters=FILTERS, dbquery="SELECT this", surveyname=self.survey, **({} if self.lsst else dict(fading_function_on=sc.fadingfunction.fading_function_on)))
            return self.pointings()

        def precompute(a):
            self.args_ok("precompute", a, args=ar, sconfigs=sc)
            p = a["pointings_df"].copy()
            p["visit_vector_x"] = 0.5
            return p

        def cull(a):
            a = list(a.values())
            df = a[0]
            c.prove(same(c, a[2], "r") and same(c, a[3], FILTERS) and a[4] == self.lc and a[5] == self.act, "culling-arguments")
            m = [not self.flag("faint", o) for o in df["ObjID"].tolist()]
            return df[np.array(m, dtype=bool)]

        def ephem(a):
            self.args_ok("ephemeris", a, args=ar, sconfigs=sc)
            c.prove("visit_vector_x" in a["pointings_df"].columns, "ephemeris-precomputed-pointings")
            aux = a["orbits_df"]
            self.log.append(("objects", [str(o) for o in aux["ObjID"].tolist()]))
            e = self.ephemeris(aux["ObjID"].tolist())
            return e.join(aux.set_index("ObjID"), on="ObjID")

        def apparent(a):
            df = a["observations"]
            p = list(a.values())
            c.prove(p[1] == "HG12" and p[2] == "r" and p[3] == ["g-r"] and p[4] == FILTERS and p[5] == self.act and p[6] == self.lc, "apparent-magnitude-arguments")
            c.prove("H_r" in df.columns and "GS" in df.columns, "apparent-magnitude-parameters")
            for i, (f, o) in enumerate(zip(self.fids(df), df["ObjID"].tolist())):
                c.prove(df["H_r"].iloc[i] == 15.0 + list(reversed(self.objs)).index(o), "own-parameters")
            df = df.copy()
            df["trailedSourceMagTrue"] = arr([self.val("mag", f, 12, 27) for f in self.fids(df)])
            return df

        def trailing(a):
            p = list(a.values())
            c.prove(p[1] == "circularPSF", "trailing-model")
            return arr([self.val("dmag", f, 0, 3) for f in self.fids(p[0])])

        def vignetting(a):
            return arr([self.val("vig", f, 20, 25) for f in self.fids(list(a.values())[0])])

        def uncertainties(a):
            df = a["detDF"]
            c.prove(a["sconfigs"] is sc and a["module_rngs"] is ar._rngs, "uncertainty-arguments")
            self.state("uncertainty", df, "PSFMagTrue", "trailedSourceMagTrue", "fiveSigmaDepth_mag")
            df = df.copy()
            for k in ("astrometricSigma_deg", "trailedSourceMagSigma", "PSFMagSigma", "SNRTrailedSourceMag"):
                df[k] = 0.01
            df["SNRPSFMag"] = arr([self.snr(f) for f in self.fids(df)])
            return df

        def randomize(a):
            df = a["observations"]
            c.prove(a["sconfigs"] is sc and a["module_rngs"] is ar._rngs, "randomization-arguments")
            c.prove("SNRPSFMag" in df.columns or not self.lsst, "randomization-after-uncertainties")
            self.state("randomization", df, "PSFMagTrue", "trailedSourceMagTrue")
            df = df.copy()
            df["RATrue_deg"], df["DecTrue_deg"] = df["RA_deg"], df["Dec_deg"]
            df["RA_deg"] = df["RA_deg"] + 0.25
            df["trailedSourceMag"] = arr([self.trailed(f) for f in self.fids(df)])
            df["PSFMag"] = arr([self.psf(f) for f in self.fids(df)])
            return df

        def fov(a):
            c.prove(a["sconfigs"] is sc and a["module_rngs"] is ar._rngs and a["visits"] == ar.visits, "fov-arguments")
            if self.camera == "footprint":
                c.prove(a["footprint"] is self.foot, "fov-footprint")
            c.prove(len(a["observations"]) > 0, "fov-nonempty")
            self.state("fov", a["observations"], "PSFMag", "fiveSigmaDepth_mag")
            return self.keep(a["observations"], "infov")

        def fading(a):
            self.state("fading", a["observations"], "PSFMag", "trailedSourceMag", "fiveSigmaDepth_mag")
            c.prove(a["module_rngs"] is ar._rngs, "fading-random-streams")
            if self.lsst:
                self.args_ok("fading", a, fillfactor=sc.fadingfunction.fading_function_peak_efficiency, width=sc.fadingfunction.fading_function_width)
            else:
                self.args_ok("fading", a, transient_efficiency=sc.fadingfunction.des_transient_efficency)
            return self.keep(a["observations"], "bright")

        def linking(a):
            l = sc.linkingfilter
            p = list(a.values())
            for i, w in enumerate([l.ssp_detection_efficiency, l.ssp_number_observations, l.ssp_number_tracklets, l.ssp_track_window, l.ssp_separation_threshold, l.ssp_maximum_time, l.ssp_night_start_utc]):
                c.prove(same(c, p[1 + i], w), "linking-argument-%d" % i)
            c.prove(a["drop_unlinked"] == l.drop_unlinked, "linking-drop")
            df = a["observations"].copy()
            self.link_rows += self.fids(df)
            m = np.array([self.flag("linked", o) for o in df["ObjID"].tolist()], dtype=bool)
            df["object_linked"] = m
            df["date_linked_MJD"] = [60100.0 if v else float("nan") for v in m]
            return df[m].copy() if l.drop_unlinked else df

        def discovery(a):
            df = list(a.values())[0]
            self.link_rows += self.fids(df)
            m = np.array([self.flag("linked", o) for o in df["ObjID"].tolist()], dtype=bool)
            return df[m].sort_values("fieldMJD_TAI").reset_index(drop=True)

        def write(a):
            c.prove(a["cmd_args"] is ar and a["sconfigs"] is sc, "write-arguments")
            self.writes.append(a["observations_in"].copy())
            if self.fmt == "sqlite3":
                open(os.path.join(ar.outpath, ar.outfilestem + ".db"), "w").close()

        def stats(a):
            c.prove(a["statsfilename"] == self.stats and a["outpath"] == ar.outpath and a["sconfigs"] is sc and bool(a["return_only"]) == self.ret, "statistics-arguments")
            self.statlog.append(self.fids(a["observations"]))
            if a["return_only"]:
                return pd.DataFrame(dict(k=self.fids(a["observations"])))

        def foot(a):
            p = list(a.values())
            c.prove(p[-2:] == ["foot.csv", self.survey], "footprint-arguments")
            self.foot = NS()
            return self.foot

        def index(a):
            c.prove(a["outf"] == os.path.join(ar.outpath, ar.outfilestem + ".db"), "index-file")

        P = []
        P += self.stub("PPReadPointingDatabase", pointing)
        P += self.stub("precompute_pointing_information", precompute)
        P += self.stub("PPFaintObjectCullingFilter", cull)
        P += self.stub("create_ephemeris", ephem)
        P += self.stub("PPCalculateApparentMagnitude", apparent)
        P += self.stub("PPTrailingLoss", trailing)
        P += self.stub("vignettingEffects", vignetting, "sorcha.modules.PPVignetting")
        P += self.stub("addUncertainties", uncertainties, "sorcha.modules.PPAddUncertainties")
        P += self.stub("randomizeAstrometryAndPhotometry", randomize, "sorcha.modules.PPRandomizeMeasurements")
        P += self.stub("PPApplyFOVFilter", fov)
        P += self.stub("PPWriteOutput", write)
        P += self.stub("stats", stats)
        P += self.stub("PPIndexSQLDatabase", index)
        P += self.stub("PrintConfigsToLog", lambda a: None)
        P.append((self.mod.__name__, "Footprint", lambda *a, **k: foot({**{str(i): v for i, v in enumerate(a)}, **k})))
        if self.lsst:
            P += self.stub("PPFadingFunctionFilter", fading) + self.stub("PPLinkingFilter", linking)
        else:
            P += self.stub("DESFadingFunctionFilter", fading) + self.stub("DESDiscoveryFilter", discovery)
        return P

    # ------------------------------------------------------------------ run and compare
    def run(self, invalid=False):
        c = self.c

        def validate():
            self.log.append("validate")
            if invalid:
                raise ValueError("bad arguments")

        with scratch() as d:
            self.files(d)
            p = lambda n: os.path.join(d, n)
            self.args = NS(validate_arguments=validate, loglevel=self.verbose, paramsinput=p("par.csv"), pointing_database="point.db", surveyname=self.survey, orbinfile=p("orb.csv"), complex_parameters=p("cpx.csv"),
                           input_ephemeris_file=p("eph.csv"), output_ephemeris_file=None, visits="visits.db", stats=self.stats, outpath=d, outfilestem="res", _rngs=self.rngs, configfile="c", ar_data_file_path=None)
            with patched(*self.patches()):
                self.stop, self.result = exits(getattr(self.mod, "runLSSTSimulation" if self.lsst else "runDESSimulation"), self.args, self.sc, self.ret)
        return self.stop

    def alive(self, f):
        """does the potential detection pass every enabled step but the linking? (forks)"""
        c, on, sc = self.c, self.on, self.sc
        if f >= 90 or self.faint(self.owner[f]):
            return False
        if self.camera != "none" and not self.flag("infov", f):
            return False
        if "snr" in on and not bool(self.snr(f) > sc.expert.snr_limit):
            return False
        if "mag" in on and not bool(self.trailed(f) < sc.expert.mag_limit):
            return False
        if "fading" in on and not self.flag("bright", f):
            return False
        if "bright" in on:
            b = sc.saturation.bright_limit
            b = b[f % 2] if isinstance(b, list) else b
            if bool(self.psf(f) < b):
                return False
        return True

    def faint(self, o):
        return self.ephem != "external" and not self.brute and self.flag("faint", o)

    def rest(self, f):
        """columns of the files that no step changes"""
        return [(k, 60000.0 + f if k == "fieldMJD_TAI" else self.cell(k, f)) for k in EPH[2:] if k != "RA_deg"]

    def check(self):
        c, on, sc = self.c, self.on, self.sc
        c.prove(not self.stop, "run-stopped")
        if self.stop:
            return
        blocks = [self.objs[i : i + self.size] for i in range(0, len(self.objs), self.size)]
        want, link = [], []
        if self.ephem != "external":
            got = [l[1] for l in self.log if isinstance(l, tuple)]
            c.prove([g for g in got if g] == [b for b in ([o for o in b if not self.faint(o)] for b in blocks) if b], "objects-of-each-chunk")
        for b in blocks:
            live = [f for f in self.fids(self.ephemeris(b)) if self.alive(f)]
            if not self.lsst:
                if "distance" in on:
                    lo, hi = sc.linkingfilter.distance_cut_lower, sc.linkingfilter.distance_cut_upper
                    near = {self.owner[f] for f in live if bool(lo < self.dist(f)) and bool(self.dist(f) < hi)}
                    live = [f for f in live if self.owner[f] in near]
                if "motion" in on:
                    lo, hi = sc.linkingfilter.motion_cut_lower, sc.linkingfilter.motion_cut_upper
                    live = [f for f in live if bool(lo < self.motion(f)) and bool(self.motion(f) < hi)]
            link += live
            if self.linking == "drop" or "discovery" in on:
                live = [f for f in live if self.flag("linked", self.owner[f])]
            if live:
                want.append(live)
        if self.linking != "off" or "discovery" in on:
            c.prove(sorted(self.link_rows) == sorted(link), "linking-sees-survivors-once")
        if self.ret:
            c.prove(self.writes == [], "in-memory-writes-nothing")
            res = self.result
            if self.stats is not None:
                c.prove(isinstance(res, tuple) and len(res) == 2, "in-memory-pair")
                res, st = res
                c.prove([int(v) for v in (st["k"].tolist() if len(st) else [])] == sum(self.statlog, []), "in-memory-statistics")
            out = res
        else:
            c.prove(self.result is None, "written-returns-nothing")
            c.prove([sorted(self.fids(w)) for w in self.writes] == [sorted(w) for w in want], "chunks-written")
            out = pd.concat(self.writes) if self.writes else pd.DataFrame()
        got = self.fids(out) if len(out) else []
        c.prove(sorted(got) == sorted(sum(want, [])) and [self.chunk(f) for f in got] == sorted(self.chunk(f) for f in got), "survivors")
        if self.stats is not None:
            c.prove([sorted(s) for s in self.statlog] == [sorted(w) for w in want], "statistics-of-each-chunk")
        else:
            c.prove(self.statlog == [], "no-statistics")
        c.prove(self.log.count("PPIndexSQLDatabase") == int(self.fmt == "sqlite3" and bool(self.writes)), "database-indexed")
        if sorted(got) != sorted(sum(want, [])):
            return
        for i, f in enumerate(got):
            r = out.iloc[i]
            c.prove(r["ObjID"] == self.owner[f], "own-object")
            for k, w in [("trailedSourceMagTrue", self.val("mag", f, 12, 27)), ("PSFMagTrue", self.psf_true(f)), ("trailedSourceMag", self.trailed(f)), ("PSFMag", self.psf(f)), ("fiveSigmaDepth_mag", self.true_depth(f))] + self.rest(f):
                c.prove(k in out.columns and c.eq(r[k], w, 1e-9 if not is_sym(w) else 0.0), "reported-" + k)
            c.prove(c.eq(r["RATrue_deg"], 100.0 + f, 1e-9) and c.eq(r["RA_deg"], 100.0 + f + (0.25 if "random" in on else 0), 1e-9), "reported-position")
            if self.linking != "off":
                c.prove(bool(r["object_linked"]) == bool(self.flag("linked", self.owner[f])), "linked-flag")
            if self.lc is not None or self.act is not None:
                c.prove(r["amplitude"] == 0.25 * self.objs.index(self.owner[f]), "complex-parameters")
        c.reached("compared")

    def chunk(self, f):
        return self.objs.index(self.owner[f]) // self.size
