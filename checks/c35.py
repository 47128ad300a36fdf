"""C35: the run log states the settings in force, keeps an exact copy of the configuration file, and goes to the run's own files."""
import glob
import logging
import os
import re
import sys
from types import SimpleNamespace as NS

import numpy as np

import sorcha.des as DES
import sorcha.lightcurves.lightcurve_registration as LR
import sorcha.activity.activity_registration as AR
import sorcha.sorcha as RUN
import sorcha.utilities.sorchaArguments as AM
import sorcha.utilities.sorchaConfigs as M
import sorcha.utilities.sorchaGetLogger as GL
from checks.c14 import DESL, FADE, IN, LIM, LINK, NUMERIC, OUT, SIM
from lib import sym
from lib.env import scratch, text
from lib.harness import exits, harness, patched

BOUNDS = "every value of every numeric setting, written in a configuration file and read by the real reader; every combination of present and absent settings within a group; every camera model; registered and user models; lists of output columns; seeds of every value; log messages at every level"
OUTSIDE = "the wording around a stated value; DES discovery cuts and the DES transient efficiency (never restated, only in the copy of the configuration file); the statistics and complex parameter paths"
ASSUMPTIONS = ["Python's logging delivers each record to the handlers of the root logger"]


class Stop(Exception):
    pass


class Log(logging.Handler):
    """everything logged at INFO or above, as the log file would hold it; symbolic numbers appear as marks"""

    def __init__(self, c):
        super().__init__(logging.INFO)
        self.c, self.lines, self.marks, self.plain, self.n = c, [], [], [], 0

    def show(self, v, spec):
        m = re.search(r"\.(\d+)f$", spec)
        if m:
            v = self.rounded(v, int(m.group(1)))
        self.marks.append(v)
        return "<%d>" % (len(self.marks) - 1)

    def rounded(self, v, digits):
        self.n += 1
        r = self.c.real("shown%d" % self.n)
        e = self.c.frac(1, 2 * 10**digits)
        self.c.assume(self.c.And(r - v <= e, v - r <= e))
        return r

    def number(self, v):
        """for the % operator, which knows plain numbers only"""
        self.plain.append(v)
        return 87654000.125 + len(self.plain) - 1

    def emit(self, r):
        self.lines.append(r.getMessage())

    def __enter__(self):
        self.root = logging.getLogger()
        self.saved = self.root.level, self.root.handlers[:], logging.root.manager.disable
        self.root.handlers[:] = [self]
        self.root.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
        self.old = sym.SHOW, sym.FLOATS
        sym.SHOW, sym.FLOATS = self.show, self.number
        return self

    def __exit__(self, *a):
        self.root.setLevel(self.saved[0])
        self.root.handlers[:] = self.saved[1]
        logging.disable(self.saved[2])
        sym.SHOW, sym.FLOATS = self.old
        return False

    def about(self, words):
        return [l for l in self.lines if re.search(words, l, re.I) and not l.startswith("Copy of configuration")]

    def numbers(self, line):
        out = []
        for m in re.finditer(r"<(\d+)>|(?<![\w.])-?\d+(?:\.\d*)?(?:e[+-]?\d+)?(?![\w])", line):
            out.append(self.marks[int(m.group(1))] if m.group(1) else self.value(m.group(0)))
        return out

    def value(self, t):
        x = float(t)
        k = int(x) - 87654000
        if not 0 <= k <= len(self.plain) or not self.plain:
            return x
        k = min(k, len(self.plain) - 1)
        return self.rounded(self.plain[k], len(t.partition(".")[2]))

    def states(self, words, vals, what):
        """some line about it names just these numbers, in this order"""
        c = self.c
        vals = vals if isinstance(vals, list) else [vals]
        seen = [self.numbers(l) for l in self.about(words)]
        seen = [n for n in seen if n]
        c.prove(len(seen) > 0, "not-stated:" + what)
        for n in seen:
            c.prove(c.Or(*[c.And(*[close(c, a, b) for a, b in zip(n[i:], vals)]) for i in range(len(n) - len(vals) + 1)]), "another-value-stated:" + what)

    def nothing(self, words, what):
        self.c.prove(not any(self.numbers(l) for l in self.about(words)), "a-value-stated-for-what-is-off:" + what)

    def switch(self, words, on, what):
        found = set(w for l in self.about(words) for w in re.findall(r"\b(ON|OFF)\b", l))
        self.c.prove(found == {"ON" if on else "OFF"}, "switch:" + what)

    def names(self, words, name, what):
        """a line about it holds the name as a word of its own"""
        ls = self.about(words)
        self.c.prove(any(re.search(r"(?<![\w./-])%s(?![\w/-])" % re.escape(name), l) for l in ls), "not-named:" + what)


def close(c, a, b):
    e = c.frac(1, 10**6)
    return c.Or(a == b, c.And(a - b <= e, b - a <= e))


def ini(d, sections, name="c.ini"):
    f = os.path.join(d, name)
    with open(f, "w") as h:
        for s, keys in sections.items():
            h.write("[%s]\n" % s)
            for k, v in keys.items():
                h.write("%s = %s\n" % (k, v))
            h.write("\n")
    return f


def base(survey="rubin_sim"):
    s = dict(INPUT=dict(IN), SIMULATION={k: v for k, v in SIM.items() if k[0] != "_"}, FILTERS=dict(observing_filters="r,g"), PHASECURVES=dict(phase_function="HG"), FOV=dict(camera_model="footprint"),
             FADINGFUNCTION={}, OUTPUT=dict(output_format="csv", output_columns="basic"), EXPERT={})
    if survey == "des":
        s["FADINGFUNCTION"] = dict(fading_function_on="False")
    return s


ARGS = dict(paramsinput="phys.csv", orbinfile="orb.csv", configfile="c.ini", outpath="./", outfilestem="stem", pointing_database="p.db", surveyname="rubin_sim", loglevel=False, stats=None, visits_database=None, seed=1)


def logged(c, sections, log, args=None, colours=("r", ["g-r"]), **kw):
    """the settings and the run log that comes of them"""
    a = dict(ARGS, **(args or {}))
    with scratch() as d:
        f = ini(d, sections)
        stop, conf = exits(M.sorchaConfigs, f, a["surveyname"])
        c.prove(not stop, "valid-configuration-accepted")
        if stop:
            return None
    conf.filters.mainfilter, conf.filters.othercolours = colours
    args = AM.sorchaArguments(a)
    del log.lines[:]
    M.PrintConfigsToLog(conf, args)
    c.reached("logged")
    return conf


def num(c, key, lo=None, hi=None):
    l = LIM.get(key, (1, 29))
    return (c.int if NUMERIC.get(key) == "int" else c.real)(key, l[0] if lo is None else lo, l[1] if hi is None else hi)


@harness(cases=[dict(link=l, eph=e) for l in (True, False) for e in ("ar", "external")])
def linking(c, link, eph):
    s = base()
    said = {}
    s["INPUT"]["ephemerides_type"] = eph
    words = dict(size_serial_chunk="single chunk")
    put = {"INPUT": ["size_serial_chunk"]}
    if link:
        s["LINKINGFILTER"] = dict({k: v for k, v in LINK.items() if k != "survey_name"})
        drop = c.choose("drop", [None, "True", "False"])
        if drop:
            s["LINKINGFILTER"]["drop_unlinked"] = drop
        put["LINKINGFILTER"] = [k for k in LINK if k in NUMERIC]
        words.update(ssp_detection_efficiency="fractional detection", ssp_number_observations="number of observations in", ssp_number_tracklets="number of tracklets", ssp_track_window="window", ssp_separation_threshold="angular sep",
                     ssp_maximum_time="temporal sep", ssp_night_start_utc="noon")
    if eph == "ar":
        put["SIMULATION"] = ["ar_ang_fov", "ar_fov_buffer", "ar_picket", "ar_healpix_order"] + (["ar_n_sub_intervals"] if c.flag("intervals") else [])
        words.update(ar_ang_fov="angular FOV", ar_fov_buffer="buffer", ar_picket="picket", ar_healpix_order="healpix", ar_n_sub_intervals="sub-interval")
    else:
        s["SIMULATION"] = {}
    for sec, ks in put.items():
        for k in ks:
            said[k] = num(c, k)
            s[sec][k] = text(c, said[k])
    with Log(c) as log:
        conf = logged(c, s, log)
        if conf is None:
            return
        for k, v in said.items():
            log.states(words[k], v, k)
        log.switch("linking filter", link, "linking")
        if link:
            unl = [l for l in log.about("unlinked") if re.search(r"\bnot\b", l)]
            c.prove(bool(unl) == (drop == "False"), "unlinked-objects-kept-or-dropped")
        else:
            for k in LINK:
                if k in words:
                    log.nothing(words[k], k)
        log.switch("ASSIST", eph == "ar", "ephemeris generator")
        if eph == "ar":
            log.names("observatory code is", "X05", "observatory")
            if "ar_n_sub_intervals" not in said:
                log.states("sub-interval", conf.simulation.ar_n_sub_intervals, "default sub-intervals")


@harness(cases=[dict(nf=n) for n in (0, 1, 2, 3)])
def limits(c, nf):
    """saturation, SNR and magnitude limits, fading function, decimals"""
    s = base()
    nl = c.choose("limits", [0, 1, nf] if nf > 1 else [0, 1]) if nf else 0
    fs = ["u", "g", "r"][: max(nf, 1)]
    s["FILTERS"]["observing_filters"] = ",".join(fs)
    v = [c.real("sat%d" % i, -5, 30) for i in range(nl)]
    if nl:
        s["SATURATION"] = dict(bright_limit=", ".join(text(c, x) for x in v))
    lim = c.choose("limit", [None, "snr_limit", "mag_limit"]) if nf in (0, 2) else None
    x = c.real("limit", 0, 40)
    if lim:
        s["EXPERT"][lim] = text(c, x)
    fade = c.flag("fading") if nf in (0, 1) else False
    w, p = c.real("width", 0, 1) / 4 + c.frac(1, 8), c.real("peak", 0, 1)
    if fade:
        s["FADINGFUNCTION"] = dict(fading_function_width=text(c, w), fading_function_peak_efficiency=text(c, p))
    dec = {}
    if nf in (0, 3):
        for k in ("position_decimals", "magnitude_decimals"):
            if c.flag("have_" + k):
                dec[k] = c.int(k, 0, 12)
                s["OUTPUT"][k] = text(c, dec[k])
    with Log(c) as log:
        if logged(c, s, log) is None:
            return
        if nl:
            log.states("saturation limit", v if nl > 1 else v * nf, "saturation")
        else:
            log.switch("saturation limit", False, "saturation")
            log.nothing("saturation limit", "saturation")
        for k, words in (("snr_limit", r"SNR limit"), ("mag_limit", r"magnitude limit")):
            if lim == k:
                log.states(words, x, k)
                c.prove(not any(re.search(r"\bOFF\b", l) for l in log.about(words)), "switch:" + k)
            else:
                log.switch(words, False, k)
                log.nothing(words, k)
        cut = log.about("default SNR cut")
        c.prove(bool(cut) and all("ON" in l and "OFF" not in l for l in cut), "switch:default SNR cut")
        log.switch(r"fading function is", fade, "fading")
        if fade:
            log.states("width", w, "fading width")
            log.states("peak", p, "fading peak")
        else:
            log.nothing("fading function", "fading")
        for k, words in (("position_decimals", "positions.*round"), ("magnitude_decimals", "magnitudes.*round")):
            if k in dec:
                log.states(words, dec[k], k)
                c.prove(not any(re.search(r"\bnot\b", l) for l in log.about(words)), k)
            else:
                log.nothing(words, k)
                c.prove(any(re.search(r"\bnot\b", l) for l in log.about(words)), k)


@harness(cases=[dict(model=m, survey=s) for m in ("circle", "footprint", "none") for s in ("rubin_sim", "LSST", "des")] + [dict(model="visits_footprint", survey="des")])
def camera(c, model, survey):
    s = base("des" if survey == "des" else "rubin_sim")
    s["FOV"] = dict(camera_model=model)
    v = {}
    ks = {"circle": ["fill_factor", "circle_radius"], "footprint": ["footprint_edge_threshold"]}.get(model, [])
    for k in ks:
        if c.flag("have_" + k):
            v[k] = c.real(k, 0, 1)
            s["FOV"][k] = text(c, v[k])
    if model == "circle" and not v:
        return
    if model == "visits_footprint":
        s["FOV"]["visits_query"] = "select 1"
    own = model == "footprint" and c.flag("own")
    with scratch() as d, Log(c) as log:
        if own:
            s["FOV"]["footprint_path"] = os.path.join(d, "my_ccds.csv")
            open(s["FOV"]["footprint_path"], "w").close()
        conf = logged(c, s, log, args=dict(surveyname=survey, visits_database="my_visits.db"))
        if conf is None:
            return
        log.names("survey", survey, "survey")
        words = dict(fill_factor="fill", circle_radius="radius", footprint_edge_threshold="edge threshold")
        for k, w in words.items():
            if k in v:
                log.states(w, v[k], k)
            else:
                log.nothing(w, k)
        kinds = dict(circle=r"circular", footprint=r"actual camera footprint\.", visits_footprint=r"footprint for each", none=r"footprint is turned OFF")
        for k, w in kinds.items():
            c.prove(bool(log.about(w)) == (k == model), "camera-model")
        files = dict(own="my_ccds.csv", lsst="LSST_detector_corners", des="DES_ccd_corners", visits="my_visits.db")
        used = "visits" if model == "visits_footprint" else None if model != "footprint" else "own" if own else "des" if survey == "des" else "lsst"
        for k, f in files.items():
            c.prove(any(f in l for l in log.lines) == (k == used), "camera-file")


@harness(cases=[dict(which=w) for w in range(3)])
def switches(c, which):
    ks = ["trailing_losses_on", "randomization_on", "vignetting_on"]
    words = ["trailing", "randomization", "vignetting"]
    s = base()
    want = []
    for i, k in enumerate(ks):
        t = c.choose(k, ["True", "False"] if i != which else [None, "True", "False", "1", "no"])
        if t is not None:
            s["EXPERT"][k] = t
        want.append(t in (None, "True", "1"))
    with Log(c) as log:
        conf = logged(c, s, log)
        if conf is None:
            return
        for w, on in zip(words, want):
            log.switch(w, on, w)


@harness(cases=[dict(part=p) for p in ("models", "files", "output", "filters", "aux")])
def words(c, part):
    s = base()
    args, colours, say, none = {}, ("r", ["g-r"]), [], []
    if part == "models":
        for sec, key, table, w, no in (("LIGHTCURVE", "lc_model", LR.LC_METHODS, "lightcurve model is:", "No lightcurve"), ("ACTIVITY", "comet_activity", AR.CA_METHODS, "activity set", "No cometary")):
            m = c.choose(key, [None, "none", "mine", "mine2", "comet"])
            if m:
                s[sec] = {key: m}
            if m in (None, "none"):
                say.append((no, "No", key))
                none.append((w, key))
            else:
                say.append((w, m, key))
                none.append((no, key))
        s["PHASECURVES"]["phase_function"] = ph = c.choose("phase", ["HG", "HG12", "HG1G2", "linear", "none"])
        say.append(("phase function", ph, "phase function"))
    elif part == "files":
        for k, w, opts in (("paramsinput", "physical parameters", ["p.csv", "orb.csv"]), ("orbinfile", "orbits", ["o.csv", "o1.csv"]), ("configfile", "config file", ["c.ini"]), ("pointing_database", "pointing database path", ["pd.db", "x.db"])):
            args[k] = c.choose(k, opts)
            say.append((w, args[k], k))
        for k, w in (("input_ephemeris_file", "ephemerides file used"), ("output_ephemeris_file", "output ephemerides")):
            args[k] = c.choose(k, [None, "e.csv", "o.csv"])
            say.append((w, args[k], k)) if args[k] else none.append((w, k))
        args["outpath"], args["outfilestem"] = c.choose("out", [("./", "stem"), ("out/p", "q"), ("a b", "stem.v1")])
        say += [("output files", args["outpath"], "path"), ("output files", args["outfilestem"], "stem")]
        s["INPUT"]["eph_format"] = c.choose("eph", ["csv", "whitespace", "hdf5"])
        s["INPUT"]["aux_format"] = c.choose("aux", ["csv", "whitespace", "comma"])
        s["INPUT"]["pointing_sql_query"] = q = c.choose("query", ["SELECT a, b FROM x", "SELECT 1"])
        say += [("format of eph", s["INPUT"]["eph_format"], "eph"), ("format of aux", s["INPUT"]["aux_format"], "aux"), ("query", q, "query")]
    elif part == "output":
        s["OUTPUT"]["output_format"] = c.choose("format", ["csv", "sqlite3", "hdf5"])
        cols = c.choose("columns", ["basic", "all", "ObjID, RA_deg", "ObjID,fieldMJD_TAI,optFilter"])
        s["OUTPUT"]["output_columns"] = cols
        say.append(("saved as format", s["OUTPUT"]["output_format"], "format"))
        say += [("output columns", x.strip(), "columns") for x in cols.split(",")]
    elif part == "filters":
        fs = c.choose("filters", [["r"], ["u", "g", "r"], ["g", "i", "z", "y"]])
        s["FILTERS"]["observing_filters"] = ",".join(fs)
        main = c.choose("main", fs)
        cols = c.choose("colours", [[], [f + "-" + main for f in fs if f != main], None])
        colours = (main, cols)
        say += [("main filter", main, "main filter")] + [("filters included", f, "filters") for f in fs] + [("colour ind", x, "colours") for x in cols or []]
        if not cols:
            none.append(("colour ind", "colours"))
    else:
        ks = dict(leap_seconds="leap second", earth_historical="historical", earth_predict="future", orientation_constants="physical constants", planet_ephemeris="Earth's position", earth_high_precision="regularly updated",
                  observatory_codes="observatory position", observatory_codes_compressed="compressed", jpl_planets="solar-system planets", jpl_small_bodies="small bodies", meta_kernel="meta kern")
        given = c.choose("given", [[k] for k in ks] + [[], list(ks)])
        s["AUXILIARY"] = {}
        for k, w in ks.items():
            if k in given:
                s["AUXILIARY"][k] = "my_" + k
                if hasattr(M.auxiliaryConfigs, k + "_url"):
                    s["AUXILIARY"][k + "_url"] = "http://x/" + k
            say.append((w, "my_" + k if k in given else getattr(M.auxiliaryConfigs, k), k))
    saved = [(t, dict(t)) for t in (LR.LC_METHODS, AR.CA_METHODS)]
    try:
        for t, _ in saved:
            for n in ("mine", "mine2", "comet"):
                t.setdefault(n, object)
        with Log(c) as log:
            if logged(c, s, log, args=args, colours=colours) is None:
                return
            for w, n, what in say:
                log.names(w, n, what)
            for w, what in none:
                c.prove(not log.about(w), "stated-though-not-in-force:" + what)
    finally:
        for t, old in saved:
            t.clear()
            t.update(old)


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "des")])
def run(c, survey):
    """the simulation itself logs the settings (with the main filter and colours of its own input) before it reads the survey"""
    s = base(survey)
    n = num(c, "size_serial_chunk")
    s["INPUT"]["size_serial_chunk"] = text(c, n)
    dec = c.int("position_decimals", 0, 12)
    s["OUTPUT"]["position_decimals"] = text(c, dec)
    main, other = c.choose("main", [("r", "g"), ("g", "r")])
    s["FILTERS"]["observing_filters"] = main + "," + other
    mod, fun = (RUN, "runLSSTSimulation") if survey == "rubin_sim" else (DES, "runDESSimulation")

    def end(*a, **k):
        raise Stop()

    with scratch() as d, Log(c) as log:
        for f in ("orb.csv", "p.db"):
            open(os.path.join(d, f), "w").close()
        with open(os.path.join(d, "phys.csv"), "w") as h:
            h.write("ObjID,H_%s,GS,%s-%s\na,1,1,1\n" % (main, other, main))
        f = ini(d, s)
        stop, conf = exits(M.sorchaConfigs, f, survey)
        if stop:
            c.prove(False, "valid-configuration-accepted")
            return
        a = AM.sorchaArguments(dict(ARGS, surveyname=survey, configfile=f, **{k: os.path.join(d, ARGS[k]) for k in ("paramsinput", "orbinfile", "pointing_database")}))
        with patched((mod, "PPReadPointingDatabase", lambda *x, **k: None), (mod, "precompute_pointing_information", lambda *x, **k: None), (mod, "CombinedDataReader", end)):
            try:
                getattr(mod, fun)(a, conf)
            except Stop:
                c.reached("stopped")
        log.states("single chunk", n, "chunk size")
        log.states("positions.*round", dec, "decimals")
        log.names("main filter", main, "main filter")
        log.names("colour ind", "%s-%s" % (other, main), "colours")
        log.names("physical parameters", a.paramsinput, "file")


@harness()
def copy(c):
    """an exact copy of the configuration file, whatever it contains"""
    extra = c.choose("extra", ["", "# 100%d of %s {x}\n", "[USER]\nnote = a\n  b\n", "# \\n \x1b end"])
    v = num(c, "size_serial_chunk")
    s = base()
    s["INPUT"]["size_serial_chunk"] = text(c, v)
    with scratch() as d, Log(c) as log:
        f = ini(d, s)
        with open(f, "a") as h:
            h.write(extra)
        with open(f) as h:
            body = h.read()
        stop, conf = exits(M.sorchaConfigs, f, "rubin_sim")
        c.prove(not stop, "valid-configuration-accepted")
        c.prove(any(body in l for l in log.lines), "copy-of-the-configuration")


@harness(cases=[dict(given=g) for g in (True, False)])
def seed(c, given):
    """the base seed in the log regenerates the run's random streams"""
    used = []

    def gen(seed=None):
        used.append(seed)
        return NS(seed=seed)

    a = dict(ARGS)
    a.pop("seed")
    if given:
        a["seed"] = v = c.int("seed", 0, 2**32)
    name = c.choose("module", ["PPSNRLimit", "main"])
    with patched((np.random, "default_rng", gen)), Log(c) as log:
        AM.sorchaArguments(a)._rngs.getModuleRNG(name)
        ls = [log.numbers(l) for l in log.about("base rng seed")]
        c.prove(len(ls) == 1 and len(ls[0]) == 1, "base-seed-stated")
        if given:
            c.prove(ls[0][0] == v, "base-seed-as-given")
        b = ls[0][0]
        AM.sorchaArguments(dict(a, seed=int(b) if isinstance(b, float) else b))._rngs.getModuleRNG(name)
        c.prove(len(used) == 2 and used[0] == used[1], "logged-seed-regenerates-stream")


@harness(cases=[dict(other=o) for o in (False, True)])
def files(c, other):
    """the run's two log files: named after stem and process, errors in both, nothing of lower level, other logs untouched"""
    stem = c.choose("stem", ["t", "t.v1", "a b"])
    levels = [c.choose("level%d" % i, ["debug", "info", "warning", "error", "critical"]) for i in range(2)]
    name = c.choose("from", ["", "sorcha.utilities.sorchaConfigs", "other.lib"])
    with scratch() as d:
        if other:
            with open(os.path.join(d, stem + "-2020-01-01-00-00-00-p1-sorcha.log"), "w") as h:
                h.write("earlier")
        before = set(os.listdir(d))
        with Log(c) as log:
            try:
                GL.sorchaGetLogger(d, stem)
                for i, l in enumerate(levels):
                    getattr(logging.getLogger(name), l)("message%d" % i)
            finally:
                for h in [h for h in logging.getLogger().handlers if isinstance(h, logging.FileHandler)]:
                    h.close()
        new = sorted(set(os.listdir(d)) - before)
        info, err = [f for f in new if f.endswith("sorcha.log")], [f for f in new if f.endswith("sorcha.err")]
        c.prove(len(new) == 2 and len(info) == 1 and len(err) == 1, "one-log-and-one-error-file")
        if len(info) == 1 and len(err) == 1:
            c.prove(all(f.startswith(stem + "-") for f in new) and all("p%d" % os.getpid() in f for f in new), "named-after-stem-and-process")
            t = [open(os.path.join(d, f)).read() for f in (info[0], err[0])]
            for i, l in enumerate(levels):
                c.prove((t[0].count("message%d" % i), t[1].count("message%d" % i)) == (int(l != "debug"), int(l in ("error", "critical"))), "right-file-by-level")
        if other:
            with open(os.path.join(d, stem + "-2020-01-01-00-00-00-p1-sorcha.log")) as h:
                c.prove(h.read() == "earlier", "earlier-log-untouched")
