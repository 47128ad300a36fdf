"""C27: existing results are never overwritten or deleted unless forced; missing and inconsistent inputs are refused."""
import logging
import os
import sys
from types import SimpleNamespace as NS

import sorcha.sorcha
import sorcha.des
import sorcha_cmdline.run as run
from lib.harness import harness, patched, exits
from lib.vfs import VFS
from sorcha.utilities.sorchaArguments import sorchaArguments

BOUNDS = "the whole `sorcha run` command line: every subset of the input files and directories missing or of the wrong kind, every subset of existing output, ephemeris and statistics files (csv, db, h5), forced or not, stems and directories with dots and glob characters next to similarly named files, every combination of survey name, ephemeris type, light-curve, activity, camera and visits settings"
OUTSIDE = "other processes creating files during the run; an empty output stem; symbolic links; the configuration reader (C14) and the simulation itself"
ASSUMPTIONS = []

INPUTS = ["p.csv", "ob.csv", "c.ini", "pd.db"]


class Start:
    """stands in for a survey run; records the arguments it is given"""

    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, args, sconfigs, *a, **k):
        self.log.append((self.name, args, sconfigs))


def command(c, fs, opts, conf):
    """run the command line; returns (exited, SystemExit or None, started runs)"""
    started = []
    logger = logging.getLogger("verif")

    def get_logger(log_location, log_stem, *a, **k):
        return logger

    def configs(config_file_location=None, survey_name=None):
        return conf

    argv = ["sorcha run"]
    for k, v in opts:
        argv.append(k)
        if v is not True:
            argv.append(v)
    old = sys.argv
    env = os.environ.pop("SORCHA_SEED", None)
    try:
        sys.argv = argv
        with patched(
            ("sorcha.sorcha", "sorchaGetLogger", get_logger),
            ("sorcha.sorcha", "sorchaConfigs", configs),
            ("sorcha.sorcha", "runLSSTSimulation", Start("rubin", started)),
            ("sorcha.des", "runDESSimulation", Start("des", started)),
            ("sorcha.sorcha", "update_activity_subclasses", lambda: None),
            ("sorcha.sorcha", "update_lc_subclasses", lambda: None),
        ), fs.active():
            ex, e = exits(run.main)
    finally:
        sys.argv = old
        if env is not None:
            os.environ["SORCHA_SEED"] = env
    return ex, e if ex else None, started


def config(eph="ar", lc=None, comet=None, camera="circle", query=None):
    return NS(
        input=NS(ephemerides_type=eph),
        lightcurve=NS(lc_model=lc),
        activity=NS(comet_activity=comet),
        fov=NS(camera_model=camera, visits_query=query),
    )


def refused(c, ex, e, started, tag):
    c.prove(ex and e.code not in (0, None), tag + ": not refused with a failure status")
    c.prove(not started, tag + ": the simulation was started")


def required(fs, out="out"):
    return [("-c", fs.p("c.ini")), ("-p", fs.p("p.csv")), ("--ob", fs.p("ob.csv")), ("--pd", fs.p("pd.db")), ("-o", fs.p(out))]


def kinds(c, name):
    """may be absent, a file or a directory"""
    return c.bool("exists_" + name), c.bool("isdir_" + name)


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "DES")])
def inputs(c, survey):
    """a run starts exactly when every given input exists"""
    given = {k: c.flag("give_" + k) for k in ("er", "ar", "cp", "st", "ew")}
    ent = {f: kinds(c, f) for f in INPUTS}
    ent["out"] = (c.bool("exists_out"), True)
    ent["er.csv"] = kinds(c, "er")
    ent["ar"] = kinds(c, "ar")
    ent["cp.csv"] = (c.bool("exists_cp"), False)
    fs = VFS(c, ent)
    opts = required(fs)
    if given["er"]:
        opts.append(("--er", fs.p("er.csv")))
    if given["ar"]:
        opts.append(("--ar", fs.p("ar")))
    if given["cp"]:
        opts.append(("--cp", fs.p("cp.csv")))
    if given["st"]:
        opts.append(("--st", "tally"))
    if given["ew"]:
        opts.append(("--ew", "eph"))
    opts += [("-s", survey), ("-t", "run")]
    conf = config()
    ex, e, started = command(c, fs, opts, conf)
    good = [c.And(ent[f][0], c.Not(ent[f][1])) for f in INPUTS] + [ent["out"][0]]
    if given["er"]:
        good.append(c.And(ent["er.csv"][0], c.Not(ent["er.csv"][1])))
    if given["ar"]:
        good.append(c.And(ent["ar"][0], ent["ar"][1]))
    if given["cp"]:
        good.append(ent["cp.csv"][0])
    ok = c.And(*good)
    c.prove(c.Iff(len(started) == 1, ok), "inputs: the simulation starts exactly when every input exists")
    c.prove(not fs.removed, "inputs: a file was removed")
    if not started:
        refused(c, ex, e, started, "inputs")
        return
    name, args, sc = started[0]
    c.prove(name == {"rubin_sim": "rubin", "DES": "des"}[survey] and sc is conf, "inputs: the wrong survey or settings")
    want = dict(
        paramsinput=fs.p("p.csv"),
        orbinfile=fs.p("ob.csv"),
        configfile=fs.p("c.ini"),
        pointing_database=fs.p("pd.db"),
        outpath=fs.p("out"),
        outfilestem="run",
        surveyname=survey,
        input_ephemeris_file=fs.p("er.csv") if given["er"] else None,
        ar_data_file_path=fs.p("ar") if given["ar"] else None,
        stats="tally" if given["st"] else None,
        output_ephemeris_file="eph" if given["ew"] else None,
        visits=None,
        loglevel=True,
    )
    if given["cp"]:
        want["complex_parameters"] = fs.p("cp.csv")
    for k, v in want.items():
        c.prove(getattr(args, k) == v, "inputs: argument " + k)


SIMILAR = {
    "run": ["run.v2.csv", "run2.csv", "xrun.db", "run-2026-01-01-p1-sorcha.log", "runs.h5", "RUN.csv", "run.csv.bak.csv"],
    "run.v2": ["run.csv", "run.v21.csv", "run.v2.1.csv", "runxv2.csv"],
    "run[1]": ["run1.csv", "run1.db", "run.csv"],
    "r*n": ["run.csv", "ran.db"],
    "run?": ["runs.csv", "run.csv"],
    "tally": ["tally2.csv", "tally.db2.csv"],
    "eph": ["ephemeris.csv", "eph.v2.h5"],
    "tally.v1": ["tally.csv", "tally.v12.csv"],
    "t[al]ly": ["tally.csv"],
    "eph.r": ["eph.csv", "eph.r2.h5"],
    "e?h": ["eph.csv", "eph.h5"],
    "run.stats": ["run.csv2.csv"],
    "run.eph": [],
}


def existing(c, out, stem, exts):
    return {"%s/%s.%s" % (out, stem, e): c.bool("exists_%s_%s" % (stem, e)) for e in exts}


@harness(
    cases=[dict(stem=s, out=o, kind=k) for s, o, k in [
        ("run", "out", "stem"), ("run.v2", "out", "stem"), ("run[1]", "out", "stem"), ("r*n", "out", "stem"), ("run?", "out", "stem"),
        ("run", "out[1]", "all"), ("run", "out", "all"), ("run", "o*t", "stem"), ("run", "out", "dots"), ("run", "out", "glob"), ("run", "out", "nested"),
    ]]
)
def outputs(c, stem, out, kind):
    """existing results stop the run, or are removed - all of them and nothing else - when forced"""
    survey = c.choose("survey", ["rubin_sim", "des"])
    force = c.flag("force")
    own = existing(c, out, stem, ["csv", "db", "h5"])
    names = [stem]
    aux = {"all": ("tally", "eph"), "dots": ("tally.v1", "eph.r"), "glob": ("t[al]ly", "e?h"), "nested": ("run.stats", "run.eph")}.get(kind)
    if aux:
        own.update(existing(c, out, aux[0], ["csv"]))
        own.update(existing(c, out, aux[1], ["csv", "h5"]))
        names += aux
    other = [out + "/" + f for n in names for f in SIMILAR[n]] + ["run.csv", "out1/run.csv", "out2/run.csv"]
    ent = {f: (True, False) for f in INPUTS + other}
    for d in ("out", "out1", "out2", out):
        ent[d] = (True, True)
    ent.update({f: (b, False) for f, b in own.items()})
    fs = VFS(c, ent)
    opts = required(fs, out) + [("-t", stem), ("-s", survey)]
    if aux:
        opts += [("--st", aux[0]), ("--ew", aux[1])]
    if force:
        opts.insert(0, ("-f", True))
    ex, e, started = command(c, fs, opts, config())
    c.prove(not any(f in other or f in INPUTS for f in fs.removed), "outputs: a file of another run was removed")
    if not force:
        c.prove(not fs.removed, "outputs: results removed although not forced")
        c.prove(c.Iff(len(started) == 1, c.Not(c.Or(*own.values()))), "outputs: starts exactly when no results exist")
        if not started:
            refused(c, ex, e, started, "outputs")
    else:
        c.prove(len(started) == 1, "outputs: a forced run does not start")
        for f, b in own.items():
            c.prove(c.Iff(f in fs.removed, b), "outputs: existing results are left in the way of a forced run")


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "RUBIN_SIM", "DES", "des", "lsst", "LSST", "ztf", "")])
def choices(c, survey):
    """inconsistent command-line choices and settings"""
    eph = c.choose("eph", ["ar", "external"])
    lc = c.choose("lc", [None, "sinusoidal"])
    comet = c.choose("comet", [None, "lsst_comet"])
    camera = c.choose("camera", ["circle", "footprint", "none", "visits_footprint"])
    query = c.choose("query", [None, "SELECT 1"])
    er, cp, vd = c.flag("er"), c.flag("cp"), c.flag("vd")
    have = {k: c.bool("exists_" + k) for k in ("er", "cp", "vd")}
    ent = {f: (True, False) for f in INPUTS}
    ent["out"] = (True, True)
    for k in have:
        ent[k] = (have[k], False)
    fs = VFS(c, ent)
    opts = required(fs) + [("-s", survey)]
    for k, g in (("--er", er), ("--cp", cp), ("--vd", vd)):
        if g:
            opts.append((k, fs.p(k[2:])))
    ex, e, started = command(c, fs, opts, config(eph, lc, comet, camera, query))
    missing = c.Or(*[c.Not(have[k]) for k, g in (("er", er), ("cp", cp), ("vd", vd)) if g] + [False])
    clash = (
        (eph == "external" and not er)
        or ((lc or comet) and not cp)
        or (vd and camera != "visits_footprint")
        or (vd != (query is not None))
        or survey.lower() not in ("rubin_sim", "des")
    )
    c.prove(c.Iff(len(started) == 1, c.Not(c.Or(missing, bool(clash)))), "choices: starts exactly when the choices are consistent")
    c.prove(not fs.removed, "choices: a file was removed")
    if not started:
        refused(c, ex, e, started, "choices")
        return
    name, args, _ = started[0]
    c.prove(name == ("des" if survey.lower() == "des" else "rubin"), "choices: the wrong survey")
    c.prove(args.visits == (fs.p("vd") if vd else None), "choices: visits database")


@harness()
def library(c):
    """a run started from Python: validate_arguments raises exactly when something is missing"""
    er, ar, conf = c.flag("er"), c.flag("ar"), c.flag("conf")
    ent = {f: kinds(c, f) for f in INPUTS}
    ent["er.csv"] = kinds(c, "er")
    ent["ar"] = kinds(c, "ar")
    fs = VFS(c, ent)
    d = dict(
        paramsinput=fs.p("p.csv"), orbinfile=fs.p("ob.csv"), configfile=fs.p("c.ini") if conf else None, outpath=fs.p("out"), outfilestem="run",
        pointing_database=fs.p("pd.db"), loglevel=True, stats=None, visits_database=None, surveyname="rubin_sim", seed=1,
        input_ephemeris_file=fs.p("er.csv") if er else None, ar_data_path=fs.p("ar") if ar else None,
    )
    args = sorchaArguments(d)
    with fs.active():
        try:
            args.validate_arguments()
            raised = False
        except ValueError:
            raised = True
    isfile = lambda f: c.And(ent[f][0], c.Not(ent[f][1]))
    good = [isfile("p.csv"), isfile("ob.csv"), isfile("pd.db")]
    if conf:
        good.append(isfile("c.ini"))
    if er:
        good.append(isfile("er.csv"))
    if ar:
        good.append(c.And(ent["ar"][0], ent["ar"][1]))
    c.prove(c.Iff(raised, c.Not(c.And(*good))), "library: refused exactly when an input is missing")
