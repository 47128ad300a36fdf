"""C14: configuration values are accepted exactly inside their documented ranges and stored as given."""
import configparser
import os

from lib.harness import harness, patched, exits
from lib.env import text, scratch
from sorcha.utilities import sorchaConfigs as M

BOUNDS = "every numeric key: every real/integer value (given as a number or as configuration text), malformed texts, nan; every combination of present and absent keys in each group; every survey and camera model; complete configuration files"
OUTSIDE = "keys without a documented range outside positive values; the paths of footprint files; the AUXILIARY names"
ASSUMPTIONS = ["configparser"]
BIG = 1000000


def build(c, cls, k):
    """(accepted, object); a refusal must be a SystemExit with a message"""
    stop, out = exits(cls, **k)
    if stop:
        c.prove(out.code not in (0, None, ""), "refused-with-message")
    return (not stop), out


IN = dict(ephemerides_type="ar", eph_format="csv", size_serial_chunk="10", aux_format="csv", pointing_sql_query="select")
SIM = dict(ar_ang_fov="2.1", ar_fov_buffer="0.2", ar_picket="1", ar_obs_code="X05", ar_healpix_order="6", _ephemerides_type="ar")
CIRC = dict(camera_model="circle", survey_name="rubin_sim", fill_factor="0.9", circle_radius="1.8")
FOOT = dict(camera_model="footprint", survey_name="rubin_sim", footprint_edge_threshold="2")
FADE = dict(fading_function_width="0.1", fading_function_peak_efficiency="1", survey_name="rubin_sim")
DESF = dict(fading_function_on="True", des_transient_efficency="0.9", survey_name="des")
LINK = dict(ssp_detection_efficiency="0.95", ssp_number_observations="2", ssp_separation_threshold="0.5", ssp_maximum_time="0.0625", ssp_number_tracklets="3", ssp_track_window="15", ssp_night_start_utc="16",
            survey_name="rubin_sim")
DESL = dict(survey_name="des", distance_cut_upper="100", distance_cut_lower="10", motion_cut_upper="5", motion_cut_lower="0.1")
OUT = dict(output_format="csv", output_columns="basic", position_decimals="7", magnitude_decimals="3")
EXP = dict(survey_name="rubin_sim", camera_model="footprint")

# (class, base, key, kind, documented: accept, refuse)  - neither: undocumented, no claim on acceptance
pos, ge0, unit, anyv = (lambda v: v > 0, lambda v: False), (lambda v: v >= 0, lambda v: v < 0), (lambda c, v: c.And(v >= 0, v <= 1), lambda c, v: c.Or(v < 0, v > 1)), (lambda v: True, lambda v: False)
KEYS = [
    ("inputConfigs", IN, "size_serial_chunk", "int", lambda c, v: v >= 1, None),
    ("simulationConfigs", SIM, "ar_ang_fov", "real", lambda c, v: v > 0, None),
    ("simulationConfigs", SIM, "ar_fov_buffer", "real", lambda c, v: v >= 0, None),
    ("simulationConfigs", SIM, "ar_picket", "int", lambda c, v: v >= 1, None),
    ("simulationConfigs", SIM, "ar_healpix_order", "int", lambda c, v: c.And(v >= 0, v <= 29), None),
    ("simulationConfigs", SIM, "ar_n_sub_intervals", "int", lambda c, v: v >= 2, None),
    ("fovConfigs", CIRC, "fill_factor", "real", unit[0], unit[1]),
    ("fovConfigs", CIRC, "circle_radius", "real", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("fovConfigs", FOOT, "footprint_edge_threshold", "real", lambda c, v: v >= 0, None),
    ("fadingfunctionConfigs", FADE, "fading_function_width", "real", lambda c, v: c.And(v > 0, v < 0.5), lambda c, v: c.Or(v <= 0, v > 0.5)),
    ("fadingfunctionConfigs", FADE, "fading_function_peak_efficiency", "real", unit[0], unit[1]),
    ("fadingfunctionConfigs", DESF, "des_transient_efficency", "real", unit[0], None),
    ("linkingfilterConfigs", LINK, "ssp_detection_efficiency", "real", unit[0], unit[1]),
    ("linkingfilterConfigs", LINK, "ssp_number_observations", "int", lambda c, v: v >= 1, lambda c, v: v < 1),
    ("linkingfilterConfigs", LINK, "ssp_separation_threshold", "real", lambda c, v: v > 0, lambda c, v: v <= 0),
    ("linkingfilterConfigs", dict(LINK, ssp_number_observations="1"), "ssp_separation_threshold", "real", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("linkingfilterConfigs", LINK, "ssp_maximum_time", "real", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("linkingfilterConfigs", LINK, "ssp_number_tracklets", "int", lambda c, v: v >= 1, lambda c, v: v < 1),
    ("linkingfilterConfigs", LINK, "ssp_track_window", "int", lambda c, v: v >= 1, lambda c, v: v < 1),
    ("linkingfilterConfigs", LINK, "ssp_night_start_utc", "real", lambda c, v: c.And(v >= 0, v <= 24), lambda c, v: c.Or(v < 0, v > 24)),
    ("linkingfilterConfigs", DESL, "distance_cut_upper", "real", lambda c, v: v > 10, None),
    ("linkingfilterConfigs", DESL, "distance_cut_lower", "real", lambda c, v: c.And(v >= 0, v < 100), None),
    ("linkingfilterConfigs", DESL, "motion_cut_upper", "real", lambda c, v: v > 0.1, None),
    ("linkingfilterConfigs", DESL, "motion_cut_lower", "real", lambda c, v: c.And(v >= 0, v < 5), None),
    ("outputConfigs", OUT, "position_decimals", "int", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("outputConfigs", OUT, "magnitude_decimals", "int", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("expertConfigs", EXP, "snr_limit", "real", lambda c, v: v >= 0, lambda c, v: v < 0),
    ("expertConfigs", EXP, "mag_limit", "real", lambda c, v: v >= 0, lambda c, v: v < 0),
]


@harness(cases=[dict(i=i) for i in range(len(KEYS))])
def value(c, i):
    cls, base, key, kind, ok, bad = KEYS[i]
    form = c.choose("form", ["text", "padded", "number", "bad"])
    base = dict(base)
    if form == "bad":
        # inf lies inside [0, oo) only
        b = c.choose("bad", ["", "abc", "1,5", "--2", "nan"] + (["12.5", "inf"] if kind == "int" else []))
        acc, out = build(c, getattr(M, cls), dict(base, **{key: b}))
        c.prove(not acc, "malformed-refused")
        return
    v = c.int("v", -BIG, BIG) if kind == "int" else c.real("v", -BIG, BIG)
    given = v if form == "number" else text(c, v)
    acc, out = build(c, getattr(M, cls), dict(base, **{key: " %s " % given if form == "padded" else given}))
    c.prove(c.Implies(ok(c, v), acc), "in-range-accepted")
    if bad is not None:
        c.prove(c.Implies(acc, c.Not(bad(c, v))), "out-of-range-refused")
    if acc:
        c.reached("accepted")
        s = getattr(out, key)
        c.prove(not isinstance(s, (str, bool)), "stored-as-number")
        c.prove(s == v, "stored-as-given")
        for k, t in base.items():
            if k != key and k not in ("survey_name", "camera_model", "_ephemerides_type"):
                s = getattr(out, k)
                c.prove(s == t or (not isinstance(s, str) and s == (True if t == "True" else _num(t))), "other-keys-as-given")


def _num(t):
    try:
        return float(t)
    except ValueError:
        return t


@harness()
def edge(c):
    """both numbers of a pair at once: separation threshold zero is fine for single-observation tracklets only"""
    v = {k: (c.int(k, -3, 40) if "number" in k or "window" in k else c.real(k, -2, 40)) for k in LINK if k != "survey_name"}
    acc, out = build(c, M.linkingfilterConfigs, dict({k: text(c, x) for k, x in v.items()}, survey_name="rubin_sim"))
    e, n, s, t = (v["ssp_" + k] for k in ("detection_efficiency", "number_observations", "separation_threshold", "maximum_time"))
    good = c.And(e >= 0, e <= 1, n >= 1, c.Or(s > 0, c.And(s == 0, n == 1)), t >= 0, v["ssp_number_tracklets"] >= 1, v["ssp_track_window"] >= 1, v["ssp_night_start_utc"] >= 0, v["ssp_night_start_utc"] <= 24)
    c.prove(c.Iff(acc, good), "accepted-iff-all-in-range")
    if acc:
        c.prove(out.ssp_linking_on is True and out.drop_unlinked is True, "linking-on")
        c.prove(c.And(*[getattr(out, k) == x for k, x in v.items()]), "stored-as-given")


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "lsst", "des", "DES")], max_paths=3000)
def linking_group(c, survey):
    """all seven linking keys or none"""
    have = {k: c.bool("have_" + k) for k in LINK if k != "survey_name"}
    have = {k: bool(h) for k, h in have.items()}
    acc, out = build(c, M.linkingfilterConfigs, dict({k: LINK[k] for k, h in have.items() if h}, survey_name=survey))
    n = sum(have.values())
    if n == 0:
        c.prove(acc and out.ssp_linking_on is False, "no-keys-linking-off")
    elif n < 7:
        c.prove(not acc, "partial-group-refused")
    elif survey in ("rubin_sim", "lsst"):
        c.prove(acc and out.ssp_linking_on is True, "all-keys-linking-on")


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "lsst", "des", "DES")])
def cuts_group(c, survey):
    """distance and motion cuts: both bounds or none, and DES only"""
    ks = ("distance_cut_upper", "distance_cut_lower", "motion_cut_upper", "motion_cut_lower")
    v = {k: c.real(k, 0, 1000) for k in ks if c.bool("have_" + k)}
    acc, out = build(c, M.linkingfilterConfigs, dict({k: text(c, x) for k, x in v.items()}, survey_name=survey))
    d, m = ((a in v, b in v) for a, b in (ks[:2], ks[2:]))
    if d[0] != d[1] or m[0] != m[1]:
        c.prove(not acc, "half-a-cut-refused")
    elif any(d + m) and survey.lower() != "des":
        c.prove(not acc, "cuts-only-for-des")
    else:
        c.prove(acc, "consistent-cuts-accepted")
        if acc:
            c.prove(bool(out.distance_cut_on) == d[0] and bool(out.motion_cut_on) == m[0], "cut-switches")
            c.prove(c.And(*[getattr(out, k) == x for k, x in v.items()]), "stored-as-given")


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "lsst", "des", "DES")])
def fading_group(c, survey):
    ks = ("fading_function_width", "fading_function_peak_efficiency", "des_transient_efficency")
    lim = ((0.001, 0.499), (0, 1), (0, 1))
    v = {k: c.real(k, *l) for k, l in zip(ks, lim) if c.bool("have_" + k)}
    on = c.choose("on", [None, "True", "False", "maybe"]) if survey.lower() == "des" else None
    acc, out = build(c, M.fadingfunctionConfigs, dict({k: text(c, x) for k, x in v.items()}, survey_name=survey, **({} if on is None else dict(fading_function_on=on))))
    if survey.lower() == "des":
        if ks[0] in v or ks[1] in v or on in (None, "maybe"):
            c.prove(not acc, "rubin-fading-keys-refused-for-des" if on in ("True", "False") else "fading-switch-needed")
            return
        c.prove(acc, "consistent-fading-accepted")
        if acc:
            c.prove(out.fading_function_on is (on == "True"), "fading-switch")
            if on == "True":
                c.prove(out.des_transient_efficency == v.get(ks[2], 1), "efficiency-as-given")
        return
    if (ks[0] in v) != (ks[1] in v):
        c.prove(not acc, "half-a-fading-function-refused")
    elif ks[2] not in v:
        c.prove(acc, "consistent-fading-accepted")
        if acc:
            c.prove(out.fading_function_on is (ks[0] in v), "fading-switch")
            c.prove(c.And(*[getattr(out, k) == x for k, x in v.items()]), "stored-as-given")


@harness(cases=[dict(survey=s) for s in ("rubin_sim", "des", "DES", "lsst")])
def limits(c, survey):
    """SNR and magnitude limits exclude each other; survey-specific switches"""
    v = {k: c.real(k, -5, 50) for k in ("snr_limit", "mag_limit") if c.bool("have_" + k)}
    sw = {k: c.choose(k, [None, "True", "False", "1", "no", "perhaps"] if k == "vignetting_on" else [None, "True", "False"]) for k in ("vignetting_on", "trailing_losses_on", "randomization_on")}
    acc, out = build(c, M.expertConfigs, dict({k: text(c, x) for k, x in v.items()}, survey_name=survey, camera_model="footprint", **{k: s for k, s in sw.items() if s is not None}))
    yes = {"True": True, "1": True, "False": False, "no": False}
    des = survey.lower() == "des"
    okk = len(v) < 2 and all(s is None or s in yes for s in sw.values()) and not (des and any(yes.get(s) for s in sw.values()))
    good = c.And(okk, *[x >= 0 for x in v.values()])
    c.prove(c.Iff(acc, good), "accepted-iff-consistent")
    if acc:
        c.prove(out.snr_limit_on is ("snr_limit" in v) and out.mag_limit_on is ("mag_limit" in v), "limit-switches")
        c.prove(c.And(*[getattr(out, k) == x for k, x in v.items()]), "stored-as-given")
        for k, s in sw.items():
            c.prove(getattr(out, k) is (yes[s] if s is not None else not des), "switch-as-given-or-default")
        c.prove(out.default_snr_cut is True, "default-snr-cut")


@harness(cases=[dict(model=m, survey=s) for m in ("circle", "footprint", "visits_footprint", "none", "square") for s in ("rubin_sim", "des", "elsewhere")])
def camera(c, model, survey):
    """keys belonging to another camera model are refused, required ones demanded"""
    v = {k: c.real(k, 0, 1) for k in ("fill_factor", "circle_radius", "footprint_edge_threshold") if c.bool("have_" + k)}
    q = bool(c.bool("have_query"))
    with scratch() as d:
        f = c.choose("file", [None, "there", "missing"]) if model == "footprint" else None
        k = dict({k: text(c, x) for k, x in v.items()}, camera_model=model, survey_name=survey)
        if q:
            k["visits_query"] = "select"
        if f:
            k["footprint_path"] = os.path.join(d, f)
            if f == "there":
                open(k["footprint_path"], "w").close()
        acc, out = build(c, M.fovConfigs, k)
    if model == "square":
        good = False
    elif model == "none":
        good = True
    elif model == "circle":
        good = ("fill_factor" in v or "circle_radius" in v) and "footprint_edge_threshold" not in v
        if good and q:
            return
    elif model == "footprint":
        good = not q and "fill_factor" not in v and "circle_radius" not in v and f != "missing" and (f == "there" or survey != "elsewhere")
    else:
        good = survey == "des" and q and not v
    c.prove(acc == good, "accepted-iff-consistent")
    if acc and model != "none":
        c.prove(c.And(*[getattr(out, k) == x for k, x in v.items()]), "stored-as-given")


@harness()
def external(c):
    """the built-in ephemeris generator's keys: all five with it, none without it"""
    kind = c.choose("kind", ["ar", "external", "other", None])
    ks = ("ar_ang_fov", "ar_fov_buffer", "ar_picket", "ar_obs_code", "ar_healpix_order")
    have = [k for k in ks if c.bool("have_" + k)]
    acc, out = build(c, M.simulationConfigs, dict({k: SIM[k] for k in have}, _ephemerides_type=kind))
    c.prove(acc == ((kind == "ar" and len(have) == 5) or (kind == "external" and not have)), "accepted-iff-consistent")


@harness()
def words(c):
    """keys with a fixed vocabulary"""
    which = c.choose("which", ["ephemerides_type", "eph_format", "aux_format", "phase_function", "output_format", "output_columns", "lc_model", "comet_activity", "observing_filters"])
    good = {"ephemerides_type": ["ar", "external"], "eph_format": ["csv", "whitespace", "hdf5"], "aux_format": ["comma", "whitespace", "csv"], "phase_function": ["HG", "HG1G2", "HG12", "linear", "none"],
            "output_format": ["csv", "sqlite3", "hdf5"], "output_columns": ["basic", "all", "ObjID,RA_deg"], "lc_model": ["none"], "comet_activity": ["none"], "observing_filters": ["r", "u,g,r,i,z,y", "r, g"]}[which]
    bad = {"observing_filters": ["Y", "r,x", "", None], "lc_model": ["nope"], "comet_activity": ["nope"]}.get(which, ["nope", "", None, "CSV", "AR", "hg"])
    w = c.choose("word", good + bad)
    if which in IN:
        acc, out = build(c, M.inputConfigs, dict(IN, **{which: w}))
    elif which == "phase_function":
        acc, out = build(c, M.phasecurvesConfigs, {which: w})
    elif which in OUT:
        acc, out = build(c, M.outputConfigs, dict(OUT, **{which: w}))
    elif which == "lc_model":
        acc, out = build(c, M.lightcurveConfigs, {which: w})
    elif which == "comet_activity":
        acc, out = build(c, M.activityConfigs, {which: w})
    else:
        acc, out = build(c, M.filtersConfigs, {which: w, "survey_name": "rubin_sim"})
    c.prove(acc == (w in good), "accepted-iff-recognised")
    if acc:
        want = None if w == "none" and which != "phase_function" else ([x.strip() for x in w.split(",")] if which == "observing_filters" or "," in w else w)
        c.prove(getattr(out, which) == want, "stored-as-given")


@harness(cases=[dict(nf=n, nl=l) for n in (1, 2, 3) for l in (0, 1, 2, 3)])
def saturation(c, nf, nl):
    filters = ["u", "g", "r"][:nf]
    v = [c.real("limit%d" % i, -5, 30) for i in range(nl)]
    bad = nl > 0 and bool(c.bool("bad"))
    k = dict(_observing_filters=filters)
    if nl:
        k["bright_limit"] = ", ".join([text(c, x) for x in v[:-1]] + ["bright" if bad else text(c, v[-1])])
    acc, out = build(c, M.saturationConfigs, k)
    c.prove(acc == (not bad and nl in (0, 1, nf)), "accepted-iff-one-or-one-per-filter")
    if acc:
        c.prove(bool(out.bright_limit_on) == (nl > 0), "saturation-switch")
        if nl:
            want = v if nl == nf else v * nf
            c.prove(len(out.bright_limit) == nf and c.And(*[a == b for a, b in zip(out.bright_limit, want)]), "stored-as-given")
    if nl == 1 and not bad:
        acc, out = build(c, M.saturationConfigs, dict(_observing_filters=filters, bright_limit=v[0]))
        c.prove(acc and [a == b for a, b in zip(out.bright_limit, v * nf)] and len(out.bright_limit) == nf and c.And(*[a == v[0] for a in out.bright_limit]), "single-number")


SECTIONS = {
    "rubin_sim": {"INPUT": IN, "SIMULATION": {k: v for k, v in SIM.items() if k[0] != "_"}, "FILTERS": dict(observing_filters="r,g"), "SATURATION": dict(bright_limit="16.0"), "PHASECURVES": dict(phase_function="HG"),
                  "FOV": dict(camera_model="circle", fill_factor="0.9", circle_radius="1.8"), "FADINGFUNCTION": {k: v for k, v in FADE.items() if k != "survey_name"},
                  "LINKINGFILTER": dict({k: v for k, v in LINK.items() if k != "survey_name"}, drop_unlinked="False"), "OUTPUT": OUT, "EXPERT": dict(snr_limit="5", vignetting_on="False")},
    "des": {"INPUT": dict(IN, ephemerides_type="external"), "SIMULATION": {}, "FILTERS": dict(observing_filters="g,r"), "PHASECURVES": dict(phase_function="HG"), "FOV": dict(camera_model="visits_footprint", visits_query="select"),
            "FADINGFUNCTION": dict(fading_function_on="True", des_transient_efficency="0.9"), "LINKINGFILTER": dict({k: v for k, v in DESL.items() if k != "survey_name"}, des_discovery_on="True"), "OUTPUT": OUT,
            "EXPERT": dict(mag_limit="22.5")},
}
NUMERIC = {k: kind for _, _, k, kind, _, _ in KEYS}
LIM = dict(fill_factor=(0, 1), circle_radius=(0, 9), fading_function_width=(0.01, 0.49), fading_function_peak_efficiency=(0, 1), ssp_detection_efficiency=(0, 1), ssp_night_start_utc=(0, 24), des_transient_efficency=(0, 1),
           distance_cut_lower=(0, 9), distance_cut_upper=(10, 99), motion_cut_lower=(0, 1), motion_cut_upper=(2, 9))


@harness(cases=[dict(survey=s, drop=d) for s in SECTIONS for d in (None,) + tuple(SECTIONS[s])])
def whole_file(c, survey, drop):
    """a configuration file: every number reaches its own field; an optional section may be missing"""
    v = {}
    lines = []
    for sec, keys in SECTIONS[survey].items():
        if sec == drop:
            continue
        lines.append("[%s]" % sec)
        for k, t in keys.items():
            if k in NUMERIC:
                lo, hi = LIM.get(k, (1, 29))
                v[sec, k] = c.int(k, lo, hi) if NUMERIC[k] == "int" else c.real(k, lo, hi)
                t = text(c, v[sec, k])
            lines.append("%s = %s" % (k, t))
    with scratch() as d:
        f = os.path.join(d, "c.ini")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        stop, out = exits(M.sorchaConfigs, f, survey)
    need = {"INPUT", "FILTERS", "PHASECURVES", "FOV", "OUTPUT"} | ({"SIMULATION"} | (set() if survey == "rubin_sim" else {"FADINGFUNCTION"}))
    if drop in need:
        c.prove(stop, "required-section-missing-refused")
        return
    c.prove(not stop, "file-accepted")
    if stop:
        return
    for (sec, k), x in v.items():
        s = getattr(getattr(out, sec.lower()), k)
        c.prove(not isinstance(s, str) and s == x, "stored-as-given")
    c.prove(out.filters.observing_filters == SECTIONS[survey]["FILTERS"]["observing_filters"].split(","), "filters")
    if survey == "rubin_sim":
        c.prove(out.saturation.bright_limit_on == (None if drop == "SATURATION" else True) and (drop == "SATURATION" or out.saturation.bright_limit == [16.0, 16.0]), "saturation")
        c.prove(out.linkingfilter.ssp_linking_on is (drop != "LINKINGFILTER") and out.linkingfilter.drop_unlinked is (drop == "LINKINGFILTER"), "linking-switches")
        c.prove(out.expert.snr_limit_on is (drop != "EXPERT") and out.expert.vignetting_on is (drop == "EXPERT") and out.expert.trailing_losses_on is True and out.expert.randomization_on is True, "expert-switches")
        c.prove(out.fadingfunction.fading_function_on is (drop != "FADINGFUNCTION"), "fading-switch")
    else:
        c.prove(bool(out.linkingfilter.des_discovery_on) == (drop != "LINKINGFILTER") and bool(out.linkingfilter.distance_cut_on) == (drop != "LINKINGFILTER"), "des-switches")
        c.prove(out.expert.mag_limit_on is (drop != "EXPERT") and out.expert.vignetting_on is False and out.expert.trailing_losses_on is False and out.expert.randomization_on is False, "expert-switches")
    c.prove(out.lightcurve.lc_model is None and out.activity.comet_activity is None, "no-models")
