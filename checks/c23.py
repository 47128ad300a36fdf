"""C23: the LSST driver applies each configured bias once, with its settings, to every chunk."""
from lib.harness import harness
from lib.driver import Driver

BOUNDS = "1-3 objects with 0-2 ephemeris rows, chunk sizes 1-4, every on/off combination of the steps (in overlapping groups), every value of magnitudes, depths, SNR, limits and configured parameters, every verdict of field of view, fading, culling and linking; external and generated ephemerides; written and returned; with and without statistics; three formats; light curve and activity models on and off"
OUTSIDE = "the single steps themselves (C01-C11, C21, C22: stood in for by recorders that check their arguments and deliver any verdict); SNR, magnitude and saturation filters, readers and visit join are the real ones"
ASSUMPTIONS = []

ALL = ("trailing", "vignetting", "random", "snr", "fading", "bright")


def pick(c, names):
    return [n for n in names if c.flag("on_" + n)]


@harness(cases=[dict(group=g) for g in ("corrections", "limits", "filters", "camera", "linking")], max_paths=20000)
def one_row(c, group):
    kw = dict(on=ALL, camera="circle", linking="drop")
    if group == "corrections":
        kw = dict(on=pick(c, ("trailing", "vignetting", "random", "snr", "bright")))
    elif group == "limits":
        kw = dict(on=pick(c, ("random", "snr", "mag", "bright")), bright=c.choose("bright_kind", ["list", "float"]), linking="keep")
    elif group == "filters":
        kw = dict(on=pick(c, ("snr", "fading", "bright", "trailing")), camera=c.choose("camera", ["none", "footprint"]))
    elif group == "camera":
        kw = dict(on=["fading"] + pick(c, ("vignetting",)), camera=c.choose("camera", ["none", "circle", "footprint", "visits_footprint"]), linking=c.choose("linking", ["off", "drop"]))
    elif group == "linking":
        kw = dict(on=pick(c, ("snr", "fading")), linking=c.choose("linking", ["off", "drop", "keep"]))
    d = Driver(c, "lsst", ["a1"], {"a1": [4]}, 2, stats=c.choose("stats", [None, "st"]), ret=c.flag("return_only"), **kw)
    d.run()
    d.check()


@harness(cases=[dict(on=o, camera=cam, linking=l) for o, cam, l in [(("trailing", "vignetting", "random", "snr"), "none", "drop"), (("fading", "bright"), "none", "keep"), (("random", "mag"), "circle", "off"), (("fading", "snr", "bright", "trailing"), "none", "off")]], max_paths=20000)
def two_rows(c, on, camera, linking):
    d = Driver(c, "lsst", ["a1", "007"], {"a1": [4], "007": [3]}, 4, on=on, camera=camera, linking=linking, bright="list", stats="st", verbose=True)
    d.run()
    d.check()


CHUNKS = []
for size in (1, 2, 3, 4):
    for ret in (False, True):
        CHUNKS += [dict(size=size, ret=ret, ephem="external", rows=(1, 0, 2)), dict(size=size, ret=ret, ephem="ar", rows=(1, 1, 0))]
CHUNKS += [dict(size=2, ret=r, ephem=e, rows=x) for r, e, x in [(True, "external", (0, 0, 0)), (False, "external", (0, 0, 0)), (True, "ar", (0, 0, 0)), (False, "EXTERNAL", (0, 1, 1)), (False, "AR", (1, 0, 1)), (False, "external", (-1, 1, 1)), (True, "external", (1, -1, 1)), (False, "ar", (-1, -1, 1))]]


@harness(cases=CHUNKS, max_paths=20000)
def chunks(c, size, ret, ephem, rows):
    objs = ["k9", "007", "a2"]
    # -1: a row of a visit that is not in the pointing table
    where = {o: [] if n == 0 else [91 + i] if n < 0 else [10 * i + q for q in range(1, n + 1)] for i, (o, n) in enumerate(zip(objs, rows))}
    d = Driver(c, "lsst", objs, where, size, ephem=ephem, brute=c.flag("brute") if ephem.lower() == "ar" else False, on=("fading",), linking=c.choose("linking", ["off", "drop"]), ret=ret, stats=c.choose("stats", [None, "st"]),
               fmt=c.choose("fmt", ["csv", "sqlite3"]))
    if d.ephem == "EXTERNAL":
        d.ephem = "external"
    d.run()
    d.check()


@harness(cases=[dict(lc=l, act=a) for l in (None, "sinusoidal") for a in (None, "cometary")])
def complex_models(c, lc, act):
    d = Driver(c, "lsst", ["a1", "b2"], {"a1": [4], "b2": [3]}, 1, ephem=c.choose("ephem", ["external", "ar"]), brute=c.flag("brute"), on=("snr",), lc=lc, act=act, fmt=c.choose("fmt", ["csv", "hdf5", "sqlite3"]), ret=c.flag("return_only"))
    d.run()
    d.check()


@harness(cases=[dict(kind=k) for k in ("arguments", "ephemeris_type")])
def refused(c, kind):
    d = Driver(c, "lsst", ["a1"], {"a1": [4]}, 2, ephem="other" if kind == "ephemeris_type" else "external", ret=c.flag("return_only"))
    stop = d.run(invalid=kind == "arguments")
    c.prove(stop and d.result.code not in (0, None), "stops-with-error")
    c.prove(d.writes == [] and "PPCalculateApparentMagnitude" not in d.log, "nothing-computed")
