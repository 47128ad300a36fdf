"""C24: the DES driver applies each configured bias once, with its settings, to every chunk."""
from lib.harness import harness
from lib.driver import Driver

BOUNDS = "1-3 objects with 0-2 ephemeris rows, chunk sizes 1-4, every on/off combination of the steps (in overlapping groups), every value of magnitudes, depths, SNR, distances, rates, limits and configured parameters, every verdict of field of view, fading, culling and discovery; external and generated ephemerides; written and returned; with and without statistics; three formats"
OUTSIDE = "the single steps themselves (C03, C07, C21, C22, C26, C28: stood in for by recorders that check their arguments and deliver any verdict); SNR, magnitude, saturation, distance and motion filters, readers and visit join are the real ones"
ASSUMPTIONS = ["an SNR column is present when an SNR limit is configured (the driver computes no uncertainties for DES)"]


def pick(c, names):
    return [n for n in names if c.flag("on_" + n)]


@harness(cases=[dict(group=g) for g in ("limits", "filters", "camera", "cuts", "corrections")], max_paths=20000)
def one_row(c, group):
    kw = dict(camera="visits_footprint")
    if group == "limits":
        kw = dict(on=pick(c, ("mag", "bright", "discovery")), bright=c.choose("bright_kind", ["list", "float"]))
    elif group == "filters":
        kw = dict(on=pick(c, ("mag", "fading", "bright", "distance")), camera=c.choose("camera", ["none", "footprint"]))
    elif group == "camera":
        kw = dict(on=["fading"] + pick(c, ("motion",)), camera=c.choose("camera", ["none", "circle", "footprint", "visits_footprint"]))
    elif group == "cuts":
        kw = dict(on=pick(c, ("distance", "motion", "discovery", "fading")))
    elif group == "corrections":
        kw = dict(on=["bright", "mag"] + pick(c, ("trailing", "vignetting", "random")))
    d = Driver(c, "des", ["a1"], {"a1": [4]}, 2, stats=c.choose("stats", [None, "st"]), ret=c.flag("return_only"), **kw)
    d.run()
    d.check()


@harness(cases=[dict(on=o, camera=cam) for o, cam in [(("distance", "motion", "discovery"), "none"), (("fading", "bright", "distance"), "none"), (("mag", "motion"), "visits_footprint"), (("fading", "discovery"), "visits_footprint"), (("mag", "distance", "discovery"), "none")]]
         + [dict(on=("distance", "motion"), camera="none", rows=(2, 1)), dict(on=("mag", "distance"), camera="none", rows=(2, 1))], max_paths=20000)
def more_rows(c, on, camera, rows=(1, 1)):
    d = Driver(c, "des", ["a1", "007"], {"a1": [4, 6][: rows[0]], "007": [3]}, 4, on=on, camera=camera, bright="list", stats="st", verbose=True)
    d.run()
    d.check()


CHUNKS = []
for size in (1, 2, 3, 4):
    for ret in (False, True):
        CHUNKS += [dict(size=size, ret=ret, ephem="external", rows=(1, 0, 2)), dict(size=size, ret=ret, ephem="ar", rows=(1, 1, 0))]
CHUNKS += [dict(size=2, ret=r, ephem=e, rows=x) for r, e, x in [(True, "external", (0, 0, 0)), (False, "external", (0, 0, 0)), (True, "ar", (0, 0, 0)), (False, "AR", (1, 0, 1)), (False, "external", (-1, 1, 1)), (True, "external", (1, -1, 1)), (False, "ar", (-1, -1, 1))]]


@harness(cases=CHUNKS, max_paths=20000)
def chunks(c, size, ret, ephem, rows):
    objs = ["k9", "007", "a2"]
    # -1: a row of a visit that is not in the pointing table
    where = {o: [] if n == 0 else [91 + i] if n < 0 else [10 * i + q for q in range(1, n + 1)] for i, (o, n) in enumerate(zip(objs, rows))}
    d = Driver(c, "des", objs, where, size, ephem=ephem, brute=c.flag("brute") if ephem.lower() == "ar" else False, on=("fading",) + c.choose("found", [(), ("discovery",)]), ret=ret, stats=c.choose("stats", [None, "st"]),
               fmt=c.choose("fmt", ["csv", "sqlite3"]))
    d.run()
    d.check()


@harness(cases=[dict(lc=l, act=a) for l in (None, "sinusoidal") for a in (None, "cometary")])
def complex_models(c, lc, act):
    d = Driver(c, "des", ["a1", "b2"], {"a1": [4], "b2": [3]}, 1, ephem=c.choose("ephem", ["external", "ar"]), brute=c.flag("brute"), on=("mag",), lc=lc, act=act, fmt=c.choose("fmt", ["csv", "hdf5", "sqlite3"]), ret=c.flag("return_only"))
    d.run()
    d.check()


@harness(cases=[dict(kind=k) for k in ("arguments", "ephemeris_type")])
def refused(c, kind):
    d = Driver(c, "des", ["a1"], {"a1": [4]}, 2, ephem="other" if kind == "ephemeris_type" else "external", ret=c.flag("return_only"))
    stop = d.run(invalid=kind == "arguments")
    c.prove(stop and d.result.code not in (0, None), "stops-with-error")
    c.prove(d.writes == [] and "PPCalculateApparentMagnitude" not in d.log, "nothing-computed")
