"""C20: the ephemeris loop, simulation set-up and pointing pre-computation."""
import io
import json
import os
import re
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from lib.harness import harness, frame, patched, exits
from lib import sym
from lib.env import Tokens, arr, scratch
from sorcha.ephemeris import simulation_driver as D
from sorcha.ephemeris import simulation_setup as S
from sorcha.ephemeris import simulation_geometry as G
from sorcha.ephemeris import simulation_parsing as P

BOUNDS = "1-2 visits, 1-3 objects (every subset of them candidates of a visit), every angle of interpolated and corrected directions from the pointing, every radius and buffer, times, ranges; text, numeric and zero-padded identifiers; set-up of 1-3 orbits with failures in any of them; pointing tables of 1-3 visits; observatory codes with every coordinate including zero; TAI times of 1972-2099 to dynamical time"
OUTSIDE = "the difference of TDB and TT (below two milliseconds); assist, rebound, spice and healpy (replaced by recorders, see C16 for tiles, C19 for the light time, C17 for the geometry columns, C18 for the initial state)"
ASSUMPTIONS = ["the stubs stand for correct libraries"]
JREF, AU = 2451545.0, 149597870.7
COLS = ("ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
        "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg")
AXES = [((1, 0, 0), (0, 1, 0)), ((0, 0, -1), (0.6, 0.8, 0))]


class Log:
    def info(self, *a, **k):
        pass

    error = warning = debug = info


def along(c, v, x):
    """unit vector at angle with cosine x from the pointing of visit v"""
    a, b = AXES[v]
    s = c.sqrt_(1 - x * x)
    return [p * x + q * s for p, q in zip(a, b)]


def cosine(c, name):
    """cosine of an arbitrary angle; the input is the angle, so that a replay follows the solver's angle"""
    th = c.real(name, 0.01, 3.13)
    if c.mode == "conc":
        return c.cos(th)
    x = c.real(name + "_cosine", -0.99999, 0.99999)
    c.assume(c.eq(c.arccos(x), th, 0))
    return x


def same(c, a, b, tol=1e-9):
    return c.eq(a, b, 0.0 if c.mode == "sym" else tol)


IDS = {"text": ["objA", "b2", "S0001"], "number": ["12", "7", "101"], "padded": ["007", "0010", "08"], "mixed": ["007", "1e3", "zz"]}


@harness(cases=[dict(nv=1, no=1, ids="text"), dict(nv=1, no=2, ids="padded"), dict(nv=1, no=1, ids="mixed", write="csv"), dict(nv=2, no=1, ids="number"), dict(nv=2, no=2, ids="text", write="whitespace"), dict(nv=1, no=3, ids="number", write="hdf5"),
                dict(nv=1, no=2, ids="mixed", gap=True)], max_paths=30000,
         thorough=[dict(nv=v, no=o, ids=i, write=w, gap=True) for v in (1, 2) for o in (1, 2) for i in ("text", "number", "padded", "mixed") for w in (None, "csv", "whitespace", "hdf5")])
def loop(c, nv, no, ids, write=None, gap=False):
    names = IDS[ids][:no]
    fov, buf = c.real("fov", 0.1, 20), c.real("buffer", 0, 5)
    radius = fov + buf
    mjd = [c.real("mjd%d" % v, 60000, 63000) for v in range(nv)]
    jd = [c.real("jd%d" % v, 2460000, 2463000) for v in range(nv)]
    order = c.choose("order", [6, 10])
    robs = [[0.5 + v, -0.25, 0.125 * (v + 1)] for v in range(nv)]
    cand = [names if v == 0 else [n for i, n in enumerate(names) if c.bool("cand%d_%d" % (v, i))] for v in range(nv)]
    ci = {(v, o): cosine(c, "ai%d_%d" % (v, i)) for v in range(nv) for i, o in enumerate(names) if o in cand[v]}
    ct = {(v, o): cosine(c, "at%d_%d" % (v, i)) for v in range(nv) for i, o in enumerate(names) if o in cand[v]}
    mag = {(v, o): 0.5 + i + 3 * v for v in range(nv) for i, o in enumerate(names)}
    pc = dict(FieldID=[40 - v for v in range(nv)], fieldJD_TDB=jd, observationMidpointMJD_TAI=mjd, fieldRA_deg=[10.0 + v for v in range(nv)], fieldDec_deg=[-5.0 - v for v in range(nv)])
    for k, x in enumerate("xyz"):
        pc["visit_vector_" + x] = [float(AXES[v][0][k]) for v in range(nv)]
        pc["r_obs_" + x] = [r[k] for r in robs]
        for n in ("v_obs", "r_sun", "v_sun"):
            pc["%s_%s" % (n, x)] = [0.01 * (k + 1)] * nv
    orbits = dict(ObjID=names, H_r=[c.real("H%d" % i, 0, 30) for i in range(no)], FORMAT=["COM"] * no)
    ephem = NS(jd_ref=JREF)
    made, asked = [], []
    sims = {o: dict(sim="sim" + o, ex="ex" + o) for o in names}
    now = [None]

    class Pix:
        def __init__(self, jd_tdb, sim_dict, ephem, obsCode, observatory, picket_interval=1.0, nside=128, nested=True, n_sub_intervals=101):
            made.append((jd_tdb, sim_dict, obsCode, observatory, picket_interval, nside, nested, n_sub_intervals))

        def visit(self, t):
            hit = [v for v in range(nv) if t is jd[v] or (c.mode == "conc" and t == jd[v])]
            return hit[0] if hit else min(len(asked) - 1, nv - 1)

        def get_designations(self, jd_tdb, ra, dec, ang_fov):
            asked.append((jd_tdb, ra, dec, ang_fov))
            self.v = len(asked) - 1
            c.prove(self.v < nv, "one-search-per-visit")
            v = self.v
            c.prove(c.And(same(c, jd_tdb, jd[v]), ra == 10.0 + v, dec == -5.0 - v), "search-at-own-pointing")
            c.prove(ang_fov >= radius - 1e-12, "search-covers-radius")
            return set(cand[v])

        def interpolate_unit_vectors(self, desigs, jd_tdb):
            v = self.v
            c.prove(set(desigs) == set(cand[v]) and same(c, jd_tdb, jd[v]), "interpolation")
            return {o: arr([2.0 * q for q in along(c, v, ci[v, o])]) for o in desigs}

    def light(sim, ex, t, r_obs, lt0=0, **k):
        v = len(asked) - 1
        o = sim[3:]
        c.prove(ex == "ex" + o, "own-simulation")
        c.prove(same(c, t, jd[v] - JREF, 1e-6), "integration-time")
        c.prove(list(r_obs) == robs[v], "own-observer")
        r = [mag[v, o] * q for q in along(c, v, ct[v, o])]
        return arr(r), mag[v, o], 0.01, arr([1.0 + len(o), v, 2.0]), arr([0.1, v, 0.3])

    calls = []

    def geometry(pointing, ephem_geom_params):
        v = len(asked) - 1
        p = ephem_geom_params
        o = p.obj_id
        calls.append((v, o))
        c.prove(o in cand[v] and pointing["FieldID"] == 40 - v, "geometry-of-own-visit")
        hat = along(c, v, ct[v, o])
        c.prove(c.And(same(c, p.mjd_tai, mjd[v]), *[same(c, a, b) for a, b in zip(p.rho_hat, hat)], *[same(c, a, mag[v, o] * b) for a, b in zip(p.rho, hat)]), "own-direction")
        c.prove(p.rho_mag == mag[v, o] and list(p.r_ast) == [1.0 + len(o), v, 2.0] and list(p.v_ast) == [0.1, v, 0.3], "own-state")
        return (o, pointing["FieldID"], p.mjd_tai, pointing["fieldJD_TDB"]) + tuple(c.real("g%d_%d_%d" % (v, names.index(o), j), 0, 90) for j in range(19))

    tk = Tokens(c)
    import csv as _csv

    class W:
        def __init__(self, f, *a, **k):
            self.w = _csv.writer(f, *a, **k)

        def writerow(self, r):
            self.w.writerow([tk.cell(x) if c.mode == "sym" else x for x in r])

        def writerows(self, rs):
            for r in rs:
                self.writerow(r)

    written = []
    args = NS(pplogger=Log(), loglevel=c.mode == "conc", output_ephemeris_file="ephem_out" if write else None, outpath="/nonexistent/dir" if write else None)
    cfg = NS(simulation=NS(ar_ang_fov=fov, ar_fov_buffer=buf, ar_picket=2, ar_obs_code="X05", ar_healpix_order=order, ar_n_sub_intervals=77), auxiliary=NS(), input=NS(eph_format=write or "csv"), output=NS(output_format="csv"))
    subs = [(D, "create_assist_ephemeris", lambda args, auxconfigs: (ephem, 1.5, 2.5)), (D, "furnish_spiceypy", lambda args, auxconfigs: None),
            (D, "generate_simulations", lambda ephem, gm_sun, gm_total, orbits_df, args: sims if (gm_sun, gm_total) == (1.5, 2.5) else None),
            (D, "Observatory", lambda args, auxconfigs, oc_file=None: "observatory"), (D, "PixelDict", Pix), (D, "integrate_light_time", light),
            (D, "calculate_rates_and_geometry", geometry), (D, "PPOutWriteCSV", lambda padain, outf, separator=",": written.append((padain.copy(), outf, separator))),
            (D, "PPOutWriteHDF5", lambda pp_results, outf, keyin: written.append((pp_results.copy(), outf, keyin)))]
    if c.mode == "sym":
        subs.append((D, "writer", W))
    pf = frame(pc, index=[7 * v + 3 for v in range(nv)] if gap else None)
    with patched(*subs, *tk.patches()):
        out = D.create_ephemeris(frame(orbits, index=[5 * i + 2 for i in range(no)] if gap else None), pf, args, cfg)
    c.prove(len(made) == 1 and same(c, made[0][0], jd[0]) and made[0][1] is sims and made[0][2:] == ("X05", "observatory", 2, 2**order, True, 77), "tile-cache-settings")
    c.prove(len(asked) == nv, "every-visit-searched")
    deg = 180 / c.pi
    want = []
    for v in range(nv):
        for o in cand[v]:
            inside = c.And(c.arccos(ci[v, o]) * deg < radius, c.arccos(ct[v, o]) * deg < radius)
            got = [p for p in range(len(out)) if str(out["ObjID"].iloc[p]) == o and int(out["FieldID"].iloc[p]) == 40 - v]
            c.prove(len(got) <= 1, "at-most-one-row")
            c.prove(c.Iff(len(got) == 1, inside), "row-iff-inside")
            want += got
            for p in got:
                g = lambda k: out[k].iloc[p]
                c.prove(c.And(same(c, g("fieldMJD_TAI"), mjd[v]), same(c, g("fieldJD_TDB"), jd[v], 1e-6)), "own-times")
                c.prove(same(c, g("H_r"), orbits["H_r"][names.index(o)]), "own-physical-parameters")
                if calls:
                    for j in range(19):
                        c.prove(same(c, g(COLS[4 + j]), c.real("g%d_%d_%d" % (v, names.index(o), j), 0, 90)), "own-geometry")
    c.prove(sorted(want) == list(range(len(out))), "no-other-rows")
    c.prove([int(f) for f in out["FieldID"]] == sorted((int(f) for f in out["FieldID"]), reverse=True), "visits-in-order")
    if len(out):
        c.reached("rows")
    if write:
        c.prove(len(written) == 1, "ephemeris-file-written-once")
        if written:
            df, path, how = written[0]
            c.prove(path == "/nonexistent/dir/ephem_out" + (".h5" if write == "hdf5" else ".csv"), "ephemeris-file-name")
            c.prove(how == {"csv": ",", "whitespace": " ", "hdf5": "sorcha_ephemeris"}[write], "ephemeris-file-format")
            c.prove(list(df.columns) == list(COLS) and len(df) == len(out), "ephemeris-file-rows")
            for p in range(min(len(df), len(out))):
                c.prove(str(df["ObjID"].iloc[p]) == str(out["ObjID"].iloc[p]) and same(c, df["phase_deg"].iloc[p], out["phase_deg"].iloc[p]), "ephemeris-file-values")
    else:
        c.prove(not written, "no-ephemeris-file")


class Particle:
    def __init__(self, x=0, y=0, z=0, vx=0, vy=0, vz=0, **k):
        self.s = (x, y, z, vx, vy, vz)


class Sim:
    def __init__(self):
        self.t, self.dt, self.p, self.ri_ias15 = 0, 0, [], NS()

    def add(self, p):
        self.p.append(p)


class Extras:
    def __init__(self, sim, ephem):
        self.sim, self.ephem = sim, ephem
        self._f = ["SUN", "PLANETS", "GR_EIH"]

    @property
    def forces(self):
        return list(self._f)

    @forces.setter
    def forces(self, f):
        self._f = f


@harness(cases=[dict(n=n, jd=j) for n in (1, 2, 3) for j in (False, True)])
def setup(c, n, jd):
    """each object starts from its own state at its own epoch; a failed conversion stops the run"""
    names = ["b", "a", "c"][:n]
    epoch = [c.real("epoch%d" % i, 50000, 70000) + (2400000.5 if jd else 0.0) for i in range(n)]
    st = {o: tuple(c.real("s%d_%d" % (i, k), -50, 50) for k in range(6)) for i, o in enumerate(names)}
    bad = c.choose("bad", [None] + list(range(n)))
    how = c.choose("how", ["nan", "valueerror"]) if bad is not None else None
    ephem = NS(jd_ref=JREF)

    def parse(row, epochJD_TDB, ephem_, sun_dict, gm_sun, gm_total):
        i = names.index(row["ObjID"])
        c.prove((gm_sun, gm_total) == (1.5, 2.5) and ephem_ is ephem, "masses")
        c.prove(same(c, epochJD_TDB, epoch[i] + (0.0 if jd else 2400000.5), 1e-6), "epoch-in-jd")
        if i == bad:
            if how == "valueerror":
                raise ValueError("Provided orbit format not supported.")
            return (np.nan,) * 6
        return st[names[i]]

    df = frame(dict(ObjID=names, epochMJD_TDB=epoch, FORMAT=["COM"] * n), index=[3 * i + 1 for i in range(n)])
    with patched((S.sp, "parse_orbit_row", parse), (S, "rebound", NS(Particle=Particle, Simulation=Sim)), (S, "assist", NS(Extras=Extras))):
        stop, out = exits(S.generate_simulations, ephem, 1.5, 2.5, df, NS(pplogger=Log()))
    c.prove(stop == (bad is not None), "stops-iff-unusable-orbit")
    if stop:
        c.prove(out.code not in (0, None), "exit-code")
        return
    c.prove(sorted(out) == sorted(names), "one-simulation-per-object")
    for i, o in enumerate(names):
        sim, ex = out[o]["sim"], out[o]["ex"]
        c.prove(ex.sim is sim and ex.ephem is ephem, "own-extras")
        c.prove(len(sim.p) == 1 and c.And(*[same(c, a, b) for a, b in zip(sim.p[0].s, st[o])]), "own-state")
        c.prove(same(c, sim.t, epoch[i] + (0.0 if jd else 2400000.5) - JREF, 1e-6), "own-epoch")
        c.prove("GR_SIMPLE" in ex.forces and "SUN" in ex.forces and "PLANETS" in ex.forces, "forces")
    c.prove(len({id(v["sim"]) for v in out.values()}) == n, "separate-simulations")


@harness(cases=[dict(n=n, gap=g) for n in (1, 2, 3) for g in (False, True)])
def pointings(c, n, gap):
    """every visit gets its own direction, time, observer and Sun state"""
    ra = [c.real("ra%d" % i, 0, 360) for i in range(n)]
    dec = [c.real("dec%d" % i, -90, 90) for i in range(n)]
    mjd = [c.real("mjd%d" % i, 60000, 60010) + 10 * i for i in range(n)]
    which = lambda x: min(range(n), key=lambda i: 0) if n == 1 else None
    J2000 = 2451545.0
    seen_et, seen_sun = [], []

    def tdb(mjd_tai):
        return mjd_tai + 2400000.5 + 0.001

    def rates(et, obsCode, observatories, Rearth=None, delta_et=10):
        c.prove(obsCode == "W84" and observatories == "observatory", "observatory")
        i = len(seen_et)
        seen_et.append(et)
        return arr([c.real("ro%d_%d" % (i, k), -2e8, 2e8) for k in range(3)]), arr([c.real("vo%d_%d" % (i, k), -40, 40) for k in range(3)])

    def particle(name, t):
        i = len(seen_sun)
        c.prove(str(name).lower() == "sun", "sun")
        seen_sun.append(t)
        return NS(**{k: c.real("sun%d_%s" % (i, k), -0.01, 0.01) for k in ("x", "y", "z", "vx", "vy", "vz")})

    ephem = NS(jd_ref=JREF, get_particle=particle)
    cfg = NS(auxiliary=NS(), simulation=NS(ar_obs_code="W84", ar_ang_fov=2.0, ar_fov_buffer=0.2, ar_healpix_order=6))
    df = frame(dict(FieldID=[9 - i for i in range(n)], fieldRA_deg=ra, fieldDec_deg=dec, observationMidpointMJD_TAI=mjd), index=[4 * i + 2 for i in range(n)][::-1] if gap else None)
    with patched((S, "create_assist_ephemeris", lambda args, auxconfigs: (ephem, 1, 2)), (S, "furnish_spiceypy", lambda args, auxconfigs: None), (S, "Observatory", lambda args, auxconfigs, oc_file=None: "observatory"),
                 (S, "mjd_tai_to_epoch", tdb), (S, "barycentricObservatoryRates", rates)):
        out = S.precompute_pointing_information(df, NS(), cfg)
    c.prove([int(f) for f in out["FieldID"]] == [9 - i for i in range(n)], "visits")
    c.prove(len(seen_et) == n and len(seen_sun) == n, "one-evaluation-per-visit")
    if len(seen_et) != n or len(seen_sun) != n:
        return
    for i in range(n):
        g = lambda k: out[k].iloc[i]
        a, d = c.rad(ra[i]), c.rad(dec[i])
        for k, w in zip("xyz", [c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]):
            c.prove(c.eq(g("visit_vector_" + k), w, 1e-12), "own-pointing-vector")
        jd = mjd[i] + 2400000.501
        c.prove(c.eq(g("fieldJD_TDB"), jd, 1e-6), "own-time")
        c.prove(c.eq(seen_et[i], (jd - J2000) * 86400, 0.1), "observer-time")
        c.prove(c.eq(seen_sun[i], jd - JREF, 1e-6), "sun-time")
        for k, x in enumerate("xyz"):
            c.prove(c.eq(g("r_obs_" + x), c.real("ro%d_%d" % (i, k), -2e8, 2e8) / AU, 1e-12), "own-observer-position")
            c.prove(c.eq(g("v_obs_" + x), c.real("vo%d_%d" % (i, k), -40, 40) * 86400 / AU, 1e-12), "own-observer-velocity")
            c.prove(c.eq(g("r_sun_" + x), c.real("sun%d_%s" % (i, x), -0.01, 0.01), 1e-15), "own-sun-position")
            c.prove(c.eq(g("v_sun_" + x), c.real("sun%d_v%s" % (i, x), -0.01, 0.01), 1e-15), "own-sun-velocity")


@harness(cases=[dict(early=e) for e in (False, True)])
def observer(c, early):
    """observer state: Earth plus rotated site, with the site's rotation rate"""
    et0 = -1e9
    site = [c.real("site%d" % k, -1, 1) for k in range(3)]
    earth = [c.real("e%d" % k, -2e8, 2e8) for k in range(6)]
    et = c.real("et", 0, 1e9) if not early else c.real("et", -3e9, -1.1e9)

    def key(t):
        d = t - et
        for q in (-10, 0, 10):
            if c.mode == "conc":
                if abs(d - q) < 1e-3:
                    return q
            elif bool(c.eq(d, float(q))):
                return q
        return 99

    def mat(q):
        return np.array([[0.1 * q + 0.3, 0.5, -0.2 * q], [0.7, 0.01 * q, 0.4], [-0.6, 0.05 * q * q, 0.02 * q]])

    class Sp:
        def spkezr(self, *a):
            c.prove(a[0].upper() == "EARTH" and a[2:] == ("J2000", "NONE", "SSB") and same(c, a[1], et), "earth-state")
            return arr(earth), 0.0

        def spkpos(self, *a):
            c.prove(a[0].upper() == "EARTH" and a[2:] == ("J2000", "NONE", "SSB") and same(c, a[1], et), "earth-position")
            return arr(earth[:3]), 0.0

        def str2et(self, s):
            return et0

        def pxform(self, a, b, t):
            frames = ("ITRF93", "IAU_EARTH") if early is None else (("IAU_EARTH",) if early else ("ITRF93",))
            c.prove(a in frames and b == "J2000", "earth-fixed-frame")
            return mat(key(t))

    R = 6378.137
    with patched((G, "spice", Sp())):
        pos, vel = G.barycentricObservatoryRates(et, "X05", NS(ObservatoryXYZ={"X05": tuple(site), "500": (0, 0, 0)}))
    m0, m1, m2 = mat(0), mat(10), mat(-10)
    for k in range(3):
        s0 = sum(float(m0[k, j]) * site[j] for j in range(3))
        dv = sum(float(m1[k, j] - m2[k, j]) * site[j] for j in range(3))
        c.prove(c.eq(pos[k], earth[k] + s0 * R, 1e-6), "position")
        c.prove(c.eq(vel[k], earth[3 + k] + dv * R / 20, 1e-6), "velocity")
    if not early:
        with patched((P, "spice", Sp())):
            ob = P.Observatory.__new__(P.Observatory)
            ob.ObservatoryXYZ = {"X05": tuple(site)}
            p2 = ob.barycentricObservatory(et, "X05")
        for k in range(3):
            c.prove(c.eq(p2[k], earth[k] + sum(float(m0[k, j]) * site[j] for j in range(3)) * R, 1e-6), "position")


@harness()
def sites(c):
    """geocentric site vectors from the MPC list; zero is a coordinate, not a missing one"""
    have = {k: c.choose(k, ["value", "zero", "absent"]) for k in ("Longitude", "cos", "sin")}
    lim = dict(Longitude=(0.001, 360), cos=(0.01, 1), sin=(-1, -0.01))
    loc = {k: (0.0 if have[k] == "zero" else c.real(k + "_v", *lim[k])) for k in have if have[k] != "absent"}
    ob = P.Observatory.__new__(P.Observatory)
    out = ob.convert_to_geocentric(dict(loc, Name="somewhere"))
    if "absent" in have.values():
        c.prove(tuple(out) == (None, None, None), "no-position")
        return
    c.prove(all(v is not None for v in out), "site-with-coordinates-usable")
    if all(v is not None for v in out):
        l = c.rad(loc["Longitude"]) if have["Longitude"] != "zero" else 0.0
        cl, sl = (1.0, 0.0) if have["Longitude"] == "zero" else (c.cos(l), c.sin(l))
        c.prove(c.And(c.eq(out[0], loc["cos"] * cl, 1e-9), c.eq(out[1], loc["cos"] * sl, 1e-9), c.eq(out[2], loc["sin"], 1e-12)), "site-vector")


LSK = """KPL/LSK
\\begindata
DELTET/DELTA_T_A = 32.184
DELTET/K = 1.657D-3
DELTET/EB = 1.671D-2
DELTET/M = ( 6.239996D0 1.99096871D-7 )
DELTET/DELTA_AT = ( 10, @1972-JAN-1 32, @1999-JAN-1 33, @2006-JAN-1 34, @2009-JAN-1 35, @2012-JUL-1 36, @2015-JUL-1 37, @2017-JAN-1 )
\\begintext
"""
DAY = 86400


class Spice:
    """time conversions of SPICE: text dates hold as many digits as they are written with, TDB leads TT by at most two milliseconds"""

    def __init__(self, c):
        self.c, self.plain, self.n = c, [], 0

    def within(self, v, e):
        self.n += 1
        r = self.c.real("spice%d" % self.n, -1, 1) * e
        return v + r

    def number(self, v):
        self.plain.append(v)
        return 87654000.125 + len(self.plain) - 1

    def show(self, v, spec):
        m = re.search(r"\.(\d+)[lf]*$", spec)
        x = self.number(v)
        return "%.*f" % (int(m.group(1)) if m else 6 if spec.endswith("f") else 9, x)

    def shift(self, et, a, b):
        """seconds past J2000 of scale a, in scale b"""
        c = self.c
        off = {"TAI": c.frac(-32184, 1000), "TDT": 0, "TT": 0, "UTC": c.frac(-69184, 1000)}
        dyn = ("ET", "TDB")
        et = et - off[a] if a in off else self.within(et, c.frac(2, 1000))
        return et + off[b] if b in off else self.within(et, c.frac(2, 1000))

    def j2000(self):
        return 2451545.0

    def spd(self):
        return 86400.0

    def str2et(self, text):
        c = self.c
        m = re.match(r"\s*(JD)?\s*([0-9.]+)\s*(JD)?\s*([A-Z]*)\s*$", text)
        k = int(float(m.group(2))) - 87654000
        v = self.within(self.plain[min(max(k, 0), len(self.plain) - 1)], c.frac(1, 2 * 10 ** len(m.group(2).partition(".")[2])))
        return self.shift((v - 2451545) * DAY, m.group(4) or "UTC", "ET")

    def unitim(self, epoch, insys, outsys):
        v = (epoch - 2451545) * DAY if insys.startswith("JD") else epoch
        v = self.shift(v, insys.replace("JDTDT", "TDT").replace("JDTDB", "TDB").replace("JED", "TDB"), outsys.replace("JDTDT", "TDT").replace("JDTDB", "TDB").replace("JED", "TDB"))
        return v / DAY + 2451545 if outsys.startswith("J") else v


@harness()
def times(c):
    """TAI of the pointing database to the dynamical time of the ephemeris: 32.184 s ahead, as a Julian date"""
    mjd = c.real("mjd", 41400, 88000)
    want = mjd + c.frac(24000005, 10) + c.frac(32184, 86400000)
    tol = c.frac(6, 10**7)
    if c.mode == "conc":
        with scratch() as d:
            k = os.path.join(d, "lsk.tls")
            with open(k, "w") as h:
                h.write(LSK)
            P.spice.furnsh(k)
            try:
                got = P.mjd_tai_to_epoch(mjd)
            finally:
                P.spice.unload(k)
    else:
        lib = Spice(c)
        old = sym.SHOW, sym.FLOATS
        sym.SHOW, sym.FLOATS = lib.show, lib.number
        try:
            with patched((P, "spice", lib)):
                got = P.mjd_tai_to_epoch(mjd)
        finally:
            sym.SHOW, sym.FLOATS = old
    c.prove(c.And(got - want <= tol, want - got <= tol), "dynamical-time")
    c.reached("converted")
