"""C28: per-visit camera footprints."""
import math
import os
import re
import sqlite3
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from lib.harness import harness, frame, patched
from lib.env import StubRngs, rowids, scratch
from lib.sym import is_sym
from sorcha.modules import PPApplyFOVFilter as A
from sorcha.modules import PPVisitsFootprintFilter as M

BOUNDS = "every sky position around each of the listed camera layouts (single CCD, 2x2 grid, staggered rows with DECam dimensions at declinations 0, -51 and -65, a rotated square grid), fields at RA 100, within a buffer of RA 0/360 and within a camera radius but beyond the buffer; tables of <=3 detections of <=3 visits, every limiting magnitude"
OUTSIDE = "cameras of more than 7 CCDs; layouts whose CCDs differ in size or are stretched in RA to more than 5:1 (the three-nearest-points screening of the code can then miss a CCD, e.g. DECam beyond declination -70); positions within 1e-9 deg of an outline; frames without a default index; kd-tree, shapely and SQLite themselves (stubbed by their contracts while symbolic, real on replay)"
ASSUMPTIONS = ["the visits database gives CCD corners unwrapped around the field centre, as the test databases do", "cKDTree.query returns the k nearest points, Polygon.contains is strict containment in a convex outline"]

TOL = 1e-9
Q = "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, magLim as limMag_perChip  FROM observations WHERE visitId = ?"
COLS = ["llcra", "llcdec", "lrcra", "lrcdec", "urcra", "urcdec", "ulcra", "ulcdec", "ra", "dec", "detectorID", "magLim", "visitId"]


def shipped():
    import configparser
    import sorcha

    p = configparser.ConfigParser(interpolation=None)
    p.read(os.path.join(os.path.dirname(sorcha.__file__), "data/survey_setups/DES_config_file.ini"))
    return " ".join(p["CAMERA" if "CAMERA" in p else "FOV"]["visits_query"].split())


def dy14(v):
    """to the next multiple of 2**-14 deg, so that sums stay exact"""
    return round(v * 16384) / 16384


def quad(cx, cy, w, h, rot=0.0, s=1.0):
    """corners ll, lr, ur, ul of a CCD centred at (cx, cy), w x h, rotated, RA stretched by s"""
    k, l = math.cos(rot), math.sin(rot)
    o = []
    for dx, dy in ((-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)):
        x, y = cx + dx, cy + dy
        o.append((dy14((x * k - y * l) * s), dy14(x * l + y * k)))
    return o, (dy14((cx * k - cy * l) * s), dy14(cx * l + cy * k))


W, H, DX, DY = 0.2992, 0.1496, 0.3126, 0.1638


def layout(name):
    if name == "single":
        return [quad(0, 0, 0.3, 0.2)]
    if name == "grid":
        return [quad(x, y, 0.4, 0.4) for x in (-0.21, 0.21) for y in (-0.21, 0.21)]
    if name == "rotgrid":
        return [quad(x, y, 0.4, 0.4, rot=0.6) for x in (-0.21, 0.21) for y in (-0.21, 0.21)]
    if name.startswith("decam"):
        s = 1 / math.cos(math.radians(float(name[5:])))
        return [quad(0, 0, W, H, s=s), quad(-DX / 2, DY, W, H, s=s), quad(DX / 2, DY, W, H, s=s), quad(DX, 0, W, H, s=s)]
    if name == "wide":  # two CCDs far apart in RA, on either side of the field centre
        return [quad(-2.0, 0, 0.5, 0.2), quad(2.0, 0.1, 0.5, 0.2), quad(0, 0, 0.5, 0.2)]
    raise KeyError(name)


def shift(ccd, ra, dec):
    q, m = ccd
    return [(a + ra, b + dec) for a, b in q], (m[0] + ra, m[1] + dec)


def crosses(q, x, y):
    n = len(q)
    return [(q[(i + 1) % n][0] - q[i][0]) * (y - q[i][1]) - (q[(i + 1) % n][1] - q[i][1]) * (x - q[i][0]) for i in range(n)]


class DB:
    """visit -> [(ccd, detector id, limiting magnitude)]"""

    def __init__(self, c, visits):
        self.c, self.visits = c, visits
        self.rows = []
        for v, ccds in visits.items():
            for (q, m), det, lim in ccds:
                self.rows.append(dict(zip(COLS, [q[0][0], q[0][1], q[1][0], q[1][1], q[2][0], q[2][1], q[3][0], q[3][1], m[0], m[1], det, lim, v])))

    # --- stands in for sqlite3 while symbolic
    def sqlite(self):
        db = self

        class Result:
            def __init__(s, rows):
                s.rows = rows

            def fetchall(s):
                return list(s.rows)

            def __iter__(s):
                return iter(s.rows)

        class Conn:
            row_factory = None

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def cursor(s):
                return s

            def close(s):
                pass

            def execute(s, query, args=()):
                m = re.fullmatch(r"\s*SELECT\s+(.*?)\s+FROM\s+observations\s+WHERE\s+visitId\s*=\s*\?\s*", query, re.S | re.I)
                assert m, "query not understood by the stub: " + query
                (v,) = args
                assert isinstance(v, (int, str)), "sqlite cannot bind %r" % type(v)
                names = []
                for t in m.group(1).split(","):
                    p = t.split()
                    names.append((p[0], p[-1]))
                return Result([{n: r[o] for o, n in names} for r in db.rows if r["visitId"] == v])

        return NS(connect=lambda *a, **k: Conn(), Row=object())

    def file(self, path):
        con = sqlite3.connect(path)
        con.execute("CREATE TABLE observations (%s)" % ", ".join(COLS))
        for r in self.rows:
            con.execute("INSERT INTO observations VALUES (%s)" % ",".join("?" * len(COLS)), [r[k] for k in COLS])
        con.commit()
        con.close()
        return path


def kdtree(c):
    class Tree:
        def __init__(self, data, *a, **k):
            self.data = [(float(p[0]), float(p[1])) for p in data]

        def query(self, x, k=1, **kw):
            assert not kw, "unsupported cKDTree.query options"
            return None, np.array([self.near(p, k) for p in x]).reshape(-1, k)

        def near(self, p, k):
            """the k nearest; |p-a|^2 - |p-b|^2 is linear in p"""
            x, y = p[0], p[1]
            d = [a * a + b * b - 2 * a * x - 2 * b * y for a, b in self.data]
            left = list(range(len(d)))
            got = []
            for _ in range(k):
                for i in left[:-1]:
                    if c.And(*[d[i] <= d[j] for j in left if j != i]):
                        break
                else:
                    i = left[-1]
                got.append(i)
                left.remove(i)
            return got

    return Tree


def polygon(c):
    class Polygon:
        def __init__(self, corners):
            p = [(float(a), float(b)) for a, b in corners]
            if p[0] == p[-1]:
                p = p[:-1]
            a = sum(p[i][0] * p[(i + 1) % len(p)][1] - p[i][1] * p[(i + 1) % len(p)][0] for i in range(len(p)))
            if a < 0:
                p = p[::-1]
            for i in range(len(p)):
                (x0, y0), (x1, y1), (x2, y2) = p[i], p[(i + 1) % len(p)], p[(i + 2) % len(p)]
                assert (x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1) > 0, "outline is not convex"
            self.p = p

        def contains(self, pt):
            return bool(c.And(*[k > 0 for k in crosses(self.p, pt.x, pt.y)]))

    class Point:
        def __init__(self, xy, y=None):
            self.x, self.y = (xy[0], xy[1]) if y is None else (xy, y)

    return Polygon, Point


class Setup:
    def __init__(self, c, visits):
        self.c, self.db = c, DB(c, visits)

    def __enter__(self):
        c = self.c
        if c.mode == "sym":
            P, Q = polygon(c)
            self.cm = patched((M, "sqlite3", self.db.sqlite()), (M, "cKDTree", kdtree(c)), (M, "Polygon", P), (M, "Point", Q))
            self.cm.__enter__()
            self.path = "visits.db"
        else:
            self.cm = scratch()
            self.path = self.db.file(os.path.join(self.cm.__enter__(), "visits.db"))
        return self.path

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


def wrap(x):
    """RA as the ephemeris reports it"""
    if x < 0:
        return x + 360
    if x >= 360:
        return x - 360
    return x


def inside(c, ccd, x, y, tol=0.0):
    """inside the outline, by more than tol"""
    return c.And(*[k > tol for k in crosses(ccd[0], x, y)])


FIELDS = {"mid": 100.0, "low": 0.125, "high": 359.875, "far-low": 1.75, "far-high": 358.25}
LAY = [("single", "mid"), ("grid", "low"), ("grid", "high"), ("rotgrid", "mid"), ("decam0", "mid"), ("decam51", "high"), ("decam65", "low"), ("wide", "far-low"), ("wide", "far-high"), ("wide", "mid")]


@harness(cases=[dict(name=n, field=f) for n, f in LAY], thorough=[dict(name=n, field=f) for n in ("single", "grid", "rotgrid", "decam0", "decam51", "decam60", "decam65", "wide") for f in FIELDS], max_paths=20000, job_s=420)
def position(c, name, field):
    """one detection anywhere around a camera: on a CCD <=> kept, and with that CCD"""
    fra, fdec = FIELDS[field], -60.0
    ccds = [shift(k, fra, fdec) for k in layout(name)]
    xs = [p[0] for q, _ in ccds for p in q]
    ys = [p[1] for q, _ in ccds for p in q]
    x, y = c.real("ra", min(xs) - 0.3, max(xs) + 0.3), c.real("dec", min(ys) - 0.3, max(ys) + 0.3)
    lims = [c.real("lim%d" % i, 15, 30) for i in range(len(ccds))]
    df = frame(dict(FieldID=[7], fieldRA_deg=[fra], RA_deg=[wrap(x)], Dec_deg=[y]))
    with Setup(c, {7: [(k, 10 + i, lims[i]) for i, k in enumerate(ccds)], 8: [(shift(layout("single")[0], fra, fdec), 99, 5.0)]}) as path:
        got, det, lim = M.PPVisitsFootprint(df, Q, path, ephermers_buffer=1.5)
    c.prove(list(got) in ([], [0]) and len(det) == len(lim) == len(got), "at most once")
    if len(got):
        i = int(det[0]) - 10
        c.prove(0 <= i < len(ccds), "a CCD of this visit")
        c.prove(inside(c, ccds[i], x, y, -TOL), "lies inside the CCD it is reported on")
        c.prove(c.eq(lim[0], lims[i]), "carries the limiting magnitude of its CCD")
        c.reached("kept")
    else:
        c.prove(c.Not(c.Or(*[inside(c, k, x, y, TOL) for k in ccds])), "dropped although on a CCD")
        c.reached("dropped")


TABLES = [
    dict(fields=(7, 8), labels="range"),
    dict(fields=(8, 7), labels="range"),
    dict(fields=(7, 9), labels="range"),
    dict(fields=(7, 7), labels="range"),
    dict(fields=(8, 7, 8), labels="range"),
    dict(fields=(9, 9), labels="range"),
]


@harness(cases=TABLES, thorough=TABLES + [dict(fields=(7, 8, 7), labels="range"), dict(fields=(7, 8, 9), labels="range"), dict(fields=(8, 8, 7), labels="range")], max_paths=30000, job_s=420)
def table(c, fields, labels):
    """the whole filter: each detection against the CCDs of its own visit; nothing else changes"""
    n = len(fields)
    A1, A2 = shift(quad(0, 0, 0.5, 0.375), 40.0, 3.0), shift(quad(0.625, 0, 0.5, 0.375), 40.0, 3.0)
    B1 = shift(quad(0.25, 0.125, 0.5, 0.375), 40.0, 3.0)
    L = [c.real("lim%d" % i, 15, 30) for i in range(3)]
    visits = {7: [(A1, 10, L[0]), (A2, 11, L[1])], 8: [(B1, 10, L[2])], 12: [(shift(quad(0, 0, 5, 5), 40.0, 3.0), 55, 1.0)]}
    x = [c.real("x%d" % i, 39.5, 41.0) for i in range(n)]
    y = [c.real("y%d" % i, 2.75, 3.5) for i in range(n)]
    if fields == (7, 7):  # same visit twice: the second on or just off one CCD
        c.assume(c.And(x[1] >= 40.625, y[1] >= 3))
    cols = dict(rowid=list(range(n)), ObjID=["o%d" % (n - i) for i in range(n)], FieldID=list(fields), fieldRA_deg=[40.25] * n, RA_deg=x, Dec_deg=y, mag=[c.real("m%d" % i, 10, 30) for i in range(n)])
    conf = NS(fov=NS(camera_model="visits_footprint", visits_query=shipped(), circle_radius=None, fill_factor=None, footprint_edge_threshold=None), simulation=NS(ar_ang_fov=1.3, ar_fov_buffer=0.2))
    with Setup(c, visits) as path:
        out = A.PPApplyFOVFilter(frame(cols), conf, StubRngs(c), visits=path)
    ids = rowids(out)
    c.prove(ids == sorted(set(ids)), "order, each once")
    c.prove(set(out.columns) == set(cols) | {"detectorID", "limMag_perChip"}, "columns")
    for i, f in enumerate(fields):
        on = [(k, det, lim) for k, det, lim in visits.get(f, [])]
        if i in ids:
            p = ids.index(i)
            det = int(out["detectorID"].iloc[p])
            hit = [(w, lim) for w, d, lim in on if d == det]
            c.prove(len(hit) == 1, "on a CCD of its own visit")
            if len(hit) == 1:
                c.prove(inside(c, hit[0][0], x[i], y[i], -TOL), "inside the CCD it is reported on")
                c.prove(c.eq(out["limMag_perChip"].iloc[p], hit[0][1]), "limiting magnitude of its CCD")
            for k in cols:
                v = out[k].iloc[p]
                c.prove(v == cols[k][i] if isinstance(cols[k][i], (str, int)) else c.eq(v, cols[k][i]), "values")
            c.reached("kept")
        else:
            c.prove(c.Not(c.Or(False, False, *[inside(c, k, x[i], y[i], TOL) for k, _, _ in on])), "dropped although on a CCD of its visit")
