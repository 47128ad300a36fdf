"""C05: camera footprint."""
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np
import pandas as pd

from lib.harness import harness, frame, patched
from lib.env import StubRngs, arr, rowids
from lib.sym import is_sym
from sorcha.modules import PPFootprintFilter as M
from sorcha.modules import PPApplyFOVFilter as A

EPS = 1e-11
BOUNDS = "projection: 1 detection, every position within 90 deg of every pointing (poles excluded), every rotation; detectors: every focal-plane point against concrete convex quadrilaterals (rectangles, rotated, trapezoid, kite) and built-in LSST/DES CCDs, every edge threshold; tables of up to 3 detections on cameras of up to 3 CCDs read from a file with shuffled corners"
OUTSIDE = "detector outlines beyond the listed ones (thorough: every built-in CCD); detectors that overlap; positions 90 deg or more from the pointing (the tangent plane does not exist there)"
ASSUMPTIONS = ["corner coordinates in the camera file are the angles whose tangent-plane projection the code documents", "area tolerance 1e-11"]


def tangent(c, ra, dec, fra, fdec, rot):
    """gnomonic projection about (fra, fdec) followed by a rotation by rot; radians"""
    d = ra - fra
    k = c.sin(fdec) * c.sin(dec) + c.cos(fdec) * c.cos(dec) * c.cos(d)
    x = c.cos(dec) * c.sin(d) / k
    y = (c.cos(fdec) * c.sin(dec) - c.sin(fdec) * c.cos(dec) * c.cos(d)) / k
    return x * c.cos(rot) - y * c.sin(rot), x * c.sin(rot) + y * c.cos(rot)


def angles(c, i=""):
    ra, fra = c.real("ra%s" % i, 0, 2 * np.pi), c.real("fra%s" % i, 0, 2 * np.pi)
    dec, fdec = c.real("dec%s" % i, -1.57, 1.57), c.real("fdec%s" % i, -1.57, 1.57)
    c.assume_pos(c.cos(fdec))
    d = ra - fra
    c.assume_pos(c.sin(fdec) * c.sin(dec) + c.cos(fdec) * c.cos(dec) * c.cos(d))
    return ra, dec, fra, fdec


@harness(cases=[dict(n=1), dict(n=2)], job_s=420)
def projection(c, n):
    P = [angles(c, i) + (c.real("rot%d" % i, -7, 7),) for i in range(n)]
    x, y = M.radec_to_focal_plane(*(arr(list(v)) for v in zip(*P)))
    for i in range(n):
        wx, wy = tangent(c, *P[i])
        t = 0.0 if c.mode == "sym" else 1e-9 * (1 + abs(wx) + abs(wy))
        c.prove(c.eq(x[i], wx, t), "x")
        c.prove(c.eq(y[i], wy, t), "y")


SHAPES = {
    "square": [(-0.002, -0.002), (0.002, -0.002), (0.002, 0.002), (-0.002, 0.002)],
    "rect": [(0.010, -0.003), (0.018, -0.003), (0.018, 0.001), (0.010, 0.001)],
    "rot": [(0.000, -0.004), (0.004, 0.000), (0.000, 0.004), (-0.004, 0.000)],
    "trap": [(-0.020, 0.010), (-0.012, 0.010), (-0.014, 0.013), (-0.017, 0.013)],
    "kite": [(0.030, -0.001), (0.036, 0.0005), (0.031, 0.003), (0.0295, 0.0015)],
    "unordered": [(0.010, -0.003), (0.018, 0.001), (0.010, 0.001), (0.018, -0.003)],
    "cw": [(-0.002, 0.002), (0.002, 0.002), (0.002, -0.002), (-0.002, -0.002)],
}


def ccw(pts):
    """focal plane corners, counter-clockwise"""
    p = [(np.tan(a), np.tan(b) / np.cos(a)) for a, b in pts]
    cx, cy = sum(q[0] for q in p) / 4, sum(q[1] for q in p) / 4
    return sorted(p, key=lambda q: np.arctan2(q[1] - cy, q[0] - cx))


def crosses(poly, x, y):
    n = len(poly)
    return [(poly[i][0] - x) * (poly[(i + 1) % n][1] - y) - (poly[(i + 1) % n][0] - x) * (poly[i][1] - y) for i in range(n)]


def spill(c, poly, x, y):
    """twice the area of the triangles the point forms with the edges it is outside of"""
    return sum(c.max(-k, 0.0) for k in crosses(poly, x, y))


def seg2(c, p, q, x, y):
    """squared distance of (x, y) from the segment p q"""
    dx, dy = float(q[0] - p[0]), float(q[1] - p[1])
    l2 = dx * dx + dy * dy
    t = ((x - p[0]) * dx + (y - p[1]) * dy) / l2
    t = c.min(c.max(t, 0.0), 1.0)
    ex, ey = x - p[0] - t * dx, y - p[1] - t * dy
    return ex * ex + ey * ey


def detector(pts, units="radians"):
    d = M.Detector(np.array(pts, dtype=float).T, 7)
    d.sortCorners()
    return d


def box(poly, f=2.0):
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    return (float(min(xs) - f * w), float(max(xs) + f * w)), (float(min(ys) - f * h), float(max(ys) + f * h))


def _ccds(which, ids=None):
    d = pd.read_csv(os.path.join(os.path.dirname(M.__file__), "data", {"lsst": "LSST_detector_corners_100123.csv", "des": "DES_ccd_corners.csv"}[which]))
    out = []
    for k in d.detector.unique():
        s = d[d.detector == k]
        out.append([(float(a), float(b)) for a, b in zip(s.x, s.y)])
    return out


LS = [dict(shape="lsst", k=k) for k in (0, 94, 188)] + [dict(shape="des", k=k) for k in (0, 60)]


@harness(cases=[dict(shape=s, n=1) for s in SHAPES] + [dict(shape="rect", n=2)] + LS,
         thorough=[dict(shape=s, n=n) for s in SHAPES for n in (1, 2)] + [dict(shape="lsst", k=k) for k in range(189)] + [dict(shape="des", k=k) for k in range(61)], job_s=420)
def on_detector(c, shape, n=1, k=None):
    """every point of the plane: inside the outline <=> returned"""
    pts = SHAPES[shape] if k is None else _ccds(shape)[k]
    poly = ccw(pts)
    far = c.choose("far", [False, True]) if n == 1 else False
    bx, by = box(poly, 60.0 if far else 2.0)
    P = [(c.real("x%d" % i, *bx), c.real("y%d" % i, *by)) for i in range(n)]
    got = detector(pts).ison(np.array([arr([p[0] for p in P]), arr([p[1] for p in P])]))
    got = [int(g) for g in got]
    c.prove(got == sorted(set(got)), "each-once")
    for i, (x, y) in enumerate(P):
        if i in got:
            c.prove(spill(c, poly, x, y) <= 2 * EPS, "outside-not-kept")
            c.reached("inside")
        else:
            c.prove(c.Or([q < 1e-16 for q in crosses(poly, x, y)]), "inside-kept")


@harness(cases=[dict(shape=s) for s in ("square", "rot", "kite")],
         thorough=[dict(shape=s) for s in SHAPES] + [dict(shape="lsst", k=k) for k in range(0, 189, 7)], job_s=420, timeout_ms=60000)
def edge_threshold(c, shape, k=None):
    """with a threshold in arcsec: kept <=> inside and farther than that from every edge"""
    pts = SHAPES[shape] if k is None else _ccds(shape)[k]
    poly = ccw(pts)
    bx, by = box(poly, 0.1)
    x, y = c.real("x", *bx), c.real("y", *by)
    thr = c.real("thr", 0.01, 400)
    got = [int(g) for g in detector(pts).ison(np.array([arr([x]), arr([y])]), edge_thresh=thr)]
    t = thr / 3600 * c.pi / 180
    n = len(poly)
    D = [seg2(c, poly[i], poly[(i + 1) % n], x, y) for i in range(n)]
    if got:
        c.prove(spill(c, poly, x, y) <= 2 * EPS, "outside-not-kept")
        for d in D:
            c.prove(d > t * t * (1 - 1e-4), "near-edge-not-kept")
        c.reached("kept")
    else:
        c.prove(c.Or([q < 1e-16 for q in crosses(poly, x, y)] + [d <= t * t * (1 + 1e-4) for d in D]), "interior-kept")


# ------------------------------------------------------------------------------------------- tables
CAMERA = [("D7", SHAPES["square"]), ("D3", SHAPES["rect"]), ("D5", SHAPES["trap"])]


def write_camera(d, order):
    """corner file: CCDs contiguous or interleaved, names not in numeric order, corners shuffled"""
    rows = []
    for name, pts in CAMERA:
        rows += [(name, pts[i]) for i in (2, 0, 3, 1)]
    if order == "interleaved":
        rows = [rows[4 * (j % 3) + j // 3] for j in range(12)]
    p = os.path.join(d, "cam.csv")
    with open(p, "w") as f:
        f.write("detector,x,y\n")
        for n, (x, y) in rows:
            f.write("%s,%.17g,%.17g\n" % (n, x, y))
    return p


def plane(c, n, few=False):
    """stand-in for the projection: any focal-plane position; records what it was asked for"""
    calls = []
    yr = (-0.0009, -0.0008) if few else (-0.006, 0.015)
    P = [(c.real("x%d" % i, -0.025, 0.022), c.real("y%d" % i, *yr)) for i in range(n)]

    def stub(ra, dec, field_ra, field_dec, field_rot):
        calls.append([list(np.asarray(v, dtype=object)) for v in (ra, dec, field_ra, field_dec, field_rot)])
        return arr([p[0] for p in P]), arr([p[1] for p in P])

    return P, calls, stub


def table(c, n, gap, rot=True):
    cols = dict(
        rowid=list(range(n)),
        FieldID=[3 + i for i in range(n)],
        RA_deg=[c.real("ra%d" % i, 0, 360) for i in range(n)],
        Dec_deg=[c.real("dec%d" % i, -90, 90) for i in range(n)],
        fieldRA_deg=[c.real("fra%d" % i, 0, 360) for i in range(n)],
        fieldDec_deg=[c.real("fdec%d" % i, -89, 89) for i in range(n)],
        PSFMag=[c.real("m%d" % i, 10, 30) for i in range(n)],
    )
    if rot:
        cols["fieldRotSkyPos_deg"] = [c.real("rot%d" % i, 0, 360) for i in range(n)]
    return cols, frame(cols, index=[5 * i + 2 for i in range(n)] if gap else None)


@harness(cases=[dict(n=1, gap=g, order=o, rot=r, thr=t) for g, o, r, t in [(False, "block", True, False), (True, "interleaved", True, False), (True, "interleaved", False, True), (False, "block", True, True)]]
         + [dict(n=2, gap=g, order="interleaved", rot=True, thr=False, few=True) for g in (False, True)]
         + [dict(n=0, gap=False, order="block", rot=True, thr=False)],
         thorough=[dict(n=1, gap=g, order=o, rot=r, thr=t) for g in (False, True) for o in ("block", "interleaved") for r in (True, False) for t in (False, True)]
         + [dict(n=n, gap=g, order="interleaved", rot=True, thr=False, few=True) for n in (2, 3) for g in (False, True)]
         + [dict(n=2, gap=True, order="block", rot=True, thr=False)], job_s=420)
def camera_table(c, n, gap, order, rot, thr, few=False):
    """camera file to table: right rows, right detector numbers, right coordinates handed to the projection"""
    d = tempfile.mkdtemp()
    try:
        fp = M.Footprint(write_camera(d, order), "rubin_sim")
    finally:
        shutil.rmtree(d)
    cols, df = table(c, n, gap, rot)
    P, calls, stub = plane(c, n, few)
    edge = 2.0 if thr else None
    cfg = NS(fov=NS(camera_model="footprint", footprint_edge_threshold=edge), simulation=NS(ar_ang_fov=2.1, ar_fov_buffer=0.2))
    with patched((M, "radec_to_focal_plane", stub)):
        out = A.PPApplyFOVFilter(df, cfg, StubRngs(c), footprint=fp)
    if not calls:
        # the projection helper is no longer used: nothing can be said about made-up plane positions
        c.prove(n == 0 or projected_directly(c, fp), "projection")
        return
    for i in range(n):
        want = [c.rad(cols[k][i]) for k in ("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg")] + [c.rad(cols["fieldRotSkyPos_deg"][i]) if rot else 0.0]
        for a, b in zip(calls[0], want):
            c.prove(c.eq(a[i], b, 1e-12), "own-coordinates")
    t = 2.0 / 3600 * np.pi / 180 if thr else 0.0
    ids = rowids(out)
    c.prove(ids == sorted(set(ids)), "order-once")
    polys = [ccw(p) for _, p in CAMERA]
    for i, (x, y) in enumerate(P):
        if i in ids:
            k = int(out["detectorID"].iloc[ids.index(i)])
            c.prove(0 <= k < 3 and spill(c, polys[k], x, y) <= 2 * EPS, "detector-contains")
            if thr and 0 <= k < 3:
                for j in range(4):
                    c.prove(seg2(c, polys[k][j], polys[k][(j + 1) % 4], x, y) > t * t * (1 - 1e-4), "near-edge-not-kept")
            c.reached("detector %d" % k)
        else:
            for p in polys:
                near = [seg2(c, p[j], p[(j + 1) % 4], x, y) <= t * t * (1 + 1e-4) for j in range(4)] if thr else []
                c.prove(c.Or([q < 1e-16 for q in crosses(p, x, y)] + near), "inside-kept")
    for pos, i in enumerate(ids):
        for k in cols:
            c.prove(c.eq(out[k].iloc[pos], cols[k][i]), "values")


def projected_directly(c, fp):
    """fallback when the projection helper is not called: one known position per detector"""
    for k, (x, y) in enumerate([(0.0, 0.0), (0.014, -0.001), (-0.016, 0.011)]):
        df = pd.DataFrame(dict(FieldID=[1], RA_deg=[np.degrees(x) % 360], Dec_deg=[np.degrees(np.arctan(y * np.cos(x)))], fieldRA_deg=[0.0], fieldDec_deg=[0.0], fieldRotSkyPos_deg=[0.0]))
        got, det = fp.applyFootprint(df)
        if list(got) != [0] or list(det) != [k]:
            return False
    return True


@harness(cases=[dict(which=w) for w in ("lsst", "des")], job_s=420)
def builtin_camera(c, which):
    """the built-in cameras: a point of any CCD is found on that CCD and on no other"""
    polys = [ccw(p) for p in _ccds(which)]
    fp = M.Footprint(None, {"lsst": "rubin_sim", "des": "DES"}[which])
    c.prove(len(fp.detectors) == len(polys), "detector-count")
    ks = list(range(0, len(polys), 12))
    k = c.choose("k", ks)
    (x0, x1), (y0, y1) = box(polys[k], 0.0)
    x, y = c.real("x", x0, x1), c.real("y", y0, y1)
    for q in crosses(polys[k], x, y):
        c.assume(q > 1e-9)
    pt = np.array([arr([x]), arr([y])])
    for j, det in enumerate(fp.detectors):
        got = len(det.ison(pt)) == 1
        c.prove(got == (j == k), "own-ccd-only")
