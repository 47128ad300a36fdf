"""C26: DES discovery criteria, distance cut and motion cut."""
from lib.harness import harness, frame
from lib.env import rowids
from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut

BOUNDS = "discovery: objects of 1-10 detections on 1-9 nights (with repeated nights), every gap between nights and every time within the night, heliocentric distances on either side of 50 au and symbolic ones, two interleaved objects, several row orders; cuts: <=3 detections of <=2 objects, every position, rate and bound"
OUTSIDE = "numba compilation (the bodies run as Python while symbolic, compiled on replay); distances and rates within 1e-6 of a bound"
ASSUMPTIONS = ["all detections of a night lie within 0.29 days and nights are at least one day apart"]

AU = (149597870700, 1000)  # km
VEC = ("Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km")


def au(c):
    return c.frac(*AU)


def nights(c, pattern, tag=""):
    """times of the detections, night by night: pattern = detections in each night"""
    base = 59000 + c.real("base" + tag, 0, 1)
    out = []
    for k, m in enumerate(pattern):
        if k:
            base = base + c.real("gap%s%d" % (tag, k), 1, 2000)
        offs = [0] if m == 1 else [c.real("off%s%d_%d" % (tag, k, j), 0, c.frac(29, 100)) for j in range(m)]
        for a, b in zip(offs, offs[1:]):
            c.assume(a <= b)
        out.append([base + o for o in offs])
    return out


def discovered(c, nts, window):
    """(surely discovered, surely not discovered)"""
    n = len(nts)
    if n >= 9:
        return True, False
    if n < 7:
        return False, True
    first = [x[0] for x in nts]
    last = [x[-1] for x in nts]
    half = c.frac(182625, 1000)
    arc = c.And(last[-1] - first[1] > half, last[-2] - first[0] > half)
    yes = c.Or(*[c.And(last[i + 1] - first[i] < window, last[i + 2] - first[i + 1] < window) for i in range(n - 2)])
    may = c.Or(*[c.And(first[i + 1] - last[i] < window, first[i + 2] - last[i + 1] < window) for i in range(n - 2)])
    return c.And(arc, yes), c.Not(c.And(arc, may))


def order(kind, n):
    i = list(range(n))
    if kind == "reversed":
        return i[::-1]
    if kind == "mixed":
        return i[1::2] + i[0::2][::-1]
    return i


def observations(c, rows, kind):
    idx = order(kind, len(rows))
    rows = [rows[i] for i in idx]
    cols = dict(
        rowid=list(range(len(rows))),
        ObjID=[r[0] for r in rows],
        fieldMJD_TAI=[r[1] for r in rows],
        optFilter=["r"] * len(rows),
    )
    for k in range(3):
        cols[VEC[k]] = [r[2][k] for r in rows]
    return cols, frame(cols)


def verdicts(c, cols, out, want, tag):
    """want: ObjID -> (surely kept, surely dropped); all detections of an object share its fate"""
    ids = rowids(out)
    c.prove(len(set(ids)) == len(ids), tag + ": a detection appears twice")
    for o in sorted(set(cols["ObjID"])):
        rows = [i for i, x in enumerate(cols["ObjID"]) if x == o]
        kept = [i for i in rows if i in ids]
        c.prove(len(kept) in (0, len(rows)), tag + ": only some detections of an object are kept")
        yes, no = want[o]
        if kept:
            c.prove(c.Not(no), tag + ": kept an object that does not meet the criteria")
        else:
            c.prove(c.Not(yes), tag + ": dropped an object that meets the criteria")
    same(c, cols, out, tag)


def same(c, cols, out, tag):
    c.prove(set(out.columns) == set(cols), tag + ": columns")
    for pos, i in enumerate(rowids(out)):
        for k in cols:
            v = out[k].iloc[pos]
            c.prove(v == cols[k][i] if isinstance(cols[k][i], (str, int)) else c.eq(v, cols[k][i]), tag + ": values")


def place(c, far):
    """a heliocentric position nearer or farther than 50 au"""
    d = c.choose("dist", ["near", "far"]) if far is None else ("far" if far else "near")
    r = {"near": c.frac(4999, 100), "far": c.frac(5001, 100)}[d] * au(c)
    return d == "far", (r * c.frac(36, 100), r * c.frac(-48, 100), r * c.frac(80, 100))


P6 = [(1,) * 6, (1, 2, 1, 1, 2, 1), (1,)]
P7 = [(1,) * 7, (2, 1, 1, 1, 1, 1, 1), (1, 1, 1, 2, 1, 1, 1), (1, 1, 1, 1, 1, 1, 3)]
P8 = [(1,) * 8, (1, 2, 1, 1, 1, 1, 1, 1)]
P9 = [(1,) * 9, (1, 1, 1, 1, 1, 1, 1, 1, 2)]
QUICK = (
    [dict(pattern=p, far=f, rows=r) for p, f, r in zip(P6, (0, 1, 0), ("sorted", "mixed", "sorted"))]
    + [dict(pattern=P7[0], far=0, rows="mixed"), dict(pattern=P7[0], far=1, rows="reversed")]
    + [dict(pattern=p, far=1, rows="sorted") for p in P7[1:]]
    + [dict(pattern=P8[0], far=0, rows="sorted"), dict(pattern=P8[1], far=1, rows="mixed")]
    + [dict(pattern=p, far=0, rows="mixed") for p in P9]
)


@harness(cases=QUICK, thorough=[dict(pattern=p, far=f, rows=r) for p in P6 + P7 + P8 + P9 for f in (0, 1) for r in ("sorted", "mixed", "reversed")], max_paths=20000)
def history(c, pattern, far, rows):
    nts = nights(c, pattern)
    isfar, pos = place(c, far)
    cols, df = observations(c, [("obj", t, pos) for x in nts for t in x], rows)
    out = DESDiscoveryFilter(df)
    verdicts(c, cols, out, {"obj": discovered(c, nts, 90 if isfar else 60)}, "discovery")


OTHERS = {
    "in": ([0, 10, 20, 200, 400, 600, 800], True),
    "triplet_late": ([0, 5, 300, 345, 395, 700, 1000], True),
    "arc": ([0, 1, 2, 3, 4, 5, 400], False),
    "six": ([0, 10, 20, 200, 400, 600], False),
    "nine": ([0, 1, 2, 3, 4, 5, 6, 7, 8], True),
}


@harness(
    cases=[dict(other=o, rows=r) for o, r in zip(OTHERS, ("sorted", "mixed", "reversed", "mixed", "sorted"))],
    thorough=[dict(other=o, rows=r) for o in OTHERS for r in ("sorted", "mixed", "reversed")],
    max_paths=20000,
)
def two_objects(c, other, rows):
    """one object with two free gaps and one fixed history, in one table"""
    g1, g2 = c.real("g1", 1, 500), c.real("g2", 1, 500)
    t, nts = 59000 + c.frac(1, 8), []
    for g in (0, 30, 400, g1, g2, 400, 30):
        t = t + g
        nts.append([t])
    days, kept = OTHERS[other]
    names = c.choose("names", [("a", "a_longer_name"), ("zz", "10"), ("10", "9")])
    isfar, pos = place(c, 0)
    _, near = place(c, 0)
    ra = [(names[0], x[0], pos) for x in nts]
    rb = [(names[1], 59000.0 + d, near) for d in days]
    cols, df = observations(c, [r for k in range(9) for q in (ra, rb) for r in q[k : k + 1]], rows)
    out = DESDiscoveryFilter(df)
    verdicts(c, cols, out, {names[0]: discovered(c, nts, 60), names[1]: (kept, not kept)}, "two objects")


def vector(c, tag, hi):
    return tuple(c.real("%s%s" % (ax, tag), -hi, hi) for ax in "xyz")


@harness(cases=[dict(row=r, others=o) for r in (0, 6) for o in ("near", "far")] + [dict(row=3, others="far")])
def window(c, row, others):
    """a history with a triplet of 75-day gaps counts only for objects always beyond 50 au"""
    days = [0, 75, 150, 400, 600, 800, 1000]
    v = vector(c, "", 10**10)
    d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    lim = 50 * au(c)
    c.assume(c.Or(d2 >= lim * lim * c.frac(1000001, 1000000), d2 <= lim * lim * c.frac(999999, 1000000)))
    _, fixed = place(c, others == "far")
    cols, df = observations(c, [("obj", 59000.0 + d, v if i == row else fixed) for i, d in enumerate(days)], "sorted")
    out = DESDiscoveryFilter(df)
    want = c.And(others == "far", d2 > lim * lim)
    verdicts(c, cols, out, {"obj": (want, c.Not(want))}, "window")


def clear(c, v2, lim):
    """the squared value is not within rounding of the bound"""
    c.assume(c.Or(v2 <= lim * lim * c.frac(999999, 1000000), v2 >= lim * lim * c.frac(1000001, 1000000), lim == 0))


LABELS = {"range": [0, 1, 2], "gaps": [5, 2, 9]}


@harness(cases=[dict(objs=o, labels=l) for o in (("a",), ("a", "b"), ("b", "a", "b")) for l in LABELS], max_paths=4000)
def distance(c, objs, labels):
    n = len(objs)
    rows = []
    lo, hi = c.real("lower", 0, 100), c.real("upper", 0, 100)
    d2 = []
    for i in range(n):
        v = [c.real("x%d" % i, -(10**10), 10**10), 0, 0] if i else list(vector(c, str(i), 10**10))
        if i:
            v = v[-i:] + v[:-i]
        rows.append((objs[i], 59000.0 + i, v))
        d2.append(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        clear(c, d2[i], lo * au(c))
        clear(c, d2[i], hi * au(c))
    cols, df = observations(c, rows, "sorted")
    df.index = LABELS[labels][:n]
    out = distance_cut(df, hi, lo)
    inside = [c.And(d2[i] < hi * hi * au(c) * au(c), d2[i] > lo * lo * au(c) * au(c)) for i in range(n)]
    want = {}
    for o in set(objs):
        w = c.Or(*[inside[i] for i in range(n) if objs[i] == o])
        want[o] = (w, c.Not(w))
    verdicts(c, cols, out, want, "distance cut")


@harness(cases=[dict(n=n, labels=l) for n in (1, 2, 3) for l in LABELS], max_paths=4000)
def motion(c, n, labels):
    lo, hi = c.real("lower", 0, 100), c.real("upper", 0, 100)
    ra = [c.real("ra%d" % i, -200, 200) if i < 2 else c.frac(3, 10) for i in range(n)]
    dec = [c.real("dec%d" % i, -200, 200) for i in range(n)]
    cols = dict(rowid=list(range(n)), ObjID=["a"] * n, RARateCosDec_deg_day=ra, DecRate_deg_day=dec)
    for i in range(n):
        clear(c, ra[i] * ra[i] + dec[i] * dec[i], lo)
        clear(c, ra[i] * ra[i] + dec[i] * dec[i], hi)
    out = motion_cut(frame(cols, index=LABELS[labels][:n]), hi, lo)
    ids = rowids(out)
    c.prove(ids == sorted(set(ids)), "motion cut: order")
    for i in range(n):
        m2 = ra[i] * ra[i] + dec[i] * dec[i]
        c.prove(c.Iff(i in ids, c.And(m2 < hi * hi, m2 > lo * lo)), "motion cut: keeps exactly the rates inside the bounds")
    same(c, cols, out, "motion cut")
