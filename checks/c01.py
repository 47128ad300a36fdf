"""C01: SSP linking."""
import itertools

import numpy as np

from lib.harness import harness, frame, patched
from lib.env import arr, separation
from sorcha.modules import PPMiniDifi as M
from sorcha.modules import PPLinkingFilter as L

BOUNDS = "tracklets: 1-3 detections in one night, every time, sky position, separation and duration limit, 1-3 detections needed; 5-6 detections of a slow object with every time and duration limit and every number of steps needed; windows: up to 4 nights with symbolic gaps, window 1-4 nights, 1-4 tracklets needed; whole filter: 2-4 detections of up to two interleaved objects in any row order, every time within 3-4 nights, night start symbolic"
OUTSIDE = "more detections or nights; linking efficiency below one (random); simultaneous detections of one object when more than two are required per night; positions in the whole-filter harnesses are drawn from a fixed set"
ASSUMPTIONS = ["the efficiency draw lies in [0,1)", "no detection is taken within 0.1 day of the night boundary (the code stops the run otherwise)"]


def tracklet_oracle(c, ts, sep, maxdt, minlen, mo):
    """ts sorted; sep(i,j) in degrees; some pair far enough apart, soon enough, spanning at least mo detections"""
    n = len(ts)
    if n < mo:
        return False
    if mo == 1:
        return True
    return c.Or([c.And(ts[j] - ts[i] > 0, (ts[j] - ts[i]) * 1440 < maxdt, sep(i, j) * 3600 > minlen)
                 for i in range(n) for j in range(i + 1, n) if j - i + 1 >= mo])


@harness(cases=[dict(n=n, mo=mo) for n in (0, 1, 2) for mo in (1, 2)] + [dict(n=3, mo=mo) for mo in (1, 2, 3)],
         thorough=[dict(n=n, mo=mo) for n in (0, 1, 2, 3) for mo in (1, 2, 3)] + [dict(n=4, mo=mo) for mo in (2, 3, 4)], job_s=420)
def tracklet(c, n, mo):
    ts = []
    for i in range(n):
        t = c.real("t%d" % i, 0, 1)
        if i:
            c.assume(t > ts[-1] if mo > 2 else t >= ts[-1])
        ts.append(t)
    ts = [t + 60000 for t in ts]
    if n <= 2:
        ra = [c.real("ra%d" % i, 0, 360) for i in range(n)]
        dec = [c.real("dec%d" % i, -90, 90) for i in range(n)]
    else:
        pos = [c.choose("p%d" % i, [(10.0, 5.0), (10.001, 5.0), (10.0, 5.003)][: i + 1]) for i in range(n)]
        ra, dec = [p[0] for p in pos], [p[1] for p in pos]
    maxdt, minlen = c.real("maxdt", 0, 1440), c.real("minlen", 0, 3600)
    sep = lambda i, j: separation(c, ra[j], dec[j], ra[i], dec[i])
    if n > 2:
        sep = lambda i, j: sepc(pos[i], pos[j])
        for i, j in itertools.combinations(range(n), 2):
            d = sep(i, j) * 3600 - minlen
            c.assume(c.Or(d > 1e-6, d < -1e-6))
    got = M.hasTracklet(arr(ts), arr(ra), arr(dec), maxdt, minlen, mo)
    c.prove(c.Iff(got, tracklet_oracle(c, ts, sep, maxdt, minlen, mo)), "tracklet")


LINE = [(10.0 + 0.0001 * k, 5.0) for k in range(8)]  # 0.36 arcsec steps


@harness(cases=[dict(n=5, mo=2), dict(n=6, mo=2), dict(n=5, mo=4), dict(n=6, mo=6)],
         thorough=[dict(n=n, mo=mo) for n in (5, 6, 7) for mo in (2, 3, n - 1, n)], job_s=420)
def crowded_night(c, n, mo):
    """many detections of a slow object in one night: pairs any number of detections apart"""
    t = c.real("t0", 0, 0.1)
    ts = [60000 + t]
    for i in range(1, n):
        ts.append(ts[-1] + c.real("dt%d" % i, c.frac(1, 1000), 0.1))
    maxdt = c.real("maxdt", 0, 1440)
    k = c.choose("needs", list(range(n)))  # how many steps of 0.36 arcsec are not enough
    minlen = (k + 0.5) * 0.36 * np.cos(np.radians(5.0))
    sep = lambda i, j: sepc(LINE[i], LINE[j])
    got = M.hasTracklet(arr(ts), arr([p[0] for p in LINE[:n]]), arr([p[1] for p in LINE[:n]]), maxdt, minlen, mo)
    want = tracklet_oracle(c, ts, sep, maxdt, minlen, mo)
    c.prove(c.Iff(got, want), "tracklet")
    if got:
        c.reached("tracklet")


@harness(cases=[dict(n=n, w=w) for n in (1, 2, 3) for w in (1, 2, 3)] + [dict(n=4, w=3), dict(n=3, w=15)], thorough=[dict(n=n, w=w) for n in (1, 2, 3, 4) for w in (1, 2, 3, 4, 15)], job_s=420)
def window(c, n, w):
    nights, nl = [60000], c.choose("nlink", [1, 2, 3, 4][: n + 1])
    for k in range(1, n):
        nights.append(nights[-1] + c.choose("gap%d" % k, sorted({1, 2, w - 1, w, w + 1} - {0})))
    has = [bool(c.bool("has%d" % k)) for k in range(n)]
    idx, disc = M.discoveryOpportunities(np.array(nights), np.array(has), w, nl, 1.0, np.random.default_rng(5))
    ok = [sum(has[j] for j in range(k + 1) if nights[j] > nights[k] - w) >= nl for k in range(n)]
    first = next((nights[k] for k in range(n) if ok[k]), None)
    if first is None:
        c.prove(idx == -1, "not-discoverable")
    else:
        c.prove(idx >= 0, "discoverable")
        c.prove(idx >= 0 and int(disc[idx]) == first, "first-night")
        c.reached("discoverable")


POS = [(10.0, 5.0), (10.0001, 5.0), (10.1, 5.0), (200.0, -60.0)]


def sepc(p, q):
    """concrete great-circle distance, degrees"""
    r1, d1, r2, d2 = np.radians([p[0], p[1], q[0], q[1]])
    v = [np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)]) for r, d in ((r1, d1), (r2, d2))]
    return float(np.degrees(np.arctan2(np.linalg.norm(np.cross(*v)), v[0] @ v[1])))


def oracle(c, nights, ph, pos, cfg):
    """first discoverable night of one object, or None (nights, order and pair tests are decided branch by branch)"""
    mo, nl, w, maxdt, minlen = cfg
    good = []
    for k in sorted(set(nights)):
        idx = [i for i in range(len(nights)) if nights[i] == k]
        if len(idx) < mo:
            continue
        if mo == 1:
            good.append(k)
            continue
        ok = False
        for i, j in itertools.permutations(idx, 2):
            if sepc(pos[i], pos[j]) * 3600 <= minlen:
                continue
            dt = ph[j] - ph[i]
            if bool(dt > 0) and bool(dt < maxdt):
                if mo == 2:
                    ok = True
                else:
                    ok = ok or 2 + sum(1 for q in idx if q not in (i, j) and bool(ph[q] > ph[i]) and bool(ph[q] < ph[j])) >= mo
        if ok:
            good.append(k)
    for k in good:
        if sum(1 for q in good if k - w < q <= k) >= nl:
            return k
    return None


def times(c, n, N, ns):
    ks, ph, t = [], [], []
    for i in range(n):
        k = c.choose("night%d" % i, list(range(N)))
        p = c.real("ph%d" % i, 0.11, 0.89)
        ks.append(k)
        ph.append(p)
        t.append(60000 + ns / 24 + k + p)
    return ks, ph, t


CASES = [
    dict(who="aa", pos=(0, 2), mo=1, nl=2, w=2, N=4),
    dict(who="aa", pos=(0, 2), mo=1, nl=2, w=3, N=4),
    dict(who="aa", pos=(0, 2), mo=2, nl=1, w=1, N=2),
    dict(who="aa", pos=(0, 1), mo=2, nl=1, w=2, N=2),
    dict(who="ab", pos=(0, 2), mo=2, nl=1, w=1, N=2),
    dict(who="aba", pos=(0, 1, 2), mo=2, nl=1, w=1, N=2),
    dict(who="aba", pos=(0, 2, 3), mo=1, nl=2, w=2, N=3),
    dict(who="bab", pos=(0, 2, 3), mo=1, nl=2, w=2, N=3, drop=False),
    dict(who="aaa", pos=(0, 2, 3), mo=3, nl=1, w=1, N=2),
    dict(who="aaa", pos=(0, 1, 2), mo=2, nl=1, w=2, N=2),
    dict(who="aaa", pos=(0, 2, 3), mo=1, nl=3, w=3, N=4),
    dict(who="baab", pos=(0, 0, 2, 2), mo=2, nl=1, w=1, N=1, drop=False),
    dict(who="abab", pos=(0, 0, 2, 2), mo=2, nl=1, w=1, N=1),
]
DEEP = [
    dict(who="aaaa", pos=(0, 2, 0, 2), mo=2, nl=2, w=2, N=3),
    dict(who="aaaa", pos=(0, 0, 2, 3), mo=2, nl=2, w=2, N=2),
    dict(who="abab", pos=(0, 0, 2, 2), mo=1, nl=2, w=2, N=3),
    dict(who="aaaa", pos=(0, 2, 3, 0), mo=1, nl=3, w=3, N=4),
    dict(who="aaaa", pos=(0, 2, 3, 0), mo=3, nl=1, w=1, N=2),
    dict(who="bbaa", pos=(0, 2, 3, 0), mo=2, nl=1, w=2, N=2, drop=False),
]


@harness(cases=CASES + DEEP[:2], thorough=CASES + DEEP, job_s=420)
def linking(c, who, pos, mo, nl, w, N, drop=True):
    """the whole filter; object names of different length, interleaved, rows in any time order"""
    n = len(who)
    names = {"a": "S1_a", "b": "S1_bb9"}
    ns = c.real("night_start_utc", 0, 24)
    ks, ph, t = times(c, n, N, ns)
    for i in range(n):
        for j in range(i):
            if who[i] == who[j] and ks[i] == ks[j] and mo > 2:
                c.assume(c.Not(c.eq(ph[i], ph[j])))
    cols = dict(
        rowid=list(range(n)),
        ObjID=[names[x] for x in who],
        FieldID=[100 + i for i in range(n)],
        fieldMJD_TAI=t,
        RA_deg=[POS[p][0] for p in pos],
        Dec_deg=[POS[p][1] for p in pos],
        extra=[c.real("x%d" % i, 0, 1) for i in range(n)],
    )
    maxdt = c.real("maximum_time", 0.01, 0.7)
    minlen = 0.5
    out = L.PPLinkingFilter(frame(cols), 1.0, mo, nl, w, minlen, maxdt, ns, drop_unlinked=drop)
    first = {}
    for x in sorted(set(who)):
        idx = [i for i in range(n) if who[i] == x]
        first[x] = oracle(c, [ks[i] for i in idx], [ph[i] for i in idx], [POS[pos[i]] for i in idx], (mo, nl, w, maxdt, minlen))
        if first[x] is not None:
            c.reached("linked")
    ids = [int(v) for v in out["rowid"].tolist()]
    c.prove(len(set(ids)) == len(ids), "no-duplicates")
    want = sorted(i for i in range(n) if first[who[i]] is not None or not drop)
    c.prove(sorted(ids) == want, "linked-iff-linkable")
    for p, i in enumerate(ids):
        x = who[i]
        c.prove(bool(out["object_linked"].iloc[p]) == (first[x] is not None), "flag")
        d = out["date_linked_MJD"].iloc[p]
        if first[x] is None:
            c.prove(d != d, "date-absent")
        else:
            c.prove(c.eq(d, 60000 + first[x]), "date")
        for k in cols:
            v = out[k].iloc[p]
            c.prove(v == cols[k][i] if isinstance(cols[k][i], str) else c.eq(v, cols[k][i]), "values")


@harness()
def empty_table(c):
    cols = dict(ObjID=["a"], FieldID=[1], fieldMJD_TAI=[60000.5 + c.real("t", 0, 0.1)], RA_deg=[1.0], Dec_deg=[1.0])
    out = L.PPLinkingFilter(frame(cols), 1.0, 2, 1, 1, 0.5, 0.06, 0.0)
    c.prove(len(out) == 0, "single-detection")
