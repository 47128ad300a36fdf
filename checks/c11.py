"""C11: randomisation of astrometry and photometry."""
from types import SimpleNamespace as NS

from lib.harness import harness, frame
from lib.env import StubRngs, rowids, distinct, surely, arr
from sorcha.modules import PPRandomizeMeasurements as M

BOUNDS = "1-2 rows; RA in [0,360], Dec in [-90,90], astrometric sigma in [0,1] deg, magnitudes in [10,30], magnitude sigma in [0,2], normal draws in [-6,6]"
OUTSIDE = "floating-point rounding at RA wrap; the statistical quality of numpy's generator; correlated covariance matrices"
ASSUMPTIONS = ["normal draws are arbitrary reals in [-6,6]; the displaced vector is not the null vector (true for sigma<=1 deg)"]


def table(c, n, gap=True):
    cols = dict(
        rowid=list(range(n)),
        RA_deg=[c.real("ra%d" % i, 0, 360) for i in range(n)],
        Dec_deg=[c.real("dec%d" % i, -90, 90) for i in range(n)],
        astrometricSigma_deg=[c.real("asig%d" % i, 0, 1) for i in range(n)],
        trailedSourceMagTrue=[c.real("ts%d" % i, 10, 30) for i in range(n)],
        trailedSourceMagSigma=[c.real("tss%d" % i, 0, 2) for i in range(n)],
        PSFMagTrue=[c.real("psf%d" % i, 10, 30) for i in range(n)],
        PSFMagSigma=[c.real("psfs%d" % i, 0, 2) for i in range(n)],
        SNRPSFMag=[c.real("snr%d" % i, 0, 100) for i in range(n)],
        SNRTrailedSourceMag=[c.real("snrt%d" % i, 0, 100) for i in range(n)],
    )
    return cols, frame(cols, index=[2 * i + 1 for i in range(n)] if gap else None)


def position(c, ra, dec, ra0, dec0, sig, z, tag):
    """(ra,dec) is the direction of the true unit vector displaced by sig*z"""
    r0, d0 = c.rad(ra0), c.rad(dec0)
    u = [c.cos(d0) * c.cos(r0), c.cos(d0) * c.sin(r0), c.sin(d0)]
    v = [u[k] + c.rad(sig) * z[k] for k in range(3)]
    r = c.sqrt_(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    a, d = c.rad(ra), c.rad(dec)
    w = [c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]
    for k in range(3):
        c.prove(c.eq(w[k] * r, v[k], 1e-9), tag + ":displaced-direction")
    c.prove(c.And(ra >= 0, ra < 360), tag + ":ra-range")
    c.prove(c.And(dec >= -90 - 1e-9, dec <= 90 + 1e-9), tag + ":dec-range")


def nonnull(c, ra0, dec0, sig, z):
    r0, d0 = c.rad(ra0), c.rad(dec0)
    u = [c.cos(d0) * c.cos(r0), c.cos(d0) * c.sin(r0), c.sin(d0)]
    v = [u[k] + c.rad(sig) * z[k] for k in range(3)]
    c.assume_pos(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


@harness(cases=[dict(n=1, units=u) for u in ("deg", "mas", "rad")] + [dict(n=2, units="deg")])
def astrometry(c, n, units):
    cols, df = table(c, n)
    k = dict(deg=1, mas=3600000, rad=c.pi / 180)[units]
    if units != "deg":
        df["sig"] = frame(dict(x=[v * k for v in cols["astrometricSigma_deg"]]), index=df.index)["x"]
    r = StubRngs(c)
    zs = [[c.real("z_g0_%d" % (3 * i + j), -6, 6) for j in range(3)] for i in range(n)]
    for i in range(n):
        nonnull(c, cols["RA_deg"][i], cols["Dec_deg"][i], cols["astrometricSigma_deg"][i], zs[i])
    out = M.randomizeAstrometry(df, r, sigName="astrometricSigma_deg" if units == "deg" else "sig", sigUnits=units)
    c.prove(len(out) == n and rowids(out) == list(range(n)), "rows")
    c.prove(len(r.draws("normals")) == 3 * n, "three-draws-per-row")
    for i in range(n):
        g = lambda q: out[q].iloc[i]
        c.prove(c.eq(g("RATrue_deg"), cols["RA_deg"][i]), "true-ra-kept")
        c.prove(c.eq(g("DecTrue_deg"), cols["Dec_deg"][i]), "true-dec-kept")
        position(c, g("RA_deg"), g("Dec_deg"), cols["RA_deg"][i], cols["Dec_deg"][i], cols["astrometricSigma_deg"][i], zs[i], "astrometry")


@harness(cases=[dict(n=n) for n in (0, 1, 3)])
def photometry(c, n):
    cols, df = table(c, n)
    r = StubRngs(c)
    out = M.randomizePhotometry(df, r, magName="PSFMagTrue", sigName="PSFMagSigma")
    out = list(out)
    z = r.draws("normals")
    c.prove(len(z) == n and len(out) == n, "own-draw-per-row")
    opts = [[k for k in range(len(z)) if surely(c, c.eq(out[i], cols["PSFMagTrue"][i] + cols["PSFMagSigma"][i] * z[k], 1e-9))] for i in range(n)]
    c.prove(distinct(opts) is not None, "sigma-scaled-own-draw")


@harness(cases=[dict(n=n, trail=t, cut=k) for n in (1, 2) for t in (False, True) for k in (False, True)])
def everything(c, n, trail, cut):
    cols, df = table(c, n)
    r = StubRngs(c)
    cfg = NS(expert=NS(default_snr_cut=cut, trailing_losses_on=trail))
    # the displaced vector is never exactly on the polar axis (that case is covered by `astrometry`), whichever draws are used
    total = n * (3 + (2 if trail else 1))
    zz = [c.real("z_g0_%d" % k, -6, 6) for k in range(total)]
    for i in range(n):
        r0, d0 = c.rad(cols["RA_deg"][i]), c.rad(cols["Dec_deg"][i])
        u = [c.cos(d0) * c.cos(r0), c.cos(d0) * c.sin(r0), c.sin(d0)]
        s = c.rad(cols["astrometricSigma_deg"][i])
        for k0 in range(total - 2):
            v = [u[k] + s * zz[k0 + k] for k in range(3)]
            c.assume_pos(v[0] * v[0] + v[1] * v[1])
            c.assume_pos(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    out = M.randomizeAstrometryAndPhotometry(df, cfg, r)
    ids = rowids(out)
    c.prove(ids == sorted(set(ids)), "order")
    for i in range(n):
        c.prove(c.Iff(i in ids, (cols["SNRPSFMag"][i] > 2) if cut else True), "snr-cut-iff")
    z = r.draws("normals")
    m = len(ids)
    c.prove(len(z) == m * (3 + (2 if trail else 1)), "number-of-draws")
    opts = []
    for pos, i in enumerate(ids):
        g = lambda q: out[q].iloc[pos]
        tru, sig = cols["trailedSourceMagTrue"][i], cols["trailedSourceMagSigma"][i]
        opts.append([k for k in range(len(z)) if surely(c, c.eq(g("trailedSourceMag"), tru + sig * z[k], 1e-9))])
        if trail:
            tru, sig = cols["PSFMagTrue"][i], cols["PSFMagSigma"][i]
            opts.append([k for k in range(len(z)) if surely(c, c.eq(g("PSFMag"), tru + sig * z[k], 1e-9))])
        else:
            c.prove(c.eq(g("PSFMag"), g("trailedSourceMag")), "psf-equals-trailed")
        for k in cols:
            if k in ("rowid", "RA_deg", "Dec_deg"):
                continue
            c.prove(c.eq(g(k), cols[k][i]), "truth-unmodified")
        c.prove(c.eq(g("RATrue_deg"), cols["RA_deg"][i]), "true-ra-kept")
        c.prove(c.eq(g("DecTrue_deg"), cols["Dec_deg"][i]), "true-dec-kept")
    # astrometric draws: 3 per row
    for pos, i in enumerate(ids):
        g = lambda q: out[q].iloc[pos]
        ra, dec = c.rad(g("RA_deg")), c.rad(g("Dec_deg"))
        w = [c.cos(dec) * c.cos(ra), c.cos(dec) * c.sin(ra), c.sin(dec)]
        r0, d0 = c.rad(cols["RA_deg"][i]), c.rad(cols["Dec_deg"][i])
        u = [c.cos(d0) * c.cos(r0), c.cos(d0) * c.sin(r0), c.sin(d0)]
        s = c.rad(cols["astrometricSigma_deg"][i])
        found = []
        for k0 in range(0, len(z) - 2):
            v = [u[k] + s * z[k0 + k] for k in range(3)]
            nn = c.sqrt_(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
            if all(surely(c, c.eq(w[k] * nn, v[k], 1e-9)) for k in range(3)):
                found.append((k0, k0 + 1, k0 + 2))
        opts.append(found)
    # each measurement has its own draw(s), shared with no other measurement

    def flat(i, used):
        if i == len(opts):
            return True
        for o in opts[i]:
            t = set(o) if isinstance(o, tuple) else {o}
            if not (t & used) and flat(i + 1, used | t):
                return True
        return False

    c.prove(flat(0, set()), "independent-sigma-scaled-draws")
    c.prove(set(out.columns) == set(cols) | {"RATrue_deg", "DecTrue_deg", "trailedSourceMag", "PSFMag"}, "columns")


@harness(cases=[dict(deg=True), dict(deg=False)])
def coordinates(c, deg):
    """radec2icrf gives the unit vector of (ra,dec); icrf2radec recovers a direction parallel to its input"""
    k = 1 if deg else c.pi / 180
    ra, dec = c.real("ra", 0, 360), c.real("dec", -90, 90)
    v = M.radec2icrf(ra * k, dec * k, deg=deg)
    a, d = c.rad(ra), c.rad(dec)
    for q, w in zip(v, [c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]):
        c.prove(c.eq(q, w, 1e-12), "unit-vector")
    x, y, z = (c.real(n, -2, 2) for n in "xyz")
    c.assume_pos(x * x + y * y + z * z)
    r = c.sqrt_(x * x + y * y + z * z)
    ra2, dec2 = M.icrf2radec(x, y, z, deg=deg)
    a, d = (c.rad(ra2), c.rad(dec2)) if deg else (ra2, dec2)
    for q, w in zip((x, y, z), [c.cos(d) * c.cos(a), c.cos(d) * c.sin(a), c.sin(d)]):
        c.prove(c.eq(w * r, q, 1e-9), "inverse")
    full = 360 if deg else 2 * c.pi
    c.prove(c.And(ra2 >= 0, ra2 <= full), "ra-range")
