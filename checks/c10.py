"""C10: photometric and astrometric uncertainties."""
from types import SimpleNamespace as NS

from lib.harness import harness, frame
from lib.env import StubRngs
from sorcha.modules import PPAddUncertainties as M

BOUNDS = "1-2 rows; every magnitude and depth in [10,30], geometric seeing in [0.3,5] arcsec, rates in [-5,5] deg/day, exposure in [1,120] s, trailing losses on and off"
OUTSIDE = "floating-point rounding of exp10/sqrt/log10; NaN"
ASSUMPTIONS = ["10^x is any strictly increasing positive function with 10^0=1 and 10^(a+b)=10^a 10^b; log10 is its inverse shape"]
G = 0.039


def snr(c, m, m5):
    x = c.pow10(0.4 * (m - m5))
    return 1 / c.sqrt_((0.04 - G) * x + G * x * x)


def maglike(c, n):
    return dict(
        trailedSourceMagTrue=[c.real("ts%d" % i, 10, 30) for i in range(n)],
        PSFMagTrue=[c.real("psf%d" % i, 10, 30) for i in range(n)],
        fiveSigmaDepth_mag=[c.real("m5_%d" % i, 15, 30) for i in range(n)],
        fieldFiveSigmaDepth_mag=[c.real("fm5_%d" % i, 15, 30) for i in range(n)],
        seeingFwhmGeom_arcsec=[c.real("geom%d" % i, 0.3, 5) for i in range(n)],
        seeingFwhmEff_arcsec=[c.real("eff%d" % i, 0.3, 5) for i in range(n)],
        RARateCosDec_deg_day=[c.real("ra%d" % i, -5, 5) for i in range(n)],
        DecRate_deg_day=[c.real("dec%d" % i, -5, 5) for i in range(n)],
        visitExposureTime=[c.real("exp%d" % i, 1, 120) for i in range(n)],
        visitTime=[c.real("vt%d" % i, 1, 120) for i in range(n)],
    )


def log_identity(c, *snrs):
    """log(1+1/s) = log(1+s) - log(s), whichever of the two forms the code uses"""
    if c.mode == "sym":
        for s in snrs:
            c.assume(c.eq(c.log10(1 + 1 / s), c.log10(1 + s) - c.log10(s), 0))


@harness(cases=[dict(n=n, trail=t) for n in (1, 2) for t in (False, True)])
def table(c, n, trail):
    cols = maglike(c, n)
    df = frame(cols, index=[2 * i + 1 for i in range(n)])
    cfg = NS(expert=NS(trailing_losses_on=trail))
    out = M.addUncertainties(df, cfg, StubRngs(c), verbose=c.bool("verbose") if False else False)
    c.prove(len(out) == n, "rows")
    for i in range(n):
        g = lambda k: cols[k][i]
        o = lambda k: out[k].iloc[i]
        extra = 0
        if trail:
            v = c.sqrt_(g("RARateCosDec_deg_day") ** 2 + g("DecRate_deg_day") ** 2) / 24
            x = v * g("visitExposureTime") / g("seeingFwhmGeom_arcsec")
            extra = 1.25 * c.log10(1 + 0.761 * x * x / (1 + 1.162 * x))
        s_t = snr(c, g("trailedSourceMagTrue") + extra, g("fiveSigmaDepth_mag"))
        s_p = snr(c, g("PSFMagTrue"), g("fiveSigmaDepth_mag"))
        rel = 1e-9 if c.mode == "conc" else 0
        c.prove(c.eq(o("SNRTrailedSourceMag") / s_t, 1, rel), "snr-trailed")
        c.prove(c.eq(o("SNRPSFMag") / s_p, 1, rel), "snr-psf")
        log_identity(c, s_t, s_p, o("SNRTrailedSourceMag"), o("SNRPSFMag"))
        c.prove(c.eq(o("trailedSourceMagSigma"), 2.5 * c.log10(1 + 1 / s_t), 1e-9), "sigma-trailed")
        c.prove(c.eq(o("PSFMagSigma"), 2.5 * c.log10(1 + 1 / s_p), 1e-9), "sigma-psf")
        fw = g("seeingFwhmGeom_arcsec") * 1000
        r = 0.60 * fw / s_t
        mas = o("astrometricSigma_deg") * 3600000
        want = c.sqrt_(100 + r * r)
        c.prove(c.eq(mas / want, 1, 1e-9), "astrometric")
        c.prove(mas >= 10 - 1e-9, "floor")
        for k in cols:
            c.prove(c.eq(o(k), g(k)), "inputs-unchanged")


@harness()
def shape(c):
    """the scalar model: monotone in magnitude, floor respected"""
    m1, m2 = c.real("m1", 10, 30), c.real("m2", 10, 30)
    m5, fw = c.real("m5", 15, 30), c.real("fw", 100, 5000)
    c.assume(m1 <= m2)
    a1, s1, r1 = M.calcAstrometricUncertainty(m1, m5, FWHMeff=fw)
    a2, s2, r2 = M.calcAstrometricUncertainty(m2, m5, FWHMeff=fw)
    t = 0 if c.mode == "sym" else 1e-9
    c.prove(s1 >= s2 * (1 - t), "snr-falls")
    c.prove(a1 <= a2 * (1 + t), "astrometric-grows")
    c.prove(a1 >= 10 - 1e-9, "floor")
    log_identity(c, s1, s2)
    p1, p2 = M.calcPhotometricUncertainty(s1), M.calcPhotometricUncertainty(s2)
    c.prove(p1 <= p2 + t, "photometric-grows")
    c.prove(p1 >= 0, "positive")


@harness(cases=[dict(u="mas"), dict(u="arcsec")])
def units_and_visits(c, u):
    m, m5, fw = c.real("m", 10, 30), c.real("m5", 15, 30), c.real("fw", 100, 5000)
    f = c.real("floor", 0, 50)
    nv = c.choose("nvisit", [1, 2, 4])
    a, s, r = M.calcAstrometricUncertainty(m, m5, nvisit=nv, FWHMeff=fw, error_sys=f, astErrCoeff=0.6, output_units=u)
    s0 = snr(c, m, m5)
    rr = 0.6 * fw / s0 / c.sqrt_(nv)
    k = 1000 if u == "arcsec" else 1
    c.prove(c.eq(s / s0, 1, 1e-9), "snr")
    c.prove(c.eq(r * k / rr, 1, 1e-9), "random")
    c.prove(c.eq((a * k) ** 2 / (f * f + rr * rr), 1, 1e-9), "total")


@harness()
def snr_five_at_depth(c):
    """a source at the limiting magnitude has SNR 5"""
    m5 = c.real("m5", 15, 30)
    a, s, r = M.calcAstrometricUncertainty(m5, m5)
    c.prove(c.eq(s, 5, 1e-9), "five-sigma")
