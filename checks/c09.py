"""C09: vignetting."""
from lib.harness import harness, frame, patched
from sorcha.modules import PPVignetting as M

BOUNDS = "1-2 rows; every RA in [0,360], Dec in [-90,90], depth in [15,30]; every off-axis distance in [0,180] deg against the 101-node table"
OUTSIDE = "NaN; rounding of trigonometric functions (checked to 1e-9 mag on replay)"
ASSUMPTIONS = ["log10 is any strictly increasing function with log10(1)=0; sin/cos satisfy sin^2+cos^2=1, addition and double-angle identities"]

_T = """623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885
623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623885 623822 623759
623632 623442 623316 623000 622494 622367 621861 621671 621292 621039 620659 620216 619963 619394 619204 618635 618319 618066
617496 617117 616737 616168 615535 614840 614207 613385 612436 611614 610602 609716 608957 608071 606996 605668 604972 603770
602758 601177 599595 598140 595673 594282 592447 590613 588526 586312 584287 582137 580113 578025 576064 573344 570561 563730
545322 521412 492757 460624 429565 404959 383073 356190 317161 279777 241824 201974"""
FRAC = [int(v) / 1e6 for v in _T.split()]
NORM = [f / FRAC[0] for f in FRAC]
RAD = [round(0.02 * i, 2) for i in range(101)]


def loss(c, theta):
    return -2.5 * c.log10(c.interp(theta, RAD, NORM))


def scalar(v):
    try:
        return v.item()
    except AttributeError:
        return v


@harness()
def curve(c):
    th = c.real("theta", 0, 180)
    v = scalar(M.vignetFunc(th))
    c.prove(c.eq(v, loss(c, th), 1e-9), "tabulated-curve")
    c.prove(v >= -1e-12, "non-negative")
    c.prove(c.Implies(th <= 0.64, c.eq(v, 0, 1e-6)), "zero-near-centre")


@harness(cases=[dict(k=k) for k in range(4)])
def monotone(c, k):
    lo = [0, 0.6, 1.2, 1.7][k]
    a = c.real("a", lo, [0.6, 1.2, 1.7, 180][k])
    d = c.real("d", 0, 0.03)
    va, vb = scalar(M.vignetFunc(a)), scalar(M.vignetFunc(a + d))
    c.prove(vb >= va - 1e-7, "monotone")


def hav(c, r1, d1, r2, d2):
    """haversine with the facts the real code relies on: it never leaves [0,1]"""
    sd, cd = c.sin((d2 - d1) / 2), c.cos((d2 - d1) / 2)
    sr, cr = c.sin((r2 - r1) / 2), c.cos((r2 - r1) / 2)
    ch, sh = c.cos((d1 + d2) / 2), c.sin((d1 + d2) / 2)
    h = sd * sd + c.cos(d1) * c.cos(d2) * sr * sr
    c.sos(h, [sd * cr, ch * sr], "hav-nonnegative")
    c.sos(1 - h, [cd * cr, sh * sr], "hav-at-most-one")
    return h


@harness()
def distance(c):
    """haversine is the great-circle distance"""
    p = c.pi
    r1, r2 = c.real("ra1", 0, 2 * p), c.real("ra2", 0, 2 * p)
    d1, d2 = c.real("dec1", -p / 2, p / 2), c.real("dec2", -p / 2, p / 2)
    hv = hav(c, r1, d1, r2, d2)
    h = M.haversine(r1, d1, r2, d2)
    sh = c.sin(h / 2)
    c.prove(c.eq(sh * sh, hv, 1e-12), "haversine-identity")
    dot = c.sin(d1) * c.sin(d2) + c.cos(d1) * c.cos(d2) * c.cos(r1 - r2)
    c.prove(c.eq(c.cos(h), dot, 1e-12), "great-circle")
    c.prove(c.And(h >= 0, h <= p + 1e-9), "range")


@harness(cases=[dict(n=1), dict(n=2)])
def table(c, n):
    cols = dict(
        RA_deg=[c.real("ra%d" % i, 0, 360) for i in range(n)],
        Dec_deg=[c.real("dec%d" % i, -90, 90) for i in range(n)],
        FieldID=[i for i in range(n)],
        fieldRA_deg=[c.real("fra%d" % i, 0, 360) for i in range(n)],
        fieldDec_deg=[c.real("fdec%d" % i, -90, 90) for i in range(n)],
        fieldFiveSigmaDepth_mag=[c.real("m5_%d" % i, 15, 30) for i in range(n)],
        fiveSigmaDepth_mag=[c.real("old%d" % i, 15, 30) for i in range(n)],
    )
    df = frame(cols, index=[2 * i + 1 for i in range(n)])
    hs = []
    for i in range(n):
        r1, d1 = c.rad(cols["RA_deg"][i]), c.rad(cols["Dec_deg"][i])
        r2, d2 = c.rad(cols["fieldRA_deg"][i]), c.rad(cols["fieldDec_deg"][i])
        hs.append(hav(c, r1, d1, r2, d2))
    calls = []

    def stub(x):
        calls.append(1)
        return 0.1 * x + 0.01

    # the curve itself is decided in `curve`; if the table code does not go through it, the real curve is executed
    with patched((M, "vignetFunc", stub)):
        out = list(M.vignettingEffects(df))
    curve_ = (lambda c, th: 0.1 * th + 0.01) if calls else loss
    c.prove(len(out) == n, "rows")
    for i in range(n):
        m5 = cols["fieldFiveSigmaDepth_mag"][i]
        th = 2 * c.arcsin(c.sqrt_(hs[i])) * 180 / c.pi
        c.prove(c.eq(out[i], m5 - curve_(c, th), 1e-6), "depth-minus-loss")
        c.prove(out[i] <= m5 + 1e-9, "never-deeper")
