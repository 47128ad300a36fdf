"""C15: orbit table validation."""
import os

from lib.harness import harness, patched, exits
from lib.env import Tokens, scratch
from sorcha.readers.OrbitAuxReader import OrbitAuxReader

BOUNDS = "orbit files of 0-3 objects, every real value of every element, all six formats and unknown/mixed ones, every single missing or extra column, csv and whitespace, cached or not, read by rows or by identifier"
OUTSIDE = "NaN elements; more objects (the rules are per row)"
ASSUMPTIONS = ["pandas.read_csv parses numbers correctly"]

ELEMENTS = {
    "KEP": ["a", "e", "inc", "node", "argPeri", "ma"],
    "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"],
    "CART": ["x", "y", "z", "xdot", "ydot", "zdot"],
}
ALL = ["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]
RANGE = dict(e=(-2, 4), a=(-500, 5000), q=(-50, 500), inc=(-400, 400), node=(-400, 400), argPeri=(-400, 400), ma=(-400, 400), t_p_MJD_TDB=(0, 3e6),
             epochMJD_TDB=(30000, 90000))


def columns(c, fmt, n, formats=None, free=False):
    kind = fmt.lstrip("B") if fmt.lstrip("B") in ELEMENTS else "COM"
    cols = dict(ObjID=["obj%d" % (n - i) for i in range(n)], FORMAT=formats or [fmt] * n)
    for k in ELEMENTS[kind] + ["epochMJD_TDB"]:
        if k in ("inc", "node", "argPeri", "ma", "t_p_MJD_TDB") and not free:
            cols[k] = [50.25 + 10 * i for i in range(n)]
            continue
        cols[k] = [c.real("%s%d" % (k, i), *RANGE.get(k, (-100, 100))) for i in range(n)]
    return cols


def physical(c, fmt, cols, n):
    kind = fmt.lstrip("B")
    if kind == "KEP":
        return c.And([c.And(cols["e"][i] >= 0, cols["e"][i] < 1, cols["a"][i] >= 0) for i in range(n)])
    if kind == "COM":
        return c.And([c.And(cols["e"][i] >= 0, cols["q"][i] >= 0) for i in range(n)])
    return True


def read(c, cols, sep="csv", how="rows", cache=False, preamble=()):
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        p = tk.csv(os.path.join(d, "orb.csv"), cols, " " if sep == "whitespace" else ",", preamble)
        def go():
            r = OrbitAuxReader(p, sep, **({"cache_table": True} if cache else {}))
            return r.read_rows() if how == "rows" else r.read_objects(sorted(cols["ObjID"]))

        return exits(go)


def unchanged(c, cols, out, n, ids=None):
    c.prove(list(out["ObjID"]) == cols["ObjID"], "order")
    c.prove(set(out.columns) == set(cols), "columns")
    if len(out) != n:
        return
    for k in cols:
        for i in range(n):
            v = out[k].iloc[i]
            c.prove(str(v) == cols[k][i] if k in ("ObjID", "FORMAT") else c.eq(v, cols[k][i], 0.0 if c.mode == "sym" else 1e-9), "elements")


CASES = [dict(fmt=f, n=1, sep="csv", how="rows", cache=False, free=True) for f in ALL] + [dict(fmt=f, n=n, sep="csv", how="rows", cache=False) for f in ALL for n in (1, 2)]
MORE = [dict(fmt=f, n=1, sep=s, how=h, cache=k) for f in ("BKEP", "BCOM") for s, h, k in [("whitespace", "rows", False), ("csv", "objects", False), ("csv", "rows", True), ("csv", "objects", True), ("comma", "rows", False)]]


@harness(cases=CASES + MORE + [dict(fmt="KEP", n=3, sep="csv", how="rows", cache=False), dict(fmt="COM", n=3, sep="csv", how="rows", cache=False)],
         thorough=[dict(fmt=f, n=n, sep=s, how=h, cache=k) for f in ALL for n in (1, 2, 3) for s in ("csv", "whitespace") for h in ("rows", "objects") for k in (False, True)])
def elements(c, fmt, n, sep, how, cache, free=False):
    cols = columns(c, fmt, n, free=free)
    stop, out = read(c, cols, sep, how, cache, ["# comment"] if n == 1 else ())
    ok = physical(c, fmt, cols, n)
    if stop:
        c.prove(c.Not(ok), "valid-rejected")
        c.prove(out.code not in (0, None), "exit-code")
    else:
        c.prove(ok, "invalid-accepted")
        unchanged(c, cols, out, n)
        c.reached("accepted")


@harness(cases=[dict(fmt=f) for f in ALL + ["XYZ", "kep", "KEPLER"]])
def structure(c, fmt):
    """missing / extra / foreign columns and inconsistent formats; elements themselves valid"""
    what = c.choose("what", ["missing", "extra", "mixed", "swap", "noformat", "twice"])
    n = 2
    formats = None
    if what == "mixed":
        formats = [fmt, c.choose("other", [f for f in ALL if f != fmt])]
        if c.bool("last"):
            formats = [fmt, fmt, formats[1]]
            n = 3
    cols = columns(c, fmt, n, formats)
    for k in ("e", "a", "q"):
        for v in cols.get(k, []):
            c.assume(c.And(v >= 0, v < 1 if k == "e" else v >= 0))
    need = [k for k in cols if k not in ("FORMAT",)]
    if what == "missing":
        del cols[c.choose("col", [k for k in need if k != "ObjID"])]
    elif what == "extra":
        cols["H_r"] = [20.0] * n
    elif what == "swap":
        k = c.choose("col", [k for k in need if k != "ObjID"])
        cols["foo"] = cols.pop(k)
    elif what == "noformat":
        del cols["FORMAT"]
        if c.bool("fill"):
            cols["foo"] = [1.0] * n
    elif what == "twice" and fmt in ALL:
        unknown = False
        stop, out = read(c, cols)
        c.prove(not stop, "valid-rejected")
        return
    stop, out = read(c, cols)
    c.prove(stop, "bad-table-accepted")
    if stop:
        c.prove(out.code not in (0, None), "exit-code")


@harness()
def empty_block(c):
    """a block beyond the last object is empty, not an error"""
    cols = columns(c, "COM", 1)
    c.assume(c.And(cols["e"][0] >= 0, cols["q"][0] >= 0))
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        p = tk.csv(os.path.join(d, "orb.csv"), cols)
        r = OrbitAuxReader(p, "csv")
        stop, out = exits(r.read_rows, 1, 5)
    c.prove(not stop and len(out) == 0, "empty-block")
