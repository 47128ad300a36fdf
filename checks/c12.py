"""C12: chunked reading of the input catalogues."""
import os
import sqlite3
import warnings

import pandas as pd

from lib.harness import harness, patched, exits
from lib.env import Tokens, scratch
from sorcha.readers.CSVReader import CSVDataReader
from sorcha.readers.HDF5Reader import HDF5DataReader
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.readers.EphemerisReader import EphemerisDataReader
from sorcha.readers.OrbitAuxReader import OrbitAuxReader
from sorcha.readers.DatabaseReader import DatabaseReader

BOUNDS = "files of 0-5 rows, every block start and size (1 to one past the end, and unlimited), 0-2 comment lines before the header, csv/whitespace/HDF5 (HDF5 written in one or several appends), cached or not; catalogues of 1-4 objects in every order per file, text and numeric identifiers, with and without blanks around them (CSV), 0-2 ephemeris rows per object in any interleaving; every cell value"
OUTSIDE = "longer files (the arithmetic is uniform in the row number); malformed cells"
ASSUMPTIONS = ["pandas/pytables parse and select correctly (their real code is run)"]

EPH = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
       "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]
PADS = ["%s ", " %s", "%s", "  %s  "]
IDS = {"padded": ["k9", "b", "S1x", "a2"], "text": ["k9", "b", "S1x", "a2"], "number": ["30", "4", "111", "25"], "mixed": ["007", "A1", "1e3", "7"]}


def same(c, a, b):
    return c.eq(a, b, 0.0 if c.mode == "sym" else 1e-9)


def hdf(path, cols, tk, appends):
    """write in the given numbers of rows per append, each with its own index from zero"""
    warnings.simplefilter("ignore")
    df = pd.DataFrame(tk.numeric(cols))
    df["ObjID"] = df["ObjID"].astype(object)
    st = pd.HDFStore(path)
    i = 0
    for k in appends:
        part = df.iloc[i : i + k].reset_index(drop=True)
        if len(part):
            st.append("tab", part, format="t", data_columns=True, min_itemsize={"ObjID": 8})
        i += k
    st.close()
    return path


def open_reader(kind, path, cache=False, header=-1):
    k = {"cache_table": True} if cache else {}
    if kind == "hdf5":
        return HDF5DataReader(path, **k)
    return CSVDataReader(path, "whitespace" if kind == "whitespace" else "csv", header, **k)


def write(c, tk, kind, d, name, cols, preamble=(), appends=None, pad=None):
    if pad is not None:  # blanks around the identifiers, different ones in each file
        cols = dict(cols, ObjID=[PADS[(i + pad) % 4] % o for i, o in enumerate(cols["ObjID"])])
    p = os.path.join(d, name + (".h5" if kind == "hdf5" else ".csv"))
    if kind == "hdf5":
        n = len(cols["ObjID"])
        return hdf(p, cols, tk, appends or (n,))
    return tk.csv(p, cols, " " if kind == "whitespace" else ",", preamble)


PRE = [[], ["# made by hand"], ["# a, b", "# second, line, here"]]


@harness(cases=[dict(kind=k, n=n, cache=ca, ids=i) for k in ("csv", "whitespace", "hdf5") for n in (1, 4) for ca in (False, True) for i in ("text", "number")] + [dict(kind="csv", n=3, cache=False, ids="mixed"), dict(kind="whitespace", n=2, cache=False, ids="mixed")],
         thorough=[dict(kind=k, n=n, cache=ca, ids=i) for k in ("csv", "whitespace", "hdf5") for n in (1, 2, 3, 4, 5, 7) for ca in (False, True) for i in ("text", "number")])
def rows(c, kind, n, cache, ids):
    """read_rows(start, size) is rows start..start+size; read_objects(ids) is exactly the rows of those objects"""
    names = [IDS[ids][i % 3] for i in range(n)]
    cols = dict(ObjID=names, v=[c.real("v%d" % i, -1e4, 1e4) for i in range(n)], row=list(range(n)))
    pre = c.choose("preamble", PRE) if kind != "hdf5" else []
    start = c.choose("start", list(range(n + 2)))
    size = c.choose("size", [None] + list(range(1, n + 2)))
    if kind == "hdf5" and n > 1 and c.bool("appended"):
        appends = (1, n - 1)
    else:
        appends = (n,)
    header = len(pre) if (pre and c.bool("given")) else -1
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        p = write(c, tk, kind, d, "t", cols, pre, appends)
        r = open_reader(kind, p, cache, header)
        out = r.read_rows(start, size)
        want = list(range(n))[start : (None if size is None else start + size)]
        check_rows(c, cols, out, want, "block")
        ask = [IDS[ids][i] for i in range(3) if c.bool("ask%d" % i)] if size is None and start == 0 else [IDS[ids][1]]
        out = r.read_objects(ask)
        check_rows(c, cols, out, [i for i in range(n) if names[i] in ask], "objects")


def check_rows(c, cols, out, want, tag):
    got = [int(v) for v in out["row"].tolist()] if len(out) else []
    c.prove(got == want, tag + "-rows")
    if got != want:
        return
    for p, i in enumerate(got):
        c.prove(out["ObjID"].iloc[p] == cols["ObjID"][i], tag + "-id")
        c.prove(same(c, out["v"].iloc[p], cols["v"][i]), tag + "-values")


def perm(c, name, l, few=None):
    l = list(l)
    out = []
    for i in range(len(l) - 1):
        k = c.choose("%s_%d" % (name, i), list(range(len(l))))
        out.append(l.pop(k))
    return out + l


def orbit_cols(c, ids):
    n = len(ids)
    q = [c.real("q_" + o, 0.1, 90) for o in ids]
    return dict(ObjID=list(ids), FORMAT=["COM"] * n, q=q, e=[0.1] * n, inc=[1.0] * n, node=[2.0] * n, argPeri=[3.0] * n, t_p_MJD_TDB=[60000.0] * n, epochMJD_TDB=[60001.0] * n)


def run_blocks(c, rd, size, limit, aux=False):
    blocks = []
    for _ in range(limit):
        b = rd.read_aux_block(size) if aux else rd.read_block(size)
        if b is None:
            return blocks
        blocks.append(b)
    return None


@harness(cases=[dict(kind=k, n=n, ids=i, cache=ca, extra=x) for k, n, i, ca, x in [
    ("csv", 1, "text", False, False), ("csv", 3, "text", False, False), ("csv", 3, "number", False, True), ("whitespace", 3, "number", False, False), ("csv", 3, "text", True, True),
    ("csv", 2, "number", True, True), ("csv", 2, "text", False, True), ("csv", 2, "mixed", False, True), ("whitespace", 3, "mixed", False, False), ("csv", 2, "padded", False, True)]], thorough=[dict(kind=k, n=n, ids=i, cache=ca, extra=x) for k in ("csv", "whitespace") for n in (1, 2, 3, 4) for i in ("text", "number") for ca in (False, True) for x in (False, True)], max_paths=20000)
def aux_blocks(c, kind, n, ids, cache, extra):
    """orbits, physical parameters (and optional extra parameters) block by block"""
    names = IDS[ids][:n]
    size = c.choose("size", [None] + list(range(1, n + 2)))
    orb = orbit_cols(c, names)
    o2 = perm(c, "phys", names)
    phys = dict(ObjID=o2, H_r=[c.real("H_" + o, 0, 30) for o in o2])
    H = dict(zip(o2, phys["H_r"]))
    files = [orb, phys]
    X = {}
    if extra:
        o3 = perm(c, "extra", names) if n <= 2 else list(reversed(names))
        files.append(dict(ObjID=o3, amp=[c.real("amp_" + o, 0, 3) for o in o3]))
        X = dict(zip(o3, files[-1]["amp"]))
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        rd = CombinedDataReader()
        for j, f in enumerate(files):
            p = write(c, tk, kind, d, "f%d" % j, f, PRE[j % 3], pad=j if ids == "padded" else None)
            k = {"cache_table": True} if cache else {}
            rd.add_aux_data_reader(OrbitAuxReader(p, kind, **k) if j == 0 else CSVDataReader(p, kind, **k))
        rd.check_aux_object_ids()
        blocks = run_blocks(c, rd, size, n + 3, aux=True)
    c.prove(blocks is not None, "terminates")
    if blocks is None:
        return
    c.prove([len(b) for b in blocks] == block_sizes(n, size), "block-sizes")
    got = [o for b in blocks for o in b["ObjID"].tolist()]
    c.prove(got == names, "each-object-once")
    for b in blocks:
        for p, o in enumerate(b["ObjID"].tolist()):
            i = names.index(o)
            c.prove(same(c, b["q"].iloc[p], orb["q"][i]), "own-orbit")
            c.prove(same(c, b["H_r"].iloc[p], H[o]), "own-physical")
            if extra:
                c.prove(same(c, b["amp"].iloc[p], X[o]), "own-extra")


def block_sizes(n, size):
    if size is None:
        return [n] if n else []
    return [size] * (n // size) + ([n % size] if n % size else [])


LAY = {"blocks": [0, 0, 1, 2, 2], "inter": [2, 0, 1, 0, 2], "missing": [2, 0, 2], "one": [1, 0], "single": [0]}


@harness(cases=[dict(fmt=f, lay=l, ids=i, appends=a, primary=False) for f, l, i, a in [
    ("csv", "inter", "text", None), ("csv", "missing", "number", None), ("whitespace", "blocks", "number", None), ("hdf5", "inter", "text", (2, 3)), ("hdf5", "blocks", "text", (1, 1, 3)),
    ("h5", "missing", "text", None), ("csv", "single", "text", None), ("csv", "inter", "mixed", None), ("csv", "missing", "mixed", None), ("csv", "inter", "padded", None)]] + [dict(fmt="csv", lay="inter", ids="text", appends=None, primary=True), dict(fmt="hdf5", lay="inter", ids="text", appends=(3, 2), primary=True)],
    max_paths=20000)
def ephemeris_blocks(c, fmt, lay, ids, appends, primary):
    """external ephemeris joined with the catalogues block by block"""
    layout = LAY[lay]
    n = max(layout) + 1
    names = IDS[ids][:n]
    m = len(layout)
    eph = {k: [0.5] * m for k in EPH}
    eph["ObjID"] = [names[i] for i in layout]
    eph["FieldID"] = [100 + j for j in range(m)]
    eph["RA_deg"] = [c.real("ra%d" % j, 0, 360) for j in range(m)]
    size = c.choose("size", [None] + list(range(1, (m if primary else n) + 2)))
    orb = orbit_cols(c, names)
    o2 = perm(c, "phys", names)
    phys = dict(ObjID=o2, H_r=[c.real("H_" + o, 0, 30) for o in o2])
    H = dict(zip(o2, phys["H_r"]))
    kind = "hdf5" if fmt in ("hdf5", "h5") else fmt
    pad = lambda j: j if ids == "padded" else None
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        rd = CombinedDataReader(ephem_primary=primary)
        rd.add_ephem_reader(EphemerisDataReader(write(c, tk, kind, d, "eph", eph, PRE[1] if kind != "hdf5" else (), appends, pad(0)), fmt))
        rd.add_aux_data_reader(OrbitAuxReader(write(c, tk, "csv", d, "orb", orb, pad=pad(1)), "csv"))
        rd.add_aux_data_reader(CSVDataReader(write(c, tk, "csv", d, "phys", phys, pad=pad(3)), "csv"))
        blocks = run_blocks(c, rd, size, m + n + 3)
    c.prove(blocks is not None, "terminates")
    if blocks is None:
        return
    rows = [int(v) - 100 for b in blocks for v in b["FieldID"].tolist()]
    c.prove(sorted(rows) == list(range(m)), "each-ephemeris-row-once")
    if not primary:
        # every block holds exactly the rows of its own objects
        sz = n if size is None else size
        want = [[j for j in range(m) if layout[j] // sz == k] for k in range(len(blocks))]
        c.prove([sorted(int(v) - 100 for v in b["FieldID"].tolist()) for b in blocks] == want, "rows-of-the-block")
    for b in blocks:
        for p in range(len(b)):
            j = int(b["FieldID"].iloc[p]) - 100
            o = names[layout[j]]
            c.prove(b["ObjID"].iloc[p] == o, "own-id")
            c.prove(same(c, b["RA_deg"].iloc[p], eph["RA_deg"][j]), "own-ephemeris")
            c.prove(same(c, b["q"].iloc[p], orb["q"][layout[j]]), "own-orbit")
            c.prove(same(c, b["H_r"].iloc[p], H[o]), "own-physical")


@harness(cases=[dict(n=n, kind=k) for n in (1, 2, 3) for k in ("csv", "whitespace")] + [dict(n=2, kind="csv", third=True)])
def identifiers(c, n, kind, third=False):
    """catalogues with different identifiers (or different counts) are rejected, permutations are not"""
    pool = IDS["text"][: n + 1]
    A = pool[:n]
    if n > 1 and c.flag("repeated"):
        A[-1] = A[-2]
    m = c.choose("m", sorted({max(n - 1, 1), n, n + 1}))
    B = [c.choose("id%d" % i, pool) for i in range(m)]
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        rd = CombinedDataReader()
        rd.add_aux_data_reader(OrbitAuxReader(write(c, tk, kind, d, "o", orbit_cols(c, A)), kind))
        if third:
            rd.add_aux_data_reader(CSVDataReader(write(c, tk, kind, d, "p", dict(ObjID=A, H_r=[1.0] * n)), kind))
        rd.add_aux_data_reader(CSVDataReader(write(c, tk, kind, d, "x", dict(ObjID=B, H_r=[1.0] * m)), kind))
        stop, e = exits(rd.check_aux_object_ids)
    c.prove(stop == (sorted(A) != sorted(B)), "rejected-iff-different")
    if stop:
        c.prove(e.code not in (0, None), "exit-code")


@harness()
def no_header(c):
    """a file without a usable header line stops the run"""
    what = c.choose("what", ["none", "onecol", "delimiter"])
    with scratch() as d:
        p = os.path.join(d, "f.csv")
        with open(p, "w") as f:
            f.write({"none": "name,x\na,1\n", "onecol": "ObjID\na\n", "delimiter": "ObjID x\na 1\n"}[what])
        stop, e = exits(lambda: CSVDataReader(p, "csv").read_rows())
    c.prove(stop and e.code not in (0, None), "unusable-header-stops")


@harness(cases=[dict(n=n) for n in (1, 3)])
def database(c, n):
    """temporary ephemeris database: blocks partition the table, objects select exactly their rows"""
    names = [IDS["text"][i % 2] for i in range(n)]
    cols = dict(ObjID=names, v=[c.real("v%d" % i, -9, 9) for i in range(n)], row=list(range(n)))
    size = c.choose("size", [None] + list(range(1, n + 2)))
    tk = Tokens(c)
    with scratch() as d, patched(*tk.patches()):
        p = os.path.join(d, "t.db")
        con = sqlite3.connect(p)
        pd.DataFrame(tk.numeric(cols)).to_sql("interm", con, index=False)
        con.close()
        r = DatabaseReader(p)
        out, start = [], 0
        while len(out) <= n + 2:
            b = r.read_rows(start, size)
            if len(b) == 0:
                break
            out.append(b)
            start += len(b)
            if size is None:
                break
        ids = [int(v) for b in out for v in b["row"].tolist()]
        c.prove(sorted(ids) == list(range(n)), "each-row-once")
        for b in out:
            for q in range(len(b)):
                c.prove(same(c, b["v"].iloc[q], cols["v"][int(b["row"].iloc[q])]), "values")
        got = r.read_objects([names[0]])
        c.prove(sorted(int(v) for v in got["row"]) == [i for i in range(n) if names[i] == names[0]], "objects")
