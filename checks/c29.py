"""C29: the results database, the log audit and the SPICE meta-kernel report exactly the files they were given."""
import builtins
import contextlib
import os
import re
import shutil
import sqlite3
import sys
import tempfile
from types import SimpleNamespace as NS

import pandas as pd

import sorcha.ephemeris.simulation_driver
import sorcha.utilities.check_output_logs
import sorcha.utilities.createResultsSQLDatabase
import sorcha.utilities.fileAccessUtils
import sorcha.utilities.generate_meta_kernel as MK
import sorcha_cmdline.outputs as outputs
from lib.env import OutTokens, scratch
from lib.harness import exits, harness, patched
from lib.sym import is_sym

BOUNDS = "every cache path of 21-220 characters; result databases in every subset of three places below the results directory (with and without matching stem, in directories with glob characters), with the output inside or outside that directory, existing or not, equal/permuted/different columns, 1-2 rows of every value, one or two input files of each type; every combination of three log files with complete, failed, cut-off, empty and unterminated contents, report file existing or not, with and without extension, forced or not"
OUTSIDE = "quotes in the cache path, paths above 220 characters; parsing inside sqlite, pandas and SPICE (their real code is run)"
ASSUMPTIONS = []


# ------------------------------------------------------------------------------------------------ meta-kernel
class Path(str):
    """a directory path whose length is symbolic: pieces of it are tracked by their symbolic ends. As plain text it is an
    existing scratch directory, and its pieces are markers."""

    marks = {}
    whole = None  # (text, length)

    def __new__(cls, parts):
        parts = [p for p in parts if isinstance(p, tuple) or p != ""]
        out = []
        for p in parts:
            if isinstance(p, tuple):
                p = cls.piece(*p)
            out.append(p)
        s = str.__new__(cls, "".join(out))
        s.parts = parts
        return s

    @classmethod
    def piece(cls, a, b):
        text, n = cls.whole
        if not is_sym(a) and a == 0 and b is n:
            return text
        if bool(a >= b):
            return ""
        t = "@@%d@@" % len(cls.marks)
        cls.marks[t] = (a, b)
        return t

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (p[1] - p[0] if isinstance(p, tuple) else str.__len__(p))
        return n

    def __add__(self, o):
        return Path(self.parts + (o.parts if isinstance(o, Path) else [str(o)]))

    def __radd__(self, o):
        return Path([str(o)] + self.parts)

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__str__(self)

    def __getitem__(self, k):
        if not isinstance(k, slice):
            k = slice(k, k + 1)
        if k.step not in (None, 1):
            raise NotImplementedError("extended slice of a path")
        n = self.length()
        lo, hi = (0 if k.start is None else k.start), (n if k.stop is None else k.stop)
        lo, hi = (n + lo if bool(lo < 0) else lo), (n + hi if bool(hi < 0) else hi)
        out, off = [], 0
        for p in self.parts:
            l = p[1] - p[0] if isinstance(p, tuple) else str.__len__(p)
            end = off + l
            if bool(lo < end) and bool(off < hi):
                a = 0 if bool(lo <= off) else lo - off
                b = l if bool(hi >= end) else hi - off
                if isinstance(p, tuple):
                    out.append((p[0] + a if not (not is_sym(a) and a == 0) else p[0], p[1] if b is l else p[0] + b))
                else:
                    out.append(str(p)[int(a) : int(b)])
            off = end
        return Path(out)


def slen(x):
    return x.length() if isinstance(x, Path) else builtins.len(x)


class Dir:
    """a pathlib-like cache directory"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __fspath__(self):
        return str.__str__(self.text)

    def __truediv__(self, o):
        return Dir(str.__str__(self.text) + "/" + str(o))

    def __format__(self, spec):
        return self.text


def cut(text, base):
    """text as a list of literal strings and path pieces (start, end)"""
    out = []
    for t in re.split("(%s|@@[0-9]+@@)" % re.escape(base), text):
        if t == base:
            out.append((0, Path.whole[1]))
        elif t in Path.marks:
            out.append(Path.marks[t])
        elif t:
            out.append(t)
    return out


def width(parts):
    n = 0
    for p in parts:
        n = n + (p[1] - p[0] if isinstance(p, tuple) else builtins.len(p))
    return n


def assignments(text):
    """{name: [quoted strings]} of the data part of a text kernel"""
    m = re.match(r"\s*(KPL/MK\s*)?\\begindata\n(.*?)\n\s*\\begintext", text, re.S)
    if not m:
        return None
    out = {}
    for a in re.finditer(r"^\s*([A-Z_]+)\s*\+?=\s*\((.*?)\n?\)\s*$", m.group(2), re.S | re.M):
        out[a.group(1)] = re.findall(r"'([^'\n]*)'", a.group(2))
    return out


@harness()
def meta_kernel(c):
    """whatever the length of the cache path: the file is valid and leads to every kernel in order"""
    n = c.int("length", 21, 220)
    aux = sorcha.utilities.sorchaConfigs.auxiliaryConfigs()
    top = tempfile.mkdtemp(prefix="v", dir="/tmp")
    try:
        if c.mode == "sym":
            d = top
            Path.whole, Path.marks = (top, n), {}
            whole = Path([(0, n)])
            mods = [(m, "len", slen) for k, m in sys.modules.items() if k.startswith("sorcha.") and m is not None]
        else:
            d = top
            while n - len(d) > 60:
                d += "/" + "d" * 48
            if n > len(d) + 1:
                d += "/" + "e" * (n - len(d) - 1)
            os.makedirs(d, exist_ok=True)
            whole, mods = d, []
            Path.whole, Path.marks = (d, len(d)), {}
        for i, f in enumerate(aux.ordered_kernel_files):
            with open(os.path.join(d, f), "w") as o:
                o.write("KPL/PCK\n\n\\begindata\nVERIF_%d = ( %d )\nVERIF_LAST = %d\n\\begintext\n" % (i, i, i))
        ret = NS(abspath=Dir(whole), fetch=lambda f: whole + "/" + f)
        with patched(*mods):
            MK.build_meta_kernel_file(aux, ret)
        with open(os.path.join(d, aux.meta_kernel)) as o:
            text = o.read()
        for l in text.split("\n"):
            c.prove(width(cut(l, d)) <= 132, "line within 132 characters")
        a = assignments(text)
        c.prove(a is not None and set(a) == {"PATH_VALUES", "PATH_SYMBOLS", "KERNELS_TO_LOAD"}, "structure")
        if a is None or set(a) != {"PATH_VALUES", "PATH_SYMBOLS", "KERNELS_TO_LOAD"}:
            return
        for v in a["PATH_VALUES"] + a["KERNELS_TO_LOAD"]:
            w = width(cut(v, d))
            c.prove(c.And(w >= 1, w <= 80), "piece of 1 to 80 characters")
        vals = a["PATH_VALUES"]
        c.prove(all(v.endswith("+") for v in vals[:-1]) and not vals[-1].endswith("+"), "continued")
        parts = cut("".join(v[:-1] for v in vals[:-1]) + vals[-1], d)
        if all(isinstance(p, tuple) for p in parts):
            ends = [0] + [p[1] for p in parts]
            c.prove(c.And(*[c.eq(p[0], e) for p, e in zip(parts, ends)], c.eq(ends[-1], Path.whole[1])), "pieces make up the path")
        else:
            c.prove("".join(p if isinstance(p, str) else d[p[0] : p[1]] for p in parts) == d, "pieces make up the path")
        c.prove(a["PATH_SYMBOLS"] == ["A"] and a["KERNELS_TO_LOAD"] == ["$A/" + f for f in aux.ordered_kernel_files], "every kernel in order")
        if c.mode == "conc":
            import spiceypy as spice

            spice.kclear()
            try:
                spice.furnsh(os.path.join(d, aux.meta_kernel))
                got = [spice.gdpool("VERIF_%d" % i, 0, 1)[0] for i in range(len(aux.ordered_kernel_files))] + [spice.gdpool("VERIF_LAST", 0, 1)[0]]
            except Exception as e:
                got = repr(e)[:100]
            finally:
                spice.kclear()
            c.prove(got == list(range(len(aux.ordered_kernel_files))) + [len(aux.ordered_kernel_files) - 1], "line within 132 characters")
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ command line
@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ["sorcha outputs"] + list(a)
    try:
        yield
    finally:
        sys.argv = old


def listing(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


# ------------------------------------------------------------------------------------------------ results database
def make_db(path, cols, rows, tk):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    con = sqlite3.connect(path)
    con.execute("CREATE TABLE sorcha_results (%s)" % ", ".join("[%s]" % k for k in cols))
    for r in rows:
        con.execute("INSERT INTO sorcha_results VALUES (%s)" % ", ".join("?" for _ in cols), [float(tk.cell(r[k])) if is_sym(r[k]) else r[k] for k in cols])
    con.commit()
    con.close()


def table(tk, path, name):
    con = sqlite3.connect(path)
    try:
        return tk.back(pd.read_sql("SELECT * FROM " + name, con))
    finally:
        con.close()


COLS = ["ObjID", "RA_deg", "mag(true)"]


@harness(cases=[dict(place=p, cols=k) for p in ("outside", "inside", "existing", "elsewhere-stem", "glob") for k in ("same", "permuted")] + [dict(place="outside", cols="fewer"), dict(place="outside", cols="other")])
def merge(c, place, cols):
    """every result and input row exactly once, whatever lies around"""
    stem = c.flag("stem")
    there = {"top": c.flag("top"), "sub": c.flag("sub"), "other": c.flag("other")}
    comp = c.flag("complex")
    inputs = {"params": c.choose("n_params", [0, 1, 2]), "orbits": c.choose("n_orbits", [1, 2]), "complex": c.choose("n_complex", [0, 1])}
    resdir = "res[1] v?" if place == "glob" else "results"
    stemname = ("run[a]*" if place == "glob" else "run.1") if stem else ""
    tk = OutTokens(c)
    want, n = [], 0
    with scratch() as d, patched(*tk.patches()):
        os.makedirs(os.path.join(d, resdir, "b"))
        os.makedirs(os.path.join(d, "inputs"))
        files = [("top", "top.db" if not stem else stemname + "_top.db"), ("sub", "b/c/" + stemname + "sub.db"), ("other", "b/" + ("other.db" if stem else "xother.db"))]
        different = False
        for j, (k, f) in enumerate(files):
            if not there[k]:
                continue
            rows = [dict(zip(COLS, ("o%d" % (n + i), c.real("ra_%s%d" % (k, i), 0, 360), c.real("m_%s%d" % (k, i), 0, 40)))) for i in range(2 - j % 2)]
            n += len(rows)
            order = COLS
            if want and cols != "same":
                order = {"permuted": [COLS[2], COLS[0], COLS[1]], "fewer": COLS[:2], "other": COLS[:2] + ["extra"]}[cols]
                for r in rows:
                    r["extra"] = 1.5
            use = not stem or k != "other"
            if use and want and cols in ("fewer", "other"):
                different = True
            make_db(os.path.join(d, resdir, f), order, rows, tk)
            if use:
                want += rows
        ins = {}
        for t, m in inputs.items():
            ins[t] = []
            for i in range(m):
                rows = [dict(ObjID="%s%d_%d" % (t, i, r), x=c.real("%s_%d_%d" % (t, i, r), -9, 9)) for r in range(1 + i)]
                with open(os.path.join(d, "inputs", "%s_%d.txt" % (t, i)), "w") as o:
                    o.write("ObjID x\n" + "".join("%s %s\n" % (r["ObjID"], tk.cell(r["x"])) for r in rows))
                ins[t] += rows
        out = os.path.join(d, {"outside": "all.db", "inside": resdir + "/" + stemname + "all.db", "existing": resdir + "/" + stemname + "all.db", "elsewhere-stem": "run.1.db", "glob": resdir + "/b/" + stemname + "all.db"}[place])
        if place in ("existing", "elsewhere-stem"):
            make_db(out, COLS, [dict(zip(COLS, ("stale", 1.0, 2.0)))], tk)
        before = {f: open(os.path.join(d, f), "rb").read() for f in listing(d) if os.path.join(d, f) != out}
        a = ["create-sqlite", "-o", out, "-i", os.path.join(d, "inputs"), "-r", os.path.join(d, resdir)] + (["-s", stemname] if stem else []) + (["-c"] if comp else [])
        with argv(*a):
            try:
                stop, e = exits(outputs.main)
            except Exception as ex:
                stop, e = True, ex
        after = {f: open(os.path.join(d, f), "rb").read() for f in before if os.path.exists(os.path.join(d, f))}
        c.prove(before == after, "a given file was changed")
        missing = not want or not inputs["params"] or (comp and not inputs["complex"])
        c.prove(stop == (missing or different), "refused exactly when something is missing or columns differ")
        if stop:
            if missing:
                c.prove(isinstance(e, SystemExit) and e.code not in (0, None, ""), "refused with a message")
            return
        got = table(tk, out, "sorcha_results")
        c.prove(sorted(got.columns) == sorted(COLS), "result columns")
        c.prove(sorted(map(str, got["ObjID"])) == sorted(r["ObjID"] for r in want), "every result row once")
        if sorted(got.columns) != sorted(COLS) or sorted(map(str, got["ObjID"])) != sorted(r["ObjID"] for r in want):
            return
        byid = {r["ObjID"]: r for r in want}
        for i in range(len(got)):
            r = byid[got["ObjID"].iloc[i]]
            for k in COLS[1:]:
                c.prove(c.eq(got[k].iloc[i], r[k]), "result values")
        for t in ["params", "orbits"] + (["complex"] if comp else []):
            g = table(tk, out, t)
            c.prove(sorted(map(str, g["ObjID"])) == sorted(r["ObjID"] for r in ins[t]), "every input row once")
            by = {r["ObjID"]: r for r in ins[t]}
            for i in range(len(g)):
                if g["ObjID"].iloc[i] in by:
                    c.prove(c.eq(g["x"].iloc[i], by[g["ObjID"].iloc[i]]["x"]), "input values")
        c.reached("merged")


# ------------------------------------------------------------------------------------------------ log audit
DONE = "2026-01-01 00:00:00,000 sorcha.sorcha INFO     Sorcha process is completed. "
STEP = "2026-01-01 00:00:00,000 sorcha.sorcha INFO     Reading chunk "
ERR = "2026-01-01 00:00:00,000 sorcha.modules ERROR    ERROR: no files "
LOGS = {
    "complete": (STEP + "\n" + DONE + "\n", True, None),
    "unterminated": (STEP + "\n" + DONE, True, None),
    "failed": (STEP + "\n" + ERR + "\n", False, ERR),
    "went-on": (DONE + "\n" + STEP + "\n" + ERR + "\n", False, ERR),
    "cut-off": (STEP + "\n" + DONE[:-12], False, DONE[:-12]),
    "only-done": (DONE + "\n", True, None),
    "empty": ("", False, None),
    "afterwards": (STEP + "\n" + DONE + "Exception ignored in: <file>\n", False, DONE + "Exception ignored in: <file>"),
}


@harness(cases=[dict(out=o) for o in ("none", "csv", "bare")])
def audit(c, out):
    """a log counts as successful exactly when it ends with the completion message; no report is overwritten unasked"""
    logs = {}
    for f in ("a/x-sorcha.log", "a/b/y-sorcha.log", "z-sorcha.log"):
        if c.flag("has_" + f):
            logs[f] = c.choose("log_" + f, list(LOGS) if f == "a/x-sorcha.log" else list(LOGS)[:-1] if f.startswith("a") else ["complete", "failed"])
    exists, force = c.flag("report_exists"), c.flag("force")
    if out == "none":
        c.assume(not exists and not force)
    with scratch() as d:
        os.makedirs(os.path.join(d, "logs/a/b"))
        for f, k in logs.items():
            with open(os.path.join(d, "logs", f), "w") as o:
                o.write(LOGS[k][0])
        for f in ("logs/a/notes.log", "logs/sorcha.log.txt", "logs/x-sorcha.err"):
            with open(os.path.join(d, f), "w") as o:
                o.write(ERR)
        rep = os.path.join(d, "report.csv")
        if exists:
            with open(rep, "w") as o:
                o.write("kept\n")
        a = ["check-logs", "-f", os.path.join(d, "logs")]
        if out != "none":
            a += ["-o", rep if out == "csv" else rep[:-4]]
        if force:
            a += ["--force"]
        before = {f: open(os.path.join(d, f)).read() for f in listing(d) if f != "report.csv"}
        with argv(*a):
            stop, e = exits(outputs.main)
        c.prove({f: open(os.path.join(d, f)).read() for f in before if os.path.exists(os.path.join(d, f))} == before, "a given file was changed")
        c.prove(set(listing(d)) - set(before) <= {"report.csv"}, "files elsewhere")
        now = open(rep).read() if os.path.exists(rep) else None
        if exists and not force:
            c.prove(now == "kept\n", "existing report kept")
            return
        c.prove(bool(stop) == (not logs), "refused exactly without any log")
        if stop:
            c.prove(e.code not in (0, None, ""), "refused with a message")
            return
        bad = sorted(f for f in logs if not LOGS[logs[f]][1])
        if out == "none" or not bad:
            c.prove(now in (None, "kept\n"), "report without failures")
        else:
            c.prove(now is not None and now != "kept\n", "report written")
            if now in (None, "kept\n"):
                return
            t = pd.read_csv(rep)
            c.prove(sorted(t["log_filename"]) == sorted(os.path.join(d, "logs", f) for f in logs), "every log once")
            for i in range(len(t)):
                f = os.path.relpath(t["log_filename"].iloc[i], os.path.join(d, "logs"))
                c.prove(bool(t["run_successful"].iloc[i]) == (f not in bad), "verdict")
                if f in bad and LOGS[logs[f]][2]:
                    c.prove(t["log_lastline"].iloc[i].strip() == LOGS[logs[f]][2].strip(), "last line")
    c.reached("audited")


@harness(cases=[dict(n=3)])
def verdicts(c, n):
    """the verdicts of the audit itself, in the order of the files"""
    kinds = [c.choose("log%d" % i, list(LOGS)) for i in range(n)]
    with scratch() as d:
        paths = []
        for i, k in enumerate(kinds):
            paths.append(os.path.join(d, "%d.log" % i))
            with open(paths[-1], "w") as o:
                o.write(LOGS[k][0])
        good, last = sorcha.utilities.check_output_logs.check_all_logs(paths)
    c.prove([bool(g) for g in good] == [LOGS[k][1] for k in kinds], "verdict")
    for k, l in zip(kinds, last):
        if LOGS[k][2]:
            c.prove(l.strip() == LOGS[k][2].strip(), "last line")
