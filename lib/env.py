"""Environment stubs shared by harnesses (both symbolic and concrete mode)."""
import numpy as np
from .sym import is_sym


def arr(vals):
    if any(is_sym(v) for v in vals):
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a
    return np.array(vals, dtype=float)


class StubGen:
    """A numpy Generator whose draws are arbitrary (symbolic) values of the documented range."""

    def __init__(self, ctx, tag, zmax=6.0):
        self.ctx, self.tag, self.n, self.m, self.zmax = ctx, tag, 0, 0, zmax
        self.uniforms, self.normals = [], []

    def _shape(self, size):
        if size is None:
            return None, 1
        if isinstance(size, (tuple, list)):
            k = 1
            for s in size:
                k *= int(s)
            return tuple(int(s) for s in size), k
        return (int(size),), int(size)

    def _out(self, vals, shape):
        if shape is None:
            return vals[0]
        return arr(vals).reshape(shape)

    def random(self, size=None, **k):
        shape, n = self._shape(size)
        vals = []
        for _ in range(n):
            v = self.ctx.real("u_%s_%d" % (self.tag, self.n), 0, 1)
            self.ctx.assume(v < 1)
            self.n += 1
            vals.append(v)
        self.uniforms.extend(vals)
        return self._out(vals, shape)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size)
        return low + (high - low) * r

    def standard_normal(self, size=None, **k):
        shape, n = self._shape(size)
        vals = []
        for _ in range(n):
            v = self.ctx.real("z_%s_%d" % (self.tag, self.m), -self.zmax, self.zmax)
            self.m += 1
            vals.append(v)
        self.normals.extend(vals)
        return self._out(vals, shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(np.asarray(loc, dtype=object), np.asarray(scale, dtype=object)).shape
        z = self.standard_normal(size)
        return loc + scale * z


    def multivariate_normal(self, mean, cov, size=None, **k):
        mean, cov = np.asarray(mean), np.asarray(cov)
        d = len(mean)
        n = 1 if size is None else int(size)
        for i in range(d):
            for j in range(d):
                if i != j and cov[i, j] != 0:
                    from .sym import Unsupported

                    raise Unsupported("correlated multivariate_normal")
        z = self.standard_normal((n, d))
        out = np.empty((n, d), dtype=z.dtype)
        for i in range(n):
            for j in range(d):
                sd = np.sqrt(float(cov[j, j])) if not is_sym(cov[j, j]) else cov[j, j].sqrt()
                out[i, j] = mean[j] + sd * z[i, j]
        return out[0] if size is None else out


def distinct(options):
    """system of distinct representatives for a list of index sets (None when there is none)"""

    def go(i, used):
        if i == len(options):
            return []
        for o in options[i]:
            if o not in used:
                r = go(i + 1, used | {o})
                if r is not None:
                    return [o] + r
        return None

    return go(0, frozenset())


def surely(c, claim):
    """plain bool: is the claim certain on this path? (symbolic: by normalisation only)"""
    if c.mode == "conc":
        return bool(claim)
    import z3

    return z3.is_true(z3.simplify(c._b(claim)))


class StubRngs:
    def __init__(self, ctx, **k):
        self.ctx, self.k, self.gens = ctx, k, {}

    def getModuleRNG(self, name):
        if name not in self.gens:
            self.gens[name] = StubGen(self.ctx, "g%d" % len(self.gens), **self.k)
        return self.gens[name]

    def draws(self, kind="uniforms"):
        out = []
        for g in self.gens.values():
            out.extend(getattr(g, kind))
        return out


def rowids(df, col="rowid"):
    return [int(v) for v in df[col].tolist()]


def hav(c, r1, d1, r2, d2):
    sd, cd = c.sin((d2 - d1) / 2), c.cos((d2 - d1) / 2)
    sr, cr = c.sin((r2 - r1) / 2), c.cos((r2 - r1) / 2)
    ch, sh = c.cos((d1 + d2) / 2), c.sin((d1 + d2) / 2)
    h = sd * sd + c.cos(d1) * c.cos(d2) * sr * sr
    c.sos(h, [sd * cr, ch * sr], "hav-nonnegative")
    c.sos(1 - h, [cd * cr, sh * sr], "hav-at-most-one")
    return h


def separation(c, ra1, dec1, ra2, dec2):
    """great-circle distance in degrees"""
    h = hav(c, c.rad(ra1), c.rad(dec1), c.rad(ra2), c.rad(dec2))
    return 2 * c.arcsin(c.sqrt_(h)) * 180 / c.pi


def sky(c):
    """stand-in for astropy.coordinates.SkyCoord (symbolic execution only)"""

    class Sep:
        def __init__(self, v):
            self.degree = self.deg = self.value = v

        def to_value(self, u=None):
            return self.value

    class Sky:
        def __init__(self, ra=None, dec=None, unit=None, **k):
            self.r, self.d = ra, dec

        def separation(self, o):
            if not hasattr(self.r, "__len__") and not hasattr(o.r, "__len__"):
                return Sep(separation(c, self.r, self.d, o.r, o.d))
            b = np.broadcast(np.asarray(self.r, dtype=object), np.asarray(o.r, dtype=object))
            r1, d1, r2, d2 = (np.broadcast_to(np.asarray(v, dtype=object), b.shape).ravel() for v in (self.r, self.d, o.r, o.d))
            return Sep(arr([separation(c, *q) for q in zip(r1, d1, r2, d2)]))

    return Sky


class Tokens:
    """Symbolic cells in real files: unique numbers are written and turned back into symbols after pandas has parsed the
    file (symbolic execution); on replay the values themselves are written."""

    def __init__(self, c):
        self.c, self.map = c, {}

    def cell(self, v):
        if is_sym(v):
            t = 1000000.5 + len(self.map)
            self.map[t] = v
            return "%.1f" % t
        if isinstance(v, float):
            return repr(v)
        return str(v)

    def csv(self, path, cols, sep=",", preamble=()):
        names = list(cols)
        with open(path, "w") as f:
            for l in preamble:
                f.write(l + "\n")
            f.write(sep.join(names) + "\n")
            for r in zip(*cols.values()):
                f.write(sep.join(self.cell(v) for v in r) + "\n")
        return path

    def numeric(self, cols):
        """columns with tokens in place of symbols (for HDF5/sqlite writers)"""
        out = {}
        for k, l in cols.items():
            out[k] = [float(self.cell(v)) if is_sym(v) else v for v in l]
        return out

    def back(self, df):
        import pandas as pd

        if not self.map or not isinstance(df, pd.DataFrame):
            return df
        for k in list(df.columns):
            if df[k].dtype.kind in "fO" and any(isinstance(v, float) and v in self.map for v in df[k].values):
                a = np.empty(len(df), dtype=object)
                for i, v in enumerate(df[k].values):
                    a[i] = self.map.get(v, v) if isinstance(v, float) else v
                df[k] = pd.Series(a, index=df.index, dtype=object)
        return df

    def patches(self):
        import pandas as pd

        if self.c.mode == "conc":
            return []
        out = []
        for n in ("read_csv", "read_hdf", "read_sql", "read_sql_query"):
            f = getattr(pd, n)
            out.append((pd, n, (lambda f: lambda *a, **k: self.back(f(*a, **k)))(f)))
        return out


class OutTokens(Tokens):
    """Symbolic cells through the real writers of pandas: unique full-precision numbers are written in their place and turned
    back into symbols when the harness reads the file; a number altered on the way is not recognised and stays as it is."""

    def cell(self, v):
        if is_sym(v):
            t = 1000000.5312749138 + len(self.map)
            self.map[t] = v
            return repr(t)
        return Tokens.cell(self, v)

    def plain(self, df):
        import pandas as pd

        if isinstance(df, pd.Series):
            return self.plain(df.to_frame("v"))["v"].rename(df.name)
        if not isinstance(df, pd.DataFrame) or not any(is_sym(v) for k in range(df.shape[1]) if df.dtypes.iloc[k] == object for v in df.iloc[:, k].values):
            return df
        df = df.copy()
        for k in list(df.columns):
            if df[k].dtype == object and any(is_sym(v) for v in df[k].values):
                l = [float(self.cell(v)) if is_sym(v) else v for v in df[k].values]
                try:
                    l = np.array(l, dtype=float)
                except (TypeError, ValueError):
                    pass
                df[k] = l
        return df

    def patches(self):
        import pandas as pd

        if self.c.mode == "conc":
            return []
        out = Tokens.patches(self)
        for o, n in ((pd.DataFrame, "to_csv"), (pd.DataFrame, "to_sql"), (pd.DataFrame, "to_hdf")):
            f = getattr(o, n)
            out.append((o, n, (lambda f: lambda df, *a, **k: f(self.plain(df), *a, **k))(f)))
        for n in ("append", "put"):
            f = getattr(pd.HDFStore, n)
            out.append((pd.HDFStore, n, (lambda f: lambda st, key, value, *a, **k: f(st, key, self.plain(value), *a, **k))(f)))
        return out


def text(c, v):
    """the value written out as text, as in a configuration file; float()/int() of it in the code under test give it back"""
    if not is_sym(v):
        return repr(v)
    from . import sym

    i = isinstance(v, sym.SymInt)
    n = 770000001 + len(sym.TEXT)
    t = str(n) if i else "%d.25" % n
    sym.TEXT[t] = v
    return t


import contextlib
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
