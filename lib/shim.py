"""Environment for symbolic execution: numpy/math proxies injected in the sorcha modules of this process only."""
import builtins
import math
import sys
import types
from fractions import Fraction

import numpy as np
import pandas as pd

from . import sym
from .sym import SymNum, SymBool, SymReal, SymInt, SymComplex, is_sym, lift, Unsupported

_OBJ = np.dtype(object)


def has_sym(x):
    if is_sym(x) or isinstance(x, SymComplex):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return any(x.dtype[n] == _OBJ for n in x.dtype.names)
        return x.dtype == _OBJ and any(is_sym(v) or isinstance(v, SymComplex) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == _OBJ and any(is_sym(v) for v in x.values)
    if isinstance(x, pd.DataFrame):
        return any(has_sym(x[c]) for c in x.columns)
    return False


def _floatish(dt):
    if dt is None:
        return True
    if dt is float or dt is SFloat:
        return True
    try:
        d = np.dtype(dt)
    except Exception:
        return False
    return d.kind == "f"


def conv_dtype(dt):
    """float -> object, recursively in structured dtypes"""
    if dt is None or dt is float or dt is SFloat:
        return _OBJ
    if dt is SInt:
        return np.dtype(int)
    try:
        if isinstance(dt, (list, tuple)):
            dt = np.dtype([tuple(conv0(f) for f in fld) if isinstance(fld, (list, tuple)) else fld for fld in dt])
        d = np.dtype(dt)
    except Exception:
        return dt
    if d.names:
        return np.dtype([(n, _OBJ if d[n].kind == "f" else d[n]) for n in d.names])
    return _OBJ if d.kind == "f" else d


def conv0(f):
    return float if f is SFloat else (int if f is SInt else f)


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._base) or (is_sym(o) and cls._symok(o))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __call__(cls, x=0, *a, **k):
        return cls._conv(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


class SFloat(float, metaclass=_Meta):
    _base = float

    @staticmethod
    def _symok(o):
        return isinstance(o, SymReal)

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == _OBJ and x.size == 1:
            x = x.item()
        if isinstance(x, SymInt):
            import z3

            return SymReal(z3.simplify(z3.ToReal(x.t)))
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str) and x.strip() in sym.TEXT:
            return SFloat._conv(sym.TEXT[x.strip()])
        return float(x)


class SInt(int, metaclass=_Meta):
    _base = int

    @staticmethod
    def _symok(o):
        return isinstance(o, SymInt)

    @staticmethod
    def _conv(x=0, *a, **k):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            if bool(x >= 0):
                f = x.floor()
            else:
                f = -((-x).floor())
            return f
        if isinstance(x, str) and not a and isinstance(sym.TEXT.get(x.strip()), SymInt):
            return sym.TEXT[x.strip()]
        return int(x, *a, **k)


class SType(type):
    """stand-in for the builtin `type` inside the code under test: type(sym) is float / int"""

    _map = None

    def __new__(mcs, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymReal):
                return SFloat
            if isinstance(x, SymInt):
                return SInt
            t = builtins.type(x)
            return SFloat if t is float else (SInt if t is int else t)
        return builtins.type(*a, **k)

    def __init__(self, *a, **k):
        pass


SFloat.__name__ = "float"
SInt.__name__ = "int"


def _elem(f, *xs):
    """apply elementwise over object arrays"""
    return np.frompyfunc(f, len(xs), 1)(*xs)


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = LinalgProxy()

    def __getattr__(self, n):
        return getattr(np, n)

    # allocation
    def zeros(self, shape, dtype=float, **k):
        d = conv_dtype(dtype)
        a = np.zeros(shape, dtype=d)
        if d == _OBJ:
            a[...] = 0.0
        elif d.names:
            for n in d.names:
                if d[n] == _OBJ:
                    a[n] = 0.0
        return a

    def empty(self, shape, dtype=float, **k):
        return self.zeros(shape, dtype)

    def ones(self, shape, dtype=float, **k):
        d = conv_dtype(dtype)
        a = np.ones(shape, dtype=d)
        if d == _OBJ:
            a[...] = 1.0
        return a

    def full(self, shape, v, dtype=None, **k):
        if is_sym(v) or _floatish(dtype) and not isinstance(v, (str, bool, int)):
            a = np.empty(shape, dtype=object)
            a[...] = v
            return a
        return np.full(shape, v, dtype=None if dtype is None else conv_dtype(dtype))

    def zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        return self.zeros(a.shape, dtype if dtype is not None else (float if a.dtype.kind in "fO" else a.dtype))

    empty_like = zeros_like

    def ones_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        return self.ones(a.shape, dtype if dtype is not None else (float if a.dtype.kind in "fO" else a.dtype))

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.asarray(a).shape, v, dtype)

    def array(self, x, dtype=None, **k):
        if dtype is not None and (isinstance(dtype, (list, tuple)) or dtype in (SFloat, SInt)):
            dtype = conv_dtype(dtype)
        elif dtype is not None and has_sym(x):
            dtype = conv_dtype(dtype)
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if dtype is not None and has_sym(x):
            dtype = conv_dtype(dtype)
        return np.asarray(x, dtype=dtype, **k)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None, **k):
        if dtype is not None and has_sym(x):
            dtype = conv_dtype(dtype)
        return np.ascontiguousarray(x, dtype=dtype)

    def fromiter(self, it, dtype=float, count=-1, **k):
        return self.array(list(it), dtype=dtype)

    def float64(self, x=0.0):
        return SFloat._conv(x) if is_sym(x) else np.float64(x)

    def _part(self, x, n):
        if isinstance(x, (np.ndarray, pd.Series)) and x.dtype == _OBJ:
            r = _elem(lambda v: getattr(v, n), x.values if isinstance(x, pd.Series) else x)
            return _wrap_like(x, r)
        return getattr(x, n) if is_sym(x) or isinstance(x, SymComplex) else getattr(np, n)(x)

    def real(self, x):
        return self._part(x, "real")

    def imag(self, x):
        return self._part(x, "imag")

    def angle(self, x):
        raise Unsupported("np.angle")

    # predicates
    def isnan(self, x, *a, **k):
        if has_sym(x):
            return _elem(lambda v: False if is_sym(v) else bool(v != v), x) if not is_sym(x) else False
        if isinstance(x, np.ndarray) and x.dtype == _OBJ:
            return np.isnan(x.astype(float), *a, **k)
        return np.isnan(x, *a, **k)

    def isfinite(self, x, *a, **k):
        if is_sym(x):
            return True
        if isinstance(x, (np.ndarray, pd.Series, list, tuple)) and has_sym(x):
            r = _elem(lambda v: True if is_sym(v) else bool(np.isfinite(v)), np.asarray(x, dtype=object))
            return r.astype(bool)
        if isinstance(x, np.ndarray) and x.dtype == _OBJ:
            return np.isfinite(x.astype(float))
        return np.isfinite(x, *a, **k)

    def isinf(self, x, *a, **k):
        if is_sym(x):
            return False
        if isinstance(x, (np.ndarray, pd.Series, list, tuple)) and has_sym(x):
            r = _elem(lambda v: False if is_sym(v) else bool(np.isinf(v)), np.asarray(x, dtype=object))
            return r.astype(bool)
        return np.isinf(x, *a, **k)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if has_sym(a) or has_sym(b):
            f = lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y))
            if not isinstance(a, (np.ndarray, pd.Series, list)) and not isinstance(b, (np.ndarray, pd.Series, list)):
                return f(a, b)
            return _elem(f, np.asarray(a, dtype=object), np.asarray(b, dtype=object)).astype(bool)
        if getattr(a, "dtype", None) == _OBJ:
            a = np.asarray(a).astype(float)
        if getattr(b, "dtype", None) == _OBJ:
            b = np.asarray(b).astype(float)
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return bool(np.all(self.isclose(a, b, rtol, atol, equal_nan)))

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
            return np.interp(np.asarray(x, dtype=float), np.asarray(xp, dtype=float), np.asarray(fp, dtype=float), left, right, period)
        if has_sym(xp) or has_sym(fp) or period is not None or left is not None or right is not None:
            raise Unsupported("np.interp with symbolic table")
        c = sym.cur()
        xp, fp = np.asarray(xp, dtype=float), np.asarray(fp, dtype=float)
        if is_sym(x):
            return c.interp(x, xp, fp)
        r = _elem(lambda v: c.interp(v, xp, fp), np.asarray(x, dtype=object))
        return r

    def searchsorted(self, a, v, side="left", sorter=None):
        if not (has_sym(a) or has_sym(v)):
            return np.searchsorted(a, v, side=side, sorter=sorter)
        a = np.asarray(a, dtype=object)
        if sorter is not None:
            a = a[sorter]

        def one(x):
            n = 0
            for y in a:
                if bool(y < x) if side == "left" else bool(y <= x):
                    n += 1
                else:
                    break
            return n

        if not isinstance(v, (np.ndarray, list, tuple, pd.Series)):
            return one(v)
        return np.array([one(x) for x in np.asarray(v, dtype=object)], dtype=int)

    def where(self, cond, *a):
        if isinstance(cond, SymBool):
            cond = bool(cond)
        elif isinstance(cond, np.ndarray) and cond.dtype == _OBJ:
            cond = cond.astype(bool)
        return np.where(cond, *a)

    def clip(self, a, lo=None, hi=None, **k):
        lo = k.get("min", k.get("a_min", lo))
        hi = k.get("max", k.get("a_max", hi))
        if not (has_sym(a) or has_sym(lo) or has_sym(hi)):
            return np.clip(a, lo, hi)

        def f(x):
            if lo is not None and bool(x < lo):
                return lo
            if hi is not None and bool(x > hi):
                return hi
            return x

        if is_sym(a):
            return f(a)
        return _elem(f, np.asarray(a, dtype=object))

    def linspace(self, a, b, num=50, endpoint=True, **k):
        if not (is_sym(a) or is_sym(b)):
            return np.linspace(a, b, num, endpoint=endpoint, **k)
        d = num - 1 if endpoint else num
        return np.array([a + (b - a) * Fraction(i, d) if d else a for i in range(num)], dtype=object)

    def sum(self, a, *p, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        return np.sum(np.asarray(a, dtype=object) if has_sym(a) else a, *p, **k)

    def median(self, a, axis=None, **k):
        if not has_sym(a):
            return np.median(a, axis=axis, **k)
        s = np.sort(np.asarray(a, dtype=object).ravel())
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

    def mean(self, a, axis=None, **k):
        return np.mean(np.asarray(a, dtype=object) if has_sym(a) else a, axis=axis, **k)

    def diff(self, a, **k):
        return np.diff(a, **k)

    def unique(self, a, **k):
        if has_sym(a):
            if k.pop("axis", None) is not None:
                raise Unsupported("np.unique axis")
            s = np.sort(np.asarray(a, dtype=object).ravel())
            out, first, counts, inv = [], [], [], None
            for v in s:
                if not out or bool(out[-1] != v):
                    out.append(v)
                    counts.append(0)
                counts[-1] += 1
            o = np.array(out, dtype=object)
            if k.get("return_counts") and not (k.get("return_index") or k.get("return_inverse")):
                return o, np.array(counts)
            if any(k.values()):
                raise Unsupported("np.unique options on symbolic data")
            return o
        return np.unique(a, **k)


_ALIAS = {"radians": "deg2rad", "degrees": "rad2deg", "abs": "__abs__", "absolute": "__abs__", "fabs": "__abs__", "negative": "__neg__"}
_UNARY = ["sin", "cos", "tan", "arcsin", "arccos", "arctan", "sqrt", "exp", "log", "log10", "log2", "log1p", "exp2", "expm1", "radians", "degrees",
          "deg2rad", "rad2deg", "floor", "ceil", "trunc", "square", "abs", "absolute", "fabs", "sign", "rint", "sinh", "cosh", "tanh", "arctanh", "negative", "asin", "acos", "atan", "cbrt", "reciprocal"]
_BINARY = ["arctan2", "atan2", "hypot", "maximum", "minimum", "fmax", "fmin", "fmod", "power", "float_power", "pow"]


def _wrap_like(x, r):
    if isinstance(x, pd.Series):
        return pd.Series(list(r), index=x.index, dtype=object)
    return r


def _mk_unary(name):
    real = getattr(np, name)
    meth = {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(name, _ALIAS.get(name, name))

    def one(v):
        if isinstance(v, SymComplex):
            g = getattr(v, meth, None) or (v.__abs__ if name in ("abs", "absolute") else None)
            if g is None:
                raise Unsupported("np.%s of a complex number" % name)
            return g()
        if is_sym(v):
            if name == "reciprocal":
                return 1 / v
            if name == "trunc":
                return v.floor() if bool(v >= 0) else -((-v).floor())
            f = getattr(lift(v), meth, None)
            if f is None:
                raise Unsupported("np.%s" % name)
            return f()
        return real(float(v)) if not isinstance(v, (bool, np.bool_)) else real(v)

    def f(self, x, *a, **k):
        if is_sym(x) or isinstance(x, SymComplex):
            return one(x)
        if isinstance(x, pd.DataFrame):
            return real(x, *a, **k)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = np.array(x, dtype=object)
        if isinstance(x, (np.ndarray, pd.Series)) and x.dtype == _OBJ:
            r = _elem(one, x.values if isinstance(x, pd.Series) else x)
            if "out" in k and k["out"] is not None:
                k["out"][...] = r
                return k["out"]
            if isinstance(r, np.ndarray) and r.size and not has_sym(r):
                r = r.astype(float)
                return pd.Series(r, index=x.index) if isinstance(x, pd.Series) else r
            return _wrap_like(x, r)
        return real(x, *a, **k)

    f.__name__ = name
    return f


def _mk_binary(name):
    real = getattr(np, name)

    def one(a, b):
        if not is_sym(a) and not is_sym(b):
            return real(float(a), float(b))
        if name in ("arctan2", "atan2"):
            return lift(a).arctan2(lift(b))
        if name == "hypot":
            return lift(a * a + b * b).sqrt()
        if name in ("maximum", "fmax"):
            return sym.cur().max(lift(a), lift(b))
        if name in ("minimum", "fmin"):
            return sym.cur().min(lift(a), lift(b))
        if name == "fmod":
            q = a / b
            q = q.floor() if bool(q >= 0) else -((-q).floor())
            return a - q * b
        return a**b

    def f(self, a, b, *p, **k):
        if not (has_sym(a) or has_sym(b)):
            fl = lambda x: x.astype(float) if isinstance(x, (np.ndarray, pd.Series)) and x.dtype == _OBJ else x
            return real(fl(a), fl(b), *p, **k)
        va, vb = (x.values if isinstance(x, pd.Series) else x for x in (a, b))
        if not any(isinstance(x, (np.ndarray, list, tuple)) for x in (va, vb)):
            return one(va, vb)
        r = _elem(one, np.asarray(va, dtype=object), np.asarray(vb, dtype=object))
        for x in (a, b):
            if isinstance(x, pd.Series):
                return _wrap_like(x, r)
        return r

    f.__name__ = name
    return f


for _n in _UNARY:
    if hasattr(np, _n):
        setattr(NpProxy, _n, _mk_unary(_n))
for _n in _BINARY:
    if hasattr(np, _n):
        setattr(NpProxy, _n, _mk_binary(_n))


# astropy.units on symbolic data: linear unit conversion with the real conversion factor
class SymUnit:
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, u):
        self.u = u

    def __rmul__(self, x):
        if has_sym(x):
            return SymQuantity(x.values if isinstance(x, pd.Series) else (np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x), self.u)
        if isinstance(x, (SymUnit, UnitsProxy)):
            return SymUnit(x.u * self.u)
        if isinstance(x, (np.ndarray, pd.Series)) and x.dtype == _OBJ:
            x = np.asarray(x).astype(float)
        return x * self.u

    def __mul__(self, x):
        if isinstance(x, SymUnit):
            return SymUnit(self.u * x.u)
        return self.__rmul__(x)

    def __truediv__(self, x):
        return SymUnit(self.u / (x.u if isinstance(x, SymUnit) else x))

    def __rtruediv__(self, x):
        return (1 / x if False else x) * SymUnit(self.u**-1)

    def __pow__(self, n):
        return SymUnit(self.u**n)

    def __eq__(self, o):
        return self.u == (o.u if isinstance(o, SymUnit) else o)

    def __hash__(self):
        return hash(self.u)

    def __getattr__(self, n):
        return getattr(self.u, n)


class SymQuantity:
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, v, u):
        self.value, self.unit = v, u

    def to(self, u):
        u = u.u if isinstance(u, SymUnit) else u
        f = float(self.unit.to(u))
        if f != 1.0:
            f = _unit_factor(self.unit, u)
        return SymQuantity(self.value * f, u)

    def to_value(self, u=None):
        return self.value if u is None else self.to(u).value

    def __mul__(self, o):
        if isinstance(o, SymUnit):
            return SymQuantity(self.value, self.unit * o.u)
        if isinstance(o, SymQuantity):
            return SymQuantity(self.value * o.value, self.unit * o.unit)
        return SymQuantity(self.value * o, self.unit)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymUnit):
            return SymQuantity(self.value, self.unit / o.u)
        return SymQuantity(self.value / o, self.unit)


def _unit_factor(a, b):
    return sym.quant(float(a.to(b)))


class UnitsProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("astropy.units")
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        v = getattr(self._real, n)
        return SymUnit(v) if isinstance(v, self._real.UnitBase) else v


class LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported("numpy.linalg.%s on symbolic data" % n)
            return f(*a, **k)

        return g

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            if getattr(x, "dtype", None) == _OBJ:
                x = np.asarray(x).astype(float)
            return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
        x = np.asarray(x, dtype=object)
        if ord not in (None, 2):
            raise Unsupported("norm ord")
        r = (x * x).sum(axis=axis, keepdims=keepdims) if axis is not None or keepdims else (x * x).sum()
        return np.sqrt(r)


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        alias = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "fabs": "__abs__", "radians": "deg2rad", "degrees": "rad2deg",
                 "floor": "floor", "ceil": "ceil", "log2": "log2"}

        def g(*a):
            if any(is_sym(x) for x in a):
                if n == "atan2":
                    return lift(a[0]).arctan2(a[1])
                if n == "hypot":
                    return np.sqrt(sum(x * x for x in a))
                if n == "pow":
                    return a[0] ** a[1]
                if n == "isnan" or n == "isinf":
                    return False
                if n == "isfinite":
                    return True
                if n == "isclose":
                    return NP.isclose(*a)
                m = getattr(a[0], alias.get(n, n), None)
                if m is None or len(a) > 1:
                    raise Unsupported("math.%s" % n)
                return m()
            return f(*a)

        return g


NP = NpProxy()
MATH = MathProxy()


def sround(x, n=None):
    if is_sym(x):
        return sym.cur().round(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def patch_modules(prefix="sorcha", skip=()):
    """Replace numpy/math/numba-dispatchers in every loaded module of the package (this process only)."""
    try:
        from numba.core.dispatcher import Dispatcher
    except Exception:
        Dispatcher = ()
    au = sys.modules.get("astropy.units")
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".")) or name in skip:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = NP
            elif v is math:
                d[k] = MATH
            elif au is not None and v is au:
                d[k] = UnitsProxy(au)
            elif isinstance(v, np.ufunc) and v.__name__ in NpProxy.__dict__:
                d[k] = getattr(NP, v.__name__)
            elif v is np.linalg:
                d[k] = NP.linalg
            elif Dispatcher and isinstance(v, Dispatcher):
                d[k] = v.py_func
            elif isinstance(v, type) and v.__module__ == "numba.typed.typedlist" and v.__name__ == "List":
                d[k] = list
            elif getattr(v, "__module__", None) == "math" and callable(v):
                d[k] = getattr(MATH, v.__name__)
            elif callable(v) and type(v) is not np.ufunc and getattr(v, "__module__", None) in ("numpy", "numpy.linalg") and getattr(v, "__name__", "") in NpProxy.__dict__:
                d[k] = getattr(NP, v.__name__)
            elif v is np.linalg.norm:
                d[k] = NP.linalg.norm
        d.setdefault("float", SFloat)
        d.setdefault("int", SInt)
        d.setdefault("round", sround)
        d.setdefault("type", SType)


def patch_special():
    """scipy.special functions in closed form"""
    try:
        import scipy.special as sp
    except Exception:
        return
    real = sp.expit
    if getattr(real, "__name__", "") != "expit" or not isinstance(real, np.ufunc):
        return

    def expit(x, *a, **k):
        if has_sym(x):
            return 1 / (1 + NP.exp(-x))
        return real(np.asarray(x, dtype=float) if getattr(x, "dtype", None) == _OBJ else x, *a, **k)

    sp.expit = expit
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "sorcha" or name.startswith("sorcha.")):
            for key, v in list(mod.__dict__.items()):
                if v is real:
                    mod.__dict__[key] = expit


def patch_pandas():
    S, D = pd.Series, pd.DataFrame
    s_astype, d_astype, s_round, d_round = S.astype, D.astype, S.round, D.round

    def fl(dt):
        return dt is float or dt is SFloat or (isinstance(dt, str) and dt in ("float", "float64", "f8")) or dt is np.float64

    def astype(self, dtype=None, *a, **k):
        if fl(dtype) and self.dtype == _OBJ and any(is_sym(v) for v in self.values):
            return self.copy()
        if dtype in (SFloat,):
            dtype = float
        if dtype in (SInt,):
            dtype = int
        return s_astype(self, dtype, *a, **k)

    def dastype(self, dtype=None, *a, **k):
        if isinstance(dtype, dict):
            r = self.copy()
            for c, t in dtype.items():
                r[c] = r[c].astype(t)
            return r
        if fl(dtype) and has_sym(self):
            r = self.copy()
            for c in r.columns:
                r[c] = r[c].astype(dtype)
            return r
        return d_astype(self, float if dtype is SFloat else (int if dtype is SInt else dtype), *a, **k)

    def rnd(self, decimals=0, *a, **k):
        if self.dtype == _OBJ and any(is_sym(v) for v in self.values):
            return S([sround(v, decimals) if is_sym(v) else (round(v, decimals) if isinstance(v, float) else v) for v in self.values], index=self.index, name=self.name, dtype=object)
        return s_round(self, decimals, *a, **k)

    def drnd(self, decimals=0, *a, **k):
        if has_sym(self):
            r = self.copy()
            for c in r.columns:
                n = decimals.get(c) if isinstance(decimals, dict) else decimals
                if n is not None and (r[c].dtype.kind in "fO"):
                    if r[c].dtype == _OBJ and not all(is_sym(v) or isinstance(v, float) for v in r[c].values):
                        continue
                    r[c] = rnd(r[c], n)
            return r
        return d_round(self, decimals, *a, **k)

    to_rec = D.to_records

    def to_records(self, index=True, column_dtypes=None, index_dtypes=None):
        if isinstance(column_dtypes, dict) and has_sym(self):
            column_dtypes = {k: t for k, t in column_dtypes.items() if k not in self.columns or not has_sym(self[k])}
        return to_rec(self, index=index, column_dtypes=column_dtypes, index_dtypes=index_dtypes)

    patch_groupby()
    S.astype, D.astype, S.round, D.round, D.to_records = astype, dastype, rnd, drnd, to_records


def _isnan(v):
    return v is None or (isinstance(v, float) and v != v)


def _stat(name, vals):
    """one aggregate of a group with symbolic members"""
    c = sym.cur()
    full = [v for v in vals if not _isnan(v)]
    if name == "size":
        return len(vals)
    if name == "count":
        return len(full)
    if name == "all":
        return all(bool(v) for v in full)
    if name == "any":
        return any(bool(v) for v in full)
    if name == "sum":
        return sum(full[1:], full[0]) if full else 0.0
    if not full:
        return float("nan")
    if name in ("first", "last"):
        return full[0 if name == "first" else -1]
    if name == "mean":
        return sum(full[1:], full[0]) / len(full)
    if name in ("min", "max", "median"):
        l = list(full)
        for i in range(len(l)):  # exchange sort
            for j in range(len(l) - 1 - i):
                a, b = l[j], l[j + 1]
                l[j], l[j + 1] = c.If(a <= b, a, b), c.If(a <= b, b, a)
        if name == "median":
            n = len(l)
            return l[n // 2] if n % 2 else (l[n // 2 - 1] + l[n // 2]) / 2
        return l[0] if name == "min" else l[-1]
    raise sym.Unsupported("groupby aggregate %r" % (name,))


STATS = ("min", "max", "median", "first", "last", "mean", "sum", "all", "any", "count", "size")


def patch_groupby():
    from pandas.core.groupby import SeriesGroupBy as SG, DataFrameGroupBy as DG

    def series(gb, name):
        o = gb.obj if isinstance(gb.obj, pd.Series) else gb.obj[gb._selection]
        index = gb.size().index
        ind = gb.indices
        if callable(name):
            vals = [name(o.iloc[list(ind.get(k, ()))]) for k in index]
        else:
            vals = [_stat(name, [o.values[i] for i in ind.get(k, ())]) for k in index]
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        if not any(is_sym(v) for v in vals):
            a = pd.Series(list(vals)).values if callable(name) else a.astype(bool if name in ("all", "any") else int if name in ("count", "size") else float)
        return pd.Series(a, index=index, name=o.name)

    def fname(f):
        if isinstance(f, str):
            return f
        n = getattr(f, "__name__", None)
        n = {"amin": "min", "amax": "max", "len": "size", "nanmin": "min", "nanmax": "max", "nanmedian": "median"}.get(n, n)
        return n if n in STATS else f

    def label(f, i=0):
        n = fname(f)
        return n if isinstance(n, str) else getattr(n, "__name__", "f").replace("<lambda>", "<lambda_%d>" % i)

    def symbolic(gb):
        o = gb.obj
        return has_sym(o if isinstance(o, pd.Series) else o[gb._selection]) if not isinstance(o, pd.Series) and not isinstance(gb._selection, list) else has_sym(o)

    s_agg, d_agg = SG.aggregate, DG.aggregate

    def sagg(self, func=None, *a, **k):
        if not symbolic(self):
            return s_agg(self, func, *a, **k)
        if func is None and k:
            return pd.DataFrame({n: series(self, fname(f)) for n, f in k.items()})
        if isinstance(func, (list, tuple)):
            return pd.DataFrame({label(f, i): series(self, fname(f)) for i, f in enumerate(func)})
        if isinstance(func, dict):
            return pd.DataFrame({n: series(self, fname(f)) for n, f in func.items()})
        return series(self, fname(func))

    def dagg(self, func=None, *a, **k):
        if not has_sym(self.obj):
            return d_agg(self, func, *a, **k)
        if func is None and k:
            return pd.DataFrame({n: self[q[0]].agg(q[1]) for n, q in k.items()})
        if isinstance(func, dict):
            flat = {}
            for col, f in func.items():
                if isinstance(f, (list, tuple)):
                    for i, g in enumerate(f):
                        flat[(col, label(g, i))] = self[col].agg(g)
                else:
                    flat[col] = self[col].agg(f)
            return pd.DataFrame(flat)
        if func == "size":
            return self.size()
        return d_agg(self, func, *a, **k)

    SG.aggregate = SG.agg = sagg
    DG.aggregate = DG.agg = dagg
    for n in STATS:
        if n == "size":
            continue
        f = getattr(SG, n)

        def m(self, *a, _f=f, _n=n, **k):
            return series(self, _n) if symbolic(self) else _f(self, *a, **k)

        setattr(SG, n, m)


def numpy_errstate():
    np.seterr(all="ignore")
