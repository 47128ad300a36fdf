"""Symbolic scalars and bounded path exploration for real Python code.

A SymReal/SymInt/SymBool is a Python object wrapping a z3 term.  Real numpy / pandas code operates on object
arrays of them.  Whenever Python needs the truth value of a SymBool, the current path forks (decision-replay
exploration).  Arithmetic is over the mathematical reals/integers.  Non-polynomial functions are axiomatised
(see _trig, sqrt, exp, log below) with canonicalised arguments.
"""
import math
import time
import numbers
from fractions import Fraction

import numpy as np
import z3

PIQ = Fraction(245850922, 78256779)  # |PIQ - pi| < 8e-17, below double precision


class Unsupported(BaseException):
    """The engine cannot represent what the code did with a symbolic value."""


class PathEnd(BaseException):
    """This path is infeasible / assumed away."""


class Budget(BaseException):
    """Exploration budget exhausted."""


_CTX = None


def cur():
    if _CTX is None:
        raise Unsupported("symbolic value used outside exploration")
    return _CTX


# ------------------------------------------------------------------------------------------- constants
_qcache = {}
_cands = None


def quant(x):
    """Float -> rational, undoing double rounding of short decimals, small fractions and multiples of pi."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    q = _qcache.get(x)
    if q is not None:
        return q
    if x == 0:
        q = Fraction(0)
    else:
        r = repr(x)
        m = r.split("e")[0].replace("-", "").replace(".", "").strip("0")
        ex = Fraction(x)
        if len(m) <= 13:
            q = Fraction(r)
        else:
            q = None
            for mul in (Fraction(1), 1 / PIQ, PIQ):
                y = ex * mul
                # scale to a comfortable range
                for sc in (1, 10**4, 10**8, 10**12):
                    c = (y * sc).limit_denominator(200000)
                    if c != 0 and abs(c.numerator) < 10**8 and abs(c / (y * sc) - 1) < Fraction(1, 10**15) * 2:
                        q = c / sc / mul
                        break
                    d = (1 / (y * sc)).limit_denominator(200000) if y else 0
                    if d != 0 and abs(d.numerator) < 10**8 and abs(1 / d / (y * sc) - 1) < Fraction(1, 10**15) * 2:
                        q = 1 / d / sc / mul
                        break
                if q is not None:
                    break
            if q is None:
                q = ex
    _qcache[x] = q
    return q


def qval(q):
    q = quant(q)
    return z3.RealVal(f"{q.numerator}/{q.denominator}") if q.denominator != 1 else z3.RealVal(str(q.numerator))


def z3frac(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


# ------------------------------------------------------------------------------------------- polynomials
# Laurent polynomials over atoms; atoms are z3 constants (by name) or opaque terms.
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


def pmul(a, b):
    if len(a) * len(b) > 4000:
        raise TooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


class PolyMaker:
    def __init__(self):
        self.memo = {}
        self.atom_z3 = {}
        self.inv_poly = {}
        self.keep = []

    def atom(self, e, inv=False):
        if z3.is_const(e):
            k = e.decl().name()
        else:
            k = "@" + str(e.get_id())
            self.keep.append(e)
        self.atom_z3[k] = e
        return k

    def poly(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._poly(e)
            self.keep.append(e)
            self.memo[i] = r
        return r

    def _poly(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            q = Fraction(e.as_long()) if z3.is_int_value(e) else z3frac(e)
            return {(): q} if q else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = padd(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.poly(e.children()[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = pmul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            pb = self.poly(b)
            pa = self.poly(a)
            if len(pb) == 1:
                (m, c), = pb.items()
                return pmul(pa, {tuple((x, -n) for x, n in m): 1 / c})
            # normalise divisor so that its leading coefficient is 1
            items = pkey(pb)
            lead = items[0][1]
            nb = tuple((m, c / lead) for m, c in items)
            at = "%inv" + str(hash(nb))
            self.inv_poly[at] = dict(nb)
            self.atom_z3.setdefault(at, 1 / (b / qval(lead)))
            return pmul(pa, {((at, 1),): 1 / lead})
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(e.children()[0])
        if k == z3.Z3_OP_POWER:
            a, b = e.children()
            if z3.is_rational_value(b) or z3.is_int_value(b):
                n = z3frac(b) if z3.is_rational_value(b) else Fraction(b.as_long())
                if n.denominator == 1 and 0 <= n <= 8:
                    r = {(): Fraction(1)}
                    for _ in range(int(n)):
                        r = pmul(r, self.poly(a))
                    return r
        return {((self.atom(e), 1),): Fraction(1)}

    def to_z3(self, p):
        s = []
        for m, c in pkey(p):
            t = qval(c)
            for a, n in m:
                x = self.atom_z3[a]
                if z3.is_int(x):
                    x = z3.ToReal(x)
                for _ in range(abs(n)):
                    t = t * x if n > 0 else t / x
            s.append(t)
        if not s:
            return qval(0)
        return s[0] if len(s) == 1 else z3.Sum(s)


# ------------------------------------------------------------------------------------------- values
INF = float("inf")


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def lift(x):
    """Python/numpy number -> SymReal/SymInt, or None when not representable (nan/inf/other)."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return SymInt(z3.IntVal(int(x)))
    if isinstance(x, numbers.Integral):
        return SymInt(z3.IntVal(int(x)))
    if isinstance(x, Fraction):
        return SymReal(qval(x))
    if isinstance(x, numbers.Real) or type(x).__name__ in ("float64", "float32"):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return None
        return SymReal(qval(f))
    return None


def _special(x):
    """float nan/inf?"""
    try:
        return isinstance(x, (float,)) and (math.isnan(x) or math.isinf(x))
    except Exception:
        return False


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, SymNum):
            return (o != 0).t
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        if hasattr(o, "dtype") and getattr(o, "shape", ()) != ():
            return NotImplemented
        return SymBool(z3.And(self.t, self._o(o)))

    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "dtype") and getattr(o, "shape", ()) != ():
            return NotImplemented
        return SymBool(z3.Or(self.t, self._o(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, self._o(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    logical_not = __invert__

    def __eq__(self, o):
        return SymBool(self.t == self._o(o))

    def __ne__(self, o):
        return SymBool(self.t != self._o(o))

    def __hash__(self):
        return 12345

    def _n(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % str(self.t)[:60]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _arr(o):
    return hasattr(o, "__array_ufunc__") and hasattr(o, "shape") and getattr(o, "shape", ()) != () or hasattr(o, "iloc")


class SymNum:
    __slots__ = ("t",)
    __array_priority__ = -1

    def __init__(self, t):
        self.t = t

    def _sort2(self, o):
        a, b = self.t, o.t
        if z3.is_int(a) and z3.is_int(b):
            return a, b, True
        if z3.is_int(a):
            a = z3.ToReal(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
        return a, b, False

    @staticmethod
    def mk(t):
        t = z3.simplify(t)
        return SymInt(t) if z3.is_int(t) else SymReal(t)

    def _bin(self, o, f, rev=False):
        if isinstance(o, (list, tuple, str)) or o is None:
            return NotImplemented
        if _arr(o):
            return NotImplemented
        if hasattr(o, "shape") and getattr(o, "shape", None) == () and hasattr(o, "item"):
            o = o.item()
        if isinstance(o, (float,)) and (math.isnan(o) or math.isinf(o)):
            return self._spec(o, f, rev)
        if isinstance(o, complex):
            x, y = (SymComplex(o.real, o.imag), SymComplex(self, 0)) if rev else (SymComplex(self, 0), SymComplex(o.real, o.imag))
            return x * y if f is _f_mul else (x + y if f is _f_add else x - y)
        l = lift(o)
        if l is None:
            return NotImplemented
        x, y = (l, self) if rev else (self, l)
        a, b, i = x._sort2(y)
        return SymNum.mk(f(a, b))

    def _spec(self, o, f, rev):
        if math.isnan(o):
            return o
        if f is _f_add:
            return o
        if f is _f_sub:
            return o if rev else -o
        if f is _f_mul:
            if bool(self > 0):
                return o
            if bool(self < 0):
                return -o
            return float("nan")
        raise Unsupported("inf arithmetic")

    def __add__(self, o):
        return self._bin(o, _f_add)

    def __radd__(self, o):
        return self._bin(o, _f_add, True)

    def __sub__(self, o):
        return self._bin(o, _f_sub)

    def __rsub__(self, o):
        return self._bin(o, _f_sub, True)

    def __mul__(self, o):
        return self._bin(o, _f_mul)

    def __rmul__(self, o):
        return self._bin(o, _f_mul, True)

    def _div(self, a, b):
        # a, b lifted
        at = z3.ToReal(a.t) if z3.is_int(a.t) else a.t
        bt = z3.ToReal(b.t) if z3.is_int(b.t) else b.t
        bt = z3.simplify(bt)
        c = cur()
        if z3.is_rational_value(bt):
            if z3frac(bt) == 0:
                return _divzero(a)
            return SymNum.mk(at * qval(1 / z3frac(bt)))
        if not c.nonzero(bt):
            bt = c.single(bt)
        if not c.nonzero(bt):
            if c.branch(bt == 0):
                return _divzero(a)
        try:
            pb = c.pm.poly(bt)
            if len(pb) == 1:
                pa = c.pm.poly(at)
                if len(pa) == 1:
                    q = c.pm.poly(at / bt)
                    if len(q) == 1 and () in q:
                        return SymReal(qval(q[()]))
        except TooBig:
            pass
        return SymNum.mk(at / bt)

    def __truediv__(self, o):
        if _arr(o) or isinstance(o, (list, tuple, str)) or o is None:
            return NotImplemented
        if hasattr(o, "shape") and hasattr(o, "item"):
            o = o.item()
        if _special(o):
            return float("nan") if math.isnan(o) else 0.0
        l = lift(o)
        if l is None:
            return NotImplemented
        return self._div(self, l)

    def __rtruediv__(self, o):
        if _arr(o) or isinstance(o, (list, tuple, str)) or o is None:
            return NotImplemented
        if hasattr(o, "shape") and hasattr(o, "item"):
            o = o.item()
        if _special(o):
            return o if math.isnan(o) else self._spec(o, _f_mul, True)
        l = lift(o)
        if l is None:
            return NotImplemented
        return self._div(l, self)

    def __neg__(self):
        return SymNum.mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        c = cur()
        s = c.sign(self.t)
        if s is not None:
            return self if s >= 0 else -self
        if getattr(c, "abs_ite", False):
            return SymNum.mk(z3.If(self.t >= 0, self.t, -self.t))
        return self if c.branch(self.t >= 0) else -self

    fabs = __abs__
    absolute = __abs__

    def __pow__(self, n, mod=None):
        if _arr(n):
            return NotImplemented
        if is_sym(n):
            tn = z3.simplify(n.t)
            if z3.is_int_value(tn):
                n = tn.as_long()
            elif z3.is_rational_value(tn):
                n = z3frac(tn)
            else:
                return sym_pow(self, n)
        q = quant(n)
        if q.denominator == 1:
            k = int(q)
            if abs(k) > 12:
                raise Unsupported("power %d" % k)
            r = SymInt(z3.IntVal(1)) if z3.is_int(self.t) and k >= 0 else SymReal(qval(1))
            b = self
            e = abs(k)
            while e:
                if e & 1:
                    r = r * b
                b = b * b if e > 1 else b
                e >>= 1
            return r if k >= 0 else 1.0 / r
        if q.denominator == 2 and abs(q.numerator) < 20:
            s = self.sqrt()
            return s ** int(q.numerator)
        return sym_pow(self, lift(q))

    def __rpow__(self, b):
        if _arr(b):
            return NotImplemented
        return sym_pow(lift(b), self)

    # comparisons
    def _cmp(self, o, f, op):
        if _arr(o) or isinstance(o, (list, tuple, str)) or o is None:
            return NotImplemented
        if hasattr(o, "shape") and hasattr(o, "item"):
            o = o.item()
        if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
            if math.isnan(o):
                return op == "ne"
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[op]
        l = lift(o)
        if l is None:
            return NotImplemented
        a, b, _ = self._sort2(l)
        return SymBool(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, "eq")
        return False if r is NotImplemented and not _arr(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, "ne")
        return True if r is NotImplemented and not _arr(o) else r

    def __hash__(self):
        if ENUM_HASH and z3.is_int(self.t):
            return hash(self.__index__())  # the values are tried one by one, so that a table of plain integers finds its key
        return 987654321

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v):
            return float(z3frac(v))
        if z3.is_int_value(v):
            return float(v.as_long())
        if FLOATS is not None:
            return FLOATS(self)
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_int(v):
            return cur().enum_int(v)
        raise TypeError("symbolic real cannot be interpreted as an integer")

    def __int__(self):
        return cur().trunc(self)

    def __trunc__(self):
        return cur().trunc(self)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __floordiv__(self, o):
        l = lift(o)
        if l is None:
            return NotImplemented
        if z3.is_int(self.t) and z3.is_int(l.t):
            if z3.is_int_value(z3.simplify(l.t)) and z3.simplify(l.t).as_long() > 0:
                return SymNum.mk(self.t / l.t)
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (lift(o) / self).floor()

    def __mod__(self, o):
        if _arr(o):
            return NotImplemented
        l = lift(o)
        if l is None:
            return NotImplemented
        if z3.is_int(self.t) and z3.is_int(l.t):
            lv = z3.simplify(l.t)
            if z3.is_int_value(lv) and lv.as_long() > 0:
                return SymNum.mk(self.t % l.t)
        return self - l * (self / l).floor()

    def __rmod__(self, o):
        return lift(o) % self

    remainder = mod = __mod__

    def __divmod__(self, o):
        return self // o, self % o

    def __and__(self, o):
        """low bits of an integer; other masks are not encoded"""
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o + 1) & o == 0 and z3.is_int(self.t):
            return self % (o + 1)
        return NotImplemented

    __rand__ = __and__

    def __rshift__(self, k):
        if isinstance(k, int) and z3.is_int(self.t):
            return self // (1 << k)
        return NotImplemented

    def __lshift__(self, k):
        if isinstance(k, int) and z3.is_int(self.t):
            return self * (1 << k)
        return NotImplemented

    def floor(self):
        if z3.is_int(self.t):
            return self
        return cur().floor(self)

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def __round__(self, n=None):
        return cur().round(self, n)

    def round(self, n=0):
        return cur().round(self, n)

    def sign(self):
        if bool(self > 0):
            return 1.0
        if bool(self < 0):
            return -1.0
        return 0.0

    # numpy object-ufunc methods
    def sqrt(self):
        return cur().sqrt(self)

    def square(self):
        return self * self

    def sin(self):
        return cur().trig(self)[0]

    def cos(self):
        return cur().trig(self)[1]

    def tan(self):
        s, c = cur().trig(self)
        return s / c

    def arcsin(self):
        return cur().arcsin(self)

    def arccos(self):
        return cur().arccos(self)

    def arctan(self):
        return cur().arctan2(self, SymReal(qval(1)))

    def arctan2(self, x):
        return cur().arctan2(self, lift(x))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def deg2rad(self):
        return self * (PIQ / 180)

    radians = deg2rad

    def radians(self):
        return self.deg2rad()

    def degrees(self):
        return self.rad2deg()

    def rad2deg(self):
        return self * (180 / PIQ)

    degrees = rad2deg

    def exp(self):
        return cur().expb("e", self)

    def exp2(self):
        return cur().expb(Fraction(2), self)

    def expm1(self):
        return self.exp() - 1

    def log(self):
        return cur().logb("e", self)

    def log10(self):
        return cur().logb(Fraction(10), self)

    def log2(self):
        return cur().logb(Fraction(2), self)

    def log1p(self):
        return (self + 1).log()

    def _tight(self, f):
        """f of a number known to a relative 1e-13 (constants with square roots)"""
        lo, hi = cur()._iv(z3.simplify(z3.ToReal(self.t) if z3.is_int(self.t) else self.t))
        if lo is None or hi is None or hi - lo > 1e-13 * max(abs(lo), abs(hi)):
            return None
        return SymReal(qval(f((float(lo) + float(hi)) / 2)))

    def sinh(self):
        v = self._tight(math.sinh)
        if v is not None:
            return v
        e = self.exp()
        return (e - 1 / e) / 2

    def cosh(self):
        e = self.exp()
        return (e + 1 / e) / 2

    def tanh(self):
        e = (2 * self).exp()
        return (e - 1) / (e + 1)

    def arctanh(self):
        v = self._tight(math.atanh) if bool(abs(self) < 1) else None
        if v is not None:
            return v
        return ((1 + self) / (1 - self)).log() / 2

    atanh = arctanh

    def conjugate(self):
        return self

    def item(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def real(self):
        return self

    def is_integer(self):
        return bool(self == self.floor())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        if SHOW is not None:
            return SHOW(self, "")
        return "Sym(%s)" % str(self.t)[:80].replace("\n", " ")

    def __format__(self, spec):
        if SHOW is not None:
            return SHOW(self, spec)
        return repr(self)


class SymComplex:
    """complex number with symbolic parts"""

    __slots__ = ("re", "im")
    __array_priority__ = 2000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(float(o.real), float(o.imag))
        if isinstance(o, (int, float, Fraction, np.number)) or is_sym(o):
            return SymComplex(o, 0)
        return None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def _op(self, o, f):
        if _arr(o):
            return NotImplemented
        o = SymComplex.of(o)
        return NotImplemented if o is None else f(self, o)

    def __add__(self, o):
        return self._op(o, lambda a, b: SymComplex(a.re + b.re, a.im + b.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: SymComplex(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._op(o, lambda a, b: SymComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))

    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            d = b.re * b.re + b.im * b.im
            return SymComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)

        return self._op(o, f)

    def __rtruediv__(self, o):
        return SymComplex.of(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    def __abs__(self):
        return lift(self.re * self.re + self.im * self.im).sqrt()

    def exp(self):
        e = 1.0 if not is_sym(self.re) and self.re == 0 else lift(self.re).exp()
        t = lift(self.im)
        return SymComplex(e * t.cos(), e * t.sin())


class SymReal(SymNum):
    __slots__ = ()


class SymInt(SymNum):
    __slots__ = ()


def _f_add(a, b):
    return a + b


def _f_sub(a, b):
    return a - b


def _f_mul(a, b):
    return a * b


def _divzero(a):
    if isinstance(a, SymNum):
        if bool(a > 0):
            return INF
        if bool(a < 0):
            return -INF
        return float("nan")
    return INF if a > 0 else (-INF if a < 0 else float("nan"))


def sym_pow(b, x):
    bt = z3.simplify(b.t)
    if z3.is_rational_value(bt) or z3.is_int_value(bt):
        q = z3frac(bt) if z3.is_rational_value(bt) else Fraction(bt.as_long())
        if q <= 0:
            raise Unsupported("pow of non-positive base")
        return cur().expb(q, x)
    # b**x = e**(x ln b)
    c = cur()
    if c.sign(b.t) != 1 and not c.branch(z3.ToReal(b.t) > 0 if z3.is_int(b.t) else b.t > 0):
        raise Unsupported("general power of a non-positive base")
    return c.expb("e", x * c.logb("e", b))


def sif(c, a, b):
    """If-then-else value (symbolic when the condition is)."""
    if isinstance(c, SymBool):
        t = z3.simplify(c.t)
        if z3.is_true(t):
            return a
        if z3.is_false(t):
            return b
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            f = lambda v: v.t if isinstance(v, SymBool) else z3.BoolVal(v)
            return SymBool(z3.If(t, f(a), f(b)))
        la, lb = lift(a), lift(b)
        x, y, _ = la._sort2(lb)
        return SymNum.mk(z3.If(t, x, y))
    return a if c else b


# ------------------------------------------------------------------------------------------- solver helpers
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.branch_queries = 0
        self.cvc5 = 0
        self.algebraic = 0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}


def _cvc5_check(smt2, timeout_s):
    import cvc5

    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption("tlimit-per", str(int(timeout_s * 1000)))
    slv.setLogic("QF_NIRA")
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
    sm = parser.getSymbolManager()
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        n = cmd.getCommandName()
        if n == "check-sat":
            r = slv.checkSat()
            return "unsat" if r.isUnsat() else ("sat" if r.isSat() else "unknown")
        cmd.invoke(slv, sm)
    return "unknown"


SHOW = None  # how a symbolic number is written into a message: (value, format) -> text
FLOATS = None  # a plain number that stands for a symbolic one where only its text matters: value -> float
TEXT = {}  # text of symbolic numbers (lib.env.text)
ENUM_HASH = False


class SymCtx:
    mode = "sym"

    def __init__(self, prefix, stats, timeout_ms=10000, branch_timeout_ms=2000, deadline=None):
        TEXT.clear()
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.bt = branch_timeout_ms
        self.deadline = deadline
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_timeout_ms)
        self.inputs = {}  # name -> z3 var
        self.bounds = {}  # const name -> (lo, hi)
        self.decided = {}
        self.pm = PolyMaker()
        self.fresh_n = 0
        self.sqrt_c = {}
        self.sqrt_args = []
        self.sqrt_sos = []
        self.trig_units = {}  # monomial key -> [unit coef, sin, cos]
        self.exp_units = {}
        self.log_c = {}
        self.fn_c = {}
        self.claims = []
        self.ivm = {}
        self.keep = []
        self.notes = []
        self.forks = 0
        self.marks = set()
        self.nonlin = False
        self.lemma_facts = []
        self.posvars = set()
        self.known_nonneg = set()
        self.facts_pos = set()  # normal forms of polynomials known to be > 0
        self.facts = set()  # normal forms of polynomials known to be >= 0
        self.rules = {}  # atom -> polynomial equal to its square

    # -- inputs
    def real(self, name, lo=None, hi=None, strict=False):
        if name in self.inputs:
            return SymReal(self.inputs[name])
        v = z3.Real(name)
        self.inputs[name] = v
        self.bounds[name] = (lo, hi)
        if lo is not None:
            self.add(v > qval(lo) if strict else v >= qval(lo))
        if hi is not None:
            self.add(v < qval(hi) if strict else v <= qval(hi))
        return SymReal(v)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            return SymInt(self.inputs[name])
        v = z3.Int(name)
        self.inputs[name] = v
        self.bounds[name] = (lo, hi)
        if lo is not None:
            self.add(v >= int(lo))
        if hi is not None:
            self.add(v <= int(hi))
        return SymInt(v)

    def bool(self, name):
        if name in self.inputs:
            return SymBool(self.inputs[name])
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def flag(self, name):
        """A symbolic boolean decided (forked) right now."""
        return bool(self.bool(name))

    def choose(self, name, options):
        """A symbolic choice among options, decided (forked) right now."""
        options = list(options)
        i = int(self.int(name, 0, len(options) - 1))
        return options[i]

    # -- logic used by harnesses
    @staticmethod
    def _b(x):
        return x.t if isinstance(x, SymBool) else z3.BoolVal(bool(x))

    def And(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return SymBool(z3.And([self._b(x) for x in xs]))

    def Or(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return SymBool(z3.Or([self._b(x) for x in xs]))

    def Not(self, x):
        return SymBool(z3.Not(self._b(x)))

    def Implies(self, a, b):
        return SymBool(z3.Implies(self._b(a), self._b(b)))

    def Iff(self, a, b):
        return SymBool(self._b(a) == self._b(b))

    def If(self, c, a, b):
        return sif(c, a, b)

    def eq(self, a, b, tol=0.0):
        """a == b up to tol (absolute). In the reals, exact equality is asked first."""
        for x in (a, b):
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                return SymBool(z3.BoolVal((not is_sym(a)) and (not is_sym(b)) and (a == b or (a != a and b != b))))
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return SymBool(z3.BoolVal(False))
        x, y, _ = la._sort2(lb)
        if x.eq(y):
            return SymBool(z3.BoolVal(True))
        try:
            if pkey(self.pm.poly(x)) == pkey(self.pm.poly(y)):
                return SymBool(z3.BoolVal(True)) if not _nontrivial(x, y) else SymBool(x == y)
            if self.is_zero(x, y):
                self.stats.algebraic += 1
                return SymBool(z3.BoolVal(True))
        except TooBig:
            pass
        if not tol:
            return SymBool(x == y)
        q = qval(tol)
        return SymBool(z3.And(x - y <= q, y - x <= q))

    def normal(self, p):
        """clear denominators (all known non-zero) and reduce squares of sqrt/sin atoms: zero result => p is zero"""
        for _ in range(60):
            hit = None
            for m, co in p.items():
                for a, n in m:
                    if n < 0 or a in self.pm.inv_poly:
                        hit = a
                        break
                    if n >= 2 and a in self.rules:
                        hit = a
                        break
                if hit:
                    break
            if hit is None:
                return p
            a = hit
            exps = {dict(m).get(a, 0) for m in p}
            if a in self.pm.inv_poly:
                n = max(exps)
                if n > 8:
                    raise TooBig
                pw = [{(): Fraction(1)}]
                for _k in range(n - min(0, min(exps))):
                    pw.append(pmul(pw[-1], self.pm.inv_poly[a]))
                r = {}
                for m, co in p.items():
                    d = dict(m)
                    e = d.pop(a, 0)
                    r = padd(r, pmul({tuple(sorted(d.items())): co}, pw[n - e]))
                p = r
                continue
            lo = min(exps)
            if lo < 0:
                p = pmul(p, {((a, -lo),): Fraction(1)})
                if a not in self.rules:
                    continue
            r = {}
            pw = {}
            for m, co in p.items():
                d = dict(m)
                e = d.get(a, 0)
                if e < 2:
                    r = padd(r, {m: co})
                    continue
                if e > 24:
                    raise TooBig
                if e % 2:
                    d[a] = 1
                else:
                    d.pop(a)
                h = e // 2
                if h not in pw:
                    q = {(): Fraction(1)}
                    for _k in range(h):
                        q = pmul(q, self.rules[a])
                    pw[h] = q
                r = padd(r, pmul({tuple(sorted(d.items())): co}, pw[h]))
                if len(r) > 6000:
                    raise TooBig
            p = r
        raise TooBig

    def is_zero(self, x, y):
        try:
            return not self.normal(padd(self.pm.poly(x), self.pm.poly(y), -1))
        except TooBig:
            return False

    def _nf_key(self, p):
        low = {}
        for m in p:
            for a, n in m:
                if a in self.pm.inv_poly:
                    raise TooBig
                if n < low.get(a, 0):
                    low[a] = n
        for a, n in low.items():  # clear denominators by even (positive) powers only
            p = pmul(p, {((a, -n if n % 2 == 0 else -n + 1),): Fraction(1)})
        p = self.normal(p)
        it = pkey(p)
        if not it:
            return ()
        lead = abs(it[-1][1])
        return tuple((m, c / lead) for m, c in it)

    def sos(self, expr, squares, label, coefs=None):
        """expr >= 0 because expr is identically a non-negative combination of squares (checked algebraically)"""
        tot = 0
        for i, q in enumerate(squares):
            tot = tot + q * q * (coefs[i] if coefs else 1)
        e = lift(expr)
        ok = self.is_zero(z3.simplify(e.t), z3.simplify(lift(tot).t))
        if ok:
            self.stats.algebraic += 1
            self.prove(SymBool(z3.BoolVal(True)), label)
            self.add(e.t >= 0)
            try:
                self.facts.add(self._nf_key(self.pm.poly(z3.simplify(e.t))))
            except TooBig:
                pass
        else:
            self.prove(SymBool(e.t >= 0), label)

    def fact_bool(self, t, depth=0):
        if not (self.facts or self.facts_pos) or depth > 3:
            return None
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_NOT:
            r = self.fact_bool(ch[0], depth + 1)
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = []
            for x in ch:
                r = self.fact_bool(x, depth + 1)
                if r is None:
                    r = self._iv_bool(x)
                rs.append(r)
            if k == z3.Z3_OP_AND:
                return True if all(r is True for r in rs) else (False if any(r is False for r in rs) else None)
            return True if any(r is True for r in rs) else (False if all(r is False for r in rs) else None)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = ch
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            try:
                d = padd(self.pm.poly(b), self.pm.poly(a), -1)  # b - a
                key = self._nf_key(d)
                if len(key) == 0 or (len(key) == 1 and key[0][0] == ()):
                    v = key[0][1] if key else 0
                    return v > 0 if strict else v >= 0
                if key in self.facts_pos or not strict and key in self.facts:
                    return True
                nk = self._nf_key(padd({}, d, -1))
                if nk in self.facts_pos or strict and nk in self.facts:
                    return False
            except TooBig:
                return None
        return None

    def frac(self, a, b=1):
        """the exact rational a/b"""
        return SymReal(qval(Fraction(a, b)))

    def lemma(self, claim, label):
        """prove a fact at this point and use it from here on"""
        self.prove(claim, label)
        t = z3.simplify(self._b(claim))
        if z3.is_true(t):
            return
        # discharged now, under the current path condition, before being assumed
        st, m = self.solve([z3.Not(t)])
        if st == "unsat":
            self.add(t)
            self.lemma_facts.append(t)

    def assume(self, c):
        t = z3.simplify(self._b(c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd
        self.add(t)
        # feasibility is only checked when not replaying a prefix that already passed it
        if len(self.taken) >= len(self.prefix) and self._check([]) == "unsat":
            raise PathEnd

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def _check(self, extra, count=True):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        self.stats.branch_queries += 1
        return str(r)

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = t.get_id()
        if i in self.decided:
            return self.decided[i]
        self.keep.append(t)
        iv = self._iv_bool(t)
        if iv is None and (self.facts or self.facts_pos):
            iv = self.fact_bool(t)
        if iv is not None:
            self.decided[i] = iv
            return iv
        n = len(self.taken)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            rt = self._check([t])
            if rt == "unsat":
                d = False
            else:
                rf = self._check([z3.Not(t)])
                if rf == "unsat":
                    d = True
                else:
                    d = True
                    self.alts.append(tuple(self.taken) + (False,))
                    self.forks += 1
        self.taken.append(d)
        self.add(t if d else z3.Not(t))
        self.decided[i] = d
        nt = z3.simplify(z3.Not(t))
        self.keep.append(nt)
        self.decided[nt.get_id()] = not d
        return d

    def enum_int(self, v):
        lo, hi = self._iv(v)
        if lo is None or hi is None or hi - lo > 400:
            # ask the solver for a value and branch on it
            k = self._model_val(v)
            n = 0
            while not self.branch(v == k):
                k = self._model_val(v)
                n += 1
                if n > 400:
                    raise Unsupported("unbounded symbolic integer used as an index")
            return k
        lo, hi = math.ceil(lo), math.floor(hi)
        for k in range(lo, hi):
            if self.branch(v == k):
                return k
        return hi

    def _model_val(self, v):
        r = self._check([])
        if r != "sat":
            raise Unsupported("no model while enumerating")
        return self.solver.model().eval(v, model_completion=True).as_long()

    def trunc(self, x):
        if z3.is_int(x.t):
            v = z3.simplify(x.t)
            if z3.is_int_value(v):
                return v.as_long()
            return self.enum_int(v)
        if bool(x >= 0):
            f = x.floor()
        else:
            f = -((-x).floor())
        return f.__index__() if isinstance(f, SymInt) else int(f)

    def fresh(self, kind, base):
        self.fresh_n += 1
        return (z3.Int if kind == "i" else z3.Real)("%s!%d" % (base, self.fresh_n))

    def key(self, t):
        t = z3.ToReal(t) if z3.is_int(t) else t
        try:
            return pkey(self.pm.poly(z3.simplify(t)))
        except TooBig:
            self.keep.append(t)
            return ("id", t.get_id())

    def floor(self, x):
        v = z3.simplify(x.t)
        if z3.is_rational_value(v):
            return SymInt(z3.IntVal(math.floor(z3frac(v))))
        k = ("floor", self.key(v))
        if k in self.fn_c:
            return self.fn_c[k]
        lo, hi = self._iv(v)
        n = self.fresh("i", "floor")
        nr = z3.ToReal(n)
        self.add(z3.And(nr <= v, v < nr + 1))
        if lo is not None:
            self.bounds[n.decl().name()] = (math.floor(lo), None if hi is None else math.floor(hi))
        elif hi is not None:
            self.bounds[n.decl().name()] = (None, math.floor(hi))
        r = SymInt(n)
        if lo is not None and hi is not None and math.floor(hi) - math.floor(lo) <= 8:
            r = SymInt(z3.IntVal(self.enum_int(n)))
        self.fn_c[k] = r
        return r

    def round(self, x, n=None):
        n = 0 if n is None else int(n)
        k = ("round", n, self.key(x.t))
        if k in self.fn_c:
            return self.fn_c[k]
        z = self.fresh("i", "round")
        xt = z3.ToReal(x.t) if z3.is_int(x.t) else x.t
        sc = Fraction(10) ** n
        r = z3.ToReal(z) * qval(1 / sc)
        h = qval(Fraction(1, 2) / sc)
        self.add(z3.And(r - xt <= h, xt - r <= h))
        res = SymNum.mk(r)
        self.fn_c[k] = res
        return res

    # -- intervals (floats, used only with slack for sign decisions)
    def _iv(self, t):
        i = t.get_id()
        r = self.ivm.get(i)
        if r is None:
            r = self._iv0(t)
            self.keep.append(t)
            self.ivm[i] = r
        return r

    def _iv0(self, t):
        if z3.is_int_value(t):
            v = float(t.as_long())
            return (v, v)
        if z3.is_rational_value(t):
            v = float(z3frac(t))
            return (v, v)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            lo, hi = self.bounds.get(t.decl().name(), (None, None))
            return (None if lo is None else float(lo), None if hi is None else float(hi))
        if k == z3.Z3_OP_TO_REAL:
            return self._iv(ch[0])
        if k == z3.Z3_OP_ADD:
            lo = hi = 0.0
            for c in ch:
                a, b = self._iv(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self._iv(ch[0])
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_SUB:
            a, b = self._iv(ch[0])
            for c in ch[1:]:
                x, y = self._iv(c)
                a = None if a is None or y is None else a - y
                b = None if b is None or x is None else b - x
            return (a, b)
        if k == z3.Z3_OP_MUL:
            ids = {}
            for c in ch:
                ids.setdefault(c.get_id(), [c, 0])[1] += 1
            r = (1.0, 1.0)
            for c, n in ids.values():
                b = self._iv(c)
                if n % 2 == 0:
                    m = [abs(x) for x in b if x is not None]
                    if b[0] is not None and b[0] >= 0:
                        s = (b[0] ** n, None if b[1] is None else b[1] ** n)
                    elif b[1] is not None and b[1] <= 0:
                        s = (b[1] ** n, None if b[0] is None else b[0] ** n)
                    else:
                        s = (0.0, None if len(m) < 2 else max(m) ** n)
                    r = _imul(r, s)
                else:
                    for _ in range(n):
                        r = _imul(r, b)
            return r
        if k == z3.Z3_OP_DIV:
            a = self._iv(ch[0])
            b = self._iv(ch[1])
            if b[0] is not None and b[0] > 0:
                return _imul(a, (0.0 if b[1] is None else 1 / b[1], 1 / b[0]))
            if b[1] is not None and b[1] < 0:
                return _imul(a, (1 / b[1], 0.0 if b[0] is None else 1 / b[0]))
            return (None, None)
        if k == z3.Z3_OP_ITE:
            a, b = self._iv(ch[1]), self._iv(ch[2])
            return (
                None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]),
            )
        return (None, None)

    def assume_pos(self, expr):
        e = lift(expr)
        self.add(z3.simplify(e.t > 0))  # feasibility is established by the path witness
        try:
            self.facts_pos.add(self._nf_key(self.pm.poly(z3.simplify(e.t))))
        except TooBig:
            pass

    def sign(self, t):
        """1 if t>0 surely, 0 if t>=0 surely, -1 if t<0 surely, else None (interval reasoning only)."""
        if self.posvars and z3.is_const(t) and t.decl().name() in self.posvars:
            return 1
        lo, hi = self._iv(t)
        if lo is not None and lo > 1e-300 and (hi is None or lo > 1e-12 * abs(hi)):
            return 1
        if lo is not None and lo == 0:
            return 0
        if hi is not None and hi < -1e-300 and (lo is None or hi < -1e-12 * abs(lo)):
            return -1
        return None

    def nonzero(self, t):
        s = self.sign(t)
        return s in (1, -1)

    def _iv_bool(self, t):
        """Decide simple comparisons by intervals, with slack."""
        k = t.decl().kind()
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            t = t.children()[0]
            k = t.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        a, b = t.children()
        alo, ahi = self._iv(a)
        blo, bhi = self._iv(b)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            alo, ahi, blo, bhi = blo, bhi, alo, ahi
        # now a <(=) b
        def sl(x, y):
            return 1e-9 * (abs(x) + abs(y)) + 1e-300

        r = None
        if ahi is not None and blo is not None and ahi < blo - sl(ahi, blo):
            r = True
        elif alo is not None and bhi is not None and alo > bhi + sl(alo, bhi):
            r = False
        if r is None:
            return None
        return r != neg

    # -- functions
    def sqrt(self, x):
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        if z3.is_rational_value(t):
            q = z3frac(t)
            if q < 0:
                return float("nan")
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return SymReal(qval(Fraction(a, b)))
        k = self.key(t)
        if k in self.sqrt_c:
            return self.sqrt_c[k]
        s = self.sign(t)
        if (s is None or s < 0) and t.get_id() not in self.known_nonneg:
            if not self.branch(t >= 0):
                return float("nan")
        # perfect squares of single monomials
        try:
            p = self.pm.poly(t)
        except TooBig:
            p = None
        if p is not None and len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m) and m:
                rc = self.sqrt(SymReal(qval(c)))
                r = self.pm.to_z3({tuple((a, e // 2) for a, e in m): Fraction(1)})
                res = abs(SymNum.mk(r)) * rc
                self.sqrt_c[k] = res
                return res
        # equal, modulo sin^2+cos^2=1 and r^2=arg, to 1 or to an earlier argument
        if self.rules:
            q = None
            try:
                # (normal() clears denominators, so only for polynomials proper)
                plain = p is not None and not any(e < 0 or a in self.pm.inv_poly for m in p for a, e in m)
                q = self.normal(p) if plain else None
            except TooBig:
                pass
            if q is not None and len(q) == 1:
                (m, cf), = q.items()
                if m and all(e % 2 == 0 for _, e in m):
                    rc = self.sqrt(SymReal(qval(cf)))
                    res = abs(SymNum.mk(self.pm.to_z3({tuple((a, e // 2) for a, e in m): Fraction(1)}))) * rc
                    self.sqrt_c[k] = res
                    self.stats.algebraic += 1
                    return res
            if self.is_zero(t, qval(1)):
                r = SymReal(qval(1))
                self.sqrt_c[k] = r
                self.stats.algebraic += 1
                return r
            for t2, r2 in self.sqrt_args[-12:]:
                if self.is_zero(t, t2):
                    self.sqrt_c[k] = r2
                    self.stats.algebraic += 1
                    return r2
        v = self.fresh("r", "sqrt")
        self.sqrt_args.append((t, SymReal(v)))
        sq = self._squares(x.t)
        if sq is None:
            sq = self._squares(t)
        if sq is not None:
            self.sqrt_sos.append((SymReal(v), sq))
        self.nonlin = True
        lo, hi = self._iv(t)
        if self.facts and (hi is None or hi > 1) and self.fact_bool(z3.simplify(t <= 1)):
            hi = 1
            self.add(v <= 1)
        if z3.is_rational_value(t):
            f = math.sqrt(z3frac(t))
            self.add(z3.And(v >= qval(f * (1 - 4e-16)), v <= qval(f * (1 + 4e-16))))
            self.bounds[v.decl().name()] = (f * (1 - 4e-16), f * (1 + 4e-16))
        else:
            self.bounds[v.decl().name()] = (
                math.sqrt(max(lo, 0.0)) * (1 - 1e-9) if lo is not None else 0.0,
                (1 if hi == 1 else math.sqrt(max(hi, 0.0)) * (1 + 1e-9)) if hi is not None else None,
            )
        self.add(v >= 0)
        self.add(v * v == t)
        if s != 1 and self.facts_pos and self.fact_bool(z3.simplify(t > 0)):
            s = 1
            self.posvars.add(v.decl().name())
        if s == 1:
            self.add(v > 0)
        if p is not None:
            self.rules[v.decl().name()] = p
        r = SymReal(v)
        self.sqrt_c[k] = r
        return r

    @staticmethod
    def _squares(t):
        """[a1, a2, ...] when the term is syntactically a1*a1 + a2*a2 + ..."""
        out = []
        st = [t]
        while st:
            e = st.pop()
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                st.extend(reversed(e.children()))
            elif k == z3.Z3_OP_MUL and len(e.children()) == 2 and e.children()[0].eq(e.children()[1]):
                out.append(e.children()[0])
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.children()[1]) and z3frac(e.children()[1]) == 2:
                out.append(e.children()[0])
            elif z3.is_rational_value(e) and z3frac(e) == 0:
                pass
            else:
                return None
        return out if 2 <= len(out) <= 6 else None

    def _unit_component(self, t):
        """t = a_i / sqrt(sum a_j^2) for a recorded square root: then |t| <= 1"""
        for r, sq in self.sqrt_sos[-8:]:
            for i, a in enumerate(sq):
                if self.is_zero(z3.simplify(t * r.t), z3.simplify(a)) or self.is_zero(z3.simplify(t * r.t), z3.simplify(-a)):
                    return r, sq, i
        return None

    def _lin(self, x):
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        return self.pm.poly(t)

    def trig(self, x):
        """(sin x, cos x)"""
        try:
            p = self._lin(x)
        except TooBig:
            raise Unsupported("trig of a huge expression")
        s, c = SymReal(qval(0)), SymReal(qval(1))
        for m, co in pkey(p):
            if m == ():
                h = co / (PIQ / 2)
                n = round(h)
                if abs(h - n) < Fraction(1, 10**14):
                    s2, c2 = [(0, 1), (1, 0), (0, -1), (-1, 0)][n % 4]
                    s2, c2 = SymReal(qval(s2)), SymReal(qval(c2))
                else:
                    s2, c2 = SymReal(qval(math.sin(co))), SymReal(qval(math.cos(co)))
            else:
                s2, c2 = self._trig1(m, co)
            s, c = s * c2 + c * s2, c * c2 - s * s2
        return s, c

    def _trig1(self, m, co):
        if len(m) == 1 and m[0][1] == 1 and z3.is_int(self.pm.atom_z3[m[0][0]]):
            h = co / (2 * PIQ)
            if h.denominator == 1:
                return SymReal(qval(0)), SymReal(qval(1))
        neg = co < 0
        a = abs(co)
        u = self.trig_units.get(m)
        if u is None:
            u = self._new_unit(m, a)
        n = a / u[0]
        if n.denominator != 1:
            # find a common unit
            g = Fraction(math.gcd(a.numerator * u[0].denominator, u[0].numerator * a.denominator), a.denominator * u[0].denominator)
            if u[0] / g > 12 or a / g > 12:
                # unrelated multiples: independent atom (loses precision, stays sound)
                u = self.trig_units.get((m, a))
                if u is None:
                    u = self._new_unit(m, a, key=(m, a))
                n = Fraction(1)
            else:
                old = u
                u = self._new_unit(m, g)
                s, c = self._multi(u, int(old[0] / g))
                self.add(old[1].t == s.t)
                self.add(old[2].t == c.t)
                n = a / g
        s, c = self._multi(u, int(n))
        return (-s if neg else s), c

    def _new_unit(self, m, a, key=None):
        s, c = self.fresh("r", "sin"), self.fresh("r", "cos")
        self.nonlin = True
        arg = self.pm.to_z3({m: a})
        self.bounds[s.decl().name()] = (-1, 1)
        self.bounds[c.decl().name()] = (-1, 1)
        self.rules[s.decl().name()] = {(): Fraction(1), ((c.decl().name(), 2),): Fraction(-1)}
        self.pm.atom(s), self.pm.atom(c)
        self.add(s * s + c * c == 1)
        self.add(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        lo, hi = self._iv(arg)
        pi = math.pi
        e = 1e-9
        if lo is not None and hi is not None:
            if lo >= -pi / 2 - e and hi <= pi / 2 + e:
                self.add(c >= 0)
                self.bounds[c.decl().name()] = (0, 1)
                self.add(z3.Implies(arg > 0, s > 0))
                self.add(z3.Implies(arg < 0, s < 0))
                self.add(z3.Implies(arg == 0, z3.And(s == 0, c == 1)))
            elif lo >= -e and hi <= pi + e:
                self.add(s >= 0)
                self.bounds[s.decl().name()] = (0, 1)
                h = qval(PIQ / 2)
                self.add(z3.Implies(arg < h, c > 0))
                self.add(z3.Implies(arg > h, c < 0))
            elif lo >= -pi - e and hi <= pi + e:
                self.add(z3.Implies(arg > 0, s >= 0))
                self.add(z3.Implies(arg < 0, s <= 0))
        u = [a, SymReal(s), SymReal(c), arg]
        self.trig_units[key if key is not None else m] = u
        return u

    def _multi(self, u, n):
        s, c = SymReal(qval(0)), SymReal(qval(1))
        for _ in range(n):
            s, c = s * u[2] + c * u[1], c * u[2] - s * u[1]
        if n == 2:
            s, c = 2 * u[1] * u[2], 1 - 2 * u[1] * u[1]
        return s, c

    def _angle_var(self, base, lo, hi):
        v = self.fresh("r", base)
        self.bounds[v.decl().name()] = (lo, hi)
        self.nonlin = True
        self.add(z3.And(v >= qval(lo), v <= qval(hi)))
        return v

    def _domain(self, t, cond):
        if not self.branch(cond):
            return False
        return True

    def _dom1(self, t):
        lo, hi = self._iv(t)
        if lo is not None and hi is not None and lo >= -1 and hi <= 1:
            return True
        if self._unit_component(t) is not None:
            self.stats.algebraic += 1
            self.add(z3.And(t >= -1, t <= 1))
            return True
        return self.branch(z3.And(t >= -1, t <= 1))

    def _cofun(self, t):
        """sqrt(1 - t^2), known to be real, in [0,1]"""
        e = z3.simplify(1 - t * t)
        self.add(e >= 0)
        try:
            self.facts.add(self._nf_key(self.pm.poly(e)))
        except TooBig:
            pass
        self.known_nonneg.add(e.get_id())
        self.keep.append(e)
        c = self.sqrt(SymReal(e))
        self.add(z3.And(c.t >= 0, c.t <= 1))
        if z3.is_const(c.t) and not z3.is_rational_value(c.t):
            n = c.t.decl().name()
            lo, hi = self.bounds.get(n, (None, None))
            self.bounds[n] = (0 if lo is None or lo < 0 else lo, 1 if hi is None or hi > 1 else hi)
        return c

    def arcsin(self, x):
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        k = ("arcsin", self.key(t))
        if k in self.fn_c:
            return self.fn_c[k]
        if z3.is_rational_value(t):
            q = z3frac(t)
            if q == 0:
                return SymReal(qval(0))
            if abs(q) == 1:
                return SymReal(qval(PIQ / 2 * q))
            if abs(q) > 1:
                return float("nan")
        # inverse of a known sine with argument in range
        for u in self.trig_units.values():
            for sg in (1, -1):
                if z3.simplify(t - sg * u[1].t).eq(qval(0)):
                    lo, hi = self._iv(u[3])
                    if lo is not None and hi is not None and lo >= -math.pi / 2 - 1e-12 and hi <= math.pi / 2 + 1e-12:
                        r = SymNum.mk(sg * u[3])
                        self.fn_c[k] = r
                        return r
        if not self._dom1(t):
            return float("nan")
        s = self.sign(t)
        v = self._angle_var("asin", 0 if s in (0, 1) else -PIQ / 2, PIQ / 2)
        c = self._cofun(t)
        self.add(z3.Implies(t == 0, v == 0))
        self.add(z3.Implies(t > 0, v >= t))
        self.add(z3.Implies(t < 0, v <= t))
        self.add(z3.Implies(t > 0, v <= t * qval(PIQ / 2)))
        self.add(z3.Implies(t < 0, v >= t * qval(PIQ / 2)))
        m = ((self.pm.atom(v), 1),)
        self.trig_units[m] = [Fraction(1), SymReal(t), c, v]
        self._mono("arcsin", t, v, +1)
        r = SymReal(v)
        self.fn_c[k] = r
        return r

    def _mono(self, name, t, v, sgn):
        """pairwise strict monotonicity lemmas for an injective monotone function"""
        L = self.fn_c.setdefault(("mono", name), [])
        for (t2, v2) in L[-16:]:
            if sgn > 0:
                self.add(z3.And((t < t2) == (v < v2), (t == t2) == (v == v2)))
            else:
                self.add(z3.And((t < t2) == (v > v2), (t == t2) == (v == v2)))
        L.append((t, v))

    def arccos(self, x):
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        k = ("arccos", self.key(t))
        if k in self.fn_c:
            return self.fn_c[k]
        if z3.is_rational_value(t):
            q = z3frac(t)
            return SymReal(qval(math.acos(q))) if abs(q) <= 1 else float("nan")
        if not self._dom1(t):
            return float("nan")
        v = self._angle_var("acos", 0, PIQ)
        s = self._cofun(t)
        m = ((self.pm.atom(v), 1),)
        self.trig_units[m] = [Fraction(1), s, SymReal(t), v]
        self._mono("arccos", t, v, -1)
        r = SymReal(v)
        self.fn_c[k] = r
        return r

    def single(self, t):
        """the term as one monomial when it is one, else unchanged"""
        try:
            p = self.pm.poly(t)
        except TooBig:
            return t
        return z3.simplify(self.pm.to_z3(p)) if len(p) == 1 else t

    def _const_angle(self, ty, tx):
        """angle of a point whose direction is a constant: both coordinates constant multiples of one positive quantity"""
        try:
            py, px = self.pm.poly(ty), self.pm.poly(tx)
        except TooBig:
            return None
        iv = [self._iv(t) for t in (ty, tx)]
        if all(None not in i and i[1] - i[0] <= 1e-13 * max(abs(i[0]), abs(i[1])) for i in iv) and any(i[0] > 0 or i[1] < 0 for i in iv):
            return SymReal(qval(math.atan2(*[(float(i[0]) + float(i[1])) / 2 for i in iv])))
        if len(py) > 1 or len(px) > 1 or not (py or px):
            return None
        (my, cy), (mx, cx) = (next(iter(p.items())) if p else (None, Fraction(0)) for p in (py, px))
        m = my if my is not None else mx
        if (my is not None and mx is not None and my != mx) or m is None:
            return None
        if m != () and self.sign(self.pm.to_z3({m: Fraction(1)})) != 1:
            return None
        return SymReal(qval(math.atan2(cy, cx)))

    def arctan2(self, y, x):
        if not is_sym(y):
            y = lift(y)
        ty = z3.simplify(z3.ToReal(y.t) if z3.is_int(y.t) else y.t)
        tx = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        k = ("arctan2", self.key(ty), self.key(tx))
        if k in self.fn_c:
            return self.fn_c[k]
        cv = self._const_angle(ty, tx)
        if cv is not None:
            self.fn_c[k] = cv
            return cv
        r2 = SymReal(ty) * SymReal(ty) + SymReal(tx) * SymReal(tx)
        if self.sign(r2.t) != 1 and not self.branch(r2.t > 0):
            return SymReal(qval(0))
        if self.sign(tx) in (0, 1) and self.sign(ty) in (0, 1):
            arg = {v.t.get_id(): k for k, v in self.sqrt_c.items() if is_sym(v)}
            if ty.get_id() in arg and tx.get_id() in arg and self._entails(r2.t == 1):
                res = self.arcsin(SymReal(ty))
                self.fn_c[k] = res
                return res
        r = self.sqrt(r2)
        v = self._angle_var("atan2", -PIQ, PIQ)
        s, c = SymReal(ty) / r, SymReal(tx) / r
        sv, cv = self.fresh("r", "sin"), self.fresh("r", "cos")
        for q in (sv, cv):
            self.bounds[q.decl().name()] = (-1, 1)
        rt = r.t
        self.add(z3.And(sv * rt == ty, cv * rt == tx, sv * sv + cv * cv == 1))
        self.add(v > qval(-PIQ))
        h = qval(PIQ / 2)
        self.add((ty > 0) == z3.And(v > 0, v < qval(PIQ)))
        self.add((ty < 0) == (v < 0))
        self.add(z3.Implies(z3.And(ty == 0, tx > 0), v == 0))
        self.add(z3.Implies(z3.And(ty == 0, tx < 0), v == qval(PIQ)))
        self.add((tx > 0) == z3.And(v < h, v > -h))
        self.add(z3.Implies(tx == 0, z3.Or(v == h, v == -h)))
        m = ((self.pm.atom(v), 1),)
        self.trig_units[m] = [Fraction(1), SymReal(ty / rt), SymReal(tx / rt), v]
        res = SymReal(v)
        self.fn_c[k] = res
        return res

    def expb(self, base, x):
        """base**x; base 'e' or a positive rational"""
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        if z3.is_rational_value(t):
            q = z3frac(t)
            if q == 0:
                return SymReal(qval(1))
            f = math.exp(q) if base == "e" else float(base) ** float(q)
            return SymReal(qval(f))
        # inverse of a log
        for kk, (b, a, v) in self.log_c.items():
            if b == base and v is not None:
                pass
        try:
            p = dict(self.pm.poly(t))
        except TooBig:
            raise Unsupported("exp of a huge expression")
        c0 = p.pop((), None)
        res = SymReal(qval(1))
        if c0:
            res = SymReal(qval(math.exp(c0) if base == "e" else float(base) ** float(c0)))
        # pull out log atoms: base**(n*log_base(y)) = y**n
        for m in list(p):
            if len(m) == 1 and m[0][1] == 1 and (base, m[0][0]) in self.log_c:
                n = p[m]
                y = self.log_c[(base, m[0][0])][1]
                if n.denominator in (1, 2) and abs(n) <= 12:
                    res = res * (SymReal(y) ** n)
                    p.pop(m)
        if not p:
            return res
        lead = pkey(p)[0][1]
        prim = {m: c / lead for m, c in p.items()}
        return res * self._exp1(base, prim, lead)

    def _exp1(self, base, prim, co):
        key = (base, pkey(prim))
        a = abs(co)
        u = self.exp_units.get(key)
        if u is None:
            u = self._new_exp(base, prim, a, key)
        n = a / u[0]
        if n.denominator != 1:
            g = Fraction(math.gcd(a.numerator * u[0].denominator, u[0].numerator * a.denominator), a.denominator * u[0].denominator)
            if u[0] / g > 12 or a / g > 12:
                key2 = (key, a)
                u = self.exp_units.get(key2)
                if u is None:
                    u = self._new_exp(base, prim, a, key2)
                n = Fraction(1)
            else:
                old = u
                u = self._new_exp(base, prim, g, key)
                self.add(old[1].t == (u[1] ** int(old[0] / g)).t)
                n = a / g
        r = u[1] ** int(n)
        return r if co > 0 else 1 / r

    def _new_exp(self, base, prim, a, key):
        v = self.fresh("r", "exp")
        self.nonlin = True
        arg = self.pm.to_z3({m: c * a for m, c in prim.items()})
        lb = 1.0 if base == "e" else math.log(float(base))
        lo, hi = self._iv(arg)
        flip = lb < 0
        try:
            blo = math.exp((lo if not flip else hi) * lb) if (lo if not flip else hi) is not None else 0.0
            bhi = math.exp((hi if not flip else lo) * lb) if (hi if not flip else lo) is not None else None
        except OverflowError:
            blo, bhi = 0.0, None
        self.bounds[v.decl().name()] = (blo * (1 - 1e-9), None if bhi is None else bhi * (1 + 1e-9))
        self.add(v > 0)
        if bhi is not None:
            self.add(v <= qval(bhi * (1 + 1e-9)))
        if blo > 0:
            self.add(v >= qval(blo * (1 - 1e-9)))
        if not flip:
            self.add(z3.And((arg > 0) == (v > 1), (arg < 0) == (v < 1)))
            self._mono(("exp", base), arg, v, +1)
        else:
            self.add(z3.And((arg > 0) == (v < 1), (arg < 0) == (v > 1)))
            self._mono(("exp", base), arg, v, -1)
        if base == "e":
            self.add(v >= 1 + arg)
        u = [a, SymReal(v), arg]
        self.exp_units[key] = u
        return u

    def logb(self, base, x):
        t = z3.simplify(z3.ToReal(x.t) if z3.is_int(x.t) else x.t)
        lbf = 1.0 if base == "e" else math.log(float(base))
        if z3.is_rational_value(t):
            q = z3frac(t)
            if q <= 0:
                return -INF if q == 0 else float("nan")
            if q == 1:
                return SymReal(qval(0))
            r = SymReal(qval(_logq(q) / lbf) if base != 10 else qval(_log10q(q)))
            L = self.fn_c.setdefault(("monoc", base), {})
            if len(L) < 8 and q not in L:
                L[q] = r.t
                for (t2, v2) in self.fn_c.get(("mono", ("log", base)), [])[-6:]:
                    self.add(z3.And((t2 < t) == (v2 < r.t), (t == t2) == (r.t == v2)))
            return r
        if self.sign(t) != 1 and not self.branch(t > 0):
            if self.branch(t == 0):
                return -INF
            return float("nan")
        try:
            p = self.pm.poly(t)
        except TooBig:
            p = None
        if p is not None and len(p) == 1:
            (m, c), = p.items()
            ats = [(a, n, self.pm.atom_z3[a]) for a, n in m]
            if len(ats) > 1 or c != 1 or (ats and ats[0][1] != 1):
                if c > 0 and all(n % 2 == 0 or self.sign(z) == 1 or self._entails(z > 0) for a, n, z in ats):
                    r = self.logb(base, SymReal(qval(c)))
                    for a, n, z in ats:
                        zz = SymReal(z3.ToReal(z) if z3.is_int(z) else z)
                        if n % 2 == 0 and self.sign(z) != 1:
                            zz = abs(zz)
                        r = r + self.logb(base, zz) * n
                    return r
        raw = z3.ToReal(x.t) if z3.is_int(x.t) else x.t
        if p is not None and len(p) > 1 and z3.is_app_of(raw, z3.Z3_OP_MUL):
            kids = [z3.ToReal(z) if z3.is_int(z) else z for z in raw.children()]
            if all(self.sign(z) == 1 or self._entails(z > 0) for z in kids):
                r = self.logb(base, SymReal(kids[0]))
                for z in kids[1:]:
                    r = r + self.logb(base, SymReal(z))
                return r
        k = (base, "L", self.key(t))
        if k in self.fn_c:
            return self.fn_c[k]
        # the same logarithm to the other base
        for other in ("e", Fraction(10), Fraction(2)):
            r = self.fn_c.get((other, "L", k[2])) if other != base else None
            if r is not None:
                lo = 1.0 if other == "e" else math.log(float(other))
                return r * SymReal(qval(lo / lbf))
        # log of an exp atom
        for (kk, u) in self.exp_units.items():
            if u[1].t.eq(t) and isinstance(kk, tuple) and self._exp_base(kk) == base:
                r = SymReal(u[2])
                self.fn_c[k] = r
                return r
        v = self.fresh("r", "log")
        self.nonlin = True
        lo, hi = self._iv(t)
        self.bounds[v.decl().name()] = (
            math.log(lo) / lbf - 1e-9 if lo is not None and lo > 0 else None,
            math.log(hi) / lbf + 1e-9 if hi is not None and hi > 0 else None,
        )
        b0, b1 = self.bounds[v.decl().name()]
        if b0 is not None:
            self.add(v >= qval(b0))
        if b1 is not None:
            self.add(v <= qval(b1))
        self.add(z3.And((t > 1) == (v > 0), (t < 1) == (v < 0)))
        self._mono(("log", base), t, v, +1)
        for q2, r2 in self.fn_c.get(("monoc", base), {}).items():
            self.add(z3.And((t < qval(q2)) == (v < r2), (t == qval(q2)) == (v == r2)))
        self.log_c[(base, v.decl().name())] = (base, t, v)
        r = SymReal(v)
        self.fn_c[k] = r
        return r

    @staticmethod
    def _exp_base(kk):
        while isinstance(kk[0], tuple):
            kk = kk[0]
        return kk[0]

    def _entails(self, t):
        return self._check([z3.Not(t)]) == "unsat"

    # math helpers for oracles
    def sin(self, x):
        return lift(x).sin() if lift(x) is not None else float("nan")

    def cos(self, x):
        return lift(x).cos() if lift(x) is not None else float("nan")

    def sqrt_(self, x):
        return lift(x).sqrt() if lift(x) is not None else float("nan")

    def log10(self, x):
        return lift(x).log10() if lift(x) is not None else float("nan")

    def exp(self, x):
        return lift(x).exp() if lift(x) is not None else float("nan")

    def pow10(self, x):
        return self.expb(Fraction(10), lift(x))

    def rad(self, x):
        return x * (PIQ / 180)

    pi = PIQ

    def abs(self, x):
        l = lift(x)
        return SymNum.mk(z3.If(l.t >= 0, l.t, -l.t))

    def max(self, a, b):
        return sif(lift(a) >= b, a, b)

    def min(self, a, b):
        return sif(lift(a) <= b, a, b)

    def interp(self, x, xp, fp):
        x = lift(x)
        n = len(xp)
        if bool(x <= float(xp[0])):
            return lift(float(fp[0]))
        if bool(x >= float(xp[n - 1])):
            return lift(float(fp[n - 1]))
        lo, hi = 0, n - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if bool(x >= float(xp[mid])):
                lo = mid
            else:
                hi = mid
        x0, x1, f0, f1 = (quant(float(v)) for v in (xp[lo], xp[hi], fp[lo], fp[hi]))
        return SymNum.mk(qval(f0) + (x.t - qval(x0)) * qval((f1 - f0) / (x1 - x0)))

    # -- claims
    def prove(self, claim, label):
        t = self._b(claim)
        if self.facts or self.facts_pos:
            r = self.fact_bool(z3.simplify(t))
            if r is True:
                t = z3.BoolVal(True)
        self.claims.append((label, t))

    def reached(self, label):
        self.marks.add(label)

    def note(self, s):
        self.notes.append(s)

    # -- final solving
    def solve(self, extra, timeout_ms=None):
        """check pc /\\ extra; returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        to = timeout_ms or self.timeout_ms
        if self.deadline:
            to = max(500, min(to, int((self.deadline - time.time()) * 1000)))
        fs = self.pc + list(extra)
        t0 = time.time()
        try:
            strategies = ["default", "nlsat", "cvc5"] if self.nonlin or _nonlinear(fs) else ["default", "cvc5"]
            for st in strategies:
                self.stats.queries += 1
                if st == "default":
                    s = z3.Solver()
                    s.set("timeout", to if len(strategies) == 1 else min(to, 6000))
                    s.add(*fs)
                    r = s.check()
                    if r == z3.sat:
                        return "sat", s.model()
                    if r == z3.unsat:
                        return "unsat", None
                elif st == "nlsat":
                    try:
                        tac = z3.Then("simplify", "solve-eqs", "elim-term-ite", "purify-arith", "qfnra-nlsat")
                        s = tac.solver()
                        s.set("timeout", to)
                        s.add(*fs)
                        r = s.check()
                        if r == z3.sat:
                            return "sat", s.model()
                        if r == z3.unsat:
                            return "unsat", None
                    except z3.Z3Exception:
                        pass
                else:
                    s = z3.Solver()
                    s.add(*fs)
                    self.stats.cvc5 += 1
                    try:
                        r = _cvc5_check(s.to_smt2(), to / 1000)
                    except Exception as e:  # an error answer is inconclusive
                        r = "unknown"
                    if r == "unsat":
                        return "unsat", None
            return "unknown", None
        finally:
            self.stats.solver_s += time.time() - t0

    def witness(self, model):
        out = {}
        for n, v in self.inputs.items():
            m = model.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[n] = z3.is_true(m)
            elif z3.is_int_value(m):
                out[n] = m.as_long()
            elif z3.is_rational_value(m):
                out[n] = float(z3frac(m))
            elif z3.is_algebraic_value(m):
                out[n] = float(z3frac(m.approx(25)))
            else:
                out[n] = 0.0
        return out


def _nontrivial(x, y):
    return False


def _imul(a, b):
    vals = []
    inf = False
    for x in a:
        for y in b:
            if x is None or y is None:
                if (x == 0 or y == 0):
                    vals.append(0.0)
                else:
                    inf = True
            else:
                vals.append(x * y)
    if not inf:
        return (min(vals), max(vals))
    # partial information: both nonnegative lower bounds
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return (a[0] * b[0], None)
    if a[1] is not None and a[1] <= 0 and b[1] is not None and b[1] <= 0:
        return (a[1] * b[1], None)
    if a[0] is not None and a[0] >= 0 and b[1] is not None and b[1] <= 0:
        return (None, a[0] * b[1])
    if a[1] is not None and a[1] <= 0 and b[0] is not None and b[0] >= 0:
        return (None, a[1] * b[0])
    return (None, None)


def _logq(q):
    return math.log(q.numerator) - math.log(q.denominator)


def _log10q(q):
    r = math.log10(q.numerator) - math.log10(q.denominator)
    n = round(r)
    if abs(n) < 300 and Fraction(10) ** n == q:
        return float(n)
    return r


def _nonlinear(fs):
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if k == z3.Z3_OP_MUL and sum(1 for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return True
        if k == z3.Z3_OP_POWER:
            return True
        st.extend(ch)
    return False
