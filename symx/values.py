"""Symbolic scalar values. Operations build z3 terms; control flow forks through the engine."""
import builtins
import functools
from fractions import Fraction
import math
import numbers
import struct as _struct

import numpy as np
import z3

from . import core
from .core import Unsupported, eng

_int, _float, _bool = builtins.int, builtins.float, builtins.bool


class Sym:
    """base of every symbolic scalar"""

    __slots__ = ('t',)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = t

    # numpy scalar look-alike
    def item(self):
        return self

    tolist = item
    ravel = item
    flatten = item

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__

    def astype(self, dtype, *a, **k):
        from . import array

        return array.cast(self, np.dtype(dtype))


def conc(x):
    return not isinstance(x, Sym)


# ------------------------------------------------------------------------------------- bool
class SymBool(Sym):
    __slots__ = ()
    dtype = np.dtype(bool)

    def __bool__(self):
        return eng().fork(self.t)

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return ~self

    def __and__(self, o):
        if isinstance(o, (_bool, np.bool_)):
            return self if o else False
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.t, o.t))
        return self._asint() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (_bool, np.bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.t, o.t))
        return self._asint() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (_bool, np.bool_)):
            return ~self if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.t, o.t))
        return NotImplemented

    __rxor__ = __xor__

    def _asint(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._asint() + (o._asint() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._asint() * (o._asint() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._asint() - o

    def __rsub__(self, o):
        return o - self._asint()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, (_bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, (_int, SymInt, np.integer)):
            return self._asint() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if conc(r) else ~r

    def __hash__(self):
        return hash(_bool(self))

    def __index__(self):
        return _int(_bool(self))

    __int__ = __index__

    def __float__(self):
        return _float(_bool(self))


def mkbool(t):
    if isinstance(t, _bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    """z3 Bool of a python/symbolic truth value (no fork)"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != 0
    if isinstance(x, SymReal):
        return x.t != 0
    return z3.BoolVal(_bool(x))


def sand(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def sor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def snot(x):
    return ~x if isinstance(x, SymBool) else (not x)


def simplies(a, b):
    return sor(snot(a), b)


# -------------------------------------------------------------------------------------- int
def _isint(o):
    return isinstance(o, (_int, np.integer, np.bool_))


def _isfloat(o):
    return isinstance(o, (_float, np.floating, Fraction))


def iterm(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return x._asint().t
    return z3.IntVal(_int(x))


class SymInt(Sym):
    __slots__ = ()
    dtype = np.dtype(np.int64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def itemsize(self):
        return 8

    def is_integer(self):
        return True

    def bit_length(self):
        return _int(self).bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .bytesx import int_to_cells, SymBytes

        cells = int_to_cells(self, length, signed, byteorder == 'little', OverflowError)
        return SymBytes.make(cells)

    def _bin(self, o, f, rev=False):
        if isinstance(o, (SymInt, SymBool)) or _isint(o):
            a, b = self.t, iterm(o)
            return mkint(f(b, a) if rev else f(a, b))
        if isinstance(o, SymReal) or _isfloat(o):
            a, b = z3.ToReal(self.t), rterm(o)
            return mkreal(f(b, a) if rev else f(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * _int(self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * _int(self)
        return self._bin(o, lambda a, b: a * b)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _divmod(self, o, rev):
        if isinstance(o, (SymInt, SymBool)) or _isint(o):
            a, b = (iterm(o), self.t) if rev else (self.t, iterm(o))
            if eng().fork(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if z3.is_int_value(b):
                q = a / b if b.as_long() > 0 else (-a) / (-b)
            else:
                q = z3.If(b > 0, a / b, (-a) / (-b))
            return q, a - b * q if not z3.is_int_value(b) or b.as_long() < 0 else a % b
        return None

    def __floordiv__(self, o):
        r = self._divmod(o, False)
        return NotImplemented if r is None else mkint(r[0])

    def __rfloordiv__(self, o):
        r = self._divmod(o, True)
        return NotImplemented if r is None else mkint(r[0])

    def __mod__(self, o):
        r = self._divmod(o, False)
        return NotImplemented if r is None else mkint(r[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % _int(self)
        r = self._divmod(o, True)
        return NotImplemented if r is None else mkint(r[1])

    def __divmod__(self, o):
        r = self._divmod(o, False)
        return NotImplemented if r is None else (mkint(r[0]), mkint(r[1]))

    def __rdivmod__(self, o):
        r = self._divmod(o, True)
        return NotImplemented if r is None else (mkint(r[0]), mkint(r[1]))

    def __truediv__(self, o):
        k = eng().known(self.t) if conc(o) else None
        if k is not None and (_isint(o) or _isfloat(o)):
            return k / o
        return mkreal(z3.ToReal(self.t)).__truediv__(o)

    def __rtruediv__(self, o):
        k = eng().known(self.t) if conc(o) else None
        if k is not None and (_isint(o) or _isfloat(o)):
            return o / k
        return mkreal(z3.ToReal(self.t)).__rtruediv__(o)

    def __pow__(self, o, mod=None):
        if _isint(o) and mod is None and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(_int(o)):
                r = r * self.t
            return mkint(r)
        return _int(self) ** (_int(o) if not _isfloat(o) else o)

    def __rpow__(self, o):
        return o ** _int(self)

    def _cmp(self, o, f):
        if isinstance(o, (SymInt, SymBool)) or _isint(o):
            return mkbool(f(self.t, iterm(o)))
        if isinstance(o, SymReal) or _isfloat(o):
            if _isfloat(o) and not isinstance(o, Fraction) and not math.isfinite(o):
                return f(0.0, _float(o))
            return mkbool(f(z3.ToReal(self.t), rterm(o)))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r if r is not NotImplemented else (False if not isinstance(o, np.ndarray) else NotImplemented)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return r if r is not NotImplemented else (True if not isinstance(o, np.ndarray) else NotImplemented)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().fork(self.t != 0)

    def __index__(self):
        return eng().concretise(self.t, lambda v: v.as_long())

    def __int__(self):
        return self.__index__()

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return _float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __format__(self, spec):
        from . import loader

        return format(self.__index__(), spec) if loader.MESSAGES is None else loader.number_text(self)

    def __str__(self):
        if core.ENG is None:
            return "<SymInt>"
        from . import loader

        return str(self.__index__()) if loader.MESSAGES is None else loader.number_text(self)

    # bit operations: through concretisation (not used by the code on symbolic values)
    def __and__(self, o):
        if _isint(o) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.t % (_int(o) + 1))
        return _int(self) & _int(o)

    __rand__ = __and__

    def __or__(self, o):
        return _int(self) | _int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return _int(self) ^ _int(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << _int(o))

    def __rshift__(self, o):
        return self // (1 << _int(o))

    def __rlshift__(self, o):
        return o << _int(self)

    def __rrshift__(self, o):
        return o >> _int(self)

    def __invert__(self):
        return mkint(-self.t - 1)

    # numpy object-loop hooks
    def sqrt(self):
        return mkreal(z3.ToReal(self.t)).sqrt()

    def log(self):
        return mkreal(z3.ToReal(self.t)).log()

    def conjugate(self):
        return self


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


# ------------------------------------------------------------------------------------- real
_SURDS = [(k, math.sqrt(k)) for k in (2, 3, 5, 6, 7, 10, 11, 13, 14, 15)]


@functools.lru_cache(maxsize=None)
def algebraic(f):
    """(q, k) when the float f stands for q sqrt(k): rational of small denominator (k = 1) or multiple of a small root, rounded;
    otherwise (exact value of f, 1)"""
    x = Fraction(f)
    if x.denominator <= 2**20 or abs(f) < 1e-3 or abs(f) > 1e3:
        return x, 1
    for k, r in [(1, 1.0)] + _SURDS:
        q = Fraction(f / r).limit_denominator(1000 if k == 1 else 64)
        if q and abs(float(q) * r - f) <= 2.3e-16 * abs(f):
            return q, k
    return x, 1


def exactly(f):
    """exact number which a float of the code stands for"""
    q, k = algebraic(float(f))
    if k == 1:
        return q
    from .cplx import surd

    return surd(k) * q


def rterm(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(iterm(x))
    if isinstance(x, SymF64):
        raise Unsupported("mixing real and bit-level floats")
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if _isint(x):
        return z3.RealVal(_int(x))
    f = _float(x)
    if not math.isfinite(f):
        raise Unsupported("non finite float in real arithmetic")
    v = exactly(f)
    return z3.RealVal(v) if isinstance(v, Fraction) else v.t


_UF = {}


def _uf(name):
    if name not in _UF:
        _UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return _UF[name]


def _unsigned(t):
    """a when t is the absolute value of a"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if (z3.is_ge(c) or z3.is_le(c)) and (c.arg(0).eq(a) or c.arg(0).eq(b)) and z3.is_rational_value(c.arg(1)) and c.arg(1).as_fraction() == 0 and z3.simplify(a + b == 0, som=True).eq(z3.BoolVal(True)):
            return a
    return t


class SymReal(Sym):
    __slots__ = ()
    dtype = np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def itemsize(self):
        return 8

    def _bin(self, o, f, rev=False):
        if isinstance(o, (SymReal, SymInt, SymBool)) or _isint(o) or _isfloat(o):
            if _isfloat(o) and not isinstance(o, Fraction) and not math.isfinite(o):
                raise Unsupported("non finite float in real arithmetic")
            a, b = self.t, rterm(o)
            return mkreal(f(b, a) if rev else f(a, b))
        if isinstance(o, SymF64):
            raise Unsupported("mixing real and bit-level floats")
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, SymReal) and o.t.eq(self.t):
            hit = eng().path_cache.get(('sqrtof', self.t.get_id()))
            if hit is not None:
                return mkreal(hit[0])
            a = _unsigned(self.t)
            return mkreal(a * a)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkreal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if ('sqrtof', self.t.get_id()) in eng().path_cache:
            return self
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    fabs = __abs__

    def _div(self, a, b, isnp=True):
        if eng().fork(b == 0):
            raise ZeroDivisionError("division by zero (symbolic)")
        return mkreal(a / b)

    def __truediv__(self, o):
        if isinstance(o, (Sym,)) or _isint(o) or _isfloat(o):
            return self._div(self.t, rterm(o))
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, (Sym,)) or _isint(o) or _isfloat(o):
            return self._div(rterm(o), self.t)
        return NotImplemented

    def __floordiv__(self, o):
        return mkreal(z3.ToReal(z3.ToInt((self / o).t)))

    def __mod__(self, o):
        return self - (self // o) * o

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            o = _int(o)
        if _float(o) == 0.5:
            return self.sqrt()
        if _float(o) == _int(o):
            n = _int(o)
            if n == 2:
                return self * self
            r = z3.RealVal(1)
            for _ in range(abs(n)):
                r = r * self.t
            return mkreal(r) if n >= 0 else mkreal(z3.RealVal(1)).__truediv__(mkreal(r)) if z3.is_rational_value(r) else SymReal(r).__rtruediv__(1)
        r = self._ufapp(f'pow_{_float(o)}')
        eng().define(z3.Implies(self.t > 0, r.t > 0))
        return r

    def __rpow__(self, o):
        return self._ufapp(f'rpow_{_float(o)}')

    def _ufapp(self, name):
        return SymReal(_uf(name)(self.t))

    def _cmp(self, o, f):
        if isinstance(o, (SymReal, SymInt, SymBool)) or _isint(o) or _isfloat(o):
            if _isfloat(o) and not isinstance(o, Fraction) and not math.isfinite(o):
                return f(0.0, _float(o))
            return mkbool(f(self.t, rterm(o)))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r if r is not NotImplemented else (False if not isinstance(o, np.ndarray) else NotImplemented)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return r if r is not NotImplemented else (True if not isinstance(o, np.ndarray) else NotImplemented)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return eng().fork(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        raise Unsupported("float() of a symbolic real by native code")

    def __int__(self):
        t = z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))
        return _int(mkint(z3.simplify(t)))

    def __trunc__(self):
        return mkint(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __floor__(self):
        return mkint(z3.ToInt(self.t))

    floor = __floor__

    def __round__(self, n=None):
        """to the nearest multiple of 10**-n, halves to even"""
        p = Fraction(10) ** (n or 0)
        k = z3.ToInt(self.t * z3.RealVal(p) + z3.RealVal('1/2'))
        k = z3.If(z3.And(z3.ToReal(k) == self.t * z3.RealVal(p) + z3.RealVal('1/2'), k % 2 == 1), k - 1, k)
        return mkint(k) if n is None else mkreal(z3.ToReal(k) / z3.RealVal(p))

    def __format__(self, spec):
        from . import loader

        return "<real>" if loader.MESSAGES is None else loader.number_text(self)

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def sqrt(self):
        q = _square_of(self.t)
        if q is not None:
            return abs(mkreal(q)) if not z3.is_rational_value(q) else mkreal(z3.simplify(z3.If(q >= 0, q, -q)))
        key = z3.simplify(self.t, som=True)
        hit = eng().path_cache.get(('sqrt', key.get_id()))
        if hit is not None:
            return SymReal(hit[0])
        if _nonneg(self.t):
            eng().define(self.t >= 0)
        elif eng().fork(self.t < 0):
            return math.nan
        r = z3.Real(eng().fresh('sqrt'))
        eng().define(z3.And(r >= 0, r * r == self.t))
        eng().path_cache['sqrt', key.get_id()] = (r, key)
        eng().path_cache['sqrtof', r.get_id()] = (self.t, r)
        return SymReal(r)

    def square(self):
        return self * self

    def log(self):
        fs = _factors(self.t)
        if len(fs) == 1 and fs[0][1] == 1:
            return self._ufapp('log')
        # log of a product of positive numbers
        pos = z3.And(*[b > 0 for b, _ in fs])
        if not eng().fork(pos):
            return self._ufapp('log')
        r = 0.0
        for b, e in fs:
            b = z3.simplify(b)
            l = math.log(Fraction(b.numerator_as_long(), b.denominator_as_long())) if z3.is_rational_value(b) else SymReal(b)._ufapp('log')
            r = r + (l if e == 1 else l * float(e))
        return r

    def log10(self):
        return self._ufapp('log10')

    def exp(self):
        r = self._ufapp('exp')
        eng().define(r.t > 0)
        return r

    def sin(self):
        return self._ufapp('sin')

    def cos(self):
        return self._ufapp('cos')

    def tan(self):
        return self._ufapp('tan')

    def arctan(self):
        return self._ufapp('arctan')

    def conjugate(self):
        return self


def mkreal(t):
    return SymReal(t)


# --------------------------------------------------------------------- bit-level float64
F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


def f64bits(x):
    """BitVec64 term of a python float or SymF64"""
    if isinstance(x, SymF64):
        return x.t
    if isinstance(x, (SymReal,)):
        raise Unsupported("bits of a symbolic real")
    if isinstance(x, (SymInt, SymBool)):
        x = _int(x)
    return z3.BitVecVal(_struct.unpack('>Q', _struct.pack('>d', _float(x)))[0], 64)


class SymF64(Sym):
    """float64 known by its bits; equality tests in checks are bit-exact, arithmetic is IEEE"""

    __slots__ = ()
    dtype = np.dtype(np.float64)

    @property
    def itemsize(self):
        return 8

    @property
    def real(self):
        return self

    def fp(self):
        return z3.fpBVToFP(self.t, F64)

    @staticmethod
    def from_fp(t):
        t = z3.simplify(t)
        return SymF64(z3.simplify(z3.fpToIEEEBV(t)))

    @staticmethod
    def _fpof(o):
        if isinstance(o, SymF64):
            return o.fp()
        if isinstance(o, SymReal):
            raise Unsupported("mixing real and bit-level floats")
        if isinstance(o, (SymInt, SymBool)):
            o = _int(o)
        if _isint(o) or _isfloat(o):
            return z3.fpBVToFP(f64bits(o), F64)
        return None

    def _bin(self, o, f, rev=False):
        b = self._fpof(o)
        if b is None:
            return NotImplemented
        a = self.fp()
        return SymF64.from_fp(f(RNE, b, a) if rev else f(RNE, a, b))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return SymF64(self.t ^ z3.BitVecVal(1 << 63, 64))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymF64(self.t & z3.BitVecVal((1 << 63) - 1, 64))

    def _cmp(self, o, f):
        b = self._fpof(o)
        if b is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.fp(), b)))

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return r if r is not NotImplemented else (False if not isinstance(o, np.ndarray) else NotImplemented)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return _bool(self != 0.0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __float__(self):
        raise Unsupported("float() of a symbolic float64 by native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic float64")

    def __format__(self, spec):
        from . import loader

        return "<f64>" if loader.MESSAGES is None else loader.number_text(self)

    def to_f32(self):
        """round trip through float32"""
        x = z3.fpFPToFP(RNE, self.fp(), F32)
        return SymF64.from_fp(z3.fpFPToFP(RNE, x, F64))

    def sqrt(self):
        return SymF64.from_fp(z3.fpSqrt(RNE, self.fp()))

    def conjugate(self):
        return self


def _factors(t, e=1):
    """t as a product of powers: list of (term, exponent)"""
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        return [f for c in t.children() for f in _factors(c, e)]
    if z3.is_app_of(t, z3.Z3_OP_DIV):
        a, b = t.children()
        return _factors(a, e) + _factors(b, -e)
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name().startswith('pow_'):
        return _factors(t.arg(0), e * float(t.decl().name()[4:]))
    return [(t, e)]


def _nonneg(t):
    """is t syntactically a sum of squares?"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        return all(_nonneg(a) for a in t.children())
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        ch = t.children()
        return all(_nonneg(a) for a in ch) or len(ch) == 2 and ch[0].eq(ch[1])
    return False


def _square_of(t):
    """q such that t is syntactically q * q (plus zeros), else None"""
    while True:
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            nz = [a for a in t.children() if not (z3.is_rational_value(a) and a.numerator_as_long() == 0)]
            if len(nz) != 1:
                return None
            t = nz[0]
            continue
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            nu = [a for a in t.children() if not (z3.is_rational_value(a) and a.numerator_as_long() == a.denominator_as_long())]
            if len(nu) == 1:
                t = nu[0]
                continue
            if len(nu) == 2 and nu[0].eq(nu[1]):
                return nu[0]
        return None


class SymStr(Sym):
    """opaque token of text whose numeric value is symbolic (text mesh files)"""

    __slots__ = ('num',)

    def __init__(self, num):
        self.t = None
        self.num = num

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def __len__(self):
        return 1

    def __hash__(self):
        return hash(str(_int(self.num)))

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return self.num == o.num
        if isinstance(o, str):
            try:
                k = _int(o)
            except ValueError:
                try:
                    _float(o)
                except ValueError:
                    return False
                raise Unsupported("comparison of the text of a number")
            if isinstance(self.num, (SymInt, SymBool)):
                return self.num == k if str(k) == o else False
            raise Unsupported("comparison of the text of a number")
        return False

    def __ne__(self, o):
        return snot(self == o)


# ---------------------------------------------------------------------------------- helpers
def ite(c, a, b):
    """if-then-else over scalars without forking when the types allow it"""
    if conc(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymF64,)) or isinstance(b, SymF64):
        return SymF64(z3.If(c.t, f64bits(a), f64bits(b)))
    if isinstance(a, (SymBool, _bool, np.bool_)) and isinstance(b, (SymBool, _bool, np.bool_)):
        return mkbool(z3.simplify(z3.If(c.t, bterm(a), bterm(b))))
    ai = isinstance(a, (SymInt, SymBool)) or _isint(a)
    bi = isinstance(b, (SymInt, SymBool)) or _isint(b)
    if ai and bi:
        ta, tb = iterm(a), iterm(b)
        if ta.eq(tb):
            return a
        return mkint(z3.If(c.t, ta, tb))
    if (ai or isinstance(a, SymReal) or _isfloat(a)) and (bi or isinstance(b, SymReal) or _isfloat(b)):
        ta, tb = rterm(a), rterm(b)
        if ta.eq(tb):
            return a
        return mkreal(z3.If(c.t, ta, tb))
    return a if c else b  # forks


def smin(a, b):
    c = a <= b
    return ite(c, a, b)


def smax(a, b):
    c = a >= b
    return ite(c, a, b)


def ssort(vals):
    """sorted list of (possibly symbolic) ints by an odd-even transposition / Batcher network"""
    v = list(vals)
    n = len(v)
    if all(conc(x) for x in v):
        return sorted(v)
    p = 1
    while p < n:
        k = p
        while k >= 1:
            for j in range(k % p, n - k, 2 * k):
                for i in range(0, min(k, n - j - k)):
                    if (i + j) // (2 * p) == (i + j + k) // (2 * p):
                        a, b = v[i + j], v[i + j + k]
                        c = a <= b
                        v[i + j], v[i + j + k] = ite(c, a, b), ite(c, b, a)
            k //= 2
        p *= 2
    return v


def has_sym(x, depth=6):
    """does a nested python/numpy structure contain a symbolic scalar?"""
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object or getattr(x, '_is_symarray', False):
            base = x.view(np.ndarray)
            if base.dtype != object:
                return False
            return any(isinstance(e, Sym) for e in base.ravel())
        return False
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth and isinstance(x, dict):
        return any(has_sym(e, depth - 1) for e in x.values())
    return False
