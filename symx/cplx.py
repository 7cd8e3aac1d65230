"""complex symbolic values (exact reals) and discrete Fourier transforms with exact twiddle factors"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import array
from .array import arr, base, handles, mk
from .core import Unsupported, eng
from .values import Sym, SymInt, SymReal, algebraic, conc, exactly, mkreal, rterm

C128 = np.dtype(complex)


def surd(k):
    """sqrt(k) as a defined constant"""
    e = eng()
    key = ('surd', k)
    hit = e.path_cache.get(key)
    if hit is None:
        s = z3.Real(f'sqrt_{k}')
        e.define(z3.And(s > 0, s * s == k))
        hit = e.path_cache[key] = SymReal(s)
    return hit


EXACT = (1, 2, 3, 4, 6, 8, 12)


def cosines(n):
    """exact cos(2 pi k / n) as rational or rational * sqrt(2 or 3); floating-point factors for other lengths"""
    if n not in EXACT:
        return [(Fraction(math.cos(2 * math.pi * k / n)), 1) for k in range(n)]
    h = Fraction(1, 2)
    val = {0: (1, 1), 30: (h, 3), 45: (h, 2), 60: (h, 1), 90: (0, 1)}
    out = []
    for k in range(n):
        d = (360 * k // n) % 360
        s = 1
        if d > 180:
            d = 360 - d
        if d > 90:
            d, s = 180 - d, -1
        c, root = val[d]
        out.append((s * c, root))
    return out


def coef(c):
    q, root = c
    if root == 1 or q == 0:
        return Fraction(q)
    return surd(root) * Fraction(q)


def times(c, x):
    if conc(c):
        if c == 0:
            return 0
        if c == 1:
            return x
        return x * c if isinstance(x, Sym) else Fraction(x) * c
    return c * x


def num(x):
    """exact number"""
    return x if isinstance(x, Sym) else exactly(x) if isinstance(x, float) else Fraction(x)


def real(x):
    return mkreal(rterm(x)) if isinstance(x, SymInt) else x


class SymAngle(SymReal):
    """argument of a complex number"""

    __slots__ = ('im', 're')

    def __init__(self, im, re):
        f = z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
        super().__init__(f(rterm(im), rterm(re)))
        self.im, self.re = im, re


class SymComplex(Sym):
    """sqrt(q) * (re + i im) with q a positive rational"""

    __slots__ = ('re', 'im', 'q')
    dtype = C128

    def __init__(self, re, im, q=Fraction(1)):
        self.t = None
        self.re, self.im, self.q = num(re), num(im), q

    def _plain(self):
        if self.q == 1:
            return self.re, self.im
        n, d = self.q.numerator, self.q.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            s = Fraction(a, b)
            return times(s, self.re), times(s, self.im)
        f = 1
        m = n * d  # sqrt(n/d) = sqrt(n d) / d
        for p in (2, 3, 5, 7):
            while m % (p * p) == 0:
                m //= p * p
                f *= p
        s = surd(m) * Fraction(f, d)
        return times(s, self.re), times(s, self.im)

    @property
    def real(self):
        return real(self._plain()[0])

    @property
    def imag(self):
        return real(self._plain()[1])

    def conjugate(self):
        return SymComplex(self.re, -self.im, self.q)

    conj = conjugate

    def norm2(self):
        return times(self.q, self.re * self.re + self.im * self.im)

    def __abs__(self):
        for a, b in ((self.re, self.im), (self.im, self.re)):
            if conc(b) and b == 0 and self.q == 1:
                return abs(a)
        n = self.norm2()
        return n.sqrt() if isinstance(n, Sym) else math.sqrt(n)

    def angle(self):
        if conc(self.re) and conc(self.im):
            return math.atan2(self.im, self.re)
        return SymAngle(self.im, self.re)

    def _coerce(self, o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, complex):
            return SymComplex(exactly(o.real), exactly(o.imag))
        if isinstance(o, (Sym, int, float, Fraction, np.number)):
            return SymComplex(o.item() if isinstance(o, np.number) else o, 0)
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self.q == o.q:
            return SymComplex(self.re + o.re, self.im + o.im, self.q)
        (a, b), (c, d) = self._plain(), o._plain()
        return SymComplex(a + c, b + d)

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.re, -self.im, self.q)

    def __sub__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, float):
            f, k = algebraic(float(o))
            return SymComplex(self.re * f, self.im * f, self.q * k)
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, self.q * o.q)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, Fraction, np.number)):
            f, k = algebraic(float(o)) if isinstance(o, float) else (Fraction(o.item() if isinstance(o, np.number) else o), 1)
            return SymComplex(self.re * (1 / f), self.im * (1 / f), self.q / k)
        if isinstance(o, SymReal):
            return SymComplex(self.re / o, self.im / o, self.q)
        return NotImplemented

    def __pow__(self, o, mod=None):
        if o == 2:
            return self * self
        raise Unsupported("power of a complex value")

    def __eq__(self, o):
        o = self._coerce(o)
        if o is None:
            return False
        (a, b), (c, d) = self._plain(), o._plain()
        from .values import sand

        return sand(a == c, b == d)

    def __ne__(self, o):
        from .values import snot

        return snot(self == o)

    __hash__ = None


def dft(xs, sign, norm, n, half=False, scale_by=None):
    cs = [coef(c) for c in cosines(n)]
    out = []
    for k in range(n // 2 + 1 if half else n):
        re, im = 0, 0
        for j, x in enumerate(xs):
            a = (k * j) % n
            # exp(sign * 2 i pi a / n) = cos(a) + i sign sin(a), sin(a) = cos(a - n/4): through the table of 4n points
            c = cs[a]
            s = coef(sine(n, a))
            xr, xi = (x.re, x.im) if isinstance(x, SymComplex) else (num(x), 0)
            if isinstance(x, SymComplex) and x.q != 1:
                xr, xi = x._plain()
            re = re + times(c, xr) - sign * times(s, xi)
            im = im + sign * times(s, xr) + times(c, xi)
        out.append(SymComplex(re, im, scale_by))
    return out


def sine(n, a):
    if n not in EXACT:
        return Fraction(math.sin(2 * math.pi * a / n)), 1
    # sin(2 pi a / n) = cos(2 pi a / n - pi / 2) = cos(2 pi (4 a - n) / (4 n))
    h = Fraction(1, 2)
    val = {0: (1, 1), 30: (h, 3), 45: (h, 2), 60: (h, 1), 90: (0, 1)}
    d = (360 * a // n - 90) % 360
    s = 1
    if d > 180:
        d = 360 - d
    if d > 90:
        d, s = 180 - d, -1
    c, root = val[d]
    return s * c, root


def transform(a, n, axis, norm, inverse=False, half=False):
    a = arr(a)
    b = np.moveaxis(base(a), axis, 0)
    m = b.shape[0]
    n = m if n is None else int(n)
    if n < 1:
        raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
    fw = norm in (None, 'backward')
    q = Fraction(1)
    if norm == 'ortho':
        q = Fraction(1, n)
    elif norm not in (None, 'backward', 'forward'):
        raise ValueError(f'Invalid norm value {norm}; should be "backward","ortho" or "forward".')
    elif fw == inverse:
        q = Fraction(1, n * n)
    out = np.empty(((n // 2 + 1) if half else n,) + b.shape[1:], dtype=object)
    for i in np.ndindex(*b.shape[1:]):
        xs = [b[(k,) + i] if k < m else 0 for k in range(n)]
        for k, v in enumerate(dft(xs, 1 if inverse else -1, norm, n, half, q)):
            out[(k,) + i] = v
    return mk(np.moveaxis(out, 0, axis), C128)


@handles(np.fft.fft)
def np_fft(a, n=None, axis=-1, norm=None, out=None):
    return transform(a, n, axis, norm)


@handles(np.fft.ifft)
def np_ifft(a, n=None, axis=-1, norm=None, out=None):
    return transform(a, n, axis, norm, inverse=True)


@handles(np.fft.rfft)
def np_rfft(a, n=None, axis=-1, norm=None, out=None):
    return transform(a, n, axis, norm, half=True)


def freq_facade(name):
    real_f = getattr(np.fft, name)

    def f(n, d=1.0, device=None):
        if isinstance(n, Sym):
            n = int(n)
        if not isinstance(d, Sym):
            return array.wrap(real_f(n, d))
        k = np.fft.fftfreq(n, 1.0 / n) if name == 'fftfreq' else np.fft.rfftfreq(n, 1.0 / n)
        k = [int(round(x)) for x in k]
        return arr([x / (d * n) for x in k])

    return f


def _elementwise(a, f, ld):
    if isinstance(a, (Sym, int, float, complex)):
        return f(a)
    a = arr(a)
    if a.ndim == 0:
        return f(base(a)[()])
    b = base(a)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        out[i] = f(b[i])
    return mk(out, ld)


@handles(np.angle)
def np_angle(z, deg=False):
    if deg:
        raise Unsupported("angle in degrees")
    return _elementwise(z, lambda x: x.angle() if isinstance(x, SymComplex) else SymAngle(0, x) if isinstance(x, Sym) else float(np.angle(x)), np.dtype(float))


@handles(np.real)
def np_real(z):
    return _elementwise(z, lambda x: x.real if isinstance(x, (SymComplex, complex)) else x, np.dtype(float))


@handles(np.imag)
def np_imag(z):
    return _elementwise(z, lambda x: x.imag if isinstance(x, (SymComplex, complex)) else 0.0, np.dtype(float))
