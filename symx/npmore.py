"""more numpy functions on symbolic arrays: the ones written in Python run as they are, the others are given here"""
import math

import numpy as np
import z3

from . import array as A
from .array import BOOL, HANDLERS, I64, arr, base, handles, mk, native, scal
from .core import Unsupported
from .values import Sym, SymBool, SymF64, SymInt, SymReal, ite, mkint, mkreal, sor

# functions of numpy whose Python source only uses functions understood here
_PY = ['ndim', 'shape', 'size', 'atleast_3d', 'triu', 'tril', 'select', 'gradient', 'trapezoid', 'ediff1d', 'array_equiv', 'setxor1d', 'rollaxis',
       'iscomplexobj', 'isrealobj', 'apply_along_axis', 'fftshift', 'ifftshift', 'trace', 'put_along_axis', 'corrcoef', 'sliding_window_view', 'vsplit']


def _py(f):
    impl = getattr(f, '_implementation', None) or f
    return lambda *a, **k: impl(*a, **k)


for _n in _PY:
    for _m in (np, np.fft, np.lib.stride_tricks):
        _f = getattr(_m, _n, None)
        if _f is not None and _f not in HANDLERS and _n not in ('vsplit', 'sliding_window_view'):
            HANDLERS[_f] = _py(_f)


@handles(np.ndim)
def np_ndim(a):
    return arr(a).ndim


@handles(np.shape)
def np_shape(a):
    return arr(a).shape


@handles(np.size)
def np_size(a, axis=None):
    a = arr(a)
    return a.size if axis is None else a.shape[axis]


def _tri(keep):
    def f(m, k=0):
        m = arr(m)
        o = base(m).copy()
        for q in np.ndindex(*o.shape):
            if not keep(q[-1] - q[-2], k):
                o[q] = 0.0 if m.dtype.kind == 'f' else 0
        return mk(o, m.dtype)

    return f


HANDLERS[np.triu] = _tri(lambda d, k: d >= k)
HANDLERS[np.tril] = _tri(lambda d, k: d <= k)


@handles(np.trace)
def np_trace(a, offset=0, *x, **k):
    if x or k:
        raise Unsupported("trace options")
    return np.sum(np.diagonal(a, offset))


@handles(np.choose)
def np_choose(a, choices, out=None, mode='raise'):
    a = arr(a)
    cs = np.broadcast_arrays(*[base(arr(c)) for c in choices], base(a))[:-1]
    ia = np.broadcast_to(base(a), cs[0].shape)
    o = np.empty(cs[0].shape, dtype=object)
    for q in np.ndindex(*o.shape):
        k = ia[q]
        if bool(sor(k < 0, k >= len(cs))):
            raise ValueError("invalid entry in choice array")
        v = cs[-1][q]
        for j in range(len(cs) - 2, -1, -1):
            v = ite(k == j, cs[j][q], v)
        o[q] = v
    return mk(o)


@handles(np.select)
def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = np.where(c, v, r)
    return r


def _nan(f):
    def g(a, *x, **k):
        a = arr(a)
        if any(isinstance(e, SymF64) or (isinstance(e, float) and e != e) for e in base(a).ravel()):
            raise Unsupported("function of values which may be nan")
        return f(a, *x, **k)

    return g


for _n in ('sum', 'prod', 'max', 'min', 'mean', 'std', 'var', 'argmax', 'argmin', 'cumsum', 'median'):
    HANDLERS[getattr(np, 'nan' + _n)] = _nan(getattr(np, _n))


@handles(np.nan_to_num)
def np_nan_to_num(x, copy=True, **k):
    return _nan(lambda a: a.copy() if copy else a)(x)


@handles(np.ptp)
def np_ptp(a, axis=None, **k):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def _quantile(a, q, axis):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    s = np.sort(a, axis=axis)
    n = s.shape[axis]
    p = q * (n - 1)
    i = int(math.floor(p))
    lo = np.take(s, i, axis=axis)
    if p == i:
        return lo * 1.0
    return lo + (np.take(s, i + 1, axis=axis) - lo) * (p - i)


@handles(np.median)
def np_median(a, axis=None, **k):
    if k:
        raise Unsupported("median options")
    return _quantile(a, 0.5, axis)


def _quant(scale):
    def f(a, q, axis=None, **k):
        if k or A.has_sym(q):
            raise Unsupported("quantile options")
        if np.ndim(q):
            return np.array([_quantile(a, float(x) / scale, axis) for x in q])
        return _quantile(a, float(q) / scale, axis)

    return f


HANDLERS[np.quantile] = HANDLERS[np.nanquantile] = _quant(1.0)
HANDLERS[np.percentile] = HANDLERS[np.nanpercentile] = _quant(100.0)


@handles(np.digitize)
def np_digitize(x, bins, right=False):
    b = arr(bins)
    v = base(b)
    if len(v) > 1 and bool(v[0] > v[-1]):
        raise Unsupported("digitize with decreasing bins")
    return np.searchsorted(bins, x, side='left' if right else 'right')


@handles(np.histogram)
def np_histogram(a, bins=10, range=None, density=None, weights=None):
    if np.ndim(bins) == 0 or density or weights is not None:
        raise Unsupported("histogram with a number of bins")
    e, v = arr(bins), base(arr(a)).ravel()
    eb = base(e)
    out = np.empty(len(eb) - 1, dtype=object)
    for i in __builtins__['range'](len(eb) - 1):
        n = 0
        for x in v:
            last = x <= eb[i + 1] if i == len(eb) - 2 else x < eb[i + 1]
            n = n + ite(A.sand(x >= eb[i], last), 1, 0)
        out[i] = n
    return mk(out, I64), e


@handles(np.linalg.det)
def np_det(a):
    b = base(arr(a))
    if b.ndim != 2:
        return mk(np.array([np_det(mk(x, a.dtype)) for x in b], dtype=object), np.dtype(float))

    def det(m):
        if len(m) == 0:
            return 1.0
        if len(m) == 1:
            return m[0][0]
        r = 0.0
        for j in range(len(m)):
            r = r + (-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
        return r

    return scal(A.cast(det(b.tolist()), np.dtype(float)), np.dtype(float))


@handles(np.linalg.matrix_power)
def np_matrix_power(a, n):
    if n < 0:
        return np_matrix_power(np.linalg.inv(a), -n)
    r = A.wrap(np.eye(len(a), dtype=a.dtype))
    for _ in range(n):
        r = np.matmul(r, a)
    return r


@handles(np.cumprod)
def np_cumprod(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return A.array_ufunc(np.multiply, 'accumulate', (a,), None, dict(axis=axis))


@handles(np.partition)
def np_partition(a, kth, axis=-1, **k):
    return np.sort(a, axis=axis)


@handles(np.argpartition)
def np_argpartition(a, kth, axis=-1, **k):
    return np.argsort(a, axis=axis)


@handles(np.round, np.around)
def np_round(a, decimals=0, out=None):
    a = a if isinstance(a, Sym) else arr(a)
    if isinstance(a, SymInt) or (not isinstance(a, Sym) and a.dtype.kind in 'iub'):
        if decimals >= 0:
            return a
        raise Unsupported("rounding integers to tens")
    r = np.rint(a * 10.0**decimals) / 10.0**decimals if decimals else np.rint(a)
    if out is not None:
        out[...] = r
        return out
    return r


@handles(np.apply_along_axis)
def np_apply_along_axis(f, axis, a, *x, **k):
    a = arr(a)
    b = np.moveaxis(base(a), axis, -1)
    res = {q: f(mk(b[q].copy(), a.dtype), *x, **k) for q in np.ndindex(*b.shape[:-1])}
    r = np.array([res[q] for q in np.ndindex(*b.shape[:-1])]) if not res else np.stack([arr(res[q]) for q in np.ndindex(*b.shape[:-1])])
    r = r.reshape(b.shape[:-1] + r.shape[1:])
    return r if r.ndim < b.ndim else np.moveaxis(r, -1, axis)


@handles(np.cov)
def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or any(v is not None for v in k.values()):
        raise Unsupported("cov options")
    x = np.atleast_2d(arr(m))
    if not rowvar and x.shape[0] != 1:
        x = x.T
    n = x.shape[1] - (ddof if ddof is not None else 0 if bias else 1)
    x = x - np.mean(x, axis=1, keepdims=True)
    return np.squeeze(np.matmul(x, x.T) / n)


@handles(np.isscalar)
def np_isscalar(x):
    return isinstance(x, Sym)


@handles(np.iterable)
def np_iterable(x):
    return not isinstance(x, Sym)


def _ident(a, *x, **k):
    return A.np_asarray(a)


HANDLERS[np.require] = lambda a, dtype=None, requirements=None, **k: A.np_asarray(a, dtype, order=next((o[0].upper() for o in requirements or () if o[0].upper() in 'CF'), None))
HANDLERS[np.asarray_chkfinite] = lambda a, dtype=None, order=None: A.np_asarray(a, dtype)
HANDLERS[np.isreal] = lambda a: np.ones_like(arr(a), dtype=bool) if np.ndim(a) else True
HANDLERS[np.iscomplexobj] = lambda a: False
HANDLERS[np.isrealobj] = lambda a: True


@handles(np.may_share_memory, np.shares_memory)
def np_share(a, b, *x):
    return bool(np.shares_memory(np.asarray(arr(a)).view(np.ndarray), np.asarray(arr(b)).view(np.ndarray)))


@handles(np.convolve)
def np_convolve(a, v, mode='full'):
    a, v = base(arr(a)), base(arr(v))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        s = None
        for j in range(max(0, k - m + 1), min(n, k + 1)):
            t = a[j] * v[k - j]
            s = t if s is None else s + t
        full.append(s)
    if mode == 'same':
        full = full[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        full = full[m - 1:n]
    return A.np_array(full)


@handles(np.correlate)
def np_correlate(a, v, mode='valid'):
    if len(v) > len(a):
        raise Unsupported("correlate with a longer kernel")
    return np_convolve(a, v[::-1], mode)


@handles(np.rollaxis)
def np_rollaxis(a, axis, start=0):
    axis = axis % a.ndim
    start = start + a.ndim if start < 0 else start
    if axis < start:
        start -= 1
    order = [i for i in range(a.ndim) if i != axis]
    order.insert(start, axis)
    return a.transpose(order)


@handles(np.lib.stride_tricks.sliding_window_view)
def np_sliding(x, window_shape, axis=None, **k):
    x = arr(x)
    if x.ndim != 1 or k:
        raise Unsupported("sliding windows of several axes")
    n = int(window_shape[0] if isinstance(window_shape, tuple) else window_shape)
    if n > len(x):
        raise ValueError("window shape cannot be larger than input array shape")
    return mk(np.stack([base(x)[i:i + n] for i in range(len(x) - n + 1)]), x.dtype)


@handles(np.trim_zeros)
def np_trim_zeros(a, trim='fb', **k):
    v = list(a)
    lo, hi = 0, len(v)
    if 'f' in trim.lower():
        while lo < hi and bool(v[lo] == 0):
            lo += 1
    if 'b' in trim.lower():
        while hi > lo and bool(v[hi - 1] == 0):
            hi -= 1
    return a[lo:hi]


@handles(np.put_along_axis)
def np_put_along_axis(a, indices, values, axis):
    ix = A._concretise_idx(arr(indices))
    ix = np.asarray(native(arr(ix)), dtype=int)
    vb = np.broadcast_to(base(arr(values)), ix.shape)
    for q in np.ndindex(*ix.shape):
        t = list(q)
        t[axis if axis is not None else 0] = int(ix[q])
        a[tuple(t)] = vb[q]


@handles(np.put)
def np_put(a, ind, v, mode='raise'):
    v = arr(v).reshape(-1)
    f = base(a).reshape(-1)
    ind = arr(ind).reshape(-1)
    for k, i in enumerate(base(ind)):
        A.setitem(a, np.unravel_index(int(i), a.shape), base(v)[k % len(v)])


@handles(np.copyto)
def np_copyto(dst, src, casting='same_kind', where=True):
    dst[...] = src if where is True else np.where(where, src, dst)


@handles(np.putmask)
def np_putmask(a, mask, values):
    v = arr(values)
    if v.ndim and v.shape != a.shape:
        raise Unsupported("putmask with other shapes")
    a[...] = np.where(mask, v, a)


@handles(np.place)
def np_place(a, mask, vals):
    m = A.concrete_mask(arr(mask)).ravel()
    v = arr(vals).reshape(-1)
    k = 0
    for i, t in enumerate(m):
        if t:
            A.setitem(a, np.unravel_index(i, a.shape), base(v)[k % len(v)])
            k += 1


@handles(np.fill_diagonal)
def np_fill_diagonal(a, val, wrap=False):
    v = arr(val).reshape(-1)
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = base(v)[i % len(v)]


@handles(np.interp)
def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("periodic interpolation")
    xb, xs, fs = arr(x), base(arr(xp)), base(arr(fp))
    o = np.empty(xb.shape, dtype=object)
    for q in np.ndindex(*xb.shape):
        v = base(xb)[q]
        r = fs[-1] if right is None else right
        r = ite(v == xs[-1], fs[-1], r)
        for i in range(len(xs) - 2, -1, -1):
            if isinstance(xs[i], Sym) or isinstance(xs[i + 1], Sym) or xs[i] != xs[i + 1]:
                r = ite(v < xs[i + 1], fs[i] + (v - xs[i]) * ((fs[i + 1] - fs[i]) / (xs[i + 1] - xs[i])), r)
        o[q] = ite(v < xs[0], fs[0] if left is None else left, r)
    return o[()] if o.shape == () else mk(o, np.dtype(float))


@handles(np.corrcoef)
def np_corrcoef(x, y=None, **k):
    raise Unsupported("corrcoef")


# ----------------------------------------------------------------------------------- ufuncs
def _fround(x, mode):
    return SymF64.from_fp(z3.fpRoundToIntegral(mode, x.fp()))


def _rint(x):
    if isinstance(x, SymReal):
        f = z3.ToInt(x.t)
        d = x.t - z3.ToReal(f)
        up = z3.Or(d > z3.RealVal('1/2'), z3.And(d == z3.RealVal('1/2'), f % 2 == 1))
        return mkreal(z3.ToReal(z3.If(up, f + 1, f)))
    if isinstance(x, SymF64):
        return _fround(x, z3.RNE())
    return x if isinstance(x, Sym) else float(np.rint(x))


def _neg_of(f):
    def g(x):
        if isinstance(x, SymF64):
            return _fround(x, z3.RTP())
        return -f(-x) if isinstance(x, SymReal) else x if isinstance(x, Sym) else float(math.ceil(x))

    return g


def _trunc(x):
    if isinstance(x, SymReal):
        return ite(x < 0, _ceil(x), A._floor(x))
    if isinstance(x, SymF64):
        return _fround(x, z3.RTZ())
    return x if isinstance(x, Sym) else float(math.trunc(x))


_ceil = _neg_of(A._floor)


def _isinf(x):
    if isinstance(x, SymF64):
        return A.mkbool(z3.simplify(z3.fpIsInf(x.fp())))
    return False if isinstance(x, Sym) else bool(np.isinf(x))


def _gcd(a, b):
    a, b = abs(a), abs(b)
    while bool(b != 0):
        a, b = b, a % b
    return a


A.SCALAR_OPS.update({
    np.isinf: _isinf, np.ceil: _ceil, np.trunc: _trunc, np.rint: _rint, np.left_shift: lambda a, b: a << b, np.right_shift: lambda a, b: a >> b,
    np.heaviside: lambda x, h: ite(x < 0, 0.0, ite(x == 0, h, 1.0)), np.deg2rad: lambda x: x * (math.pi / 180), np.radians: lambda x: x * (math.pi / 180),
    np.rad2deg: lambda x: x * (180 / math.pi), np.degrees: lambda x: x * (180 / math.pi), np.gcd: _gcd,
    np.copysign: lambda a, b: ite(b < 0, -abs(a), abs(a)) if isinstance(b, Sym) else (abs(a) if math.copysign(1, b) > 0 else -abs(a)),
    np.signbit: lambda a: a < 0,
})
A._BOOLRES |= {np.isinf, np.signbit}
A._FLOATRES |= {np.ceil, np.trunc, np.rint}
