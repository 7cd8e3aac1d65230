"""SymArray: numpy array of possibly symbolic scalars with a logical dtype, and the numpy facade."""
import builtins
import itertools
import math
import types

import numpy as np
import z3

from . import core
from .core import Unsupported, eng
from . import values as V
from .values import Sym, SymBool, SymInt, SymReal, SymF64, conc, ite, mkint, mkreal, mkbool, sand, sor, snot, has_sym
from . import bytesx

_slots_ld = '_ld'
BOOL, I64, F64, OBJ = np.dtype(bool), np.dtype(np.int64), np.dtype(np.float64), np.dtype(object)


def base(a):
    """plain object ndarray behind a SymArray"""
    return a.view(np.ndarray) if type(a) is SymArray else a


def elem_ld(x):
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        return BOOL
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, (SymInt, int)):
        return I64
    if isinstance(x, (SymReal, SymF64, float)):
        return F64
    if isinstance(x, complex) or isinstance(x, Sym) and getattr(x, 'dtype', None) == np.dtype(complex):
        return np.dtype(complex)
    if isinstance(x, str):
        return np.dtype(f'<U{max(1, len(x))}')
    if isinstance(x, bytes):
        return np.dtype(f'S{max(1, len(x))}')
    return OBJ


def infer_ld(objarr):
    lds = {elem_ld(x) for x in objarr.ravel()}
    if not lds:
        return F64
    if OBJ in lds:
        return OBJ
    r = None
    for d in lds:
        r = d if r is None else np.result_type(r, d)
    return r


def cast(v, ld, unsafe=True):
    """value stored when v is written into an array of logical dtype ld"""
    k = ld.kind
    if k == 'O':
        return v
    if conc(v):
        if k == 'i' or k == 'u' or k == 'f' or k == 'b':
            if not unsafe and isinstance(v, int) and k in 'iu':
                info = np.iinfo(ld)
                if not info.min <= v <= info.max:
                    raise OverflowError(f"Python integer {v} out of bounds for {ld}")
            if isinstance(v, np.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = base(v).reshape(-1)[0]
                return cast(v, ld, unsafe)
            return np.asarray(v).astype(ld).item()
        return v
    if k == 'b':
        return v if isinstance(v, SymBool) else (v != 0)
    if k in 'iu':
        if isinstance(v, SymBool):
            return v._asint()
        if isinstance(v, SymInt):
            if ld.itemsize == 8 and k == 'i':
                return v
            n = 1 << (8 * ld.itemsize)
            if k == 'i':
                inr = z3.And(v.t >= -(n // 2), v.t < n // 2)
                w = (v.t + n // 2) % n - n // 2
            else:
                inr = z3.And(v.t >= 0, v.t < n)
                w = v.t % n
            if eng().fork(inr):
                return v
            return mkint(w)
        if isinstance(v, SymReal):
            return v.__trunc__()
        raise Unsupported("cast of a bit-level float to an integer")
    if k == 'f':
        if isinstance(v, SymF64):
            return v if ld.itemsize == 8 else v.to_f32()
        if isinstance(v, SymReal):
            return v  # real arithmetic: rounding to float32 is not modelled
        if isinstance(v, SymBool):
            v = v._asint()
        if isinstance(v, SymInt):
            return mkreal(z3.ToReal(rounded(v.t, {8: 53, 4: 24, 2: 11}.get(ld.itemsize, 64))))
    if k == 'c':
        return v
    if k in 'US':
        return str(v)
    raise Unsupported(f"cast to {ld}")


def rounded(t, bits):
    """nearest integer with this number of significant bits (ties to even), for |t| < 2**64"""
    m = 1 << bits
    if bits >= 64 or eng().fork(z3.And(t >= -m, t <= m)):
        return t
    a = z3.If(t < 0, -t, t)
    out = a
    for e in range(64 - bits, 0, -1):
        s = 1 << e
        q, r = a / s, a % s
        up = z3.Or(r > s // 2, z3.And(r == s // 2, q % 2 == 1))
        out = z3.If(a < m * s, z3.If(up, q + 1, q) * s, out) if e < 64 - bits else z3.If(up, q + 1, q) * s
    out = z3.If(a <= m, a, out)
    return z3.If(t < 0, -out, out)


def symf_of_int(v):
    return v


class SymArray(np.ndarray):
    _is_symarray = True

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._ld = getattr(obj, '_ld', None)

    @property
    def dtype(self):
        return self._ld if self._ld is not None else OBJ

    @dtype.setter
    def dtype(self, d):
        raise Unsupported("setting ndarray.dtype")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def __array__(self, dtype=None, copy=None):
        raise Unsupported("symbolic array handed to native code")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield getitem(self, i)

    def __contains__(self, v):
        return any(bool(x == v) for x in base(self).ravel())

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).reshape(-1)[0])
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
        )

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(base(self)[()])

    def __int__(self):
        if self.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(base(self)[()])

    def __float__(self):
        if self.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(base(self)[()])

    def __format__(self, spec):
        return "<array>"

    def __str__(self):
        return f"<SymArray {self.shape} {self.dtype}>"

    __repr__ = __str__

    def item(self, *a):
        b = base(self)
        if a:
            r = b[a[0] if len(a) == 1 and isinstance(a[0], tuple) else (a if len(a) > 1 else np.unravel_index(int(a[0]), b.shape))]
            return pyval(r)
        if b.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return pyval(b.reshape(-1)[0])

    def tolist(self):
        def rec(x):
            if isinstance(x, list):
                return [rec(e) for e in x]
            return pyval(x)

        return rec(base(self).tolist())

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        ld = np.dtype(dtype)
        if not copy and ld == self.dtype:
            return self
        if ld.kind == 'f' and ld.itemsize < 8 and any(isinstance(x, SymReal) for x in base(self).ravel()):
            raise Unsupported("float32 rounding of symbolic reals")
        out = np.empty_like(base(self), dtype=object, order=order or 'K')  # memory order as numpy has it
        for i, x in np.ndenumerate(base(self)):
            out[i] = cast(x, ld)
        return mk(out, ld)

    def copy(self, order='C'):
        return mk(base(self).copy(order), self.dtype)

    def view(self, *a, **k):
        if not a and not k:
            return super().view()
        t = a[0] if a else k.get('dtype', k.get('type'))
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return super().view(t)
        ld = np.dtype(t)
        if ld == self.dtype:
            return super().view()
        return frombuffer(self.tobytes(), ld).reshape(
            self.shape[:-1] + (self.shape[-1] * self.dtype.itemsize // ld.itemsize,)
        )

    def tobytes(self, order='C'):
        ld = self.dtype
        cells = []
        little = ld.byteorder != '>'
        for x in base(self).ravel(order='C' if order in ('C', 'K', None) else order):
            cells += val_cells(x, ld, little)
        return bytesx.SymBytes.make(cells)

    tostring = tobytes

    def tofile(self, fid, sep='', format='%s'):
        if sep:
            raise Unsupported("text tofile")
        if isinstance(fid, (str,)) or hasattr(fid, '__fspath__'):
            from . import vfs

            with vfs.sym_open(fid, 'wb') as f:
                f.write(self.tobytes())
        else:
            fid.write(self.tobytes())

    def byteswap(self, inplace=False):
        raw = bytesx.cells_of(self.tobytes())
        n = self.dtype.itemsize
        sw = [c for i in range(0, len(raw), n) for c in raw[i:i + n][::-1]]
        r = frombuffer(bytesx.SymBytes.make(sw), self.dtype).reshape(self.shape)
        if inplace:
            self[...] = r
            return self
        return r

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, kind=None, order=None):
        r = np_sort(self, axis=axis)
        base(self)[...] = base(r)

    def argsort(self, axis=-1, kind=None, order=None):
        return np.argsort(self, axis=axis, kind=kind)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return np_mean(self, axis=axis, dtype=dtype, out=out, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return np_std(self, axis=axis, dtype=dtype, out=out, ddof=ddof, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return np_var(self, axis=axis, dtype=dtype, out=out, ddof=ddof, **k)

    def max(self, axis=None, out=None, **k):
        return np_max(self, axis=axis, out=out, **k)

    def min(self, axis=None, out=None, **k):
        return np_min(self, axis=axis, out=out, **k)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return np_sum(self, axis=axis, dtype=dtype, out=out, **k)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return np_prod(self, axis=axis, dtype=dtype, out=out, **k)

    def any(self, axis=None, out=None, **k):
        return np_any(self, axis=axis, out=out, **k)

    def all(self, axis=None, out=None, **k):
        return np_all(self, axis=axis, out=out, **k)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis, dtype=dtype, out=out)

    def argmax(self, axis=None, out=None, **k):
        return np_argmax(self, axis, out=out, **k)

    def argmin(self, axis=None, out=None, **k):
        return np_argmin(self, axis, out=out, **k)

    def nonzero(self):
        m = concrete_mask(self)
        return tuple(wrap(x) for x in m.nonzero())

    def dot(self, o):
        return np.dot(self, o)

    def take(self, idx, axis=None, out=None, mode='raise'):
        return np_take(self, idx, axis, out=out, mode=mode)

    def repeat(self, n, axis=None):
        return np.repeat(self, n, axis)

    def tolist_concrete(self):
        return [int(x) for x in base(self).ravel()]

    def round(self, decimals=0, out=None):
        return np.round(self, decimals, out)

    def clip(self, min=None, max=None, out=None):
        return np_clip(self, min, max, out=out)

    def trace(self, offset=0, *a, **k):
        return np.trace(self, offset, *a, **k)

    def diagonal(self, offset=0, *a, **k):
        return np.diagonal(self, offset, *a, **k)

    def ptp(self, axis=None, **k):
        return np.ptp(self, axis, **k)

    def cumprod(self, axis=None, *a, **k):
        return np.cumprod(self, axis, *a, **k)

    def searchsorted(self, v, side='left', sorter=None):
        return np.searchsorted(self, v, side=side) if sorter is None else np.searchsorted(self[sorter], v, side=side)

    def compress(self, condition, axis=None, out=None):
        return np.compress(condition, self, axis=axis)

    def choose(self, choices, out=None, mode='raise'):
        return np.choose(self, choices)

    def partition(self, kth, axis=-1, **k):
        self.sort(axis)

    def argpartition(self, kth, axis=-1, **k):
        return np.argsort(self, axis=axis)

    def put(self, indices, values, mode='raise'):
        np.put(self, indices, values)

    @property
    def imag(self):
        return np.imag(self)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    @property
    def real(self):
        return np.real(self) if self.dtype.kind == 'c' else self

    @property
    def flat(self):
        return base(self).flat

    def __matmul__(self, o):
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        return array_ufunc(ufunc, method, inputs, out, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, args, kwargs)


def pyval(x):
    return x.item() if isinstance(x, np.generic) else x


def mk(objarr, ld=None):
    if objarr.dtype != object:
        return wrap(objarr)
    r = np.asarray(objarr).view(SymArray)
    r._ld = np.dtype(ld) if ld is not None else infer_ld(objarr)
    return r


def wrap(x):
    """native numpy result -> SymArray / python values left alone"""
    if type(x) is SymArray:
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf':
            o = np.empty(x.shape, dtype=object)
            if x.size:
                o[...] = x.astype(object) if x.ndim else x.item()
            r = o.view(SymArray)
            r._ld = x.dtype
            return r
        if x.dtype == object:
            return mk(x)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if isinstance(x, tuple):
        return type(x)(*[wrap(e) for e in x])
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def scal(x, ld):
    """scalar extracted from an array"""
    if isinstance(x, Sym) or ld.kind not in 'biuf':
        return x
    if isinstance(x, np.generic):
        return x
    try:
        return ld.type(x)
    except (OverflowError, TypeError, ValueError):
        return x


def is_conc_arr(a):
    return not any(isinstance(e, Sym) for e in base(a).ravel())


def native(x):
    """real numpy array when every element is concrete (else None for symbolic)"""
    if type(x) is SymArray:
        if not is_conc_arr(x):
            return None
        b = base(x)
        ld = x.dtype
        if ld.kind == 'O':
            return b
        r = np.empty(b.shape, dtype=ld)
        if b.size:
            r[...] = b
        return r
    return x


def resolve(x):
    """data sets of a file as arrays"""
    if hasattr(type(x), '__sx_array__'):
        return x.__sx_array__()
    if type(x) in (list, tuple) and any(hasattr(type(e), '__sx_array__') for e in x):
        return type(x)(resolve(e) for e in x)
    return x


def arr(x, ld=None):
    """anything -> SymArray"""
    x = resolve(x)
    if type(x) is SymArray:
        return x if ld is None or x.dtype == np.dtype(ld) else x.astype(ld)
    if isinstance(x, np.ndarray):
        r = wrap(x)
        if type(r) is not SymArray:
            return r
        return r if ld is None else r.astype(ld)
    o = to_obj(x)
    if o is None:
        r = np.array(x, dtype=ld)
        return wrap(r)
    src = infer_ld(o) if not _leaf_lds(x) else _leaf_lds(x)
    r = mk(o, src)
    if src.kind in 'f':
        r = r.astype(src)
    if ld is not None and np.dtype(ld) != src:
        r = r.astype(ld)
    return r


def _leaf_lds(x):
    return None


def to_obj(x):
    """nested sequences with symbolic leaves -> object ndarray (None if nothing symbolic and no SymArray)"""
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if not _contains_symish(x):
        return None
    return _stack(x)


def _contains_symish(x, depth=6):
    if isinstance(x, Sym) or type(x) is SymArray:
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(_contains_symish(e, depth - 1) for e in x)
    return False


def _stack(x):
    if type(x) is SymArray:
        return base(x)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        subs = [_stack(e) for e in x]
        if not subs:
            return np.empty((0,), dtype=object)
        shapes = {s.shape for s in subs}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(subs),) + subs[0].shape, dtype=object)
        for i, s in enumerate(subs):
            o[i] = s if s.ndim else s[()]
        return o
    if isinstance(x, SymRange):
        return _stack(list(x))
    o = np.empty((), dtype=object)
    o[()] = x
    return o


class SymRange:
    pass


# ------------------------------------------------------------------------------- indexing
def _is_symidx(k):
    return isinstance(k, (SymInt, SymBool)) or (type(k) is SymArray) or (
        isinstance(k, (list,)) and _contains_symish(k)
    )


def concrete_mask(a):
    """boolean numpy array; forks on symbolic elements"""
    b = base(a)
    m = np.empty(b.shape, dtype=bool)
    for i, x in np.ndenumerate(b):
        m[i] = bool(x)
    return m


def norm_key(a, key):
    """-> (tuple key with native parts, position of the first symbolic index, list of symbolic positions)"""
    if not isinstance(key, tuple):
        key = (key,)
    out, symb = [], []
    for k in key:
        if isinstance(k, SymBool):
            k = bool(k)
        elif isinstance(k, (list, tuple)) and _contains_symish(k):
            k = arr(list(k))
        elif isinstance(k, list):
            k = np.array(k) if k else np.array(k, dtype=int)
        if isinstance(k, slice):
            k = slice(*[None if e is None else (int(e) if isinstance(e, Sym) else e) for e in (k.start, k.stop, k.step)])
        if type(k) is SymArray:
            if k.dtype.kind == 'b':
                k = concrete_mask(k)
            elif is_conc_arr(k):
                if k.dtype.kind not in 'iu':
                    if k.size == 0 and False:
                        k = np.empty(k.shape, dtype=int)
                    else:
                        raise IndexError("arrays used as indices must be of integer (or boolean) type")
                else:
                    k = native(k)
            else:
                if k.dtype.kind not in 'iu':
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                symb.append(len(out))
        elif isinstance(k, SymInt):
            symb.append(len(out))
        out.append(k)
    return out, symb


def _axis_of(a, key, pos):
    """array axis addressed by key[pos]"""
    ax = 0
    nkeys = sum(1 for k in key if k is not None and k is not Ellipsis)
    for i, k in enumerate(key):
        if i == pos:
            return ax
        if k is None:
            continue
        if k is Ellipsis:
            ax += a.ndim - nkeys
        elif isinstance(k, np.ndarray) and k.dtype == bool:
            ax += k.ndim
        else:
            ax += 1
    raise AssertionError


def _bounds(idx, n):
    """normalise a symbolic index for an axis of length n; forks on out of bounds and on the sign"""
    if conc(idx):
        i = int(idx)
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return i % n if n else i
    if not sand(idx >= -n, idx < n):
        raise IndexError(f"index is out of bounds for axis with size {n}")
    neg = idx < 0
    if conc(neg):
        return idx + n if neg else idx
    if not core.ENG.fork(neg.t):
        return idx
    return idx + n


def getitem(a, key):
    b = base(a)
    k2, symb = norm_key(a, key)
    ld = a.dtype
    if not symb:
        kk = tuple(k2) if len(k2) != 1 else k2[0]
        r = b[kk]
        if isinstance(r, np.ndarray):
            return mk(r, ld)
        return scal(r, ld)
    if len(symb) == 1:
        pos = symb[0]
        idx = k2[pos]
        others_fancy = any(isinstance(k, np.ndarray) for i, k in enumerate(k2) if i != pos)
        if not others_fancy or isinstance(idx, SymInt):
            ax = _axis_of(a, k2, pos)
            n = b.shape[ax]
            if isinstance(idx, SymInt):
                i = _bounds(idx, n)
                parts = []
                for j in range(n):
                    kj = list(k2)
                    kj[pos] = j
                    parts.append(b[tuple(kj)])
                r = select(i, parts)
                return mk(r, ld) if isinstance(r, np.ndarray) else scal(r, ld)
            if not any(isinstance(k, (int, np.integer)) for k in k2):
                # array of symbolic indices along one axis
                flat = []
                cache = {}
                for e in base(idx).ravel():
                    ek = ('s', e.t.get_id()) if isinstance(e, Sym) else ('c', int(e))
                    if ek not in cache:
                        i = _bounds(e, n)
                        cache[ek] = select(i, [np.take(b, j, axis=ax) for j in range(n)]), e
                    flat.append(cache[ek][0])
                sub_shape = b.shape[:ax] + b.shape[ax + 1:]
                out = np.empty(idx.shape + sub_shape, dtype=object)
                for pos_, r in zip(np.ndindex(*idx.shape), flat):
                    if sub_shape == ():
                        out[pos_] = r
                    else:
                        out[pos_] = r
                out = np.moveaxis(out, list(range(idx.ndim)), list(range(ax, ax + idx.ndim))) if ax else out
                rest = list(k2)
                rest[pos:pos + 1] = [slice(None)] * idx.ndim
                if all(isinstance(k, slice) and k == slice(None) or k is Ellipsis for k in rest):
                    return mk(out, ld)
                return mk(out[tuple(rest)], ld)
    # several symbolic indices: per-element gather through broadcasting
    return _gather_multi(a, k2, ld)


def _gather_multi(a, k2, ld):
    b = base(a)
    if any(isinstance(k, slice) or k is Ellipsis or k is None for k in k2) or len(k2) != b.ndim:
        # fall back: enumerate the values of the symbolic indices
        k3 = [int(k) if isinstance(k, SymInt) else (_concretise_idx(k) if type(k) is SymArray else k) for k in k2]
        r = b[tuple(k3)]
        return mk(r, ld) if isinstance(r, np.ndarray) else scal(r, ld)
    parts = [base(k) if isinstance(k, np.ndarray) else np.array(k, dtype=object) for k in k2]
    parts = np.broadcast_arrays(*parts)
    out = np.empty(parts[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        idx = [_bounds(p[i], n) for p, n in zip(parts, b.shape)]
        sub = b
        for ii in idx:
            sub = select(ii, [sub[j] for j in range(sub.shape[0])])
        out[i] = sub
    if out.shape == ():
        return scal(out[()], ld)
    return mk(out, ld)


def _concretise_idx(k):
    out = np.empty(k.shape, dtype=int)
    for i, x in np.ndenumerate(base(k)):
        out[i] = int(x)
    return out


def select(i, parts):
    """parts[i] without forking; elementwise when parts are arrays"""
    if conc(i):
        return parts[int(i)]
    if not parts:
        raise IndexError("index out of bounds for an empty axis")
    r = parts[-1]
    for j in range(len(parts) - 2, -1, -1):
        c = i == j
        p = parts[j]
        if isinstance(p, np.ndarray):
            new = np.empty(p.shape, dtype=object)
            for q in np.ndindex(*p.shape):
                new[q] = ite(c, p[q], r[q])
            r = new
        else:
            r = ite(c, p, r)
    return r


def setitem(a, key, val):
    b = base(a)
    ld = a.dtype
    k2, symb = norm_key(a, key)
    if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
        v = arr(val)
        vb = base(v)
        if v.dtype != ld:
            nv = np.empty(vb.shape, dtype=object)
            for i, x in np.ndenumerate(vb):
                nv[i] = cast(x, ld)
            vb = nv
        else:
            vb = vb.copy()
        isarr = True
    else:
        vb = cast(val, ld, unsafe=False)
        isarr = False
    if not symb:
        kk = tuple(k2) if len(k2) != 1 else k2[0]
        if isarr and vb.ndim == 0:
            vb = vb[()]
            isarr = False
        if not isarr:
            tgt = b[kk]
            if isinstance(tgt, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = vb
                b[kk] = np.broadcast_to(o, tgt.shape)
            else:
                b[kk] = vb
        else:
            tgt = b[kk]
            if not isinstance(tgt, np.ndarray):
                if vb.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                b[kk] = vb.reshape(-1)[0]
            else:
                b[kk] = vb
        return
    if len(symb) == 1 and isinstance(k2[symb[0]], SymInt):
        pos = symb[0]
        ax = _axis_of(a, k2, pos)
        n = b.shape[ax]
        i = _bounds(k2[pos], n)
        for j in range(n):
            kj = list(k2)
            kj[pos] = j
            kj = tuple(kj)
            c = i == j
            old = b[kj]
            if isinstance(old, np.ndarray):
                o = vb if isarr else _full0(vb)
                new = np.broadcast_to(o, old.shape)
                res = np.empty(old.shape, dtype=object)
                for q in np.ndindex(*old.shape):
                    res[q] = ite(c, new[q], old[q])
                b[kj] = res
            else:
                b[kj] = ite(c, vb if not isarr else vb.reshape(-1)[0], old)
        return
    if len(symb) == 1 and len(k2) == 1 or (
        len(symb) == 1 and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(k2) if i != symb[0])
        and symb[0] == 0
    ):
        idx = k2[symb[0]]
        n = b.shape[0]
        ix = [_bounds(e, n) for e in base(idx).ravel()]
        tshape = idx.shape + b.shape[1:]
        new = np.broadcast_to(vb if isarr else _full0(vb), tshape).reshape((len(ix),) + b.shape[1:])
        for i, nv in zip(ix, new):
            if conc(i):
                b[i] = nv
                continue
            for j in range(n):
                c = i == j
                if b.ndim == 1:
                    b[j] = ite(c, nv, b[j])
                else:
                    for q in np.ndindex(*b.shape[1:]):
                        b[(j,) + q] = ite(c, nv[q], b[(j,) + q])
        return
    k3 = [int(k) if isinstance(k, SymInt) else (_concretise_idx(k) if type(k) is SymArray else k) for k in k2]
    b[tuple(k3)] = vb


def _full0(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


# --------------------------------------------------------------------------------- ufuncs
_CMP = {
    np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b, np.less: lambda a, b: a < b,
    np.less_equal: lambda a, b: a <= b, np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b,
}
_LOGIC = {
    np.logical_and: lambda a, b: sand(_tb(a), _tb(b)), np.logical_or: lambda a, b: sor(_tb(a), _tb(b)),
    np.logical_xor: lambda a, b: _tb(a) ^ _tb(b), np.logical_not: lambda a: snot(_tb(a)),
}


def _tb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def _fsqrt(x):
    return x.sqrt() if isinstance(x, Sym) else math.sqrt(x) if x >= 0 else math.nan


def _uf(name):
    nf = getattr(np, name)

    def f(x):
        return getattr(x, name)() if isinstance(x, Sym) else nf(x).item()

    return f


def _floor(x):
    if isinstance(x, SymReal):
        return mkreal(z3.ToReal(z3.ToInt(x.t)))
    if isinstance(x, SymF64):
        return SymF64.from_fp(z3.fpRoundToIntegral(z3.RTN(), x.fp()))
    if isinstance(x, Sym):
        return x
    return float(math.floor(x))


def _isinf(x):
    if isinstance(x, SymF64):
        return mkbool(z3.simplify(z3.fpIsInf(x.fp())))
    return False if isinstance(x, Sym) else bool(np.isinf(x))


def _arctan2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.atan2(a, b)
    from .cplx import SymAngle

    return SymAngle(a, b)


def _isfinite(x):
    if isinstance(x, SymF64):
        return mkbool(z3.simplify(z3.Not(z3.Or(z3.fpIsInf(x.fp()), z3.fpIsNaN(x.fp())))))
    return True if isinstance(x, Sym) else bool(np.isfinite(x))


def _isnan(x):
    if isinstance(x, SymF64):
        return mkbool(z3.simplify(z3.fpIsNaN(x.fp())))
    return False if isinstance(x, Sym) else bool(np.isnan(x))


_MISC = {
    np.sqrt: _fsqrt, np.log: _uf('log'), np.log10: _uf('log10'), np.exp: _uf('exp'), np.sin: _uf('sin'), np.cos: _uf('cos'),
    np.tan: _uf('tan'), np.arctan: _uf('arctan'), np.arctan2: lambda a, b: _arctan2(a, b),
    np.ceil: lambda x: -_floor(-x), np.trunc: lambda x: ite(x >= 0, _floor(x), -_floor(-x)), np.isinf: lambda x: _isinf(x),
    np.radians: lambda x: x * (math.pi / 180), np.deg2rad: lambda x: x * (math.pi / 180),
    np.degrees: lambda x: x * (180 / math.pi), np.rad2deg: lambda x: x * (180 / math.pi),
    np.signbit: lambda x: x < 0, np.log2: lambda x: _uf('log')(x) / math.log(2.0),
    np.left_shift: lambda a, b: a << b, np.right_shift: lambda a, b: a >> b,
    np.hypot: lambda a, b: _fsqrt(a * a + b * b),
    np.absolute: abs, np.fabs: abs, np.negative: lambda x: -x, np.positive: lambda x: x,
    np.square: lambda x: x * x, np.maximum: V.smax, np.minimum: V.smin, np.fmax: V.smax, np.fmin: V.smin,
    np.floor: _floor, np.isfinite: _isfinite, np.isnan: _isnan,
    np.sign: lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)),
    np.conjugate: lambda x: x.conjugate(), np.reciprocal: lambda x: 1.0 / x,
    np.bitwise_and: lambda a, b: a & b, np.bitwise_or: lambda a, b: a | b, np.bitwise_xor: lambda a, b: a ^ b,
    np.invert: lambda a: (not a) if isinstance(a, (bool, np.bool_)) else ~a,
    np.floor_divide: lambda a, b: a // b, np.remainder: lambda a, b: a % b, np.true_divide: None, np.power: None,
}


def _truediv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all='ignore'):
            return np.true_divide(a, b).item()
    return a / b


def _pow(a, b):
    return a**b


_MISC[np.true_divide] = _truediv
_MISC[np.power] = _pow
_MISC[np.float_power] = _pow
_ARITH = {np.add: lambda a, b: a + b, np.subtract: lambda a, b: a - b, np.multiply: lambda a, b: a * b}
SCALAR_OPS = {**_CMP, **_LOGIC, **_MISC, **_ARITH}
_BOOLRES = set(_CMP) | set(_LOGIC) | {np.isfinite, np.isnan, np.isinf, np.signbit}
_FLOATRES = {np.sqrt, np.log, np.log10, np.exp, np.sin, np.cos, np.tan, np.arctan, np.true_divide, np.floor, np.arctan2, np.ceil, np.trunc, np.radians, np.degrees,
             np.deg2rad, np.rad2deg, np.log2, np.hypot}


def _res_ld(ufunc, ins, out):
    if ufunc in _BOOLRES:
        return BOOL
    lds = []
    for x in ins:
        if isinstance(x, np.ndarray):
            lds.append(x.dtype)
    try:
        dts = []
        for x in ins:
            if isinstance(x, np.ndarray):
                dts.append(np.empty(0, x.dtype) if x.ndim else np.zeros((), x.dtype))
            elif isinstance(x, np.generic):
                dts.append(x)
            elif isinstance(x, (SymBool, bool)):
                dts.append(True)
            elif isinstance(x, (SymInt, int)):
                dts.append(1)
            elif isinstance(x, (SymReal, SymF64, float)):
                dts.append(1.0)
            else:
                dts.append(x)
        if any(getattr(d, 'dtype', None) == OBJ for d in dts):
            return None
        kinds = [getattr(d, 'dtype', None) for d in dts]
        args = [d.dtype if isinstance(d, (np.ndarray, np.generic)) else type(d) for d in dts]
        return ufunc.resolve_dtypes(tuple(args) + (None,) * ufunc.nout)[-1]
    except Exception:
        return None


def array_ufunc(ufunc, method, inputs, out, kwargs):
    out = out[0] if isinstance(out, tuple) else out
    nat = [native(x) if type(x) is SymArray else (None if isinstance(x, Sym) or (isinstance(x, (list, tuple)) and _contains_symish(x)) else x) for x in inputs]
    where = kwargs.get('where', True)
    if all(n is not None for n in nat) and not has_sym(list(kwargs.values())):
        kw = {k: (native(v) if type(v) is SymArray else v) for k, v in kwargs.items()}
        if method == 'at':
            tgt = nat[0]
            getattr(ufunc, 'at')(*nat, **kw)
            setitem(inputs[0], Ellipsis, wrap(tgt))
            return None
        r = getattr(ufunc, method)(*nat, **kw)
        if out is not None:
            setitem(out, Ellipsis, wrap(r) if isinstance(r, np.ndarray) else r)
            return out
        return wrap(r) if isinstance(r, np.ndarray) else r
    op = SCALAR_OPS.get(ufunc)
    if op is None:
        if ufunc is np.matmul:
            return np_matmul(*inputs)
        if ufunc is np.divmod and method == '__call__':
            return np.floor_divide(*inputs), np.remainder(*inputs)
        if ufunc.__name__ == 'clip' and method == '__call__':
            return HANDLERS[np.clip](*inputs)
        raise Unsupported(f"ufunc {ufunc.__name__} on symbolic values")
    if method == '__call__':
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out=")
            r = array_ufunc(ufunc, method, inputs, None, {k: v for k, v in kwargs.items() if k != 'where'})
            out[...] = np.where(where, r, out)
            return out
        ins = []
        for x in inputs:
            if isinstance(x, (list, tuple)):
                x = arr(x)
            ins.append(x)
        ld = _res_ld(ufunc, ins, out)
        bs = []
        for x in ins:
            if type(x) is SymArray:
                bs.append(base(x))
            elif isinstance(x, np.ndarray):
                bs.append(x.astype(object))
            else:
                bs.append(_full0(pyval(x)))
        if len(bs) > 1:
            bs = np.broadcast_arrays(*bs)
        res = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*res.shape):
            res[i] = op(*[b[i] for b in bs])
        if ld is not None and ld.kind == 'f':
            for i in np.ndindex(*res.shape):
                if isinstance(res[i], SymInt) or isinstance(res[i], int):
                    res[i] = cast(res[i], ld)
        if 'dtype' in kwargs and kwargs['dtype'] is not None:
            return mk(res, ld).astype(kwargs['dtype'])
        if out is not None:
            if ld is not None and not np.can_cast(ld, out.dtype, 'same_kind'):
                raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', ld, out.dtype, 0)
            setitem(out, Ellipsis, mk(res, ld))
            return out
        if res.shape == ():
            return scal(res[()], ld if ld is not None else OBJ)
        return mk(res, ld)
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        init = kwargs.get('initial', np._NoValue)
        ident = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False}.get(ufunc, None)
        a = arr(inputs[0])
        if ufunc in _LOGIC:
            b = base(a)
            o = np.empty(b.shape, dtype=object)
            for i in np.ndindex(*b.shape):
                o[i] = _tb(b[i])
            a = mk(o, BOOL)
        r = reduce_with(a, op, axis, kwargs.get('keepdims', False), ident if init is np._NoValue else init)
        if out is not None:
            setitem(out, Ellipsis, r)
            return out
        return r
    if method == 'accumulate':
        a = arr(inputs[0])
        axis = kwargs.get('axis', 0)
        b = np.moveaxis(base(a), axis, 0).copy()
        for i in range(1, b.shape[0]):
            for q in np.ndindex(*b.shape[1:]):
                b[(i,) + q] = op(b[(i - 1,) + q], b[(i,) + q])
        return mk(np.moveaxis(b, 0, axis), a.dtype)
    if method == 'outer':
        x, y = arr(inputs[0]), arr(inputs[1])
        return array_ufunc(ufunc, '__call__', (x.reshape(x.shape + (1,) * y.ndim), y), out, kwargs)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        if isinstance(idx, tuple):
            ixs = np.broadcast_arrays(*[base(arr(k)) for k in idx])
            vals = np.broadcast_to(base(arr(inputs[2])), ixs[0].shape) if len(inputs) > 2 else None
            for q in np.ndindex(*ixs[0].shape):
                k = tuple(int(x[q]) for x in ixs)
                cur = getitem(a, k)
                setitem(a, k, op(cur, vals[q]) if vals is not None else op(cur))
            return None
        idx = arr(idx)
        vals = arr(inputs[2]) if len(inputs) > 2 else None
        if vals is not None:
            vals = mk(np.broadcast_to(base(vals), idx.shape + a.shape[1:]).copy(), vals.dtype)
        for q in np.ndindex(*idx.shape):
            k = base(idx)[q]
            if isinstance(k, np.bool_):
                raise Unsupported("ufunc.at with a mask")
            cur = getitem(a, k)
            new = op(cur, vals[q]) if vals is not None else op(cur)
            setitem(a, k, new)
        return None
    if method == 'reduceat':
        a, axis = arr(inputs[0]), kwargs.get('axis', 0)
        ix = [int(i) for i in base(arr(inputs[1])).ravel()]
        b = np.moveaxis(base(a), axis, 0)
        parts = []
        for j, i in enumerate(ix):
            e = ix[j + 1] if j + 1 < len(ix) else b.shape[0]
            parts.append(base(arr(reduce_with(mk(b[i:max(e, i + 1)].copy(), a.dtype), op, 0))))
        return mk(np.moveaxis(np.stack(parts), 0, axis), a.dtype)
    raise Unsupported(f"ufunc method {method}")


def reduce_with(a, op, axis=None, keepdims=False, identity=None):
    a = arr(a)
    b = base(a)
    ld = a.dtype
    if axis is None or isinstance(axis, tuple):
        axes = tuple(range(b.ndim)) if axis is None else tuple(x % b.ndim for x in axis)
    else:
        axes = (int(axis) % b.ndim,) if b.ndim else ()
    rest = [i for i in range(b.ndim) if i not in axes]
    bt = b.transpose(list(axes) + rest)
    n = 1
    for ax in axes:
        n *= b.shape[ax]
    bt = bt.reshape((n,) + tuple(b.shape[i] for i in rest))
    out = np.empty(bt.shape[1:], dtype=object)
    for q in np.ndindex(*out.shape):
        if n == 0:
            if identity is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = identity if ld.kind != 'f' else float(identity)
        else:
            acc = bt[(0,) + q]
            for i in range(1, n):
                acc = op(acc, bt[(i,) + q])
        out[q] = acc
    rld = infer_ld(out) if ld.kind == 'b' or ld.kind == 'O' else ld
    if ld.kind == 'b' and out.size and all(isinstance(x, (int,)) and not isinstance(x, bool) for x in out.ravel()):
        rld = I64
    if keepdims:
        shp = tuple(1 if i in axes else b.shape[i] for i in range(b.ndim))
        return mk(out.reshape(shp), rld)
    if out.shape == ():
        return scal(out[()], rld)
    return mk(out, rld)


# ---------------------------------------------------------------------- numpy functions
HANDLERS = {}


_PASSIVE = {'kind', 'order', 'like', 'subok', 'stable', 'casting', 'copy', 'requirements'}


def handles(*funcs, reduction=None):
    """registers the meaning of numpy functions; out=, initial= and where= are given their meaning here for all of them,
    and a keyword which the function does not know is an encoding gap, never ignored"""

    def deco(f):
        import inspect

        ps = inspect.signature(f).parameters
        names = {n for n, p in ps.items() if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}
        swallow = any(p.kind == p.VAR_KEYWORD for p in ps.values())

        def g(*args, **kw):
            kw = {k: v for k, v in kw.items() if v is not np._NoValue}
            out = kw.pop('out', None)
            if isinstance(out, tuple):
                out = out[0] if out else None
            if reduction is not None and ('where' in kw or 'initial' in kw):
                where, initial = kw.pop('where', True), kw.pop('initial', None)
                ident, op = reduction
                a = args[0]
                if where is not True:
                    fill = ident if ident is not None else initial
                    if fill is None:
                        raise Unsupported('where= in a reduction without identity')
                    a = np.where(where, arr(a), fill)
                if initial is not None and arr(a).size == 0 and ident is None:
                    if kw.get('axis') is not None or len(args) > 1:
                        raise Unsupported('initial= of an empty reduction along an axis')
                    return initial
                r = f(a, *args[1:], **kw)
                if initial is not None:
                    r = op(r, initial)
            else:
                if swallow:
                    odd = [k for k, v in kw.items() if k not in names and k not in _PASSIVE and v is not None]
                    if odd:
                        raise Unsupported(f'keyword {odd[0]} of numpy.{funcs[0].__name__ if funcs else f.__name__}')
                r = f(*args, **kw)
            if out is not None:
                out[...] = r
                return out
            return r

        for x in funcs:
            HANDLERS[x] = g
        return g

    return deco


def _nat(*xs):
    r = []
    for x in xs:
        if type(x) is SymArray:
            x = native(x)
            if x is None:
                return None
        elif isinstance(x, Sym) or (isinstance(x, (list, tuple)) and has_sym(x)):
            return None
        elif isinstance(x, (list, tuple)) and _contains_symish(x):
            x = type(x)(native(e) if type(e) is SymArray else e for e in x)
        r.append(x)
    return r


@handles(np.sum, reduction=(0, lambda x, y: x + y))
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    a = arr(a)
    if dtype is not None:
        a = a.astype(dtype)
    elif a.dtype.kind == 'b' or (a.dtype.kind == 'i' and a.dtype.itemsize < 8):
        a = a.astype(I64)
    r = reduce_with(a, lambda x, y: x + y, axis, keepdims is True, 0)
    return r


@handles(np.mean)
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = arr(a)
    if dtype is not None:
        a = a.astype(dtype)
    if axis is None:
        n = a.size
    else:
        n = int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    s = np_sum(a, axis=axis, keepdims=keepdims)
    return s / n if not isinstance(s, np.ndarray) else np.true_divide(s, float(n))


@handles(np.average)
def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return np_mean(a, axis)
    w = arr(weights)
    if axis is not None and w.ndim != arr(a).ndim:
        if w.ndim != 1 or isinstance(axis, tuple):
            raise Unsupported("average with broadcast weights")
        w = np.broadcast_to(w.reshape((-1,) + (1,) * (arr(a).ndim - 1 - axis % arr(a).ndim)), arr(a).shape)
    return np_sum(arr(a) * w, axis=axis) / np_sum(w, axis=axis)


@handles(np.var)
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = arr(a)
    if dtype is not None:
        a = a.astype(dtype)
    m = np_mean(a, axis=axis, keepdims=True) if axis is not None else np_mean(a)
    d = a - m
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    return np_sum(d * d, axis=axis, keepdims=keepdims) / (n - ddof)


@handles(np.std)
def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    v = np_var(a, axis=axis, dtype=dtype, ddof=ddof, keepdims=keepdims)
    return np.sqrt(v) if isinstance(v, np.ndarray) else _fsqrt(v)


@handles(np.all, reduction=(True, None))
def np_all(a, axis=None, out=None, keepdims=False):
    a = arr(a)
    if axis is None:
        r = sand(*[_tb(x) for x in base(a).ravel()])
        return np.bool_(r) if conc(r) else r
    return reduce_with(_boolarr(a), lambda x, y: sand(x, y), axis, keepdims is True, True)


@handles(np.any, reduction=(False, None))
def np_any(a, axis=None, out=None, keepdims=False):
    a = arr(a)
    if axis is None:
        r = sor(*[_tb(x) for x in base(a).ravel()])
        return np.bool_(r) if conc(r) else r
    return reduce_with(_boolarr(a), lambda x, y: sor(x, y), axis, keepdims is True, False)


def _boolarr(a):
    o = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(base(a)):
        o[i] = _tb(x)
    return mk(o, BOOL)


def _given_first(a, axis):
    """the same numbers for a reduction which does not depend on their order, symbolic ones last"""
    if a.ndim != 1 and axis is not None or a.size < 8:
        return a
    v = list(base(a).ravel())
    sym = [x for x in v if isinstance(x, Sym)]
    if not 0 < len(sym) < len(v) or any(x != x for x in v if not isinstance(x, Sym)):
        return a
    o = np.empty(a.shape, dtype=object)
    o.reshape(-1)[:] = [x for x in v if not isinstance(x, Sym)] + sym
    return mk(o, a.dtype)


@handles(np.max, np.amax, reduction=(None, lambda x, y: np.maximum(x, y)))
def np_max(a, axis=None, out=None, keepdims=False):
    return reduce_with(_given_first(arr(a), axis), V.smax, axis, keepdims is True)


@handles(np.min, np.amin, reduction=(None, lambda x, y: np.minimum(x, y)))
def np_min(a, axis=None, out=None, keepdims=False):
    return reduce_with(_given_first(arr(a), axis), V.smin, axis, keepdims is True)


@handles(np.cumsum)
def np_cumsum(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if dtype is not None:
        a = a.astype(dtype)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(base(a), axis, 0).copy()
    for i in range(1, b.shape[0]):
        for q in np.ndindex(*b.shape[1:]):
            b[(i,) + q] = b[(i - 1,) + q] + b[(i,) + q]
    ld = I64 if a.dtype.kind in 'bi' else a.dtype
    return mk(np.moveaxis(b, 0, axis), ld)


def _arg(a, better):
    best, bi = None, None
    for i, x in enumerate(base(a).ravel()):
        if best is None:
            best, bi = x, i
        else:
            c = better(x, best)
            best, bi = ite(c, x, best), ite(c, i, bi)
    if best is None:
        raise ValueError("attempt to get argmax of an empty sequence")
    return bi


@handles(np.argmax)
def np_argmax(a, axis=None, out=None, keepdims=False):
    return np_argext(a, lambda x, y: x > y, axis, keepdims)


@handles(np.argmin)
def np_argmin(a, axis=None, out=None, keepdims=False):
    return np_argext(a, lambda x, y: x < y, axis, keepdims)


def np_argext(a, better, axis, keepdims=False):
    a = arr(a)
    if keepdims:
        r = np_argext(a, better, axis)
        return np.expand_dims(r, axis) if axis is not None else mk(_full0(r).reshape((1,) * a.ndim), I64)
    if axis is None:
        return _arg(a, better)
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for q in np.ndindex(*out.shape):
        out[q] = _arg(mk(b[q], a.dtype), better)
    return mk(out, I64)


def _forksort(vals, less):
    """stable insertion order of indices by forking comparisons"""
    import functools

    idx = list(range(len(vals)))

    def cmp(i, j):
        if less(vals[i], vals[j]):
            return -1
        if less(vals[j], vals[i]):
            return 1
        return 0

    return sorted(idx, key=functools.cmp_to_key(cmp))


@handles(np.argsort)
def np_argsort(a, axis=-1, kind=None, order=None, **k):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for q in np.ndindex(*b.shape[:-1]):
        out[q] = np.array(_forksort(list(b[q]), lambda x, y: bool(x < y)), dtype=object)
    return mk(np.moveaxis(out, -1, axis), I64)


@handles(np.lexsort)
def np_lexsort(keys, axis=-1):
    ks = [list(base(arr(k))) for k in keys][::-1]

    def less(i, j):
        for k in ks:
            if bool(k[i] < k[j]):
                return True
            if bool(k[j] < k[i]):
                return False
        return False

    return mk(np.array(_forksort(list(range(len(ks[0]))), less), dtype=object), I64)


@handles(np.sort)
def np_sort(a, axis=-1, kind=None, order=None, **k):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for q in np.ndindex(*b.shape[:-1]):
        s = V.ssort(list(b[q]))
        for i, x in enumerate(s):
            out[q + (i,)] = x
    return mk(np.moveaxis(out, -1, axis), a.dtype)


@handles(np.unique)
def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, sorted=True):
    a = arr(a)
    if axis is not None:
        return _unique_axis(a, return_index, return_inverse, return_counts, axis)
    flat = list(base(a).ravel())
    if return_index or return_inverse:
        order = _forksort(flat, lambda x, y: bool(x < y))
        s = [flat[i] for i in order]
    else:
        order = None
        s = V.ssort(flat)
    uniq, counts, first, inv = [], [], [], [0] * len(flat)
    for pos, x in enumerate(s):
        if pos and bool(x == s[pos - 1]):
            counts[-1] += 1
        else:
            uniq.append(x)
            counts.append(1)
            if order is not None:
                first.append(order[pos])
        if order is not None:
            inv[order[pos]] = len(uniq) - 1
    r = [mk(_objlist(uniq), a.dtype)]
    if return_index:
        r.append(mk(_objlist(first), I64))
    if return_inverse:
        r.append(mk(_objlist(inv).reshape(a.shape), I64))
    if return_counts:
        r.append(mk(_objlist(counts), I64))
    return r[0] if len(r) == 1 else tuple(r)


def _unique_axis(a, return_index, return_inverse, return_counts, axis):
    b = np.moveaxis(base(a), axis, 0)
    rows = [list(b[i].ravel()) for i in range(b.shape[0])]

    def less(x, y):
        for p, q in zip(x, y):
            if bool(p < q):
                return True
            if bool(q < p):
                return False
        return False

    order = _forksort(rows, less)
    uniq, counts, first, inv = [], [], [], [0] * len(rows)
    for pos, i in enumerate(order):
        if pos and all(bool(p == q) for p, q in zip(rows[i], rows[order[pos - 1]])):
            counts[-1] += 1
        else:
            uniq.append(i)
            counts.append(1)
            first.append(i)
        inv[i] = len(uniq) - 1
    u = np.moveaxis(b[uniq], 0, axis) if uniq else b[:0]
    r = [mk(u, a.dtype)]
    if return_index:
        r.append(mk(_objlist(first), I64))
    if return_inverse:
        r.append(mk(_objlist(inv), I64))
    if return_counts:
        r.append(mk(_objlist(counts), I64))
    return r[0] if len(r) == 1 else tuple(r)


def _objlist(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


@handles(np.where)
def np_where(cond, *xy):
    c = arr(cond)
    if not xy:
        return tuple(wrap(i) for i in np.nonzero(concrete_mask(c)))
    x, y = (arr(v) for v in xy)
    ld = np.result_type(x.dtype, y.dtype) if OBJ not in (x.dtype, y.dtype) else OBJ
    cb, xb, yb = np.broadcast_arrays(base(c), base(x), base(y))
    out = np.empty(cb.shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = cast(ite(_tb(cb[i]), xb[i], yb[i]), ld)
    return mk(out, ld)


@handles(np.argwhere)
def np_argwhere(a):
    return wrap(np.argwhere(concrete_mask(arr(a))))


@handles(np.nonzero)
def np_nonzero(a):
    return tuple(wrap(i) for i in np.nonzero(concrete_mask(arr(a))))


@handles(np.flatnonzero)
def np_flatnonzero(a):
    return wrap(np.flatnonzero(concrete_mask(arr(a))))


@handles(np.count_nonzero)
def np_count_nonzero(a, axis=None, keepdims=False):
    a = _boolarr(arr(a))
    o = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(base(a)):
        o[i] = x._asint() if isinstance(x, SymBool) else int(x)
    return np_sum(mk(o, I64), axis=axis)


@handles(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol))


@handles(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = arr(a), arr(b)
    ab, bb = np.broadcast_arrays(base(a), base(b))
    out = np.empty(ab.shape, dtype=object)
    for i in np.ndindex(*out.shape):
        x, y = ab[i], bb[i]
        if isinstance(x, SymF64) or isinstance(y, SymF64):
            # NaN is close to nothing, infinities to themselves
            out[i] = sor(x == y, sand(abs(x) < math.inf, abs(y) < math.inf, abs(x - y) <= (atol + rtol * abs(y))))
            continue
        out[i] = abs(x - y) <= (atol + rtol * abs(y))
    return mk(out, BOOL)


@handles(np.array_equal)
def np_array_equal(a, b, equal_nan=False):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return np_all(a == b)


@handles(np.isin)
def np_isin(e, t, assume_unique=False, invert=False, kind=None):
    e, t = arr(e), arr(t)
    out = np.empty(e.shape, dtype=object)
    for i, x in np.ndenumerate(base(e)):
        r = sor(*[x == y for y in base(t).ravel()])
        out[i] = snot(r) if invert else r
    return mk(out, BOOL)


@handles(np.diff)
def np_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = arr(a)
    if prepend is not np._NoValue:
        a = np.concatenate((np.atleast_1d(arr(prepend)), a), axis=axis)
    if append is not np._NoValue:
        a = np.concatenate((a, np.atleast_1d(arr(append))), axis=axis)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@handles(np.take)
def np_take(a, indices, axis=None, out=None, mode='raise'):
    if mode != 'raise':
        raise Unsupported('take with mode=')
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    key = (slice(None),) * (axis % a.ndim) + (indices if isinstance(indices, (Sym, int, np.integer)) else arr(indices),)
    return a[key]


@handles(np.take_along_axis)
def np_take_along_axis(a, indices, axis=-1):
    a, ix = arr(a), arr(indices)
    b = np.moveaxis(base(a), axis, -1)
    q = np.moveaxis(base(ix), axis, -1)
    out = np.empty(q.shape, dtype=object)
    for p in np.ndindex(*q.shape):
        row = mk(b[p[:-1]], a.dtype)
        out[p] = getitem(row, q[p])
    return mk(np.moveaxis(out, -1, axis), a.dtype)


@handles(np.full_like)
def np_full_like(a, v, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return np_full(a.shape if shape is None else shape, v, dtype if dtype is not None else a.dtype)


@handles(np.zeros_like)
def np_zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return wrap(np.zeros(a.shape if shape is None else shape, dtype=dtype if dtype is not None else a.dtype))


@handles(np.ones_like)
def np_ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return wrap(np.ones(a.shape if shape is None else shape, dtype=dtype if dtype is not None else a.dtype))


@handles(np.empty_like)
def np_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = arr(a)
    return np_empty(a.shape if shape is None else shape, dtype if dtype is not None else a.dtype)


def np_full(shape, fill_value, dtype=None, order='C', **k):
    shape = ints(shape)
    if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
        r = np_empty(shape, dtype if dtype is not None else arr(fill_value).dtype)
        r[...] = fill_value
        return r
    if conc(fill_value):
        return wrap(np.full(shape, fill_value, dtype))
    o = np.empty(shape, dtype=object)
    ld = np.dtype(dtype) if dtype is not None else elem_ld(fill_value)
    v = cast(fill_value, ld)
    for i in np.ndindex(*o.shape):
        o[i] = v
    return mk(o, ld)


POISON = 0xDEAD


def np_empty(shape, dtype=float, order='C', **k):
    # contents of np.empty are arbitrary: a recognisable garbage value
    ld = np.dtype(dtype if dtype is not None else float)
    shape = ints(shape)
    if ld.kind in 'iu':
        return wrap(np.full(shape, 77 if ld.itemsize == 1 else 13579 , dtype=ld))
    if ld.kind == 'f':
        return wrap(np.full(shape, 9.87654321e99 if ld.itemsize == 8 else 9.8e30, dtype=ld))
    return wrap(np.empty(shape, dtype=ld))


def ints(x):
    if isinstance(x, (list, tuple)):
        return tuple(int(e) for e in x)
    if type(x) is SymArray:
        return tuple(int(e) for e in base(x).ravel()) if x.ndim else int(x)
    return int(x) if isinstance(x, Sym) else x


@handles(np.matmul)
def np_matmul(a, b, *r, **k):
    a, b = arr(a), arr(b)
    A, B = base(a), base(b)
    sa = sb = False
    if A.ndim == 1:
        A, sa = A.reshape(1, -1), True
    if B.ndim == 1:
        B, sb = B.reshape(-1, 1), True
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported("matmul of stacked matrices")
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul: mismatch in core dimension")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = A[i, 0] * B[0, j] if A.shape[1] else 0
            for q in range(1, A.shape[1]):
                s = s + A[i, q] * B[q, j]
            out[i, j] = s
    ld = np.result_type(a.dtype, b.dtype)
    if sa:
        out = out[0]
    if sb:
        out = out[..., 0]
    return mk(out, ld) if isinstance(out, np.ndarray) else scal(out, ld)


@handles(np.dot)
def np_dot(a, b, out=None):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return np_matmul(a, b)


@handles(np.cross)
def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = arr(a), arr(b)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    return np.stack([arr(a1 * b2 - a2 * b1), arr(a2 * b0 - a0 * b2), arr(a0 * b1 - a1 * b0)], axis=-1)


@handles(np.linalg.norm)
def np_norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    s = np_sum(x * x, axis=axis, keepdims=keepdims)
    return np.sqrt(s) if isinstance(s, np.ndarray) else _fsqrt(s)


@handles(np.array)
def np_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    x = resolve(x)
    if isinstance(x, np.ndarray):
        r = wrap(x)
        if type(r) is SymArray and (copy or order in ('C', 'F')):
            r = mk((np.array if copy else np.asarray)(base(r), order=order or 'K'), r.dtype)
        elif order in ('C', 'F'):
            r = np.asarray(r, order=order)
        if dtype is not None and type(r) is SymArray:
            r = r.astype(dtype)
    else:
        if isinstance(x, (range, map, filter, zip, types.GeneratorType)) and not isinstance(x, types.GeneratorType):
            x = list(x) if isinstance(x, range) else x
        o = to_obj(x)
        if o is None:
            r = wrap(np.array(x, dtype=dtype))
        else:
            lds = _leafld(x)
            if dtype is None and lds.kind == 'f':
                dtype = lds
            r = mk(o.copy(), lds)
            if dtype is not None:
                r = r.astype(dtype)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _leafld(x):
    if type(x) is SymArray or isinstance(x, np.ndarray):
        return x.dtype
    if isinstance(x, (list, tuple)):
        r = None
        for e in x:
            d = _leafld(e)
            if d is None:
                continue
            if r is None or r == d:
                r = d
            elif OBJ in (r, d):
                r = OBJ
            else:
                r = np.result_type(r, d)
        return r
    return elem_ld(x)


@handles(np.asarray, np.asanyarray)
def np_asarray(x, dtype=None, order=None, copy=None, **k):
    x = resolve(x)
    if type(x) is SymArray:
        if order in ('C', 'F'):
            x = mk(np.asarray(base(x), order=order), x.dtype)
        if dtype is None or x.dtype == np.dtype(dtype):
            return x
        return x.astype(dtype)
    return np_array(x, dtype=dtype, order=order or 'K')


@handles(np.ascontiguousarray)
def np_ascontiguousarray(a, dtype=None, like=None):
    r = np_asarray(a, dtype, order='C')
    return r.reshape(1) if r.ndim == 0 else r


@handles(np.asfortranarray)
def np_asfortranarray(a, dtype=None, like=None):
    r = np_asarray(a, dtype, order='F')
    return r.reshape(1) if r.ndim == 0 else r


@handles(np.frombuffer)
def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    ld = np.dtype(dtype)
    cells = bytesx.cells_of(buf)[offset:]
    n = ld.itemsize
    if count == -1:
        if len(cells) % n:
            raise ValueError("buffer size must be a multiple of element size")
        count = len(cells) // n
    if len(cells) < count * n:
        raise ValueError("buffer is smaller than requested size")
    out = np.empty(count, dtype=object)
    little = ld.byteorder != '>'
    for i in range(count):
        out[i] = cells_val(cells[i * n:(i + 1) * n], ld, little)
    return mk(out, ld)


def val_cells(x, ld, little):
    if ld.kind in 'iub':
        return bytesx.int_to_cells(x if not isinstance(x, (bool, np.bool_)) else int(x), ld.itemsize, ld.kind == 'i', little)
    if ld.kind == 'f' and ld.itemsize in (4, 8):
        return bytesx.float_to_cells(x, ld.itemsize, little)
    raise Unsupported(f"bytes of {ld}")


def cells_val(cells, ld, little):
    if ld.kind in 'iu':
        return bytesx.cells_to_int(cells, ld.kind == 'i', little)
    if ld.kind == 'f' and ld.itemsize in (4, 8):
        return bytesx.cells_to_float(cells, little)
    if ld.kind == 'S':
        b = bytesx.SymBytes.make(cells)
        return b.rstrip(b'\0')
    raise Unsupported(f"array of {ld} from bytes")


def np_fromfile(file, dtype=float, count=-1, sep='', offset=0, **k):
    if sep:
        raise Unsupported("text fromfile")
    from . import vfs

    ld = np.dtype(dtype)
    f = file
    close = False
    if not hasattr(file, 'read'):
        f = vfs.sym_open(file, 'rb')
        close = True
    f.seek(offset, 1)
    data = f.read(-1 if count == -1 else count * ld.itemsize)
    if close:
        f.close()
    cells = bytesx.cells_of(data)
    cells = cells[: len(cells) // ld.itemsize * ld.itemsize]
    return frombuffer(bytesx.SymBytes.make(cells), ld)


@handles(np.bincount)
def np_bincount(x, weights=None, minlength=0):
    x = arr(x)
    n = max([int(minlength)] + [int(v) + 1 for v in [np_max(x)]]) if x.size else int(minlength)
    out = [0] * n
    w = list(base(arr(weights)).ravel()) if weights is not None else [1] * x.size
    for v, ww in zip(base(x).ravel(), w):
        for j in range(n):
            c = v == j
            out[j] = out[j] + ite(c, ww, 0)
    return mk(_objlist(out), I64 if weights is None else F64)


@handles(np.searchsorted)
def np_searchsorted(a, v, side='left', sorter=None):
    a = arr(a)
    if sorter is not None:
        a = a[arr(sorter)]
    vs = arr(v)
    out = np.empty(vs.shape, dtype=object)
    for i in np.ndindex(*vs.shape):
        x = base(vs)[i]
        c = 0
        for y in base(a):
            t = (y < x) if side == 'left' else (y <= x)
            c = c + ite(t, 1, 0)
        out[i] = c
    return scal(out[()], I64) if out.shape == () else mk(out, I64)


@handles(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    r = a
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@handles(np.prod, reduction=(1, lambda x, y: x * y))
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False):
    a = arr(a)
    if dtype is not None:
        a = a.astype(dtype)
    elif a.dtype.kind == 'b':
        a = a.astype(I64)
    return reduce_with(a, lambda x, y: x * y, axis, keepdims is True, 1)


@handles(np.intersect1d)
def np_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported("intersect1d indices")
    ua, ub = np_unique(a), np_unique(b)
    keep = [x for x in base(ua) if bool(sor(*[x == y for y in base(ub)]))]
    return mk(_objlist(keep), ua.dtype)


@handles(np.setdiff1d)
def np_setdiff1d(a, b, assume_unique=False):
    ua = np_unique(a)
    keep = [x for x in base(ua) if not bool(sor(*[x == y for y in base(arr(b)).ravel()]))]
    return mk(_objlist(keep), ua.dtype)


@handles(np.union1d)
def np_union1d(a, b):
    return np_unique(np.concatenate((arr(a).reshape(-1), arr(b).reshape(-1))))


@handles(np.linalg.inv)
def np_inv(a):
    raise Unsupported("matrix inverse of symbolic values")


@handles(np.linalg.solve)
def np_solve(a, b):
    if native(arr(a)) is None:
        raise Unsupported("linear system of symbolic values")
    return np_matmul(wrap(np.linalg.inv(native(arr(a)))), b)


@handles(np.outer)
def np_outer(a, b, out=None):
    return arr(a).reshape(-1, 1) * arr(b).reshape(1, -1)


@handles(np.inner)
def np_inner(a, b):
    a, b = arr(a), arr(b)
    return a * b if a.ndim == 0 or b.ndim == 0 else np_matmul(a, b.T if b.ndim > 1 else b)


@handles(np.vdot)
def np_vdot(a, b):
    return np_matmul(arr(a).reshape(-1), arr(b).reshape(-1))


@handles(np.polyval)
def np_polyval(p, x):
    y = 0
    for v in arr(p):
        y = y * x + v
    return y


@handles(np.vander)
def np_vander(x, N=None, increasing=False):
    x = arr(x)
    n = len(x) if N is None else N
    cols = [x * 0 + 1]
    for _ in range(1, n):
        cols.append(cols[-1] * x)
    return np.stack(cols[:n] if increasing else cols[:n][::-1], axis=1)


def _objcall(func):
    """numpy functions whose implementation works on arrays of Python objects"""

    @handles(func)
    def f(*args, **kwargs):
        def o(a):
            if isinstance(a, (list, tuple)):
                return type(a)(o(e) for e in a) if any(isinstance(e, np.ndarray) for e in a) else (base(arr(a)) if _contains_symish(a) else a)
            return base(a) if isinstance(a, np.ndarray) else _full0(a) if isinstance(a, Sym) else a

        r = func(*[o(a) for a in args], **{k: v for k, v in kwargs.items() if k not in ('optimize', 'out')})
        if isinstance(r, np.ndarray) and r.dtype == object:
            return mk(r, infer_ld(r))
        return wrap(r)

    return f


for _f in (np.einsum, np.tensordot, np.kron, np.trace):
    _objcall(_f)


@handles(np.linalg.multi_dot)
def np_multi_dot(arrays, *, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = np_dot(r, a)
    return r


_STRUCTURAL = {
    np.concatenate, np.stack, np.hstack, np.vstack, np.column_stack, np.dstack, np.tile, np.repeat, np.reshape, np.ravel,
    np.transpose, np.roll, np.flip, np.fliplr, np.flipud, np.moveaxis, np.swapaxes, np.atleast_1d, np.atleast_2d,
    np.expand_dims, np.squeeze, np.split, np.array_split, np.hsplit, np.vsplit, np.append, np.delete, np.insert, np.copy,
    np.broadcast_to, np.broadcast_arrays, np.resize, np.rot90, np.block, np.meshgrid, np.compress, np.extract,
    np.diagonal, np.diag,
}


def _deep_nat(x):
    if type(x) is SymArray:
        n = native(x)
        if n is None:
            raise KeyError
        return n
    if isinstance(x, Sym):
        raise KeyError
    if isinstance(x, tuple):
        return tuple(_deep_nat(e) for e in x)
    if isinstance(x, list):
        return [_deep_nat(e) for e in x]
    if isinstance(x, dict):
        return {k: _deep_nat(v) for k, v in x.items()}
    return x


def _collect(x, out):
    if type(x) is SymArray or isinstance(x, np.ndarray):
        out.append(x.dtype)
    elif isinstance(x, (list, tuple)):
        for e in x:
            _collect(e, out)
    elif isinstance(x, Sym):
        out.append(elem_ld(x))
    elif isinstance(x, (int, float, np.generic)):
        pass
    return out


def _deep_obj(x):
    if type(x) is SymArray:
        return base(x)
    if isinstance(x, tuple):
        return tuple(_deep_obj(e) for e in x)
    if isinstance(x, list):
        return [_deep_obj(e) for e in x]
    return x


def array_function(func, args, kwargs):
    try:
        nargs = _deep_nat(tuple(args))
        nkw = _deep_nat(kwargs)
    except KeyError:
        nargs = None
    if nargs is not None:
        if func in (np.array, np.asarray):
            return HANDLERS[func](*args, **kwargs)
        out = kwargs.get('out')
        if out is not None:
            nkw.pop('out')
            out[...] = wrap(func(*nargs, **nkw))
            return out
        return wrap(func(*nargs, **nkw))
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in _STRUCTURAL:
        if func in (np.hstack, np.concatenate, np.append) and isinstance(args[0], (list, tuple)) and any(isinstance(e, (Sym, int, float)) for e in args[0]) and (
                func is np.hstack) and not all(isinstance(e, (Sym, int, float)) for e in args[0]):
            args = ([arr([e]) if isinstance(e, (Sym, int, float)) else e for e in args[0]],) + tuple(args[1:])
        if func is np.repeat and len(args) > 1 and has_sym(args[1]):
            args = (args[0], _concretise_idx(arr(args[1]))) + tuple(args[2:])
        if func in (np.delete, np.insert) and has_sym(args[1]):
            args = (args[0], _concretise_idx(arr(args[1]))) + tuple(args[2:])
        if func in (np.compress, np.extract):
            args = (concrete_mask(arr(args[0])),) + tuple(args[1:])
        src = args if func not in (np.tile, np.repeat, np.reshape, np.roll, np.delete) else args[:1]
        lds = _collect(src, [])
        lds = [d for d in lds]
        r = func(*_deep_obj(tuple(_objify(a) for a in args)), **kwargs)
        ld = None
        if lds:
            ld = lds[0] if all(d == lds[0] for d in lds) else (OBJ if OBJ in lds else np.result_type(*lds))

        def w(x):
            if isinstance(x, np.ndarray):
                x = np.asarray(x)
                if x.dtype != object:
                    return wrap(x)
                if ld is not None and not all(d == ld for d in lds):
                    y = np.empty(x.shape, dtype=object)
                    for i in np.ndindex(*x.shape):
                        y[i] = cast(x[i], ld)
                    x = y
                return mk(x, ld)
            if isinstance(x, (list, tuple)):
                return type(x)(w(e) for e in x)
            return x

        return w(r)
    raise Unsupported(f"numpy.{func.__name__} on symbolic values")


def _objify(a):
    """lists/tuples holding symbolic scalars -> object arrays (keeps sequences of arrays)"""
    if isinstance(a, (list, tuple)) and _contains_symish(a):
        if all(isinstance(e, np.ndarray) or isinstance(e, (list, tuple)) for e in a):
            return type(a)(_objify(e) if not isinstance(e, np.ndarray) else e for e in a) if any(
                isinstance(e, np.ndarray) or _contains_symish(e) for e in a) else a
        return _stack(a)
    if isinstance(a, Sym):
        return _full0(a)
    return a


# ---------------------------------------------------------------------------------- facade
class NPType:
    pass


def _dtype_ctor(t):
    """np.int32(x) etc. accepting symbolic scalars; isinstance/dtype uses keep working"""

    class Meta(type(t)):
        def __call__(cls, *a, **k):
            if a and isinstance(a[0], Sym):
                return cast(a[0], np.dtype(t))
            if a and type(a[0]) is SymArray:
                return a[0].astype(t)
            return t(*a, **k)

        def __instancecheck__(cls, o):
            return isinstance(o, t)

        def __eq__(cls, o):
            return o is cls or o is t

        def __hash__(cls):
            return hash(t)

    return t


class NumpyFacade(types.ModuleType):
    """module object standing for numpy inside the symbolically executed source"""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self._cache
        if name not in c:
            c[name] = self._make(name)
        return c[name]

    def _make(self, name):
        real = getattr(np, name)
        if name in ('zeros', 'ones', 'arange', 'linspace', 'eye', 'identity', 'fromiter', 'logspace', 'tri'):
            def creator(*a, **k):
                if name == 'fromiter':
                    a = (list(a[0]),) + a[1:]
                    return np_array(a[0], dtype=a[1] if len(a) > 1 else k.get('dtype'))
                if name == 'linspace' and has_sym(list(a[:2])):
                    return sym_linspace(*a, **k)
                if name == 'arange' and has_sym(list(a)):
                    if any(isinstance(x, (SymReal, SymF64)) for x in a):
                        raise Unsupported("arange of symbolic reals")
                    return sym_arange(*a, **k)
                a = tuple(ints(x) if (i == 0 and name in ('zeros', 'ones')) else (int(x) if isinstance(x, Sym) else _npv(x)) for i, x in enumerate(a))
                k = {kk: (ints(v) if kk == 'shape' else _npv(v)) for kk, v in k.items()}
                return wrap(real(*a, **k))

            creator.__name__ = name
            return creator
        if name == 'empty':
            return np_empty
        if name == 'full':
            return np_full
        if name in ('vectorize', 'frompyfunc'):
            return vectorize
        if name == 'fromfile':
            return np_fromfile
        if name in ('genfromtxt', 'loadtxt'):
            return text_table(real)
        if name == 'frombuffer':
            return frombuffer
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'copy'):
            return HANDLERS[real] if name[:2] == 'as' else np_array
        if name == 'array_equal':
            return np_array_equal
        if isinstance(real, np.ufunc):
            return UfuncFacade(real)
        if name == 'linalg':
            return SubFacade(real)
        if name == 'fft':
            from . import cplx

            m = SubFacade(real)
            m.fftfreq, m.rfftfreq = cplx.freq_facade('fftfreq'), cplx.freq_facade('rfftfreq')
            return m
        if isinstance(real, types.ModuleType):
            return real
        if isinstance(real, type):
            if issubclass(real, np.generic) and name in ('int32', 'int64', 'float64', 'float32', 'int_', 'uint8', 'int8', 'int16', 'uint32', 'uint64', 'bool_', 'intp'):
                return TypeFacade(real)
            return real
        if name == 'set_printoptions' or name == 'printoptions' or name == 'errstate':
            return real
        if callable(real):
            return func_facade(real)
        return real


def vectorize(f, *a, otypes=None, **k):
    """numpy.vectorize / frompyfunc: one call per element"""
    if any(k.get(n) is not None for n in ('signature', 'excluded')):
        raise Unsupported("vectorize options")

    def g(*x, **kw):
        bs = np.broadcast_arrays(*[base(arr(e)) if not isinstance(e, Sym) else _full0(e) for e in x])
        res = [f(*[b[q] for b in bs], **kw) for q in np.ndindex(*bs[0].shape)]
        if res and isinstance(res[0], tuple):
            return tuple(_shaped([r[i] for r in res], bs[0].shape) for i in range(len(res[0])))
        return _shaped(res, bs[0].shape)

    def _shaped(res, shape):
        r = np_array(res)
        if otypes:
            r = r.astype(otypes[0] if isinstance(otypes, (list, tuple)) else otypes)
        return r.reshape(shape) if shape else r[0]

    return g


def text_table(real):
    """numpy.genfromtxt / loadtxt on the simulated files"""

    def f(fname, dtype=float, comments='#', delimiter=None, skip_header=0, skiprows=0, usecols=None, unpack=False, ndmin=0, max_rows=None, **k):
        from . import vfs
        from .values import SymStr

        if k or comments != '#':
            raise Unsupported(f"numpy.{real.__name__} options")
        if isinstance(fname, (list, tuple)) or hasattr(fname, 'read') or hasattr(fname, 'readlines'):
            lines = list(fname)
        else:
            try:
                with vfs.sym_open(fname) as h:
                    lines = h.readlines()
            except FileNotFoundError as e:
                raise FileNotFoundError(f"{fname} not found.") from e
        rows = []
        for line in lines:
            if isinstance(line, str):
                line = line.split('#')[0].rstrip('\n')
                toks = line.split(delimiter)
                if not line.strip():
                    continue
            else:
                toks = line.split(None if delimiter == ' ' else delimiter)
            rows.append(toks)
        rows = rows[skip_header or skiprows:][:max_rows]
        if not rows:
            return wrap(np.empty((0,)))
        if len({len(r) for r in rows}) > 1:
            raise ValueError("Some errors were detected: inconsistent number of columns")

        def val(t):
            if isinstance(t, SymStr):
                return cast(t.num, np.dtype(float)) if not isinstance(t.num, (float,)) else t.num
            try:
                return float(t)
            except ValueError:
                if real is np.loadtxt:
                    raise
                return math.nan

        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, t in enumerate(r):
                a[i, j] = val(t)
        a = mk(a, np.dtype(float))
        if usecols is not None:
            a = a[:, [int(c) for c in (usecols if isinstance(usecols, (list, tuple, range)) else [usecols])]]
        if np.dtype(dtype) != np.dtype(float):
            a = a.astype(dtype)
        if ndmin < 2:
            a = np.squeeze(a)
            if ndmin == 1 and a.ndim == 0:
                a = a.reshape(1)
        return a.T if unpack else a

    f.__name__ = real.__name__
    return f


def _npv(x):
    n = native(x) if type(x) is SymArray else x
    if n is None:
        raise Unsupported("symbolic argument of an array constructor")
    return n


def range_values(*a):
    """values of a range with symbolic bounds; forks on the number of values"""
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
    step = int(step)
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")
    n = stop - start if step > 0 else start - stop
    n = max(0, -(-int(n) // abs(step)))
    return [start + i * step for i in range(n)]


def sym_arange(*a, dtype=None, **k):
    return np_array(range_values(*a), dtype or np.int64)


def sym_linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    vals = [start + (stop - start) * i / div if div else start for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop
    return np_array(vals, dtype=float)


class _TFMeta(type):
    def __call__(cls, *a, **k):
        t = cls._t
        if a and isinstance(a[0], Sym):
            return cast(a[0], np.dtype(t))
        if a and isinstance(a[0], (list, tuple)) and _contains_symish(a[0]):
            return np_array(a[0], dtype=t)
        if a and type(a[0]) is SymArray:
            r = a[0].astype(t)
            return r if r.ndim else scal(base(r)[()], r.dtype)
        return t(*a, **k)

    def __instancecheck__(cls, o):
        if isinstance(o, cls._t):
            return True
        return isinstance(o, SymInt) and cls._t in (np.int64, np.intp)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._t)

    def __eq__(cls, o):
        return o is cls or o is cls._t

    def __hash__(cls):
        return hash(cls._t)


_TF = {}


def TypeFacade(t):
    if t not in _TF:
        # numpy accepts any object with a .dtype attribute where a dtype is expected
        _TF[t] = _TFMeta(t.__name__, (), {'_t': t, 'dtype': np.dtype(t), '__name__': t.__name__})
    return _TF[t]


class UfuncFacade:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        a = tuple(resolve(x) for x in a)
        if any(isinstance(x, Sym) or (isinstance(x, (list, tuple)) and _contains_symish(x)) for x in a):
            out = k.pop('out', None)
            return array_ufunc(self._u, '__call__', a, out, k)
        r = self._u(*a, **k)
        return wrap(r)

    def __getattr__(self, name):
        if name in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            def m(*a, **k):
                if _contains_symish(list(a)):
                    out = k.pop('out', None)
                    if name == 'reduce' and len(a) > 1:
                        k['axis'] = a[1]
                        a = a[:1]
                    return array_ufunc(self._u, name, a, out, k)
                return wrap(getattr(self._u, name)(*a, **k))

            return m
        return getattr(self._u, name)


class SubFacade(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self._real = real

    def __getattr__(self, name):
        r = getattr(self._real, name)
        return func_facade(r) if callable(r) and not isinstance(r, type) else r


def func_facade(real):
    def f(*a, **k):
        a = tuple(list(x) if isinstance(x, (map, filter, zip, types.GeneratorType)) and real is not np.sum else resolve(x) for x in a)
        k = {n: resolve(x) for n, x in k.items()}
        if isinstance(a[0] if a else None, types.GeneratorType) and real is np.sum:
            return sum(a[0])
        if _contains_symish(list(a)) or _contains_symish(list(k.values())):
            return array_function(real, a, k)
        return wrap(real(*a, **k))

    f.__name__ = getattr(real, '__name__', 'f')
    f._real = real
    return f


from . import cplx, npmore  # noqa: E402,F401  (register the transforms and the other functions)
