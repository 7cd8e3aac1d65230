"""Byte-level encoding: symbolic byte cells, a struct facade and symbolic byte strings."""
import builtins
import struct as _struct

import numpy as np
import z3

from .core import Unsupported, eng
from .values import (Sym, SymInt, SymBool, SymF64, SymReal, mkint, mkbool, f64bits, iterm, conc, snot, sand)

_bytes = builtins.bytes


class Cell:
    """byte number k (0 = least significant) of an n-byte integer or float value"""

    __slots__ = ('val', 'k', 'n', 'kind')

    def __init__(self, val, k, n, kind):
        self.val, self.k, self.n, self.kind = val, k, n, kind  # kind: 'i' (int, two's complement) or 'f'

    def term(self):
        """z3 Int in 0..255"""
        if self.kind == 'i':
            return (iterm(self.val) / z3.IntVal(256**self.k)) % 256  # floor division: two's complement
        if self.n == 8:
            b = f64bits(self.val)
        else:
            b = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(f64bits(self.val), z3.Float64()), z3.Float32()))
        return z3.BV2Int(z3.Extract(8 * self.k + 7, 8 * self.k, b))

    def same(self, o):
        return (
            isinstance(o, Cell) and self.k == o.k and self.n == o.n and self.kind == o.kind
            and (self.val is o.val or (isinstance(self.val, Sym) and isinstance(o.val, Sym)
                                       and type(self.val) is type(o.val) and self.val.t.eq(o.val.t)))
        )


def cterm(c):
    return c.term() if isinstance(c, Cell) else z3.IntVal(c)


def cell_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Cell) and a.same(b):
        return True
    return mkbool(z3.simplify(cterm(a) == cterm(b)))


def int_to_cells(v, n, signed, little, exc=_struct.error):
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if isinstance(v, SymBool):
        v = v._asint()
    if conc(v):
        v = int(v)
        if not lo <= v <= hi:
            raise exc(f"integer out of range for a {n}-byte format")
        cells = list(v.to_bytes(n, 'little', signed=signed))
    else:
        if not (sand(v >= lo, v <= hi)):
            raise exc(f"integer out of range for a {n}-byte format")
        cells = [Cell(v, k, n, 'i') for k in range(n)]
    return cells if little else cells[::-1]


def float_to_cells(v, n, little):
    if isinstance(v, SymReal):
        raise Unsupported("bytes of a symbolic real")
    if isinstance(v, (SymInt, SymBool)):
        v = float(v)
    if conc(v):
        cells = list(_struct.pack('<d' if n == 8 else '<f', v))
    else:
        cells = [Cell(v, k, n, 'f') for k in range(n)]
    return cells if little else cells[::-1]


def cells_to_int(cells, signed, little):
    n = len(cells)
    cells = cells if little else cells[::-1]
    if all(isinstance(c, int) for c in cells):
        return int.from_bytes(_bytes(cells), 'little', signed=signed)
    c0 = cells[0]
    if isinstance(c0, Cell) and c0.kind == 'i' and c0.k == 0:
        # contiguous low bytes of the same integer
        if all(isinstance(c, Cell) and c.kind == 'i' and c.val is c0.val and c.k == i for i, c in enumerate(cells)):
            if c0.n == n and signed:
                return c0.val  # written with a range check for n signed bytes
            t = iterm(c0.val) % (1 << (8 * n))
            if signed:
                t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
            return mkint(t)
    t = z3.Sum([cterm(c) * (256**i) for i, c in enumerate(cells)])
    if signed:
        t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
    return mkint(z3.simplify(t))


def cells_to_float(cells, little):
    n = len(cells)
    cells = cells if little else cells[::-1]
    if all(isinstance(c, int) for c in cells):
        return _struct.unpack('<d' if n == 8 else '<f', _bytes(cells))[0]
    c0 = cells[0]
    if (
        isinstance(c0, Cell) and c0.kind == 'f' and c0.n == n
        and all(isinstance(c, Cell) and c.kind == 'f' and c.val is c0.val and c.k == i and c.n == n
                for i, c in enumerate(cells))
    ):
        return c0.val if n == 8 else c0.val.to_f32()

    def bv(c):
        if isinstance(c, int):
            return z3.BitVecVal(c, 8)
        if c.kind == 'f' and c.n == 8:
            return z3.Extract(8 * c.k + 7, 8 * c.k, f64bits(c.val))
        return z3.Int2BV(c.term(), 8)

    b = z3.simplify(z3.Concat(*[bv(c) for c in reversed(cells)]))
    if n == 8:
        return SymF64(b)
    return SymF64.from_fp(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(b, z3.Float32()), z3.Float64()))


class SymBytes:
    """byte string with at least one symbolic byte (or a symbolic length)"""

    __array_ufunc__ = None

    def __init__(self, cells, slen=None):
        self.cells = list(cells)
        self.slen = slen  # symbolic length (<= len(cells)) or None

    @staticmethod
    def make(cells, slen=None):
        if slen is None and all(isinstance(c, int) for c in cells):
            return _bytes(cells)
        return SymBytes(cells, slen)

    def symlen(self):
        return len(self.cells) if self.slen is None else self.slen

    def __len__(self):
        return int(self.symlen())

    def __bool__(self):
        n = self.symlen()
        return bool(n != 0)

    def _fix(self):
        if self.slen is not None:
            n = int(self.slen)
            self.cells = self.cells[:n]
            self.slen = None

    def __getitem__(self, k):
        self._fix()
        if isinstance(k, slice):
            return SymBytes.make(self.cells[k])
        c = self.cells[k]
        return c if isinstance(c, int) else mkint(c.term())

    def __iter__(self):
        self._fix()
        return iter([c if isinstance(c, int) else mkint(c.term()) for c in self.cells])

    def __add__(self, o):
        self._fix()
        return SymBytes.make(self.cells + cells_of(o))

    def __radd__(self, o):
        self._fix()
        return SymBytes.make(cells_of(o) + self.cells)

    def __mul__(self, n):
        self._fix()
        return SymBytes.make(self.cells * int(n))

    def __eq__(self, o):
        if not isinstance(o, (_bytes, bytearray, SymBytes)):
            return False
        self._fix()
        a, b = self.cells, cells_of(o)
        if len(a) != len(b):
            return False
        return sand(*[cell_eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return snot(self == o)

    def concrete(self):
        self._fix()
        out = []
        for c in self.cells:
            out.append(c if isinstance(c, int) else eng().concretise(c.term(), lambda v: v.as_long()))
        return _bytes(out)

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return self.concrete()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def decode(self, *a, **k):
        return self.concrete().decode(*a, **k)


class SymByteArray(SymBytes):
    """mutable bytes (stand-in for bytearray; also what a memoryview of one gives access to)"""

    __hash__ = None
    partial = False

    @property
    def cells(self):
        if self.partial:
            raise Unsupported("bytes of a partly filled buffer")
        return self._cells

    @cells.setter
    def cells(self, c):
        self._cells = c

    def __len__(self):
        return len(self._cells)

    def __init__(self, x=0, *a, **k):
        if isinstance(x, str):
            x = x.encode(*a, **k)
        elif hasattr(x, '__index__') and not isinstance(x, np.ndarray):
            x = _bytes(int(x))
        elif not isinstance(x, (_bytes, bytearray, memoryview, SymBytes, np.ndarray)):
            x = [(e if isinstance(e, (int, Cell)) else int_to_cells(e, 1, False, True, ValueError)[0]) for e in x]
        super().__init__(x if isinstance(x, list) else cells_of(x))

    def _put(self, cells):
        r = SymByteArray(0)
        r.cells = list(cells)
        return r

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._put(self.cells[k])
        c = self.cells[k]
        return c if isinstance(c, int) else mkint(c.term())

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.cells[k] = cells_of(v)
        else:
            self.cells[k] = v if isinstance(v, int) else int_to_cells(v, 1, False, True, ValueError)[0]

    def __delitem__(self, k):
        del self.cells[k]

    def __add__(self, o):
        return self._put(self.cells + cells_of(o))

    def __iadd__(self, o):
        self.cells += cells_of(o)
        return self

    extend = __iadd__

    def append(self, v):
        self.cells.append(0)
        self[-1] = v

    def copy(self):
        return self._put(self.cells)

    def tobytes(self):
        return SymBytes.make(self.cells)


class BytesIO:
    """stand-in for io.BytesIO"""

    def __new__(cls, data=b''):
        from . import vfs

        f = vfs.File() if hasattr(vfs, 'File') else None
        f.cells = cells_of(data)
        h = vfs.Handle('<bytes>', 'r+b', f)
        h.getvalue = lambda: SymBytes.make(f.cells)
        h.getbuffer = h.getvalue
        return h


def cells_of(b):
    if isinstance(b, SymBytes):
        b._fix()
        return list(b.cells)
    if isinstance(b, (_bytes, bytearray, memoryview)):
        return list(_bytes(b))
    if isinstance(b, np.ndarray):
        t = b.tobytes()
        return cells_of(t)
    raise TypeError(f"a bytes-like object is required, not {type(b).__name__!r}")


# ----------------------------------------------------------------------------------- struct
_STD = {'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8,
        'f': 4, 'd': 8, 'x': 1, 's': 1}


def _parse(fmt):
    """-> (items, total) with items (code, offset, count); honours native alignment"""
    if isinstance(fmt, (_bytes,)):
        fmt = fmt.decode()
    total = _struct.calcsize(fmt)  # validates
    mode = '@'
    body = fmt
    if fmt[:1] in ('@', '=', '<', '>', '!'):
        mode, body = fmt[0], fmt[1:]
    native = mode == '@'
    little = mode in '@=<'
    items = []
    off = 0
    num = ''
    for ch in body:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        size = _struct.calcsize(ch) if native else _STD.get(ch)
        if size is None:
            raise Unsupported(f"struct code {ch}")
        if native and ch not in 'xsc':
            off = (off + size - 1) // size * size
        if ch == 's':
            items.append(('s', off, n))
            off += n
        elif ch == 'x':
            off += n
        else:
            for _ in range(n):
                items.append((ch, off, size))
                off += size
    assert off == total, (off, total, fmt)
    return items, total, little


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self._items, self.size, self._little = _parse(fmt)

    def pack(self, *args):
        if len(args) != len(self._items):
            raise _struct.error(f"pack expected {len(self._items)} items for packing (got {len(args)})")
        cells = [0] * self.size
        for (ch, off, n), v in zip(self._items, args):
            cells[off:off + n] = self._enc(ch, n, v)
        return SymBytes.make(cells)

    def _enc(self, ch, n, v):
        if ch in 'cs':
            if ch == 'c' and not (isinstance(v, (_bytes, bytearray, SymBytes)) and len(v) == 1):
                raise _struct.error("char format requires a bytes object of length 1")
            if not isinstance(v, (_bytes, bytearray, SymBytes)):
                raise _struct.error("argument for 's' must be a bytes object")
            c = cells_of(v)[:n]
            return c + [0] * (n - len(c))
        if isinstance(v, np.ndarray):
            v = _scalar(v, ch)
        if ch == '?':
            return int_to_cells(1 if v else 0, 1, False, True)
        if ch in 'fd':
            if not isinstance(v, (Sym, int, float, np.number, np.bool_)):
                raise _struct.error("required argument is not a float")
            if ch == 'f' and conc(v):
                pass
            return float_to_cells(v, n, self._little)
        if not isinstance(v, (SymInt, SymBool, int, np.integer, np.bool_)):
            raise _struct.error("required argument is not an integer")
        return int_to_cells(v, n, ch in 'bhilq', self._little)

    def unpack(self, buf):
        if isinstance(buf, (SymBytes,)):
            if buf.symlen() != self.size:
                raise _struct.error(f"unpack requires a buffer of {self.size} bytes")
        cells = cells_of(buf)
        if len(cells) != self.size:
            raise _struct.error(f"unpack requires a buffer of {self.size} bytes")
        return tuple(self._dec(ch, cells[off:off + n]) for ch, off, n in self._items)

    def _dec(self, ch, cells):
        if ch in 'cs':
            return SymBytes.make(cells)
        if ch in 'fd':
            return cells_to_float(cells, self._little)
        v = cells_to_int(cells, ch in 'bhilq', self._little)
        return (v != 0) if ch == '?' else v

    def unpack_from(self, buf, offset=0):
        cells = cells_of(buf)
        if len(cells) - offset < self.size:
            raise _struct.error("unpack_from requires a larger buffer")
        return self.unpack(SymBytes.make(cells[offset:offset + self.size]))

    def iter_unpack(self, buf):
        cells = cells_of(buf)
        if self.size == 0 or len(cells) % self.size:
            raise _struct.error("iterative unpacking requires a buffer of a multiple of the item size")
        for i in range(0, len(cells), self.size):
            yield self.unpack(SymBytes.make(cells[i:i + self.size]))

    def pack_into(self, buf, offset, *args):
        cells = cells_of(self.pack(*args))
        n = len(buf)
        if offset < 0:
            offset += n
        if offset < 0 or offset + len(cells) > n:
            raise _struct.error("pack_into requires a larger buffer")
        if not isinstance(buf, SymByteArray):
            raise Unsupported(f"struct.pack_into {type(buf).__name__}")
        buf.cells[offset:offset + len(cells)] = cells


def _scalar(v, ch):
    if v.ndim != 0:
        if ch in 'fd':
            raise _struct.error("required argument is not a float")
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    return v.view(np.ndarray)[()]


class StructModule:
    """stand-in for the struct module"""

    error = _struct.error
    Struct = Struct

    @staticmethod
    def pack(fmt, *a):
        return Struct(fmt).pack(*a)

    @staticmethod
    def unpack(fmt, b):
        return Struct(fmt).unpack(b)

    @staticmethod
    def unpack_from(fmt, b, offset=0):
        return Struct(fmt).unpack_from(b, offset)

    @staticmethod
    def iter_unpack(fmt, b):
        return Struct(fmt).iter_unpack(b)

    @staticmethod
    def calcsize(fmt):
        return _struct.calcsize(fmt)

    @staticmethod
    def pack_into(fmt, buf, offset, *a):
        return Struct(fmt).pack_into(buf, offset, *a)
