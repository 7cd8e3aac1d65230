"""Loads the current cfdtools source for symbolic execution (nothing is cached between runs)."""
import ast
import builtins
import collections
import functools
import importlib
import itertools
import logging as _logging
import os
import re
import sys
import types

import numpy as np

from . import array, bytesx, containers, core, vfs
from .core import Unsupported
from .values import Sym, SymBool, SymF64, SymInt, SymReal, SymStr, conc, smax, smin, ssort, mkint
from .array import SymArray

REPO = os.environ.get('CFDTOOLS_REPO', '/repo')


# ------------------------------------------------------------------------------ AST rewriting
_LOGNAMES = {'log', 'logger', 'logging'}


class Rewrite(ast.NodeTransformer):
    """dict/set displays and comprehensions go through the (overridden) constructors; logging, printing
    and error message formatting are dropped"""

    def _call(self, name, args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])

    def __init__(self, keep_logs=False):
        self.keep_logs = keep_logs

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call):
            f = v.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name):
                if isinstance(f, ast.Attribute) and root.id in _LOGNAMES and not self.keep_logs:
                    return ast.copy_location(ast.Pass(), node)
                if isinstance(f, ast.Name) and f.id == 'print' and not self.keep_logs:
                    return ast.copy_location(ast.Pass(), node)
                if root.id == 'sys' and isinstance(f, ast.Attribute) and f.attr in ('flush', 'write'):
                    return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.keep_logs and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(self._call('__sx_mod__', [node.left, node.right]), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        t = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return ast.copy_location(self._call('__sx_dict__', [ast.GeneratorExp(elt=t, generators=node.generators)]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__sx_set__', [ast.GeneratorExp(elt=node.elt, generators=node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return ast.copy_location(self._call('__sx_dict__', [node]), node)
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(self._call('__sx_dict__', [ast.Tuple(elts=items, ctx=ast.Load())]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('__sx_set__', [ast.Tuple(elts=node.elts, ctx=ast.Load())]), node)

    def visit_Raise(self, node):
        self.generic_visit(node)
        node.exc = _Quiet().visit(node.exc) if node.exc is not None else None
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        node.msg = None
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (isinstance(f, ast.Attribute) and f.attr == 'error_stop') or (isinstance(f, ast.Name) and f.id == 'error_stop'):
            node.args = [_Quiet().visit(a) for a in node.args]
        return node


class _Quiet(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        return ast.copy_location(ast.Constant(value='<message>'), node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Constant(value='<message>'), node)
        return self.generic_visit(node)


# ------------------------------------------------------------------------------------ builtins
TEXTS = {}  # text of a number given as an argument -> its symbolic value


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if cls is IntT and a:
            x = a[0]
            if type(x) is str and x in TEXTS:
                return cls(SymStr(TEXTS[x]))
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return x._asint()
            if isinstance(x, SymReal):
                return x.__trunc__()
            if isinstance(x, SymStr):
                return x.num if not isinstance(x.num, SymReal) else (_ for _ in ()).throw(ValueError("invalid literal for int()"))
            if isinstance(x, SymF64):
                raise Unsupported("int() of a bit-level float")
            if type(x) is SymArray:
                if x.ndim:
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                return cls(array.base(x)[()])
        return int(*a, **k)

    def from_bytes(cls, b, byteorder='big', *, signed=False):
        if isinstance(b, bytesx.SymBytes):
            return bytesx.cells_to_int(bytesx.cells_of(b), signed, byteorder == 'little')
        return int.from_bytes(b, byteorder, signed=signed)

    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymInt))

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntT(int, metaclass=_IntMeta):
    dtype = np.dtype(int)


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if cls is FloatT and a:
            x = a[0]
            if type(x) is str and x in TEXTS:
                x = SymStr(TEXTS[x])
            if isinstance(x, (SymReal, SymF64)):
                return x
            if isinstance(x, SymInt):
                return array.cast(x, np.dtype(float))
            if isinstance(x, SymBool):
                return array.cast(x, np.dtype(float))
            if isinstance(x, SymStr):
                n = x.num
                return array.cast(n, np.dtype(float)) if isinstance(n, SymInt) else n
            if type(x) is SymArray:
                if x.ndim:
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                return cls(array.base(x)[()])
        return float(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal, SymF64))

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatT(float, metaclass=_FloatMeta):
    dtype = np.dtype(float)


class _BoolMeta(type):
    def __call__(cls, *a, **k):
        return bool(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class BoolT(metaclass=_BoolMeta):
    dtype = np.dtype(bool)


def sx_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(x, e) for e in t)
    if isinstance(t, types.UnionType):
        return any(sx_isinstance(x, e) for e in t.__args__)
    import numbers

    if isinstance(x, SymBool):
        return t in (bool, BoolT, np.bool_, int, IntT) or isinstance(t, array._TFMeta) and t._t is np.bool_
    if isinstance(x, SymInt):
        if isinstance(t, array._TFMeta):
            return t._t in (np.int64, np.intp)
        return t in (int, IntT, np.int64, np.integer, np.signedinteger, np.generic, np.number, numbers.Integral, numbers.Number, numbers.Real)
    if isinstance(x, (SymReal, SymF64)):
        if isinstance(t, array._TFMeta):
            return t._t is np.float64
        return t in (float, FloatT, np.float64, np.floating, np.generic, np.number, numbers.Number, numbers.Real)
    if isinstance(x, (SymStr, vfs.SymLine, vfs.SymText)):
        return t is str or t is type(x)
    if isinstance(x, bytesx.SymBytes):
        if isinstance(x, bytesx.SymByteArray):
            return t in (bytearray, ByteArrayT, bytesx.SymByteArray, bytesx.SymBytes)
        return t is bytes or t is bytesx.SymBytes
    if t is array.NumpyFacade:
        return False
    return isinstance(x, t)


def sx_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if key is None and any(isinstance(x, SymInt) for x in xs) and all(isinstance(x, (SymInt, int, np.integer)) for x in xs):
        r = ssort(xs)
        return r[::-1] if reverse else r
    return sorted(xs, key=key, reverse=reverse)


def _ext(f, native):
    def g(*a, key=None, **k):
        if key is None and 'default' not in k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if any(isinstance(x, (SymInt, SymReal)) for x in xs) and all(
                isinstance(x, (SymInt, SymReal, int, float, np.number)) for x in xs
            ):
                r = xs[0]
                for x in xs[1:]:
                    r = f(r, x)
                return r
            return native(xs, **k)
        if key is not None:
            k['key'] = key
        return native(*a, **k)

    return g


def sx_len(x):
    if isinstance(x, bytesx.SymBytes) and x.slen is not None:
        return x.slen
    return len(x)


def sx_bytes(*a, **k):
    if a and isinstance(a[0], bytesx.SymBytes):
        return a[0]
    if a and isinstance(a[0], (list, tuple)) and any(isinstance(e, Sym) for e in a[0]):
        return bytesx.SymBytes.make([e if conc(e) else bytesx.int_to_cells(e, 1, False, True, ValueError)[0] for e in a[0]])
    if a and isinstance(a[0], np.ndarray):
        return a[0].tobytes()
    return bytes(*a, **k)


class _BytesMeta(type):
    def __call__(cls, *a, **k):
        return sx_bytes(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (bytes, bytesx.SymBytes))

    def __eq__(cls, o):
        return o is cls or o is bytes

    def __hash__(cls):
        return hash(bytes)

    def __getattr__(cls, n):
        return getattr(bytes, n)


class BytesT(metaclass=_BytesMeta):
    pass


class _ByteArrayMeta(type):
    def __call__(cls, *a, **k):
        return bytesx.SymByteArray(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (bytearray, bytesx.SymByteArray))

    def __eq__(cls, o):
        return o is cls or o is bytearray

    def __hash__(cls):
        return hash(bytearray)


class ByteArrayT(metaclass=_ByteArrayMeta):
    pass


def sx_memoryview(x):
    if isinstance(x, bytesx.SymBytes):
        return x
    return memoryview(x)


def sx_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


class _RangeMeta(type):
    def __call__(cls, *a):
        if not any(isinstance(x, (SymInt, SymBool)) for x in a):
            return range(*a)
        return SymRange(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, (range, SymRange))

    def __eq__(cls, o):
        return o is cls or o is range

    def __hash__(cls):
        return hash(range)


class SymRange:
    """range with symbolic bounds: the number of values is decided, not the values"""

    def __init__(self, *a):
        self.v = array.range_values(*a)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __reversed__(self):
        return iter(self.v[::-1])

    def __contains__(self, x):
        return any(x == y for y in self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = SymRange.__new__(SymRange)
            r.v = self.v[i]
            return r
        return self.v[i]

    def __eq__(self, o):
        return isinstance(o, (range, SymRange)) and len(o) == len(self) and all(x == y for x, y in zip(self, o))

    def index(self, x):
        for i, y in enumerate(self.v):
            if x == y:
                return i
        raise ValueError("not in range")

    __hash__ = None


class RangeT(metaclass=_RangeMeta):
    pass


class _SetMeta(type):
    def __call__(cls, *a):
        return containers.SymSet(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, set)

    def __getattr__(cls, n):
        return getattr(containers.SymSet, n)


class SetT(metaclass=_SetMeta):
    pass


class _FSetMeta(type):
    def __call__(cls, it=()):
        xs = list(it)
        if any(containers.sym_key(x) for x in xs):
            return containers.SymSet(xs)
        return frozenset(xs)

    def __instancecheck__(cls, o):
        return isinstance(o, (frozenset, containers.SymSet))


class FSetT(metaclass=_FSetMeta):
    pass


class _DictMeta(type):
    def __call__(cls, *a, **k):
        return containers.SymDict(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, dict)

    def __getattr__(cls, n):
        return getattr(containers.SymDict, n)


class DictT(metaclass=_DictMeta):
    pass


# ------------------------------------------------------------------------------------- modules
class Null:
    """absorbs any use (logging, plotting)"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Null()

    def __call__(self, *a, **k):
        return Null()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return Null()


class NullModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Null()


MESSAGES = None  # recorded messages, as (level, text), when a scenario asks for them


def number_text(x):
    """text standing for a symbolic number"""
    t = str(70001 + len(TEXTS)) + ('' if isinstance(x, SymInt) else '.5')
    TEXTS[t] = x
    return t


def format_text(s, args):
    """s % args where symbolic numbers are shown by their text"""
    many = type(args) is tuple
    vals = list(args) if many else [args]
    if not any(isinstance(v, (SymReal, SymF64, SymInt)) for v in vals):
        return s % args
    it = iter(range(len(vals)))

    def spec(m):
        if m.group(0) == '%%':
            return '%%'
        k = next(it)
        if isinstance(vals[k], (SymReal, SymF64, SymInt)):
            vals[k] = number_text(vals[k])
            return '%s'
        return m.group(0)

    return re.sub(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', spec, s) % tuple(vals)


def print_(*a, sep=' ', end='\n', file=None, flush=False):
    if MESSAGES is not None and file is None:
        MESSAGES.append(('print', sep.join(str(x) for x in a)))


class Recorder:
    """logger whose messages are recorded"""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in ('info', 'debug', 'warning', 'error', 'critical'):

            def f(msg, *a, **k):
                MESSAGES.append((n, format_text(str(msg), a) if a else str(msg)))

            return f
        return Null()


class TimeModule(types.ModuleType):
    """clocks all show the time set by the scenario"""

    def __init__(self):
        super().__init__('time')
        self._now = None

    def _read(self):
        if self._now is None:
            return 0.0
        return self._now

    def __getattr__(self, n):
        import time

        if n in ('perf_counter', 'monotonic', 'time'):
            return self._read
        if n.startswith('__') or n in ('strftime', 'localtime', 'gmtime', 'sleep', 'ctime'):
            return getattr(time, n)
        raise Unsupported(f"time.{n}")


class LoggingModule(types.ModuleType):
    def __init__(self):
        super().__init__('logging')
        self._nameToLevel = dict(_logging._nameToLevel)
        for n, v in self._nameToLevel.items():
            setattr(self, n, v)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if MESSAGES is not None:
            if n == 'getLogger':
                return lambda *a: Recorder()
            if n in ('info', 'debug', 'warning', 'error', 'critical'):
                return getattr(Recorder(), n)
        return Null()


class CollectionsModule(types.ModuleType):
    def __init__(self):
        super().__init__('collections')
        self.OrderedDict = containers.OrderedDictFacade
        self.defaultdict = containers.SymDefaultDict
        self.Counter = containers.SymCounter

    def __getattr__(self, n):
        return getattr(collections, n)


class OsPathModule(types.ModuleType):
    def __init__(self):
        super().__init__('os.path')

    def exists(self, p):
        return vfs.FS.exists(p)

    def isfile(self, p):
        return vfs.FS.exists(p) if vfs.FS.key(p) not in vfs.FS.dirs else False

    def isdir(self, p):
        return vfs.FS.key(p) in vfs.FS.dirs

    def getsize(self, p):
        return vfs.SymPath(p).stat().st_size

    def abspath(self, p):
        return vfs.FS.key(p)

    realpath = abspath

    def __getattr__(self, n):
        return getattr(os.path, n)


class OsModule(types.ModuleType):
    _ALLOWED = {'SEEK_SET', 'SEEK_CUR', 'SEEK_END', 'sep', 'linesep', 'fspath', 'environ', 'getenv', 'PathLike', 'extsep', 'curdir', 'name'}

    def __init__(self):
        super().__init__('os')
        self.path = OsPathModule()

    def remove(self, p):
        vfs.SymPath(p).unlink()

    unlink = remove

    def rename(self, a, b):
        vfs.SymPath(a).rename(b)

    replace = rename

    def mkdir(self, p, mode=0o777):
        vfs.SymPath(p).mkdir()

    def makedirs(self, p, mode=0o777, exist_ok=False):
        vfs.SymPath(p).mkdir(parents=True, exist_ok=exist_ok)

    def listdir(self, p='.'):
        return [x.name for x in vfs.SymPath(p).iterdir()]

    def stat(self, p):
        return vfs.SymPath(p).stat()

    def getcwd(self):
        return '/vfs'

    def __getattr__(self, n):
        if n in self._ALLOWED:
            return getattr(os, n)
        raise Unsupported(f"os.{n}")


class PathlibModule(types.ModuleType):
    Path = vfs.SymPath
    PosixPath = vfs.SymPath

    def __init__(self):
        super().__init__('pathlib')

    def __getattr__(self, n):
        import pathlib

        return getattr(pathlib, n)


class SysModule(types.ModuleType):
    def __init__(self, argv=('cfd',)):
        super().__init__('sys')
        self.argv = list(argv)
        self.stdout = Null()
        self.stderr = Null()

    def __getattr__(self, n):
        return getattr(sys, n)


def cmp_sys_exit(*a):
    raise SystemExit(*a)


class MathModule(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        import math

        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a, **k):
            if n in ('prod', 'fsum', 'dist', 'sumprod', 'hypot') and any(array.has_sym(x) for x in a):
                return _MATH_SEQ[n](*a, **k)
            if n == 'isclose' and any(isinstance(x, Sym) for x in a):
                return _isclose(*a, **k)
            if any(isinstance(x, Sym) for x in a):
                if n == 'sqrt':
                    return a[0].sqrt()
                if n == 'floor':
                    return a[0].__floor__() if isinstance(a[0], SymReal) else a[0]
                if n in ('log', 'exp', 'sin', 'cos', 'log10') and len(a) == 1:
                    return getattr(a[0], n)()
                if n == 'fabs':
                    return abs(a[0])
                if n == 'ceil':
                    return -((-a[0]).__floor__()) if isinstance(a[0], SymReal) else a[0]
                if n == 'trunc':
                    return a[0].__trunc__() if isinstance(a[0], SymReal) else a[0]
                if n == 'pow':
                    return a[0] ** a[1] * 1.0
                if n in ('isnan', 'isinf'):
                    return array.SCALAR_OPS[getattr(np, n)](a[0])
                if n == 'isfinite':
                    return array.SCALAR_OPS[np.isfinite](a[0])
                if n in ('gcd', 'radians', 'degrees', 'copysign', 'tan'):
                    return array.SCALAR_OPS[getattr(np, n)](*a)
                if n == 'atan2':
                    return array.SCALAR_OPS[np.arctan2](*a)
                if n == 'hypot':
                    r = 0
                    for x in a:
                        r = r + x * x
                    return (r * 1.0).sqrt()
                raise Unsupported(f"math.{n} on symbolic values")
            return f(*a, **k)

        return g


def _prod(x, start=1):
    for e in x:
        start = start * e
    return start


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    d, m = abs(a - b), smax(abs(a), abs(b)) * rel_tol
    return d <= smax(m, abs_tol)


_MATH_SEQ = {
    'prod': _prod, 'fsum': lambda x: sum(x, 0.0), 'hypot': lambda *a: (sum(x * x for x in a) * 1.0).sqrt(),
    'dist': lambda p, q: (sum((x - y) * (x - y) for x, y in zip(p, q)) * 1.0).sqrt(), 'sumprod': lambda p, q: sum(x * y for x, y in zip(p, q)),
}


class OperatorPassthrough(types.ModuleType):
    pass


class IoModule(types.ModuleType):
    BytesIO = bytesx.BytesIO

    open = staticmethod(vfs.sym_open)

    def __getattr__(self, n):
        import io

        return getattr(io, n)


class CopyModule(types.ModuleType):
    def __getattr__(self, n):
        import copy

        return getattr(copy, n)


_CODE = {}  # path -> (source, code)


def compile_source(path):
    with open(path, 'rb') as f:
        src = f.read()
    keep = MESSAGES is not None
    hit = _CODE.get((path, keep))
    if hit is not None and hit[0] == src:
        return hit[1]
    tree = ast.parse(src, filename=path)
    tree = Rewrite(keep).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    _CODE[path, keep] = (src, code)
    return code


class Modules:
    """one private set of cfdtools modules (fresh for every explored path)"""

    NULLS = ('tqdm', 'rich', 'seaborn')

    def __init__(self, argv=('cfd',), extra=None):
        self.reg = {}
        self.np = array.NumpyFacade()
        self.std = {
            'numpy': self.np,
            'struct': bytesx.StructModule(),
            'logging': LoggingModule(),
            'collections': CollectionsModule(),
            'os': OsModule(),
            'pathlib': PathlibModule(),
            'sys': SysModule(argv),
            'math': MathModule(),
            'time': TimeModule(),
            'io': IoModule('io'),
        }
        self.std['os.path'] = self.std['os'].path
        if extra:
            self.std.update(extra)
        b = dict(builtins.__dict__)
        b.update(
            __import__=self._import, isinstance=sx_isinstance, sorted=sx_sorted, min=_ext(smin, min), max=_ext(smax, max),
            len=sx_len, int=IntT, float=FloatT, bool=BoolT, bytes=BytesT, bytearray=ByteArrayT, memoryview=sx_memoryview, range=RangeT, set=SetT, frozenset=FSetT, dict=DictT,
            open=vfs.sym_open, round=sx_round,
            __sx_dict__=containers.SymDict, __sx_set__=containers.SymSet, __sx_mod__=format_text, print=print_, input=_noinput, exit=cmp_sys_exit, quit=cmp_sys_exit,
        )
        self.builtins = b

    def load(self, name):
        if name in self.reg:
            return self.reg[name]
        parts = name.split('.')
        parent = None
        if len(parts) > 1:
            parent = self.load('.'.join(parts[:-1]))
            if name in self.reg:
                return self.reg[name]
        rel = os.path.join(REPO, *parts)
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            path, pkg = os.path.join(rel, '__init__.py'), True
        elif os.path.exists(rel + '.py'):
            path, pkg = rel + '.py', False
        elif os.path.isdir(rel):
            path, pkg = None, True  # a namespace package
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        if path is not None:
            m.__file__ = path
        m.__package__ = name if pkg else '.'.join(parts[:-1])
        if pkg:
            m.__path__ = [rel]
        m.__dict__['__builtins__'] = self.builtins
        self.reg[name] = m
        if parent is not None:
            setattr(parent, parts[-1], m)
        try:
            if path is not None:
                exec(compile_source(path), m.__dict__)
        except BaseException:
            self.reg.pop(name, None)
            raise
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            basep = pkg.split('.')
            basep = basep[: len(basep) - (level - 1)]
            name = '.'.join(basep + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'cfdtools':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.reg[top]
        if name in self.std and top != 'matplotlib':
            if fromlist or '.' not in name:
                return self.std[name]
            return self.std[top]
        if top in self.std and top == 'numpy':
            m = self.std['numpy']
            if fromlist:
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
                return m
            return m
        if top == 'matplotlib':
            from . import stub_plot

            m = self.std.get('matplotlib')
            if m is None:
                m = self.std['matplotlib'] = stub_plot.Matplotlib()
            if fromlist:
                for n in name.split('.')[1:]:
                    m = getattr(m, n)
            return m
        if top in self.NULLS:
            return NullModule(name)
        if top == 'h5py':
            from . import stub_h5

            self.std['h5py'] = stub_h5.make_module()
            return self.std['h5py']
        if top == 'pyvista':
            from . import stub_vtk

            self.std['pyvista'] = stub_vtk.make_module()
            return self.std['pyvista']
        if top in ('vtk', 'vtkmodules'):
            from . import stub_vtk

            return stub_vtk.make_vtk_module()
        if top == 'scipy':
            from . import stub_vtk

            root = self.std.get('scipy')
            if root is None:
                root = self.std['scipy'] = types.ModuleType('scipy')
                root.spatial = self.std['scipy.spatial'] = stub_vtk.make_spatial_module()
                root.special = self.std['scipy.special'] = importlib.import_module('scipy.special')
                for n in ('signal', 'fft', 'fftpack', 'interpolate'):
                    setattr(root, n, NullModule('scipy.' + n))
                    self.std['scipy.' + n] = getattr(root, n)
            if fromlist and name != 'scipy':
                return getattr(root, name.split('.')[1])
            return root
        if top == 'itertools' or top == 'functools':
            return importlib.__import__(name, globals, locals, fromlist, 0)
        return importlib.__import__(name, globals, locals, fromlist, 0)


def _noinput(*a):
    raise Unsupported("input()")
