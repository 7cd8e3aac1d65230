"""Scenario API: the same scenario runs symbolically and, from a model, on the real code."""
import builtins
import contextlib
import importlib
import io
import json
import logging
import copy
import math
import os
import re
import shutil
import struct
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import array, core, loader, vfs
from .core import PathAbort, Unsupported
from .values import (Sym, SymBool, SymF64, SymInt, SymReal, bterm, conc, f64bits, ite, mkbool, sand, snot, sor,
                     simplies, rterm)
from .array import SymArray, base


class CheckFailed(Exception):
    pass


class Skip(BaseException):
    """concrete inputs violate an assumption (cannot happen on a model of the path)"""


def f2bits(x):
    return struct.unpack('>Q', struct.pack('>d', float(x)))[0]


class WorldBase:
    def pick(self, name, options):
        """choose one of a finite list of options (explored exhaustively)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}[{i}]", lo, hi) for i in range(n)]

    def f64s(self, name, n):
        return [self.f64(f"{name}[{i}]") for i in range(n)]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}[{i}]", lo, hi) for i in range(n)]

    def f64array(self, name, shape, order='C'):
        """order: how the values lie in memory ('F': column-major)"""
        n = int(np.prod(shape))
        a = self.array(self.f64s(name, n), float).reshape(shape)
        return a if order == 'C' else self.np.asfortranarray(a)

    def realarray(self, name, shape, lo=None, hi=None):
        n = int(np.prod(shape))
        return self.array(self.reals(name, n, lo, hi), float).reshape(shape)

    def intarray(self, name, shape, lo, hi, dtype=np.int64):
        n = int(np.prod(shape))
        return self.array(self.ints(name, n, lo, hi), dtype).reshape(shape)

    def distinct(self, xs):
        xs = list(xs)
        return self.And(*[xs[i] != xs[j] for i in range(len(xs)) for j in range(i)])

    def permutation(self, name, n):
        """symbolic permutation of range(n)"""
        p = self.ints(name, n, 0, n - 1)
        self.assume(self.distinct(p))
        return p

    # nested structure comparison ------------------------------------------------------
    def same(self, a, b):
        """equality of nested lists/arrays/scalars; floats compare by bits"""
        la, lb = self.plain(a), self.plain(b)
        return self._same(la, lb)

    def _same(self, a, b):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                return False
            return self.And(*[self._same(x, y) for x, y in zip(a, b)])
        return self.scalar_same(a, b)

    def samebytes(self, a, b):
        return a == b

    def close(self, a, b, rtol=1e-9, atol=1e-12):
        la, lb = self.plain(a), self.plain(b)
        return self._close(la, lb, rtol, atol)

    def _close(self, a, b, rtol, atol):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                return False
            return self.And(*[self._close(x, y, rtol, atol) for x, y in zip(a, b)])
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a == b
        return self.scalar_close(a, b, rtol, atol)

    def numbers(self, text):
        """the numbers shown in a message"""
        return [loader.TEXTS[t] if t in loader.TEXTS else float(t) for t in re.findall(r'[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?', text)]

    def plain(self, x):
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, (list, tuple)):
            return [self.plain(e) for e in x]
        return x

    def raises(self, fn, *exc):
        """run fn; returns (result, None) or (None, exception) for the given exception types (default Exception)"""
        try:
            return fn(), None
        except (exc or (Exception,)) as e:
            return None, e

    def guarded(self, msg, fn):
        """run fn; an exception is a violation described by msg"""
        return fn()

    def And(self, *xs):
        return sand(*xs)

    def Or(self, *xs):
        return sor(*xs)

    def Not(self, x):
        return snot(x)

    def Implies(self, a, b):
        return simplies(a, b)

    def ite(self, c, a, b):
        return ite(c, a, b)


def expanded(t):
    """polynomial as a sum of monomials, squares of the defined square roots replaced by their values"""
    t = z3.simplify(t, som=True)

    def mono(m):
        f = m.children() if z3.is_app_of(m, z3.Z3_OP_MUL) else [m]
        fs, roots = [], {}
        for x in f:
            if z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) and x.arg(1).denominator_as_long() == 1:
                fs += [x.arg(0)] * x.arg(1).numerator_as_long()
            else:
                fs.append(x)
        keep, k = [], 1
        for x in fs:
            if x.num_args() == 0 and x.decl().name().startswith('sqrt_'):
                n = x.decl().name()[5:]
                if n in roots:
                    k *= int(n)
                    del roots[n]
                else:
                    roots[n] = x
            else:
                keep.append(x)
        if k == 1:
            return m
        return z3.Product([z3.RealVal(k)] + keep + list(roots.values()))

    if 'sqrt_' not in t.sexpr():
        return t
    ms = t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]
    return z3.simplify(z3.Sum([mono(m) for m in ms]), som=True)


class SymWorld(WorldBase):
    symbolic = True

    def __init__(self, eng, cfg, argv=('cfd',)):
        self.eng = eng
        self.cfg = cfg
        self.fs = vfs.reset()
        self.mods = loader.Modules(argv)
        loader.TEXTS.clear()
        loader.MESSAGES = None
        self.guard = {}
        self.np = self.mods.np
        self.struct = self.mods.std['struct']
        self.observed = []
        self.reached = set()

    def mod(self, name):
        self.mods.load('cfdtools.meshbase')
        return self.mods.load(name)

    @property
    def h5(self):
        return self.mods._import('h5py')

    @property
    def pv(self):
        return self.mods._import('pyvista')

    def argv(self, argv):
        self.mods.std['sys'].argv = list(argv)

    def fresh(self, first=None):
        """a new session: cfdtools is loaded again (starting with this module), files and external libraries are kept"""
        old = self.mods
        self.mods = loader.Modules(old.std['sys'].argv, {n: m for n, m in old.std.items() if n in ('h5py', 'pyvista', 'time') or n.split('.')[0] == 'scipy'})
        self.np = self.mods.np
        self.struct = self.mods.std['struct']
        if first:
            self.mods.load(first)

    # variables
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.eng.vars[name] = (v, 'int')
        if lo is not None and hi is not None and lo == hi:
            self.eng.assume(v == lo)
            return lo
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.eng.vars[name] = (v, 'bool')
        return SymBool(v)

    def f64(self, name):
        v = z3.BitVec(name, 64)
        self.eng.vars[name] = (v, 'f64')
        return SymF64(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.eng.vars[name] = (v, 'real')
        if lo is not None:
            self.eng.assume(v >= rterm(lo))
        if hi is not None:
            self.eng.assume(v <= rterm(hi))
        return SymReal(v)

    def array(self, x, dtype=None):
        return self.np.array(x, dtype=dtype)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c.t)
        elif not c:
            raise PathAbort()

    def check(self, c, msg):
        self.reached.add(msg)
        if isinstance(c, SymBool):
            self.eng.add_check(c.t, msg)
        elif isinstance(c, Sym):
            self.eng.add_check(bterm(c), msg)
        else:
            self.eng.add_check(bool(c), msg)

    def cover(self, msg):
        self.reached.add(msg)

    def observe(self, label, value):
        self.observed.append((label, self.plain(value)))

    def scalar_same(self, a, b):
        if isinstance(a, (SymF64,)) or isinstance(b, SymF64):
            if isinstance(a, (SymReal, str, bytes)) or isinstance(b, (SymReal, str, bytes)) or a is None or b is None:
                return False
            if isinstance(a, (int, SymInt, SymBool, bool)) or isinstance(b, (int, SymInt, bool)):
                a = float(a) if conc(a) else array.cast(a, np.dtype(float)) if not isinstance(a, SymF64) else a
                b = float(b) if conc(b) else array.cast(b, np.dtype(float)) if not isinstance(b, SymF64) else b
            ta, tb = f64bits(a), f64bits(b)
            return True if ta.eq(tb) else mkbool(z3.simplify(ta == tb))
        if isinstance(a, float) and isinstance(b, float):
            return f2bits(a) == f2bits(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = a == b
            return False if r is NotImplemented else r
        return a == b

    def scalar_close(self, a, b, rtol, atol):
        if conc(a) and conc(b):
            return math.isclose(a, b, rel_tol=rtol, abs_tol=atol)
        if isinstance(a, SymF64) or isinstance(b, SymF64):
            return self.scalar_same(a, b)
        d = abs(a - b)
        if not isinstance(d, Sym):
            return d <= atol
        s = abs(b) if isinstance(b, Sym) else abs(b)
        return d <= atol + rtol * s

    def root(self, k):
        from .cplx import surd

        return surd(k)

    def polyeq(self, a, b):
        """equality of two polynomial expressions of exact reals (tolerance when replayed with floats)"""
        d = expanded(rterm(a) - rterm(b))
        r = z3.simplify(d == 0)
        if not z3.is_true(r) and not z3.is_false(r):
            t = z3.RealVal('1/1000000') * (1 + z3.If(rterm(b) >= 0, rterm(b), -rterm(b)))
            core.eng().relax.append((r, z3.And(d <= t, d >= -t)))
        return mkbool(r)

    def polyclose(self, a, b, tol):
        """two polynomial expressions differ by at most tol (the difference is expanded first)"""
        d = expanded(rterm(a) - rterm(b))
        t = z3.RealVal(Fraction(tol))
        return mkbool(z3.And(d <= t, d >= -t))

    def angle_is(self, v, im, s, re):
        """is v the argument of re + i sqrt(s) im?"""
        from .cplx import SymAngle, surd

        im = surd(s) * im if s != 1 else im
        if not isinstance(v, SymAngle):
            return False if isinstance(v, Sym) else self.And(*[self.polyeq(im * math.cos(v), re * math.sin(v))])
        for n in (1, 2, 3, 4, 5, 6, 8, 9, 12, 16):
            for c in (Fraction(1, n), surd(n) * Fraction(1, n)) if n in (2, 3, 5, 6) else (Fraction(1, n),):
                if self.polyeq(v.im, im * c) is True and self.polyeq(v.re, re * c) is True:
                    return True
        return self.And(self.polyeq(v.im * re, im * v.re), v.im * im + v.re * re >= 0, self.Implies(self.And(v.im == 0, v.re == 0), self.And(im == 0, re == 0)))

    # files
    def path(self, name):
        return '/vfs/' + name

    def put_file(self, name, data):
        f = vfs.File(vfs.bytesx.cells_of(data))
        self.fs.files[self.fs.key(name)] = f

    def copy(self, src, dst):
        f = self.fs.files[self.fs.key(dst)] = copy.copy(self.fs.files[self.fs.key(src)])
        if isinstance(f, vfs.File):
            f.cells = list(f.cells)

    def get_file(self, name):
        return vfs.bytesx.SymBytes.make(list(self.fs.files[self.fs.key(name)].cells))

    def get_text(self, name):
        """contents of a text file without symbolic values"""
        return bytes(self.fs.files[self.fs.key(name)].cells).decode()

    def put_text(self, name, lines, pad=('', ' ', '')):
        """lines: list of lists of tokens (str, int, float, symbolic numbers), between blanks (before, between, after)"""
        a, b, c = pad
        f = vfs.File()
        out = []
        for line in lines:
            if isinstance(line, str):
                out.append(line + '\n')
                continue
            if any(isinstance(t, Sym) for t in line):
                from .values import SymStr

                out.append(vfs.SymLine([t if isinstance(t, str) else SymStr(t) if isinstance(t, Sym) else repr(t) for t in line], pad))
            else:
                out.append(a + b.join(t if isinstance(t, str) else repr(t) for t in line) + c + '\n')
        f.text = out
        self.fs.files[self.fs.key(name)] = f

    def truncate(self, name, length):
        f = self.fs.files[self.fs.key(name)]
        if isinstance(length, Sym):
            f.slen = length
        else:
            del f.cells[length:]

    def exists(self, name):
        r = self.fs.exists(name)
        return r

    def set_exists(self, name, cond):
        """file whose existence is symbolic (contents unknown)"""
        if conc(cond):
            if cond:
                self.fs.files[self.fs.key(name)] = vfs.File([1, 2, 3])
        else:
            self.fs.symexists[self.fs.key(name)] = cond

    def written(self, name):
        """was this path opened for writing, renamed to or removed since it was set up?"""
        return any(k == self.fs.key(name) for _, k in self.fs.writes)

    def num(self, x):
        """text of a number, for command line arguments"""
        if not isinstance(x, Sym):
            return number_text(x)
        return loader.number_text(x)

    def record_plots(self):
        """figures saved from now on can be asked for"""

    def figure(self, name):
        """what a saved figure shows: list of axes (maps, xlabel, ylabel), or None"""
        f = self.fs.files.get(self.fs.key(name))
        return f.obj if f is not None and isinstance(f.obj, list) else None

    def listdir(self):
        """names of the files"""
        return sorted(k.rsplit('/', 1)[-1] for k in self.fs.files)

    def clock(self, t):
        """from now on the clocks show t"""
        self.mods.std['time']._now = t

    def capture_log(self):
        """messages are recorded from now on (call it before loading modules): list of (level, text)"""
        loader.MESSAGES = []
        return loader.MESSAGES

    def mkdir(self, name):
        self.fs.dirs.add(self.fs.key(name))

    def protect(self, *names):
        """from now on, writing or removing these files is detected by intact()"""
        for n in names:
            self.guard[self.fs.key(n)] = len(self.fs.writes)

    def intact(self, name):
        k = self.fs.key(name)
        return not any(q == k for _, q in self.fs.writes[self.guard[k]:])


def model_value(m, v, kind):
    r = m.eval(v, model_completion=True)
    if kind == 'int':
        return r.as_long()
    if kind == 'bool':
        return z3.is_true(r)
    if kind == 'f64':
        return {'bits': r.as_long()}
    if kind == 'real':
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return {'frac': [str(r.numerator_as_long()), str(r.denominator_as_long())]}
    raise AssertionError(kind)


def dec_value(x):
    if isinstance(x, dict):
        if 'bits' in x:
            return struct.unpack('>d', struct.pack('>Q', x['bits']))[0]
        return float(Fraction(int(x['frac'][0]), int(x['frac'][1])))
    return x


def number_text(x):
    return str(x) if isinstance(x, (int, np.integer)) else np.format_float_positional(x, trim='0')


def text(t):
    return repr(t.item() if isinstance(t, np.generic) else t)


class ConcWorld(WorldBase):
    symbolic = False

    def __init__(self, cfg, values, argv=('cfd',)):
        self.cfg = cfg
        self.values = values
        self.np = np
        self.struct = struct
        self.failures = []
        self.observed = []
        self.dir = tempfile.mkdtemp(prefix='symx_')
        self.before = {}
        self.guard = {}
        self.messages = None
        self.oldtime = None
        self.oldcwd = None
        self.endplots = None

    def __enter__(self):
        self.oldcwd = os.getcwd()
        os.chdir(self.dir)
        self.oldargv = sys.argv
        sys.argv = ['cfd']
        for n in [n for n in sys.modules if n == 'cfdtools' or n.startswith('cfdtools.')]:
            del sys.modules[n]
        return self

    def __exit__(self, *a):
        os.chdir(self.oldcwd)
        sys.argv = self.oldargv
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.endplots is not None:
            self.endplots()
        if self.oldtime is not None:
            for n, f in self.oldtime.items():
                setattr(time, n, f)
        lg = logging.getLogger('cfdtools')
        lg.propagate = True
        for h in list(lg.handlers):
            lg.removeHandler(h)

    def argv(self, argv):
        sys.argv = list(argv)

    def fresh(self, first=None):
        for n in [n for n in sys.modules if n == 'cfdtools' or n.startswith('cfdtools.')]:
            del sys.modules[n]
        if first:
            if loader.REPO not in sys.path:
                sys.path.insert(0, loader.REPO)
            importlib.import_module(first)

    def record_plots(self):
        from . import stub_plot

        self.figs, self.endplots = stub_plot.record()

    def figure(self, name):
        return self.figs.get(os.path.abspath(name))

    def listdir(self):
        return sorted(os.listdir(self.dir))

    def clock(self, t):
        if self.oldtime is None:
            self.oldtime = {n: getattr(time, n) for n in ('perf_counter', 'monotonic', 'time')}
            for n in self.oldtime:
                setattr(time, n, lambda: self.now)
        self.now = t

    def capture_log(self):
        loader.TEXTS.clear()
        self.messages = msgs = []

        class H(logging.Handler):
            def emit(self, record):
                msgs.append((record.levelname.lower(), record.getMessage()))

        lg = logging.getLogger('cfdtools')
        lg.propagate = False
        lg.addHandler(H())
        import builtins

        builtins.print = lambda *a, sep=' ', **k: msgs.append(('print', sep.join(str(x) for x in a)))
        return msgs

    def mod(self, name):
        if loader.REPO not in sys.path:
            sys.path.insert(0, loader.REPO)
        importlib.import_module('cfdtools')
        logging.getLogger('cfdtools').setLevel(logging.CRITICAL + 10 if self.messages is None else logging.DEBUG)
        if 'cfdtools.meshbase' not in sys.modules:
            importlib.import_module('cfdtools.meshbase')
        return importlib.import_module(name)

    @property
    def h5(self):
        return importlib.import_module('h5py')

    @property
    def pv(self):
        return importlib.import_module('pyvista')

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return int(self.values.get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.values.get(name, False))

    def f64(self, name):
        return dec_value(self.values.get(name, 0.0))

    def real(self, name, lo=None, hi=None):
        return dec_value(self.values.get(name, 0.0 if lo is None else lo))

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def check(self, c, msg):
        if not bool(c):
            self.failures.append(msg)

    def cover(self, msg):
        pass

    def observe(self, label, value):
        self.observed.append((label, self.plain(value)))

    def scalar_same(self, a, b):
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
            return f2bits(a) == f2bits(b) or (math.isnan(a) and math.isnan(b))
        return bool(a == b)

    def scalar_close(self, a, b, rtol, atol):
        return bool(abs(a - b) <= atol + rtol * abs(b)) or a == b

    def polyeq(self, a, b):
        return bool(abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))

    def polyclose(self, a, b, tol):
        return bool(abs(a - b) <= tol)

    def angle_is(self, v, im, s, re):
        im = im * math.sqrt(s)
        m = math.hypot(re, im)
        return m < 1e-6 or abs(math.cos(v) * m - re) + abs(math.sin(v) * m - im) <= 1e-7 * max(1, m)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put_file(self, name, data):
        with open(name, 'wb') as f:
            f.write(data)

    def copy(self, src, dst):
        with open(src, 'rb') as f, open(dst, 'wb') as g:
            g.write(f.read())

    def get_file(self, name):
        with open(name, 'rb') as f:
            return f.read()

    def get_text(self, name):
        with open(name) as f:
            return f.read()

    def put_text(self, name, lines, pad=('', ' ', '')):
        a, b, c = pad
        with open(name, 'w') as f:
            for line in lines:
                f.write(line if isinstance(line, str) else a + b.join(t if isinstance(t, str) else text(t) for t in line) + c)
                f.write('\n')

    def truncate(self, name, length):
        with open(name, 'r+b') as f:
            f.truncate(int(length))

    def exists(self, name):
        return os.path.exists(name)

    def set_exists(self, name, cond):
        if cond:
            with open(name, 'wb') as f:
                f.write(b'\x01\x02\x03')
            self.before[name] = b'\x01\x02\x03'

    def written(self, name):
        if name not in self.before:
            return os.path.exists(name)
        if not os.path.exists(name):
            return True
        with open(name, 'rb') as f:
            return f.read() != self.before[name]

    def num(self, x):
        return number_text(x)

    def mkdir(self, name):
        os.makedirs(name, exist_ok=True)

    def protect(self, *names):
        for n in names:
            self.guard[n] = state(n)

    def intact(self, name):
        return self.guard[name] is None or state(name) == self.guard[name]


def state(name):
    if not os.path.isfile(name):
        return None
    with open(name, 'rb') as f:
        return f.read(), os.stat(name).st_ino


@contextlib.contextmanager
def quiet():
    """silence the code under test (python level only)"""
    o, e = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def unexpected(e):
    """is this exception of the check due to the values it was given (and not to names that are gone)?"""
    m = str(e)
    if isinstance(e, AttributeError):
        return "'NoneType' object has no attribute" in m
    if isinstance(e, TypeError):
        return not any(x in m for x in ('keyword argument', 'positional argument', 'takes no arguments'))
    return isinstance(e, (LookupError, ValueError, ArithmeticError, StopIteration, OSError))


def run_concrete(fn, cfg, values):
    """-> (list of failures, exception text or None, observed)"""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with quiet():
            with ConcWorld(cfg, values) as w:
                exc = None
                try:
                    fn(w, **cfg)
                except Skip:
                    return ['__skip__'], None, []
                except (Exception, SystemExit) as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    inrepo = [f for f in tb if f.filename.startswith(os.path.join(loader.REPO, 'cfdtools'))]
                    where = f" at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].lineno}" if inrepo else ''
                    exc = f"{type(e).__name__}: {str(e)[:200]}{where}"
                    if not inrepo and unexpected(e):
                        exc = f"results of an unexpected form: {exc} (line {tb[-1].lineno} of {os.path.basename(tb[-1].filename)})"
                    elif not inrepo:
                        exc = 'HARNESS ' + exc + ''.join(traceback.format_tb(e.__traceback__)[-2:])
                return list(w.failures), exc, w.observed
