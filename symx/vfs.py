"""In-memory file system used while executing symbolically."""
import builtins
import io
import os as _os
import pathlib

from . import bytesx
from .core import Unsupported, eng
from .values import Sym, SymBool, SymInt, SymStr, conc, sand

FS = None  # current VFS


class VFS:
    def __init__(self):
        self.files = {}  # abs path -> File
        self.dirs = {'/', '/vfs'}
        self.symexists = {}  # path -> SymBool
        self.writes = []  # history of (op, path)

    def key(self, p):
        p = _os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        return _os.path.normpath(_os.path.join('/vfs', p))

    def exists(self, p):
        k = self.key(p)
        if k in self.files or k in self.dirs:
            return True
        if k in self.symexists:
            return self.symexists[k]
        return False


    def entries(self, k, select=lambda n: True):
        """paths in a folder (the existence of symbolic ones is decided)"""
        out = []
        for p in [*self.files, *self.dirs, *self.symexists]:
            if p != k and _os.path.dirname(p) == k and p not in out and select(_os.path.basename(p)):
                if p in self.files or p in self.dirs or bool(self.symexists[p]):
                    out.append(p)
        return out


class File:
    def __init__(self, cells=None):
        self.cells = cells if cells is not None else []
        self.slen = None  # symbolic length: contents visible up to slen
        self.text = None  # list of lines for token text files
        self.obj = None  # payload of structured stubs (hdf5, vtu)


def reset():
    global FS
    FS = VFS()
    return FS


class Handle:
    def __init__(self, path, mode, f):
        self.name = str(path)
        self.mode = mode
        self.f = f
        self.pos = 0
        self.closed = False
        self.binary = 'b' in mode
        self.line = 0
        if 'a' in mode:
            self.pos = len(f.cells)

    # context
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        raise Unsupported("fileno on a virtual file")

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def seek(self, off, whence=0):
        self._alive()
        if isinstance(off, Sym):
            off = int(off)
        off = int(off)
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        else:
            if self.f.slen is not None:
                new = int(self.f.slen) + off
            else:
                new = len(self.f.cells) + off
        if new < 0:
            raise OSError(22, "Invalid argument")
        self.pos = new
        return new

    def tell(self):
        return self.pos

    def _alive(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._alive()
        if 'r' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation("not readable")
        if not self.binary:
            return self._read_text(n)
        if n is None:
            n = -1
        n = int(n)
        total = len(self.f.cells)
        if self.f.slen is None:
            end = total if n < 0 else min(total, self.pos + n)
            out = self.f.cells[self.pos:end]
            self.pos = max(self.pos, end)
            return bytesx.SymBytes.make(out)
        slen = self.f.slen
        if n < 0:
            n = total - self.pos
        if self.pos + n <= total and bool(slen >= self.pos + n):
            out = self.f.cells[self.pos:self.pos + n]
            self.pos += n
            return bytesx.SymBytes.make(out)
        if bool(slen <= self.pos):
            return b''
        avail = self.f.cells[self.pos:min(self.pos + n, total)]
        rem = slen - self.pos
        r = bytesx.SymBytes(avail, rem)
        self.pos += len(avail)  # position past the (symbolic) end: nothing more to read
        self.f_at_end = True
        return r

    def readinto(self, buf):
        if not isinstance(buf, bytesx.SymByteArray):
            raise Unsupported(f"readinto {type(buf).__name__}")
        got = self.read(len(buf.cells))
        n = got.symlen() if isinstance(got, bytesx.SymBytes) else len(got)
        cells = got.cells if isinstance(got, bytesx.SymBytes) else bytesx.cells_of(got)
        if isinstance(n, Sym):
            if not bool(n == len(buf.cells)):
                buf.partial = True  # as many bytes as the (symbolic) length tells: known only when needed
                return n
            n = len(buf.cells)
        buf.cells[:n] = cells[:n]
        return n

    def write(self, data):
        self._alive()
        if 'r' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation("not writable")
        if not self.binary:
            if not isinstance(data, str):
                raise TypeError("write() argument must be str")
            data = data.encode()
        elif isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        cells = bytesx.cells_of(data)
        c = self.f.cells
        if self.pos > len(c):
            c.extend([0] * (self.pos - len(c)))
        c[self.pos:self.pos + len(cells)] = cells
        self.pos += len(cells)
        return len(cells)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, n=None):
        n = self.pos if n is None else int(n)
        del self.f.cells[n:]

    # text -----------------------------------------------------------------------------
    def _lines(self):
        if self.f.text is not None:
            return self.f.text
        return bytes(self.f.cells).decode().splitlines(keepends=True)

    def _read_text(self, n):
        if self.f.text is not None:
            return SymText(self.f.text)
        s = bytes(self.f.cells).decode()
        r = s[self.pos:] if n is None or n < 0 else s[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        self._alive()
        L = self._lines()
        if self.line >= len(L):
            return ''
        self.line += 1
        return L[self.line - 1]

    def readlines(self):
        L = self._lines()[self.line:]
        self.line += len(L)
        return list(L)

    def __iter__(self):
        while True:
            x = self.readline()
            if isinstance(x, str) and x == '':
                return
            yield x


class SymLine:
    """one line of text made of tokens (str or SymStr) separated by blanks"""

    def __init__(self, toks, pad=('', ' ', '')):
        self.toks = list(toks)
        self.pad = pad  # blanks before, between and after the tokens

    def split(self, sep=None, maxsplit=-1):
        if sep not in (None, ' ') or (sep and maxsplit >= 0 and self.pad != ('', ' ', '')):
            raise Unsupported("split of a token line on a separator")
        if sep and self.pad != ('', ' ', ''):
            a, b, c = self.pad
            if set(a + b + c) - {' '}:
                raise Unsupported("split of a token line on a separator")
            out = [''] * len(a)
            for i, t in enumerate(self.toks):
                out += ([''] * (len(b) - 1) if i else []) + [t]
            return out + [''] * len(c)
        if maxsplit is not None and maxsplit >= 0:
            t = self.toks
            if len(t) <= maxsplit:
                return list(t)
            return list(t[:maxsplit]) + [SymLine(t[maxsplit:])]
        return list(self.toks)

    def strip(self, *a):
        return SymLine(self.toks, ('', self.pad[1], '')) if self.pad != ('', ' ', '') else self

    def rstrip(self, *a):
        return SymLine(self.toks, (self.pad[0], self.pad[1], '')) if self.pad[2] else self

    def lstrip(self, *a):
        return SymLine(self.toks, ('', self.pad[1], self.pad[2])) if self.pad[0] else self

    def __iter__(self):
        raise Unsupported("characters of a token line")

    def startswith(self, p):
        t = self.toks[0] if self.toks else ''
        return t.startswith(p) if isinstance(t, str) else False

    def endswith(self, p):
        t = self.toks[-1] if self.toks else ''
        return t.endswith(p) if isinstance(t, str) else False

    def find(self, p, *a):
        for t in self.toks:
            if isinstance(t, str) and p in t:
                return 0
        return -1

    def __contains__(self, p):
        return any(isinstance(t, str) and p in t for t in self.toks)

    def __eq__(self, o):
        if isinstance(o, str):
            if any(isinstance(t, Sym) for t in self.toks):
                return False
            return ' '.join(self.toks) == o.strip()
        if isinstance(o, SymLine):
            return self.toks == o.toks
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of a token line")

    def __len__(self):
        return max(1, len(self.toks))

    def __getitem__(self, k):
        raise Unsupported("character access in a token line")

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f"str.{name} on a token line")


class SymText:
    def __init__(self, lines):
        self.lines = lines

    def splitlines(self, keepends=False):
        return [x if not isinstance(x, str) else x.rstrip('\n') for x in self.lines]

    def split(self, sep=None, maxsplit=-1):
        if sep == '\n':
            return self.splitlines()
        if sep is None:
            return [t for x in self.lines for t in (x.split())]
        raise Unsupported("split of a token text")

    def __getattr__(self, name):
        raise Unsupported(f"str.{name} on a token text")


def sym_open(path, mode='r', *a, **k):
    if isinstance(path, int):
        raise Unsupported("open of a descriptor")
    fs = FS
    key = fs.key(path)
    m = mode.replace('t', '')
    if 'r' in m:
        if key not in fs.files:
            if key in fs.symexists:
                if bool(fs.symexists[key]):
                    raise Unsupported("reading a file of unknown contents")
            raise FileNotFoundError(2, "No such file or directory", str(path))
        return Handle(path, m, fs.files[key])
    if 'x' in m:
        if bool(fs.exists(path)):
            raise FileExistsError(17, "File exists", str(path))
    if _os.path.dirname(key) not in fs.dirs:
        raise FileNotFoundError(2, "No such file or directory", str(path))
    fs.writes.append((m, key))
    if 'w' in m or 'x' in m or key not in fs.files:
        fs.files[key] = File()
    return Handle(path, m, fs.files[key])


class SymPath(pathlib.PurePosixPath):
    """pathlib.Path over the virtual file system"""

    def exists(self, **k):
        return FS.exists(self)

    def is_file(self):
        return FS.exists(self) if FS.key(self) not in FS.dirs else False

    def samefile(self, other):
        return FS.key(self) == FS.key(other)

    def is_dir(self):
        return FS.key(self) in FS.dirs

    def open(self, mode='r', *a, **k):
        return sym_open(self, mode, *a, **k)

    def resolve(self, strict=False):
        return type(self)(FS.key(self))

    def absolute(self):
        return type(self)(FS.key(self))

    @classmethod
    def cwd(cls):
        return cls('/vfs')

    def expanduser(self):
        return self

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        k = FS.key(self)
        if (k in FS.dirs and not exist_ok) or k in FS.files:
            raise FileExistsError(17, "File exists", str(self))
        up = _os.path.dirname(k)
        if up not in FS.dirs:
            if not parents:
                raise FileNotFoundError(2, "No such file or directory", str(self))
            type(self)(up).mkdir(parents=True, exist_ok=True)
        FS.dirs.add(k)

    def unlink(self, missing_ok=False):
        k = FS.key(self)
        FS.writes.append(('unlink', k))
        if k not in FS.files:
            if missing_ok:
                return
            raise FileNotFoundError(2, "No such file or directory", str(self))
        del FS.files[k]

    def rename(self, target):
        k, t = FS.key(self), FS.key(target)
        FS.writes.append(('rename', t))
        FS.writes.append(('rename from', k))
        FS.files[t] = FS.files.pop(k)
        return type(self)(target)

    replace = rename

    def touch(self, *a, **k):
        if not bool(FS.exists(self)):
            sym_open(self, 'w').close()

    def stat(self):
        k = FS.key(self)
        if k not in FS.files:
            raise FileNotFoundError(2, "No such file or directory", str(self))

        class St:
            st_size = len(FS.files[k].cells) if FS.files[k].slen is None else FS.files[k].slen

        return St()

    def read_bytes(self):
        with sym_open(self, 'rb') as f:
            return f.read()

    def write_bytes(self, data):
        with sym_open(self, 'wb') as f:
            return f.write(data)

    def read_text(self, *a, **k):
        with sym_open(self, 'r') as f:
            return f.read()

    def write_text(self, s, *a, **k):
        with sym_open(self, 'w') as f:
            return f.write(s)

    def iterdir(self):
        for p in FS.entries(FS.key(self)):
            yield type(self)(self, _os.path.basename(p))

    def glob(self, pat):
        import fnmatch

        if '/' in pat or '**' in pat:
            raise Unsupported("glob over several folders")
        for p in FS.entries(FS.key(self), lambda n: fnmatch.fnmatchcase(n, pat)):
            yield type(self)(self, _os.path.basename(p))
