"""Contract model of h5py (an in-memory tree); counterexamples and witnesses are replayed on the real h5py."""
import os as _os
import types

import numpy as np
import z3

from . import array, vfs
from .array import SymArray, base, mk
from .core import Unsupported, eng
from .values import Sym, SymBool, SymF64, SymInt, SymReal, conc, ite, smax, smin


class Node:
    def __init__(self):
        self.attrs = {}


class GNode(Node):
    def __init__(self):
        super().__init__()
        self.kids = {}


class DNode(Node):
    def __init__(self, value):
        super().__init__()
        self.value = value


def _str(k):
    if isinstance(k, bytes):
        return k.decode()
    if isinstance(k, str):
        return str(k)
    raise TypeError(f"Accessing a group is done with bytes or str, not {type(k)}")


def hconv(v, ld):
    """HDF5 numeric conversion (integers saturate)"""
    if ld.kind in 'iu':
        info = np.iinfo(ld)
        if isinstance(v, SymInt):
            if ld.itemsize == 8 and ld.kind == 'i':
                return v
            return smax(info.min, smin(info.max, v))
        if isinstance(v, SymBool):
            return v._asint()
        if conc(v):
            return int(min(max(int(v), info.min), info.max))
    return array.cast(v, ld)


def store(data, dtype, np_):
    """value stored by create_dataset"""
    if isinstance(data, dict):
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(data, Dataset):
        data = data[()]
    if dtype is not None and not isinstance(dtype, np.dtype):
        dtype = np.dtype(dtype)
    if dtype is not None and dtype.kind == 'S':
        flat = [x.encode('ascii') if isinstance(x, str) else x for x in (data if not isinstance(data, (str, bytes)) else [data])]
        if any(isinstance(x, Sym) for x in flat):
            raise Unsupported("symbolic strings in hdf5")
        return np.array(flat, dtype=dtype)
    if isinstance(data, (str, bytes)):
        return data
    a = np_.array(data)
    if not isinstance(a, np.ndarray):
        raise Unsupported("dataset of this type")
    if not isinstance(data, np.ndarray) and dtype is not None and dtype.kind in 'iu' and type(a) is SymArray:
        info = np.iinfo(dtype)
        for v in base(a).reshape(-1):
            if isinstance(v, (int, SymInt)) and not (bool(v >= info.min) and bool(v <= info.max)):
                raise OverflowError("Python integer out of bounds")
    a = array.arr(a)
    if type(a) is not SymArray:
        if a.dtype.kind in 'US':
            if a.dtype.kind == 'U' and dtype is None:
                raise TypeError(f"No conversion path for dtype: {a.dtype!r}")
            return a.copy()
        raise TypeError(f"Object dtype {a.dtype!r} has no native HDF5 equivalent")
    if a.dtype.kind == 'O':
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if dtype is not None and dtype != a.dtype:
        o = np.empty(a.shape, dtype=object)
        of, af = o.reshape(-1), base(a).reshape(-1)
        for i in range(af.size):
            of[i] = hconv(af[i], dtype)
        a = mk(of.reshape(a.shape), dtype)
    else:
        a = a.copy()
    return a


class Attrs:
    def __init__(self, owner):
        self._o = owner

    @property
    def _d(self):
        self._o._alive()
        return self._o._n.attrs

    def __getitem__(self, k):
        d = self._d
        if k not in d:
            raise KeyError(f"Can't open attribute (can't locate attribute: '{k}')")
        return d[k]

    def __setitem__(self, k, v):
        d = self._d
        self._o._writable()
        if isinstance(v, dict) or v is None:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        if isinstance(v, (list, tuple)):
            v = array.NumpyFacade().array(v)
        if isinstance(v, np.ndarray):
            v = v.copy()
        elif isinstance(v, bool):
            v = np.bool_(v)
        elif isinstance(v, int):
            if not -(2**63) <= v < 2**63:
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        d[k] = v

    def get(self, k, default=None):
        return self._d.get(k, default)

    def update(self, other=(), **k):
        for a, b in dict(other, **k).items():
            self[a] = b

    def __contains__(self, k):
        return k in self._d

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self._d[k]) for k in self.keys()]

    def values(self):
        return [self._d[k] for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._d)

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    def pop(self, k, *d):
        return self._d.pop(k, *d)

    def __delitem__(self, k):
        del self._d[k]


class HLObject:
    def __init__(self, file, node, name):
        self._f, self._n, self._name = file, node, name

    def _alive(self):
        if self._f._closed:
            raise ValueError("Invalid location identifier (invalid location identifier)")

    def _writable(self):
        if self._f._ro:
            raise ValueError("Unable to create (no write intent on file)")

    @property
    def attrs(self):
        return Attrs(self)

    @property
    def name(self):
        return self._name

    @property
    def file(self):
        return self._f

    def __bool__(self):
        return not self._f._closed

    def __eq__(self, o):
        return isinstance(o, HLObject) and o._n is self._n

    def __hash__(self):
        return id(self._n)


class Dataset(HLObject):
    @property
    def _v(self):
        self._alive()
        return self._n.value

    @property
    def shape(self):
        return self._v.shape if isinstance(self._v, np.ndarray) else ()

    @property
    def dtype(self):
        return self._v.dtype if isinstance(self._v, np.ndarray) else np.dtype(object)

    @property
    def size(self):
        return self._v.size

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError("Attempt to take len() of scalar dataset")
        return self.shape[0]

    def __getitem__(self, k):
        v = self._v
        if not isinstance(v, np.ndarray):
            return v.encode() if isinstance(v, str) else v
        if isinstance(k, tuple) and k == ():
            return v.copy() if v.ndim else v[()]
        if isinstance(k, (list, np.ndarray)) and len(np.shape(k)) == 1:
            ks = list(k)
            if any(not isinstance(i, Sym) for i in ks) and sorted(ks) != ks:
                raise TypeError("Indexing elements must be in increasing order")
        r = v[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, val):
        self._writable()
        self._v[k] = val

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, t):
        class _A:
            def __getitem__(s, k):
                return self[k].astype(t)

        return _A()

    def asstr(self, *a, **k):
        class _A:
            def __getitem__(s, k):
                r = self[k]
                if isinstance(r, bytes):
                    return r.decode()
                return np.array([x.decode() for x in r], dtype=object)

        return _A()

    def __sx_array__(self):
        return self[()]


class Group(HLObject):
    def _walk(self, name, create=False):
        self._alive()
        name = _str(name)
        n = self._f._root if name.startswith('/') else self._n
        full = '' if name.startswith('/') else self._name.rstrip('/')
        for p in [p for p in name.split('/') if p and p != '.']:
            if not isinstance(n, GNode):
                raise KeyError(f"Unable to synchronously open object ({p})")
            if p not in n.kids:
                if not create:
                    raise KeyError(f"Unable to synchronously open object (object '{p}' doesn't exist)")
                n.kids[p] = GNode()
            n = n.kids[p]
            full += '/' + p
        return n, full or '/'

    def _obj(self, n, full):
        return Group(self._f, n, full) if isinstance(n, GNode) else Dataset(self._f, n, full)

    def __getitem__(self, name):
        return self._obj(*self._walk(name))

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __contains__(self, name):
        try:
            self._walk(name)
            return True
        except KeyError:
            return False

    def get(self, name, default=None):
        try:
            return self[name]
        except KeyError:
            return default

    def keys(self):
        self._alive()
        return Keys(sorted(self._n.kids, key=lambda s: s.encode()))

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __len__(self):
        return len(self._n.kids)

    def _place(self, name, node):
        self._alive()
        self._writable()
        name = _str(name)
        parts = [p for p in name.split('/') if p and p != '.']
        if not parts:
            raise ValueError("Unable to synchronously create group (name already exists)")
        head = '/'.join(parts[:-1])
        n, full = self._walk(('/' if name.startswith('/') else '') + head, create=True) if head or name.startswith('/') else (self._n, self._name.rstrip('/'))
        if not isinstance(n, GNode) or parts[-1] in n.kids:
            raise ValueError("Unable to create (name already exists)")
        n.kids[parts[-1]] = node
        return self._obj(node, full.rstrip('/') + '/' + parts[-1])

    def create_group(self, name, track_order=None):
        return self._place(name, GNode())

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **opts):
        unknown = set(opts) - {'chunks', 'compression', 'compression_opts', 'shuffle', 'fletcher32', 'maxshape', 'track_times',
                               'fillvalue', 'scaleoffset', 'track_order'}
        if unknown:
            raise TypeError(f"unexpected keyword {sorted(unknown)}")
        np_ = self._f._np
        if data is None:
            if shape is None:
                raise TypeError("One of data, shape or dtype must be specified")
            data = np_.zeros(shape, dtype=dtype or 'f4')
        v = store(data, dtype, np_)
        if isinstance(v, np.ndarray) and v.ndim == 0 and any(o in opts for o in ('chunks', 'compression')) :
            raise TypeError("Scalar datasets don't support chunk/filter options")
        if shape is not None:
            shape = (shape,) if not isinstance(shape, (tuple, list)) else tuple(shape)
            shape = tuple(int(s) for s in shape)
            size = v.size if isinstance(v, np.ndarray) else 1
            n = 1
            for s in shape:
                n *= s
            if n != size:
                raise ValueError("Shape tuple is incompatible with data")
            v = v.reshape(shape)
        return self._place(name, DNode(v))

    def __delitem__(self, name):
        self._writable()
        del self._n.kids[_str(name)]


class Keys(list):
    def __repr__(self):
        return f"<KeysViewHDF5 {list(self)}>"


class File(Group):
    def __init__(self, name, mode='r', **k):
        self._closed = True
        fs = vfs.FS
        key = fs.key(name)
        self._np = array.NumpyFacade()
        self.filename = str(name)
        self.mode = mode
        if mode not in ('r', 'r+', 'w', 'w-', 'x', 'a'):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        present = fs.exists(name)
        if key in fs.dirs:
            raise IsADirectoryError(21, "Unable to synchronously open file")
        if mode in ('r', 'r+') or (mode == 'a' and bool(present)):
            if not bool(present):
                raise FileNotFoundError(2, "Unable to synchronously open file (unable to open file: No such file or directory)")
            f = fs.files.get(key)
            if f is None:
                raise Unsupported("hdf5 file of unknown contents")
            if not isinstance(f.obj, GNode):
                raise OSError("Unable to synchronously open file (file signature not found)")
            root = f.obj
            if mode != 'r':
                fs.writes.append((mode, key))
        else:
            if mode in ('w-', 'x') and bool(present):
                raise FileExistsError(17, "Unable to synchronously create file (unable to open file)")
            if _os.path.dirname(key) not in fs.dirs:
                raise FileNotFoundError(2, "Unable to synchronously create file")
            f = vfs.File()
            root = f.obj = GNode()
            fs.files[key] = f
            fs.writes.append((mode, key))
        self._root = root
        self._closed = False
        self._ro = mode == 'r'
        super().__init__(self, root, '/')

    def close(self):
        self._closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Version:
    hdf5_version = '1.14.6'
    version = '3.14.0'
    version_tuple = (3, 14, 0, '', '', '')


def string_dtype(encoding='utf-8', length=None):
    if length is None:
        return np.dtype(object)
    return np.dtype(f'S{length}')


def make_module():
    m = types.ModuleType('h5py')
    m.File, m.Group, m.Dataset = File, Group, Dataset
    m.HLObject = HLObject
    m.version = _Version()
    m.__version__ = _Version.version
    m.string_dtype = string_dtype
    m.is_hdf5 = lambda p: isinstance(getattr(vfs.FS.files.get(vfs.FS.key(p)), 'obj', None), GNode)
    return m
