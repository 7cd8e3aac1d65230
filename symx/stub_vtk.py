"""Contract models of the parts of pyvista / scipy.spatial used by cfdtools; replays run on the real libraries."""
import enum
import itertools
import types

import numpy as np
import z3

from . import array, containers, vfs
from .array import SymArray, arr, base, mk
from .core import Unsupported, eng
from .values import Sym, SymBool, SymInt, SymReal, conc, mkbool, mkreal, rterm, sand


class CellType(enum.IntEnum):
    EMPTY_CELL = 0
    VERTEX = 1
    POLY_VERTEX = 2
    LINE = 3
    POLY_LINE = 4
    TRIANGLE = 5
    TRIANGLE_STRIP = 6
    POLYGON = 7
    PIXEL = 8
    QUAD = 9
    TETRA = 10
    VOXEL = 11
    HEXAHEDRON = 12
    WEDGE = 13
    PYRAMID = 14


NPTS = {1: 1, 3: 2, 5: 3, 9: 4, 10: 4, 12: 8, 13: 6, 14: 5}
# weights of the cell points at the parametric centre used by vtkCellCenters
from fractions import Fraction as Fr

CENTRE = {t: [Fr(1, n)] * n for t, n in NPTS.items()}
CENTRE[14] = [Fr(36, 125), Fr(24, 125), Fr(16, 125), Fr(24, 125), Fr(1, 5)]


class DataSetAttributes:
    """pyvista cell_data / point_data / field_data"""

    def __init__(self, n, what):
        self._n, self._what = n, what
        self._d = {}

    def __setitem__(self, k, v):
        if not isinstance(k, str) or not k:
            raise ValueError("Empty string is not a valid key" if k == '' else "Only string keys")
        if v is None:
            raise TypeError("``data`` cannot be None.")
        v = array.NumpyFacade().asarray(v)
        if isinstance(v, np.ndarray) and not v.flags.c_contiguous:  # contiguous data are shared with the caller
            v = v.copy()
        if self._n is not None:
            if v.ndim == 0:
                v = array.NumpyFacade().full(self._n, v[()])
            if v.shape[0] != self._n:
                raise ValueError(f"Invalid array shape. Array has length ({v.shape[0]}) but a length of ({self._n}) was expected.")
            if v.ndim > 2:
                raise ValueError('Array shape is not supported') if v.ndim > 3 else Unsupported("matrix valued vtk data")
        elif v.ndim == 0:
            v = v.reshape(1)
        self._d[k] = v

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise TypeError("Only string keys")
        if k not in self._d:
            raise KeyError(k)
        return self._d[k]

    def get(self, k, default=None):
        return self._d.get(k, default)

    def keys(self):
        return list(self._d)

    def values(self):
        return list(self._d.values())

    def items(self):
        return list(self._d.items())

    def __iter__(self):
        return iter(list(self._d))

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def pop(self, k, *d):
        return self._d.pop(k, *d)

    def update(self, o):
        for k, v in o.items():
            self[k] = v

    def clear(self):
        self._d.clear()

    def set_array(self, data, name):
        self[name] = data


class PolyData:
    def __init__(self, points):
        self.points = points
        self.n_points = points.shape[0]


def inrange_ids(ids, npts, what):
    for v in base(ids).reshape(-1):
        if bool(v < 0) or bool(v >= npts):
            raise ValueError(f"Non-valid index given for cells of type {what}")


class UnstructuredGrid:
    DATA_TYPE_NAME = 'UnstructuredGrid'

    def __init__(self, *args, deep=False, **k):
        np_ = array.NumpyFacade()
        if len(args) == 0:
            cells, ctypes, points = [], [], np_.zeros((0, 3))
        elif len(args) == 1 and isinstance(args[0], (str, vfs.SymPath)):
            g = read(args[0])
            self.__dict__.update(g.__dict__)
            return
        elif len(args) == 2 and isinstance(args[0], dict):
            d, points = args
            points = np_.array(points)
            cells, ctypes = [], []
            if not d:
                raise ValueError("need at least one array to concatenate")
            for key, conn in d.items():
                t = int(CellType(int(key)))
                if t not in NPTS:
                    raise Unsupported(f"vtk cell type {t}")
                conn = arr(conn)
                if conn.dtype.kind not in 'iu':
                    raise TypeError("cells must be an integer array")
                if conn.ndim != 2 or conn.shape[-1] != NPTS[t]:
                    raise ValueError(f"Expected an np.ndarray of size [N, {NPTS[t]}] with an integral type")
                inrange_ids(conn, points.shape[0], t)
                for row in base(conn):
                    cells.append(list(row))
                    ctypes.append(t)
        elif len(args) == 3:
            flat, ct, points = args
            points = np_.array(points)
            flat = base(arr(flat)).reshape(-1)
            ct = base(arr(ct)).reshape(-1)
            cells, ctypes = [], []
            i = 0
            while i < flat.size:
                n = int(flat[i])
                if n < 0 or i + 1 + n > flat.size:
                    raise ValueError("Cell array size is invalid.")
                cells.append(list(flat[i + 1:i + 1 + n]))
                i += n + 1
            ctypes = [int(t) for t in ct]
            if len(ctypes) != len(cells):
                raise ValueError("Number of cell types must match number of cells")
        else:
            raise TypeError("Invalid arguments for UnstructuredGrid")
        points = arr(points)
        if points.ndim != 2 or points.shape[1] != 3:
            if points.ndim == 1 and points.shape[0] == 3:
                points = points.reshape(1, 3)
            else:
                raise ValueError("points array must have shape (n, 3)")
        if points.dtype.kind in 'iu':
            points = points.astype(np.float32)
        self.points = points
        self._cells = cells
        self._types = ctypes
        self.cell_data = DataSetAttributes(len(cells), 'cell')
        self.point_data = DataSetAttributes(points.shape[0], 'point')
        self.field_data = DataSetAttributes(None, 'field')

    # geometry
    @property
    def n_cells(self):
        return len(self._cells)

    number_of_cells = n_cells

    @property
    def n_points(self):
        return self.points.shape[0]

    number_of_points = n_points

    @property
    def cells(self):
        out = []
        for c in self._cells:
            out += [len(c)] + c
        return array.NumpyFacade().array(out, dtype=np.int64)

    @property
    def cell_connectivity(self):
        return array.NumpyFacade().array([v for c in self._cells for v in c], dtype=np.int64)

    @property
    def celltypes(self):
        return array.NumpyFacade().array(self._types, dtype=np.uint8)

    @property
    def offset(self):
        o = [0]
        for c in self._cells:
            o.append(o[-1] + len(c))
        return array.NumpyFacade().array(o, dtype=np.int64)

    cell_offsets = offset

    @property
    def cells_dict(self):
        out = {}
        for t in sorted(set(self._types)):
            out[np.uint8(t)] = array.NumpyFacade().array([c for c, u in zip(self._cells, self._types) if u == t], dtype=np.int64)
        return out

    @property
    def bounds(self):
        P = array.NumpyFacade()
        return tuple(f(self.points[:, k]) for k in range(3) for f in (P.min, P.max))

    def _centre(self, i):
        t = self._types[i]
        if t not in CENTRE:
            raise Unsupported(f"centre of vtk cell type {t}")
        w = CENTRE[t]
        r = []
        for k in range(3):
            acc = 0
            for j, n in enumerate(self._cells[i]):
                x = self.points[n, k]
                acc = acc + x * (w[j] if isinstance(x, Sym) else float(w[j]))
            r.append(acc)
        return r

    def cell_centers(self, vertex=True):
        rows = [self._centre(i) for i in range(self.n_cells)]
        return PolyData(array.NumpyFacade().array(rows, dtype=float).reshape(-1, 3))

    def compute_cell_sizes(self, *a, **k):
        g = self.copy()
        # the size of a tetrahedron is computed, that of another cell is some function of its points
        vol = []
        for t, c in zip(self._types, self._cells):
            p = [[self.points[int(k), j] for j in range(3)] for k in c]
            if int(t) == 10:
                a, b, d = [[p[k][j] - p[0][j] for j in range(3)] for k in (1, 2, 3)]
                v = (a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0])) / 6
                vol.append(abs(v))
                continue
            z = [u.t if isinstance(u, Sym) else z3.RealVal(repr(float(u))) for q in p for u in q]
            f = z3.Function(f"vtk_volume{int(t)}_{len(z)}" + ''.join('b' if z3.is_bv(u) else 'r' for u in z), *[u.sort() for u in z], z3.RealSort())
            vol.append(SymReal(f(*z)))
        g.cell_data['Volume'] = array.NumpyFacade().array(vol, dtype=float)
        return g

    def copy(self, deep=True):
        g = UnstructuredGrid.__new__(UnstructuredGrid)
        g.points = self.points.copy()
        g._cells = [list(c) for c in self._cells]
        g._types = list(self._types)
        for nm in ('cell_data', 'point_data', 'field_data'):
            src = getattr(self, nm)
            d = DataSetAttributes(src._n, src._what)
            for k, v in src._d.items():
                d._d[k] = v.copy()
            setattr(g, nm, d)
        return g

    def save(self, filename, binary=True, **k):
        fs = vfs.FS
        key = fs.key(filename)
        ext = '.' + key.rsplit('.', 1)[-1] if '.' in key.rsplit('/', 1)[-1] else ''
        if ext not in ('.vtu', '.vtk'):
            raise ValueError(f"Invalid file extension {ext!r}. Must be one of: ['.vtk', '.vtu']")
        fs.writes.append(('w', key))
        f = vfs.File()
        f.obj = self.copy()
        fs.files[key] = f

    def __bool__(self):
        return True


def read(filename, *a, **k):
    fs = vfs.FS
    key = fs.key(filename)
    if key not in fs.files:
        raise FileNotFoundError(f"File ({filename}) not found")
    f = fs.files[key]
    if not isinstance(f.obj, UnstructuredGrid):
        raise Unsupported("vtk file of unknown contents")
    return f.obj.copy()


class KDTree:
    """nearest neighbour by its definition (ties broken towards any of the nearest points)"""

    def __init__(self, data, *a, **k):
        self.data = arr(data)
        self.n, self.m = self.data.shape

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1):
        if k != 1 or p not in (1, 2, np.inf) or eps:
            raise Unsupported("KDTree.query options")
        np_ = array.NumpyFacade()
        x = arr(x)
        single = x.ndim == 1
        q = x.reshape(-1, self.m)
        ds, ix = [], []
        e = eng()
        rows, pts = base(q), base(self.data)
        if not any(isinstance(v, Sym) for r in itertools.chain(rows, pts) for v in r):
            # given numbers: the nearest of them, the first one of several
            import scipy.spatial
            d, i = scipy.spatial.KDTree(np.array(pts, dtype=float)).query(np.array(rows, dtype=float), p=p)
            return (arr(d)[0], arr(i)[0]) if single else (arr(d), arr(i))
        for row in rows:
            dl = [[a - b for a, b in zip(row, pt)] for pt in base(self.data)]
            free = [k for k in range(self.m) if any(isinstance(v[k], Sym) or v[k] != 0 for v in dl)]
            line = len(free) == 1  # all the differences are along one axis: distances are absolute values
            line = line or p != 2
            if p == 2 and line:
                d2 = [abs(v[free[0]]) for v in dl]
            elif p == 1:
                d2 = [sum([abs(v) for v in vs], 0) for vs in dl]
            elif line:
                d2 = [np_.max(np_.array([abs(v) for v in vs])) for vs in dl]
            else:
                d2 = [sum([v * v for v in vs], 0) for vs in dl]
            j = 0
            # fork on the (first) nearest point
            for c in range(self.n):
                near = sand(*[d2[c] <= d2[o] if o > c else d2[c] < d2[o] for o in range(self.n) if o != c])
                if c == self.n - 1 or bool(near):
                    j = c
                    break
            v = d2[j]
            if line:
                d = v
            elif isinstance(v, Sym):
                if bool(v == 0):
                    d = 0.0
                else:
                    dv = z3.Real(e.fresh('kd'))
                    e.assume(z3.And(dv > 0, dv * dv == rterm(v)))
                    d = SymReal(dv)
            else:
                d = float(v) ** 0.5
            ds.append(d)
            ix.append(j)
        if single:
            return ds[0], ix[0]
        return np_.array(ds, dtype=float), np_.array(ix, dtype=np.int64)


def make_module():
    m = types.ModuleType('pyvista')
    m.CellType = CellType
    m.UnstructuredGrid = UnstructuredGrid
    m.read = read
    m.PolyData = PolyData
    return m


def make_vtk_module():
    m = types.ModuleType('vtk')
    for t in CellType:
        setattr(m, 'VTK_' + t.name, int(t))
    return m


def make_spatial_module():
    m = types.ModuleType('scipy.spatial')
    m.KDTree = KDTree
    m.cKDTree = KDTree
    return m
