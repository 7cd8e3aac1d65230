"""C12: VTK and HDF5 mesh conversions keep nodes and cells; extraction of cells."""
from checks import big as B
from checks.shapes import NN

META = dict(
    bounds="rectangles and boxes of up to 11000 cells with given numbers, a coordinate of picked nodes being any number, <= 4000 cells extracted; otherwise <= 9 nodes, <= 4 cells of <= 3 types in any listed order, <= 4 extracted cells (or all but one of 36 hexahedra with no common node); coordinates are 64 free bits, node and "
           "cell numbers are symbolic",
    outside="cell types with no cfdtools name, cell and point data of the grid (C13), ASCII files",
    assumptions=["pyvista keeps the cells and points it is given through construction, save and read, and h5py its datasets "
                 "(models replayed on the real libraries)"],
    must_reach=["many: file of many cells: cells of a type with their nodes", "extractmany: nodes of many extracted cells are at the same positions", "tovtk: cells of a type with their nodes", "tohdf: cells of a type with their nodes",
                "extract: nodes of the extracted cells are at the same positions"],
)
ALLNN = dict(NN, bar2=2)
VTK = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'hexa8': 12, 'prism6': 13, 'pyra5': 14}


def cells_of(w, types, nnode, sym, stride=1):
    out = []
    for i, t in enumerate(types):
        if i < sym:
            ids = w.ints(f'c{i}', ALLNN[t], 0, nnode - 1)
            w.assume(w.distinct(ids))
        else:
            ids = [(ALLNN[t] * i + k) % nnode for k in range(ALLNN[t])] if stride == 0 else [(i + k) % nnode for k in range(ALLNN[t])] if stride == 1 else [(stride * (2 * i + k + 1)) % nnode for k in range(ALLNN[t])]
        out.append((t, ids))
    return out


def grouped(cells):
    d = {}
    for t, ids in cells:
        d.setdefault(t, []).append(ids)
    return d


def conn_of(w, cells):
    C = w.mod('cfdtools.meshbase._connectivity')
    c = C.elem_connectivity()
    for t, rows in grouped(cells).items():
        c.add_elems(t, w.array(rows))
    return c


def verify(w, m, xyz, cells):
    nnode = len(xyz)
    w.check(w.And(m.nnode == nnode, m.ncell == len(cells)), "mesh sizes")
    w.check(w.same(m.nodescoord(ndarray=True), xyz), "node coordinates kept")
    want = grouped(cells)
    got = {t: w.plain(e['elem2node']) for t, e in m._cell2node.items()}
    w.check(sorted(got) == sorted(want), "types of cells kept")
    for t in want:
        if t in got:
            w.check(len(got[t]) == len(want[t]) and w.same(got[t], want[t]), "cells of a type with their nodes")
    idx = sorted(i for _, e in m._cell2node.items() for i in e['index'].list())
    w.check(w.same(idx, list(range(len(cells)))), "every cell has its own index")


def grid_of(w, xyz, cells):
    flat = [v for t, ids in cells for v in [len(ids)] + list(ids)]
    return w.pv.UnstructuredGrid(w.array(flat), w.np.array([VTK[t] for t, _ in cells], dtype='uint8'), xyz)


def tovtk(w, types, nnode, sym=2, twice=False, ext='.vtu'):
    V = w.mod('cfdtools.vtk._vtk')
    M = w.mod('cfdtools.meshbase._mesh')
    xyz = w.f64array('x', (nnode, 3))
    cells = cells_of(w, types, nnode, sym)
    m = M.Mesh(len(cells), nnode)
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(conn_of(w, cells))
    x0 = w.plain(xyz)
    v = V.vtkMesh(m)
    w.check(w.And(v.ncell == len(cells), v.nnode == nnode), "sizes of the vtk grid")
    verify(w, v.export_mesh(), x0, cells)
    f = w.path('a' + ext)
    v.write_data(f)
    r = V.vtkMesh().read(f)
    m2 = r.export_mesh()
    verify(w, m2, x0, cells)
    if twice:
        g = w.path('b' + ext)
        V.vtkMesh(m2).write_data(g)
        verify(w, V.vtkMesh().read(g).export_mesh(), x0, cells)
    verify(w, m, x0, cells)  # unchanged


def tohdf(w, types, nnode, sym=2, how='pv', opts={}):
    V = w.mod('cfdtools.vtk._vtk')
    H = w.mod('cfdtools.hdf5')
    xyz = w.f64array('x', (nnode, 3))
    cells = cells_of(w, types, nnode, sym)
    x0 = w.plain(xyz)
    if how == 'pv':
        v = V.vtkMesh(pvmesh=grid_of(w, xyz, cells))
    else:
        M = w.mod('cfdtools.meshbase._mesh')
        m = M.Mesh(len(cells), nnode)
        m.set_nodescoord_nd(xyz)
        m.set_cell2node(conn_of(w, cells))
        v = V.vtkMesh(m)
    f = v.dumphdf(w.path('a.hdf'), **opts)
    h = H.h5File(f)
    h.open()
    w.check(h.datatype == 'dataset', "kind of file recorded")
    v2 = V.vtkMesh()
    v2.importhdfgroup(h['/mesh'])
    verify(w, v2.export_mesh(), x0, cells)
    h.close()
    # a second conversion gives the same mesh
    g = v2.dumphdf(w.path('b.hdf'))
    h = H.h5File(g)
    h.open()
    v3 = V.vtkMesh()
    v3.importhdfgroup(h['/mesh'])
    verify(w, v3.export_mesh(), x0, cells)


def rows_of(w, grid):
    """(type, nodes) of each cell of a grid, in order"""
    cells, off, ty = w.plain(grid.cells), w.plain(grid.offset), w.plain(grid.celltypes)
    return [(ty[i], cells[off[i] + i + 1:off[i + 1] + i + 1]) for i in range(len(ty))]


def extract(w, types, nnode, n, sym=2, ids=None, aslist=True, stride=1):
    V = w.mod('cfdtools.vtk._vtk')
    xyz = w.f64array('x', (nnode, 3))
    cells = cells_of(w, types, nnode, sym, stride)
    x0 = w.plain(xyz)
    v = V.vtkMesh(pvmesh=grid_of(w, xyz, cells))
    sel = w.ints('sel', n, 0, len(cells) - 1) if ids is None else ids
    if ids == 'all but one':
        k = w.int('k', 0, len(cells) - 1)
        sel = [j for j in range(len(cells) - 1, -1, -1) if j != k]
    out = V.vtkMesh.vtk_extract_cells(v, list(sel) if aslist else w.array(sel))
    g = out.pyvista_grid
    w.check(w.And(out.ncell == len(sel), g.n_cells == len(sel)), "number of extracted cells")
    got = rows_of(w, g)
    pts = w.plain(g.points)
    for k, s in enumerate(sel):
        c = None
        for j in range(len(cells)):
            if s == j:
                c = cells[j]
        w.check(got[k][0] == VTK[c[0]], "type of the extracted cells in the requested order")
        w.check(len(got[k][1]) == len(c[1]), "number of nodes of the extracted cells")
        pos = [pts[p] for p in got[k][1]]
        want = []
        for nid in c[1]:
            q = x0[nid if isinstance(nid, int) else nnode - 1]
            for j in range(nnode - 1 if not isinstance(nid, int) else 0):
                q = [w.ite(nid == j, x0[j][z], q[z]) for z in range(3)]
            want.append(q)
        w.check(w.same(pos, want), "nodes of the extracted cells are at the same positions")
    # shared nodes stay shared and no other node is left
    flat = [p for _, ids in got for p in ids]
    old = [n for s in sel for n in (cells[int(s)][1])]
    for i in range(len(flat)):
        for j in range(i):
            w.check((flat[i] == flat[j]) == (old[i] == old[j]), "nodes of the extracted cells are shared as before")
    w.check(w.And(*[w.Or(*[p == k for p in flat]) for k in range(g.n_points)]), "no other node is extracted")
    w.check(w.same(v.pyvista_grid.points, x0) and v.ncell == len(cells), "the original grid is unchanged")


def manycells(w, n, split, where, layers=1):
    d = len(n)
    cells, pos, _ = B.rectangle(n, split) if d == 2 else B.box(n, split)
    xyz, x = B.array(w, 'x', (len(pos), 3), [p % len(pos) for p in where], lambda nm: w.f64(nm))
    order = [c for k in range(layers) for c in cells[k::layers]]   # types one after the other or not
    return xyz, x, order


def many(w, n, split=0, where=(), how='vtk', layers=1):
    """many cells kept by the conversions to VTK and HDF5"""
    V, H, M = w.mod('cfdtools.vtk._vtk'), w.mod('cfdtools.hdf5'), w.mod('cfdtools.meshbase._mesh')
    xyz, x, cells = manycells(w, n, split, where, layers)
    m = M.Mesh(len(cells), len(x))
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(B.conn(w, cells))
    if how == 'vtk':
        v = V.vtkMesh(m)
        B.held(w, v.export_mesh(), x, cells, None, "grid of many cells")
        v.write_data(w.path('a.vtu'))
        B.held(w, V.vtkMesh().read(w.path('a.vtu')).export_mesh(), x, cells, None, "file of many cells")
    else:
        v = V.vtkMesh(pvmesh=grid_of(w, xyz, cells)) if how == 'pv' else V.vtkMesh(m)
        f = v.dumphdf(w.path('a.hdf'))
        h = H.h5File(f)
        h.open()
        v = V.vtkMesh()
        v.importhdfgroup(h['/mesh'])
        B.held(w, v.export_mesh(), x, cells, None, "group of many cells")
        h.close()
    if how != 'pv':
        B.held(w, m, x, cells, None, "the mesh itself")


def extractmany(w, n, split=0, where=(), sel=(0, 1, 1)):
    """extraction of cells sel[0], sel[0]+sel[1], ... of many, sel[2] of them"""
    V = w.mod('cfdtools.vtk._vtk')
    xyz, x, cells = manycells(w, n, split, where, 3)
    v = V.vtkMesh(pvmesh=grid_of(w, xyz, cells))
    ids = [(sel[0] + sel[1] * k) % len(cells) for k in range(sel[2])]
    g = V.vtkMesh.vtk_extract_cells(v, list(ids)).pyvista_grid
    got, pts = rows_of(w, g), w.plain(g.points)
    w.check(len(got) == len(ids) and [int(t) for t, _ in got] == [VTK[cells[i][0]] for i in ids], "many cells extracted in the requested order")
    old = {}
    for (_, q), i in zip(got, ids):
        w.check(len(q) == len(cells[i][1]) and all(old.setdefault(int(p), a) == a for p, a in zip(q, cells[i][1])), "nodes of many extracted cells are shared as before")
    w.check(sorted(old) == list(range(g.n_points)) and len(set(old.values())) == len(old), "nodes of many extracted cells are shared as before")
    w.check(w.same([pts[p] for p in sorted(old)], [x[old[p]] for p in sorted(old)]), "nodes of many extracted cells are at the same positions")


def scenarios(tier):
    T = tier == 'thorough'
    mixes = [(['tri3'], 3), (['quad4', 'tri3', 'quad4'], 5), (['hexa8', 'prism6'], 9), (['tetra4', 'pyra5', 'prism6', 'tetra4'], 6),
             (['pyra5', 'hexa8', 'tetra4'], 8), (['bar2', 'bar2'], 3)]
    vt = [dict(types=t, nnode=n, twice=i == 1, sym=4 if T else 2) for i, (t, n) in enumerate(mixes)]
    hd = [dict(types=t, nnode=n, how=h, sym=4 if T else 2) for t, n in mixes for h in ('pv', 'mesh')]
    hd.append(dict(types=['hexa8'], nnode=8, opts={'compression': 'gzip'}))
    ex = [dict(types=['tri3', 'quad4', 'tri3'], nnode=5, n=2, sym=1), dict(types=['quad4', 'tri3', 'tri3', 'quad4'], nnode=6, n=1, sym=0, aslist=False),
          dict(types=['hexa8', 'prism6', 'hexa8'], nnode=9, n=2, sym=0), dict(types=['tetra4', 'pyra5'], nnode=6, n=1, sym=1),
          dict(types=['tri3', 'tri3'], nnode=4, n=3, sym=0), dict(types=['quad4', 'quad4', 'tri3'], nnode=5, n=0, sym=1, ids=[2, 0, 1]),
          dict(types=['tri3', 'quad4', 'tri3'], nnode=41, n=2, sym=0, stride=33), dict(types=['hexa8', 'tetra4', 'hexa8'], nnode=97, n=2, sym=0, stride=40),
          dict(types=['hexa8'] * 36, nnode=290, n=0, sym=0, stride=0, ids='all but one')]
    if T:
        ex += [dict(types=['quad4', 'tri3', 'tri3', 'quad4'], nnode=6, n=3, sym=0), dict(types=['prism6', 'hexa8', 'tetra4'], nnode=9, n=3, sym=0),
               dict(types=['tri3', 'quad4', 'tri3'], nnode=5, n=2, sym=2)]
    o = dict(max_replay=6)
    L = [dict(n=(12, 11), split=5, where=(17,), how=h, layers=k) for h, k in (('vtk', 1), ('pv', 3), ('mesh', 2))]
    L += [dict(n=(8, 7, 6), split=4, where=(400,), how='vtk', layers=2), dict(n=(8, 7, 6), split=4, where=(), how='pv', layers=5), dict(n=(100, 90), split=4, where=(7000,), how='vtk'),
          dict(n=(100, 90), split=4, where=(), how='pv', layers=3), dict(n=(26, 21, 16), where=(3,), how='mesh'), dict(n=(260, 255), where=(), how='vtk'), dict(n=(260, 255), where=(), how='mesh')]
    E = [dict(n=(12, 11), split=5, where=(17, 90), sel=(3, 7, 100)), dict(n=(8, 7, 6), split=4, where=(400,), sel=(380, 37, 300)), dict(n=(100, 90), split=4, where=(7000,), sel=(5, 2, 4000)), dict(n=(100, 90), where=(), sel=(8999, 8999, 1200))]
    return [('many', many, L, {}), ('extractmany', extractmany, E, {}), ('tovtk', tovtk, vt, o), ('tohdf', tohdf, hd, o), ('extract', extract, ex, o)]
