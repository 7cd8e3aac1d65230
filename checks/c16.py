"""C16: conversion commands apply exactly the requested operations."""
from checks import big, c11 as cg
from checks.meshlib import by_index, face_table, make_mesh, marks, mixed_faces
from checks.shapes import NN

META = dict(
    bounds="IC3 v2/v3 inputs of 4-5 nodes, 2-3 faces, 2 cells and up to 15 variables (64 free bits each), Gmsh inputs of up to 4 cells, CGNS inputs of 1 or 2 cells with named boundaries; symbolic scale "
           "factors; 1-3 layers; every combination of options used in the configurations; restart files of up to 1728 cells and Gmsh files of up to 2700 cells and 120 layers (every number up to 63, 512 thorough, for one cell), symbolic at picked nodes and cells",
    outside="face data (never written by the writers), --log, --check and --info (no effect on the file), variables named like options",
    assumptions=["the file system, pyvista and argument texts are modelled (replayed on the real ones)"],
    must_reach=["ic3: coordinates multiplied by their factor", "ic3: removed data are absent and the others kept bit for bit", "ic3: mesh kept",
                "gmsh: layers of the extrusion", "gmsh: coordinates multiplied by their factor", "gmsh: cells kept", "cgns: cells kept", "cgns: boundaries kept", "cgns: coordinates multiplied by their factor", "manyic3: mesh kept", "manygmsh: cells kept", "manygmsh: boundaries kept", "formats: unknown format refused", "formats: format given by option or extension"],
)
DATA = [('node', 's', 'P'), ('node', 'v', 'UN'), ('cell', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U')]
# names which begin, end or spell like another one
NEAR = [('node', 's', 'P'), ('node', 's', 'P_N'), ('cell', 's', 'P'), ('cell', 's', 'P_AVG'), ('cell', 's', 'p'), ('cell', 'v', 'U_P'), ('cell', 's', 'PP')]

MANY = [('node', 's', 'P')] + [('cell', 's', f'v{k}') for k in range(14)]


def ic3_input(w, ver, f, data=DATA):
    D = w.mod('cfdtools.data')
    x = {}
    nnode, ncell = 4, 2
    xyz = w.f64array('x', (nnode, 3))
    mesh = make_mesh(w, nnode, ncell, xyz)
    conn, f2c, x['nodes'], x['cells'] = mixed_faces(w, [3, 4, 3], nnode, ncell, 2, symcells=False)
    mesh.add_faces('mixed', conn, f2c)
    for k in marks(w, [('in', 'boundary', 0, 0, None), ('out', 'boundary', 1, 1, None)]):
        mesh.add_boco(k)
    mesh.set_params({'step': 3, 'dt': 0.5, 'time': 2.0})
    ds = {'node': D.DataSet('nodal'), 'cell': D.DataSet('cellaverage')}
    for i, (loc, kind, nm) in enumerate(data):
        n = nnode if loc == 'node' else ncell
        a = w.f64array(f'd{i}', {'s': (n,), 'v': (n, 3)}[kind])
        ds[loc].add_data(nm, a)
        x[loc, nm] = w.plain(a)
    mesh.set_nodedata(ds['node'])
    mesh.set_celldata(ds['cell'])
    x['xyz'] = w.plain(xyz)
    w.mod(f'cfdtools.ic3.writerV{ver}').writer(mesh).write_data(f)
    return x


def ic3(w, inp, out, remove=(), scale=False, sep=False, fname='a.ic3', fmt=None, first=False, near=False):
    """remove: [(option, names)]"""
    f = w.path('in.d/' + fname)
    w.mkdir(w.path('in.d'))
    data = {0: DATA, 1: NEAR, 2: MANY}[int(near)]
    x = ic3_input(w, inp, f, data)
    argv = []
    s = [1.0, 1.0, 1.0]
    if fmt:
        argv += ['--fmt', fmt]
    if scale:
        s = w.f64s('s', 3)
        for v in s:
            w.assume(w.And(v >= -1000.0, v <= 1000.0))
        opt = ['--scale', *[w.num(v) for v in s]]
    for o, names in remove:
        argv += [f'--remove-{o}-data', *names]
    if scale:
        argv += opt
    if sep:
        argv += ['--']
    argv = [f] + argv if first else argv + [f]
    got = getattr(w.mod('cfdtools._cli'), f'cfdwrite_ic3v{out}')(argv)
    r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
    r.read_data()
    m = r.export_mesh()
    want = [[c * k for c, k in zip(p, s)] for p in x['xyz']] if scale else x['xyz']
    w.check(w.same(m.nodescoord(ndarray=True), want), "coordinates multiplied by their factor")
    tab = face_table(w, m._faces['mixed']['face2node'])
    w.check(w.And(len(tab) == 3, m.ncell == 2, w.same(by_index(w, tab, 3, 'faces'), x['nodes']), w.same(m._faces['mixed']['face2cell'].conn, x['cells'])), "mesh kept")
    w.check(all(m._bocos[n].index.list() == [i] and m._bocos[n].type == 'boundary' for i, n in enumerate(('in', 'out'))), "mesh kept")
    w.check(w.And(m._params['step'] == 3, m._params['dt'] == 0.5, m._params['time'] == 2.0), "state kept")
    gone = {(o, n) for o, names in remove for n in names}
    for loc, ds in (('node', m._nodedata), ('cell', m._celldata)):
        left = [n for l, _, n in data if l == loc and (l, n) not in gone]
        w.check(sorted(ds.keys()) == sorted(left), "removed data are absent and the others kept bit for bit")
        for n in left:
            if n in ds.keys():
                w.check(w.same(ds[n], x[loc, n]), "removed data are absent and the others kept bit for bit")
    w.check(m._facedata is None or not list(m._facedata.keys()), "no face data")


def square(w, cells, xyz):
    """2D or 3D Gmsh file; cells: (type, nodes)"""
    code = {'tri3': 2, 'quad4': 3, 'hexa8': 5}
    nn = len(xyz)
    dim = 3 if cells[0][0] == 'hexa8' else 2
    bd = [[1, 1, 2, 1, 1, 1, 2]] if dim == 2 else [[1, 3, 2, 1, 1, 1, 2, 3, 4]]
    return ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$PhysicalNames', '2', f'{dim - 1} 1 "wall"', f'{dim} 2 "fluid"', '$EndPhysicalNames',
            '$Nodes', [nn], *[[i + 1, *p] for i, p in enumerate(xyz)], '$EndNodes', '$Elements', [len(cells) + 1],
            *bd, *[[i + 2, code[t], 2, 2, 1, *[n + 1 for n in ids]] for i, (t, ids) in enumerate(cells)], '$EndElements']


SHEETS = {'quads': (6, [('quad4', [0, 1, 4, 3]), ('quad4', [1, 2, 5, 4])]), 'tri': (3, [('tri3', [0, 1, 2])]), 'mix': (5, [('tri3', [1, 4, 2]), ('quad4', [0, 1, 2, 3])]),
          'hexa': (8, [('hexa8', list(range(8)))])}


def gmsh(w, sheet, tool='vtk', layers=None, scale=False, out=None):
    nn, cells = SHEETS[sheet]
    num = w.reals if tool == 'vtk' else w.f64s
    xyz = [num(f'x{i}', 3 if sheet == 'hexa' else 2) for i in range(nn)]
    for p in xyz:
        w.assume(w.And(*[w.And(v >= -10.0, v <= 10.0) for v in p]))
        p += [] if sheet == 'hexa' else [0.0]
    f = w.path('in.msh')
    w.put_text(f, square(w, cells, xyz))
    argv = []
    n = 0
    if layers:
        n = w.int('n', 1, layers)
        argv += ['--extrude', w.num(n)]
    s = [1.0] * 3
    if scale:
        s = num('s', 3)
        for v in s:
            w.assume(w.And(v >= -8.0, v <= 8.0))
        argv += ['--scale', *[w.num(v) for v in s]]
    if out:
        w.mkdir(w.path('o'))
        argv += ['--outpath', w.path('o')]
    got = getattr(w.mod('cfdtools._cli'), f'cfdwrite_{tool}')([f, *argv])
    w.check(got == (w.path('o/in.vtu') if out else 'in.vtu') or tool != 'vtk', "name of the file")
    n = int(n)
    planes = range(n + 1) if layers else [None]
    if tool != 'vtk':
        r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
        r.read_data()
        m = r.export_mesh()
        pts = w.plain(m.nodescoord(ndarray=True))
        w.check(w.And(m.ncell == len(cells) * max(1, n), m.nnode == nn * len(planes)), "layers of the extrusion")
    else:
        g = w.pv.read(got)
        pts = w.plain(g.points)
        w.check(w.And(g.n_cells == len(cells) * max(1, n), g.n_points == nn * len(planes)), "layers of the extrusion")
        up = {'tri3': 13, 'quad4': 12} if layers else {'tri3': 5, 'quad4': 9, 'hexa8': 12}
        conn = {int(t): w.plain(c) for t, c in g.cells_dict.items()}
        w.check(sorted(conn) == sorted({up[t] for t, _ in cells}), "cells kept")
        for t in {t for t, _ in cells}:
            mine = [ids for u, ids in cells if u == t]
            want = [[i + k * nn for i in ids] + [i + (k + 1) * nn for i in ids] for k in range(n) for ids in mine] if layers else mine
            have = conn.get(up[t], [])
            w.check(len(have) == len(want) and all(any(w.same(a, b) is True for b in have) for a in want), "cells kept")
    w.check(len(pts) == nn * len(planes), "layers of the extrusion")
    for q, k in enumerate(planes):
        for i in range(nn):
            p = pts[q * nn + i]
            z = xyz[i][2] if k is None else k / n
            msg = "coordinates multiplied by their factor" if scale else "layers of the extrusion"
            for a, b, c in zip(p, (xyz[i][0], xyz[i][1], z), s):
                w.check(w.polyeq(a, b * c) if tool == 'vtk' else a == b, msg)


def cgns(w, tool, dim=3, layers=None, scale=False, loc='FaceCenter', first=False):
    """a CGNS zone with named boundaries"""
    exact = tool == 'vtk'
    num = w.reals if exact else w.f64s
    nn = 8 if dim == 3 else 5
    xyz = [num(f'x{i}', 3 if dim == 3 else 2) for i in range(nn)]
    for p in xyz:
        w.assume(w.And(*[w.And(v >= -10.0, v <= 10.0) for v in p]))
        p += [] if dim == 3 else [0.0]
    if dim == 3:
        cells = [('hexa8', list(range(8)))]
        # boundaries become marks of nodes: no other face has all its nodes in one of them
        walls = {'low': [[0, 3, 2, 1], [0, 1, 5, 4]], 'side': [[1, 2, 6, 5], [4, 5, 6, 7]], 'top': [[2, 3, 7, 6], [0, 4, 7, 3]]}
    else:
        cells = [('quad4', [0, 1, 2, 3]), ('tri3', [1, 4, 2])]
        walls = {'low': [[0, 1], [1, 4]], 'side': [[3, 0]], 'top': [[2, 3], [4, 2]]}
    bt = 'quad4' if dim == 3 else 'bar2'
    f = w.path('in.cgns')
    names = list(walls)
    with w.h5.File(f, 'w') as h:
        cg.node(w, h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', w.np.array([3.1], dtype='f4'))
        z = cg.node(w, cg.node(w, h, 'Base', 'CGNSBase_t', w.np.array([dim, 3], dtype='int32')), 'Z', 'Zone_t', w.np.array([[nn], [len(cells)], [0]], dtype='int32'))
        cg.node(w, z, 'ZoneType', 'ZoneType_t', cg.text(w, 'Unstructured'))
        g = cg.node(w, z, 'GridCoordinates', 'GridCoordinates_t')
        for k, c in enumerate('XYZ'):
            cg.node(w, g, 'Coordinate' + c, 'DataArray_t', w.array([p[k] for p in xyz], float))
        count = 1

        def section(name, t, rows):
            nonlocal count
            e = cg.node(w, z, name, 'Elements_t', w.np.array([cg.CODE[t], 0], dtype='int32'))
            cg.node(w, e, 'ElementRange', 'IndexRange_t', w.np.array([count, count + len(rows) - 1], dtype='int32'))
            cg.node(w, e, 'ElementConnectivity', 'DataArray_t', w.np.array([i + 1 for r in rows for i in r], dtype='int32'))
            count += len(rows)
            return list(range(count - len(rows), count))

        for i, (t, ids) in enumerate(cells):
            section(f'c{i}', t, [ids])
        zb = cg.node(w, z, 'ZoneBC', 'ZoneBC_t')
        for n in names:
            num_ = section('s' + n, bt, walls[n])
            b = cg.node(w, zb, 'B' + n, 'BC_t', cg.text(w, 'BCWall'))
            cg.node(w, b, 'FamilyName', 'FamilyName_t', cg.text(w, n))
            pts = num_ if loc == 'FaceCenter' else sorted({i + 1 for r in walls[n] for i in r})
            cg.node(w, b, 'GridLocation', 'GridLocation_t', cg.text(w, loc))
            cg.node(w, b, 'PointList', 'IndexArray_t', w.np.array([[p] for p in pts], dtype='int32'))
    argv = []
    n = 0
    if layers:
        n = int(w.int('n', 1, layers))
        argv += ['--extrude', str(n)]
    s = [1.0] * 3
    if scale:
        s = num('s', 3)
        for v in s:
            w.assume(w.And(v >= -8.0, v <= 8.0))
        argv += ['--scale', *[w.num(v) for v in s]]
    w.protect(f)
    w.mkdir(w.path('o'))
    argv += ['--outpath', w.path('o')]
    got = getattr(w.mod('cfdtools._cli'), f'cfdwrite_{tool}')([f, *argv] if first else [*argv, f])
    w.check(w.intact(f), "input kept")
    planes = list(range(n + 1)) if layers else [None]
    up = lambda ids, k: [i + k * nn for i in ids] + [i + (k + 1) * nn for i in ids]  # noqa: E731
    want = [up(ids, k) for k in range(n) for _, ids in cells] if layers else [ids for _, ids in cells]
    if exact:
        g = w.pv.read(got)
        pts = w.plain(g.points)
        have = [sorted(c) for cs in g.cells_dict.values() for c in w.plain(cs)]
        w.check(sorted(have) == sorted(sorted(c) for c in want), "cells kept")
    else:
        r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
        r.read_data()
        m = r.export_mesh()
        pts = w.plain(m.nodescoord(ndarray=True))
        tab = {int(i): frozenset(int(v) for v in ids) for i, ids in face_table(w, m._faces['mixed']['face2node'])}
        own = w.plain(m._faces['mixed']['face2cell'].conn)
        have = {}
        for i, ids in tab.items():
            for c in own[i]:
                if c >= 0:
                    have.setdefault(int(c), set()).update(ids)
        w.check(sorted(sorted(v) for v in have.values()) == sorted(sorted(c) for c in want), "cells kept")
        for nm in names:
            if layers:
                side = {frozenset([a + k * nn, b + k * nn, a + (k + 1) * nn, b + (k + 1) * nn]) for a, b in walls[nm] for k in range(n)}
            else:
                side = {frozenset(r) for r in walls[nm]}
            w.check(nm in m._bocos and m._bocos[nm].type == 'boundary', "boundaries kept")
            if nm in m._bocos:
                w.check({tab[int(i)] for i in m._bocos[nm].index.list()} == side, "boundaries kept")
    w.check(len(pts) == nn * len(planes), "nodes kept")
    for q, k in enumerate(planes):
        for i in range(nn):
            z = xyz[i][2] if k is None else k / n
            for a, b, c in zip(pts[q * nn + i], (xyz[i][0], xyz[i][1], z), s):
                w.check(w.polyeq(a, b * c) if exact else w.Or(*[w.same(a, v) for v in ((b * c, (b + 0.0) * c) if scale else (b,))], a == (b * c if scale else b)), "coordinates multiplied by their factor")


def formats(w, tool, fname, fmt, ok):
    """the reader is chosen by the option or else by the extension"""
    f = w.path(fname)
    if ok == 'ic3':
        x = ic3_input(w, 2, f)
    else:
        w.put_text(f, square(w, SHEETS['hexa'][1], [[i % 2, i // 2 % 2, i // 4] for i in (0, 1, 3, 2, 4, 5, 7, 6)]))
    argv = (['--fmt', fmt] if fmt else []) + [f]
    w.mkdir(w.path('o'))
    w.protect(f)
    run = lambda: getattr(w.mod('cfdtools._cli'), f'cfdwrite_{tool}')(['--outpath', w.path('o'), *argv])  # noqa: E731
    if ok is None:
        _, e = w.raises(run, RuntimeError, SystemExit)
        w.check(e is not None, "unknown format refused")
        w.check(not any(w.exists(w.path('o/' + fname.split('.')[0] + x)) for x in ('.ic3', '.vtu')), "unknown format refused")
        return
    got = run()
    if tool == 'vtk':
        w.check(w.pv.read(got).n_cells == 1, "format given by option or extension")
        return
    r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
    r.read_data()
    m = r.export_mesh()
    w.check(m.ncell == (2 if ok == 'ic3' else 1), "format given by option or extension")
    if ok == 'ic3':
        w.check(w.same(m.nodescoord(ndarray=True), x['xyz']), "format given by option or extension")


def manyic3(w, inp, out, n, split=0, scale=None, remove=()):
    """restart files of many cells, symbolic at picked nodes and cells"""
    f = w.path('a.ic3')
    data = [('node', 's', 'P'), ('node', 'v', 'U'), ('cell', 's', 'P'), ('cell', 'v', 'U'), ('cell', 's', 'rho')]
    m, x = big.build(w, n, split, where=(0, 1023, 2047, -1), data=data)
    w.mod(f'cfdtools.ic3.writerV{inp}').writer(m).write_data(f)
    w.mkdir(w.path('o'))
    argv = ['--outpath', w.path('o')]
    s = scale or [1.0] * 3
    if scale:
        argv += ['--scale', *[w.num(v) for v in s]]
    for o, names in remove:
        argv += [f'--remove-{o}-data', *names]
    got = getattr(w.mod('cfdtools._cli'), f'cfdwrite_ic3v{out}')(argv + ['--', f])
    r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
    r.read_data()
    m = r.export_mesh()
    w.check(w.same(m.nodescoord(ndarray=True), [[c * k for c, k in zip(p, s)] for p in x['xyz']] if scale else x['xyz']), "coordinates multiplied by their factor")
    tab = face_table(w, m._faces['mixed']['face2node'])
    w.check(m.ncell == x['ncell'] and len(tab) == x['nf'], "mesh kept")
    w.check(w.And(w.same(by_index(w, tab, x['nf'], 'faces'), x['nodes']), w.same(m._faces['mixed']['face2cell'].conn, x['cells'])), "mesh kept")
    w.check(all(nm in m._bocos and m._bocos[nm].index.list() == list(range(a, b + 1)) for nm, _, a, b, _ in x['spec']), "mesh kept")
    for loc, ds, ref in (('node', m._nodedata, x['n']), ('cell', m._celldata, x['c'])):
        left = {v for v in ref if not any(o == loc and v in ns for o, ns in remove)}
        w.check(set(ds.keys()) == left, "removed data are absent and the others kept bit for bit")
        for v in left & set(ds.keys()):
            w.check(w.same(ds[v], ref[v][1]), "removed data are absent and the others kept bit for bit")


def manygmsh(w, tool, n, split=0, layers=0, scale=None, where=(0, -1)):
    """rectangles or boxes of many cells"""
    d = len(n)
    cells, pos, sides = big.rectangle(n, split) if d == 2 else big.box(n, split)
    nn = len(pos)
    sym = (lambda v: w.real(v, -10, 10)) if tool == 'vtk' else (lambda v: bounded(w, v))
    _, xyz = big.array(w, 'x', (nn, 3), where, sym)
    if layers:
        xyz = [[p[0], p[1], 0.0] for p in xyz]
    code = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'hexa8': 5, 'prism6': 6}
    bd = [({2: 'bar2', 3: 'tri3', 4: 'quad4'}[len(q)], 10 + k, q) for k, nm in enumerate(sides) for q in sides[nm]]
    every = bd + [(t, 3, c) for t, c in cells]
    f = w.path('in.msh')
    w.put_text(f, ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$PhysicalNames', [len(sides) + 1], *[f'{d - 1} {10 + k} "{nm}"' for k, nm in enumerate(sides)], f'{d} 3 "fluid"', '$EndPhysicalNames',
                   '$Nodes', [nn], *[[i + 1, *p] for i, p in enumerate(xyz)], '$EndNodes', '$Elements', [len(every)],
                   *[[i + 1, code[t], 2, tag, 1 + tag, *[v + 1 for v in c]] for i, (t, tag, c) in enumerate(every)], '$EndElements'])
    w.mkdir(w.path('o'))
    s = scale or [1.0] * 3
    argv = (['--extrude', str(layers)] if layers else []) + (['--scale', *[w.num(v) for v in s]] if scale else [])
    got = getattr(w.mod('cfdtools._cli'), f'cfdwrite_{tool}')(['--outpath', w.path('o'), f, *argv])
    planes = list(range(layers + 1)) if layers else [None]
    up = lambda c, k: [i + k * nn for i in c] + [i + (k + 1) * nn for i in c]  # noqa: E731
    types = []
    for t, _ in cells:
        if t not in types:
            types.append(t)
    want = [[up(c, k) for k in range(layers) for u, c in cells if u == t] if layers else [c for u, c in cells if u == t] for t in types]
    if tool == 'vtk':
        g = w.pv.read(got)
        pts = w.plain(g.points)
        conn = {int(t): w.plain(c) for t, c in g.cells_dict.items()}
        vt = {'tri3': 13, 'quad4': 12} if layers else {'tri3': 5, 'quad4': 9, 'hexa8': 12, 'prism6': 13}
        w.check(sorted(conn) == sorted(vt[t] for t in types) and all(sorted(conn[vt[t]]) == sorted(q) for t, q in zip(types, want)), "cells kept")
    else:
        r = w.mod('cfdtools.ic3.reader_legacy').reader(got)
        r.read_data()
        m = r.export_mesh()
        pts = w.plain(m.nodescoord(ndarray=True))
        up3 = {'tri3': 'prism6', 'quad4': 'hexa8'}
        x = dict(cells=[(up3.get(t, t), c) for t, q in zip(types, want) for c in q], marks={})
        for nm, q in sides.items():
            x['marks'][nm] = sorted({i + (k or 0) * nn for e in q for i in e for k in planes})
        tab = face_table(w, m._faces['mixed']['face2node'])
        own = w.plain(m._faces['mixed']['face2cell'].conn)
        # cells may be numbered in another order: each is known by its nodes
        nodes = {}
        for i, ids in tab:
            for c in own[int(i)]:
                if c >= 0:
                    nodes.setdefault(int(c), set()).update(int(v) for v in ids)
        w.check(m.ncell == len(x['cells']) and sorted(sorted(v) for v in nodes.values()) == sorted(sorted(c) for _, c in x['cells']), "cells kept")
        w.check(big.sides_ok(m, x, tab) is None, "boundaries kept")
    w.check(len(pts) == nn * len(planes), "layers of the extrusion")
    if len(pts) != nn * len(planes):
        return
    bad = None
    free = {p % nn for p in where}
    for q, k in enumerate(planes):
        for i in range(nn):
            p = pts[q * nn + i]
            for c in range(3):
                v = k / layers if layers and c == 2 else xyz[i][c]
                if layers and c == 2:
                    if abs(p[c] - v * s[c]) > 1e-12 * (1 + abs(v * s[c])):
                        bad = (q, i, c)
                elif i in free or scale:
                    ok = (w.close(p[c], v * s[c], 1e-12, 1e-12) if tool == 'vtk' else p[c] == (v * s[c] if scale else v)) if i in free else abs(p[c] - v * s[c]) <= 1e-12 * (1 + abs(v))
                    if i in free:
                        w.check(ok, "coordinates multiplied by their factor")
                    elif not ok:
                        bad = (q, i, c)
                elif p[c] != v:
                    bad = (q, i, c)
    w.check(bad is None, "coordinates multiplied by their factor")


def sweep(w, tool, counts):
    """many numbers of layers"""
    for n in range(*counts):
        manygmsh(w, tool, (1, 1), layers=n, where=())


def bounded(w, name):
    v = w.f64(name)
    w.assume(w.And(v >= -10.0, v <= 10.0))
    return v


def scenarios(tier):
    T = tier == 'thorough'
    I = [dict(inp=2, out=3), dict(inp=3, out=2, scale=True), dict(inp=2, out=2, remove=[('cell', ['P'])], sep=True), dict(inp=3, out=3, remove=[('node', ['P', 'none'])], first=True),
         dict(inp=2, out=3, remove=[('cell', ['U', 'rho', 'none']), ('node', ['UN'])], scale=True), dict(inp=3, out=3, remove=[('cell', ['P', 'rho', 'U']), ('node', ['UN', 'P'])], sep=True),
         dict(inp=3, out=3, remove=[('face', ['P', 'rho'])], sep=True), dict(inp=2, out=2, remove=[('node', ['rho', 'U']), ('cell', ['UN'])], sep=True), dict(inp=3, out=3, fname='a.bin', fmt='IC3'),
         dict(inp=2, out=3, remove=[('cell', ['P'])], sep=True, near=True), dict(inp=3, out=2, remove=[('cell', ['P_AVG', 'p']), ('node', ['P'])], sep=True, near=True),
         dict(inp=3, out=3, remove=[('cell', ['U', 'PP', 'P_']), ('node', ['N', 'p'])], sep=True, near=True),
         dict(inp=2, out=3, remove=[('cell', [f'v{k}' for k in (13, 0, 7, 5, 9, 11, 2, 1, 12, 6, 3, 10)])], sep=True, near=2)]
    G = [dict(sheet='quads', layers=3, scale=True), dict(sheet='tri', layers=2), dict(sheet='mix', layers=3), dict(sheet='hexa', scale=True), dict(sheet='quads', layers=2, tool='ic3v3'), dict(sheet='tri', layers=2, tool='ic3v2'), dict(sheet='quads', scale=True),
         dict(sheet='mix', layers=2, scale=True, out=True), dict(sheet='hexa', out=True)]
    F = [dict(tool='ic3v3', fname='a.ic3', fmt=None, ok='ic3'), dict(tool='ic3v2', fname='a.msh', fmt=None, ok='msh'), dict(tool='vtk', fname='a.msh', fmt=None, ok='msh'),
         dict(tool='ic3v3', fname='a.msh', fmt='IC3', ok='ic3'), dict(tool='ic3v2', fname='a.ic3', fmt='GMSH', ok='msh'), dict(tool='ic3v2', fname='a.dat', fmt=None, ok=None),
         dict(tool='vtk', fname='a', fmt=None, ok=None), dict(tool='ic3v3', fname='a.IC3', fmt=None, ok=None), dict(tool='ic3v3', fname='a.msh', fmt='gmsh', ok=None), dict(tool='vtk', fname='a.ic3.gz', fmt=None, ok=None),
         dict(tool='vtk', fname='a', fmt='GMSH', ok='msh')]
    if T:
        for v in (2, 3):
            for u in (2, 3):
                I += [dict(inp=v, out=u, scale=True, remove=[('cell', c), ('node', n)]) for c in (['P'], ['rho', 'U'], ['UN']) for n in (['P'], ['UN', 'P'], ['rho'])]
        G += [dict(sheet=s, layers=4, scale=c, tool=t) for s in ('quads', 'tri', 'mix') for t, c in (('vtk', False), ('vtk', True), ('ic3v2', False))]
    o = dict(max_replay=6)
    N = [dict(tool='vtk'), dict(tool='ic3v3', scale=True), dict(tool='ic3v2', loc='Vertex', first=True), dict(tool='vtk', dim=2, layers=3, scale=True), dict(tool='ic3v3', dim=2, layers=2), dict(tool='vtk', dim=2, first=True),
         dict(tool='ic3v2', dim=2, layers=2, scale=True, first=True)]
    return [('ic3', ic3, I, o), ('gmsh', gmsh, G, o), ('cgns', cgns, N, o), ('formats', formats, F, o),
            ('manyic3', manyic3, [dict(inp=2, out=3, n=(13, 11, 9), scale=[2.0, -0.5, 1.7]), dict(inp=3, out=2, n=(12, 12, 12), split=4, remove=[('cell', ['rho', 'none']), ('node', ['P'])]),
                                  dict(inp=3, out=3, n=(5, 6, 43), remove=[('cell', ['U'])], scale=[-1.0, 1000.0, 0.001])], o),
            ('manygmsh', manygmsh, [dict(tool='vtk', n=(33, 32), layers=3), dict(tool='vtk', n=(60, 45), split=3, scale=[2.0, -0.5, 3.0]), dict(tool='ic3v3', n=(33, 32), layers=2, split=5),
                                    dict(tool='ic3v2', n=(11, 10, 10), split=3, scale=[0.5, 2.0, -4.0]), dict(tool='vtk', n=(5, 4), layers=120, scale=[1.0, 0.25, 10.0]), dict(tool='ic3v2', n=(4, 3), layers=105)], o),
            ('sweep', sweep, [dict(tool='vtk', counts=(1, 64)), dict(tool='ic3v2', counts=(4, 30))] + [dict(tool='vtk', counts=(k, k + 64)) for k in range(64, 512, 64) if T], o)]
