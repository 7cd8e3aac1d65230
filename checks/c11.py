"""C11: unstructured CGNS/HDF5 zones are read faithfully."""
import itertools

from checks import big as B

META = dict(
    bounds="zones of up to 18000 elements in up to 60 sections with given numbers, a coordinate of picked nodes being any number; otherwise <= 9 nodes, <= 3 cells in <= 3 sections, <= 3 sections of boundary elements in every listed order, <= 4 boundary "
           "conditions of <= 4 points; up to 3 bases, zones given by their names, boundary conditions of two nodes; coordinates are 64 free bits, connectivities and point lists are symbolic",
    outside="structured zones, mixed and polyhedral sections (refused), point ranges "
            "(refused), boundary conditions located at cell centres",
    assumptions=["h5py stores and returns what it is given (model replayed on the real h5py)"],
    must_reach=["many: zone of many cells: marks", "zone: cells of a type with their nodes", "zone: mark holds exactly the nodes of the boundary condition",
                "zone: marks of the whole domain are not boundaries"],
)
CODE = {'node1': 2, 'bar2': 3, 'tri3': 5, 'quad4': 7, 'tetra4': 10, 'pyra5': 12, 'prism6': 14, 'hexa8': 17}
NN = {'node1': 1, 'bar2': 2, 'tri3': 3, 'quad4': 4, 'tetra4': 4, 'pyra5': 5, 'prism6': 6, 'hexa8': 8}
DIM = {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2, 'tetra4': 3, 'pyra5': 3, 'prism6': 3, 'hexa8': 3}


def text(w, s):
    return w.np.array([ord(c) for c in s], dtype='int8')


def node(w, parent, name, label, data=None):
    g = parent.create_group(name)
    g.attrs['label'] = w.np.bytes_(label)
    if data is not None:
        g.create_dataset(' data', data=data)
    return g


def zone(w, dim, nnode, sections, bcs, symconn=1, idx='int32', zbc=('ZoneBC', 'ZoneBC_t', 'BC_t'), bases=(), select=None, parents=()):
    """sections: [(name, type, n)] numbered in this order; bcs: [(name, family, kind, location, content)]; bases: other ones (name, dimension, names of zones);
    parents: for each boundary condition, the node it belongs to (0: zbc, 1: a second one)"""
    C = w.mod('cfdtools.cgns.cgns')
    xyz = w.f64array('x', (nnode, 3))
    f = w.path('a.cgns')
    conns, first, num = {}, {}, 1
    ncell = sum(n for _, t, n in sections if DIM[t] == dim)
    with w.h5.File(f, 'w') as h:
        node(w, h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', w.np.array([3.1], dtype='f4'))
        for n, d, zones in bases:
            b = node(w, h, n, 'CGNSBase_t', w.np.array([d, 3], dtype='int32'))
            for zn in zones:
                z = node(w, b, zn, 'Zone_t', w.np.array([[3], [1], [0]], dtype=idx))
                node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Unstructured'))
        base = node(w, h, 'Base', 'CGNSBase_t', w.np.array([dim, 3], dtype='int32'))
        node(w, base, 'Family', 'Family_t')
        z = node(w, base, 'zone 1', 'Zone_t', w.np.array([[nnode], [ncell], [0]], dtype=idx))
        node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Unstructured'))
        g = node(w, z, 'GridCoordinates', 'GridCoordinates_t')
        for k, c in enumerate('XYZ'):
            node(w, g, 'Coordinate' + c, 'DataArray_t', xyz[:, k])
        for i, (name, t, n) in enumerate(sections):
            con = []
            for e in range(n):
                if i < symconn:
                    ids = w.ints(f's{i}e{e}', NN[t], 1, nnode)
                    w.assume(w.distinct(ids))
                else:
                    ids = [(k + i + 2 * e) % nnode + 1 for k in range(NN[t])]
                con.append(ids)
            s = node(w, z, name, 'Elements_t', w.np.array([CODE[t], 0], dtype='int32'))
            node(w, s, 'ElementRange', 'IndexRange_t', w.np.array([num, num + n - 1], dtype=idx))
            node(w, s, 'ElementConnectivity', 'DataArray_t', w.array([v for ids in con for v in ids], idx))
            for e in range(n):
                conns[num + e] = (t, con[e])
            first[name] = (num, n)
            num += n
        want = []
        zb = [node(w, z, zbc[0], zbc[1])]
        if 1 in parents:
            zb.append(node(w, z, 'ZoneGridConnectivity', 'ZoneGridConnectivity_t'))
        for i, (name, family, kind, loc, content) in enumerate(bcs):
            if content == 'allnodes':
                pts = list(range(1, nnode + 1))
            elif content == 'allcells':
                pts = [e for e, (t, _) in conns.items() if DIM[t] == dim]
            elif loc == 'Vertex':
                pts = w.ints(f'bc{i}', content, 1, nnode)
                w.assume(w.distinct(pts))
            elif isinstance(content, tuple):  # every element of these sections
                pts = [first[s][0] + e for s in content for e in range(first[s][1])]
            else:  # some of the boundary elements
                el = [e for e, (t, _) in conns.items() if DIM[t] == dim - 1]
                pts = []
                for k in range(content):
                    p, q = w.int(f'bc{i}[{k}]', 0, len(el) - 1), el[-1]
                    for j in range(len(el) - 1):
                        q = w.ite(p == j, el[j], q)
                    pts.append(q)
                w.assume(w.distinct(pts))
            pa = parents[i] if parents else 0
            b = node(w, zb[pa], name, 'GridConnectivity_t' if pa else zbc[2], text(w, 'BCWall' if i % 2 else 'FamilySpecified' if family else 'BCGeneral'))
            if family:
                node(w, b, 'FamilyName', 'FamilyName_t', text(w, family))
            if loc != 'Vertex' and kind == 'PointList':
                node(w, b, 'GridLocation', 'GridLocation_t', text(w, loc))
            elif loc == 'Vertex' and i % 2:
                node(w, b, 'GridLocation', 'GridLocation_t', text(w, 'Vertex'))
            node(w, b, kind, 'IndexArray_t', w.array([[p] for p in pts], idx))
            if content in ('allnodes', 'allcells'):
                want.append((family or name, None))
            elif loc == 'Vertex':
                want.append((family or name, [[w.And(p - 1 == n) for p in pts] for n in range(nnode)]))
            else:
                hit = []
                for n in range(nnode):
                    hit.append([w.And(p == e, w.Or(*[v - 1 == n for v in ids])) for p in pts for e, (t, ids) in conns.items()
                                if DIM[t] == dim - 1])
                want.append((family or name, hit))
    r = C.cgnsMesh(f)
    r.read_data(**({'zone': select} if select else {}))
    w.check(r.ncell == ncell, "number of cells known by the reader")
    m = r.export_mesh()
    w.check(w.And(m.nnode == nnode, m.ncell == ncell), "mesh sizes")
    w.check(w.same(m.nodescoord(ndarray=True), xyz), "node coordinates")
    got = {t: (e['index'].list(), w.plain(e['elem2node'])) for t, e in m._cell2node.items()}
    cells = [(t, ids) for t, ids in conns.values() if DIM[t] == dim]
    w.check(sorted(got) == sorted({t for t, _ in cells}), "only cells of the base dimension")
    seen = []
    for t in got:
        ids = [[v - 1 for v in c] for tt, c in cells if tt == t]
        w.check(len(got[t][1]) == len(ids) and w.same(got[t][1], ids), "cells of a type with their nodes")
        w.check(w.same(got[t][0], [k for k, (tt, _) in enumerate(cells) if tt == t]), "cells are numbered in element order")
        seen += list(got[t][0])
    names = {}
    for name, hit in want:
        if hit is not None:
            names.setdefault(name, []).append(hit)
    for name, hit in want:
        if hit is None:
            w.check(name in names or name not in m._bocos, "marks of the whole domain are not boundaries")
    w.check(sorted(m._bocos) == sorted(names), "one mark for each family or unnamed boundary condition")
    for name, hits in names.items():
        if name not in m._bocos:
            continue
        k = m._bocos[name]
        w.check(k.type == 'boundary' and k.nodebased(), "boundary mark of nodes")
        lst = k.index.list()
        w.check(w.And(*[w.And(v >= 0, v < nnode) for v in lst]), "marked nodes exist")
        for n in range(nnode):
            w.check(w.Or(*[v == n for v in lst]) == w.Or(*[w.Or(*h[n]) for h in hits]), "mark holds exactly the nodes of the boundary condition")


def many(w, n, split=0, where=(), idx='int32', face=False, pieces=1, mixed=False, lists=()):
    """rectangle or box of many cells; each type of cells in `pieces` sections; sides `lists` given as vertices"""
    C = w.mod('cfdtools.cgns.cgns')
    d = len(n)
    cells, pos, sides = B.rectangle(n, split) if d == 2 else B.box(n, split)
    nn = len(pos)
    xyz, x = B.array(w, 'x', (nn, 3), [p % nn for p in where], lambda nm: w.f64(nm))
    types = []
    for t, _ in cells:
        if t not in types:
            types.append(t)
    secs = []
    for t in types:
        l = [c for u, c in cells if u == t]
        secs += [(t, l[len(l) * k // pieces:len(l) * (k + 1) // pieces]) for k in range(pieces)]
    edges = []
    for s, l in sides.items():
        for t, k in (('bar2', 2), ('tri3', 3), ('quad4', 4)):
            q = [f for f in l if len(f) == k]
            if q:
                edges.append((s, t, q))
    secs = ([(t, l) for _, t, l in edges] if face else []) + secs + ([] if face else [(t, l) for _, t, l in edges])
    f = w.path('a.cgns')
    with w.h5.File(f, 'w') as h:
        node(w, h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', w.np.array([3.1], dtype='f4'))
        base = node(w, h, 'Base', 'CGNSBase_t', w.np.array([d, 3], dtype='int32'))
        z = node(w, base, 'zone 1', 'Zone_t', w.np.array([[nn], [len(cells)], [0]], dtype=idx))
        node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Unstructured'))
        g = node(w, z, 'GridCoordinates', 'GridCoordinates_t')
        for k, c in enumerate('XYZ'):
            node(w, g, 'Coordinate' + c, 'DataArray_t', xyz[:, k])
        num, place = 1, {}
        for i, (t, l) in enumerate(secs):
            s = node(w, z, f'Elem{i}', 'Elements_t', w.np.array([CODE[t], 0], dtype='int32'))
            node(w, s, 'ElementRange', 'IndexRange_t', w.np.array([num, num + len(l) - 1], dtype=idx))
            node(w, s, 'ElementConnectivity', 'DataArray_t', w.np.array([v + 1 for q in l for v in q], dtype=idx))
            for k, q in enumerate(l):
                if DIM[t] == d - 1:
                    place[tuple(q)] = num + k
            num += len(l)
        zb = node(w, z, 'ZoneBC', 'ZoneBC_t')
        for k, (s, l) in enumerate(sides.items()):
            b = node(w, zb, s if k % 2 else f'bc{k}', 'BC_t', text(w, 'BCWall'))
            if k % 2 == 0:
                node(w, b, 'FamilyName', 'FamilyName_t', text(w, s))
            if s in lists:
                pts = sorted({i + 1 for q in l for i in q}, reverse=True)
                node(w, b, 'PointList', 'IndexArray_t', w.np.array([[p] for p in pts], dtype=idx))
            else:
                pts = [place[tuple(q)] for q in l]
                node(w, b, 'GridLocation', 'GridLocation_t', text(w, 'FaceCenter'))
                node(w, b, 'PointList', 'IndexArray_t', w.np.array([[p] for p in pts], dtype=idx))
    r = C.cgnsMesh(f)
    r.read_data()
    B.held(w, r.export_mesh(), x, [c for s in secs for c in [(s[0], q) for q in s[1]] if DIM[s[0]] == d], {s: {i for q in v for i in q} for s, v in sides.items()}, "zone of many cells")


def refused(w, how):
    C = w.mod('cfdtools.cgns.cgns')
    f = w.path('a.cgns')
    if how != 'absent':
        with w.h5.File(f, 'w') as h:
            node(w, h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', w.np.array([3.1], dtype='f4'))
            base = node(w, h, 'Base', 'CGNSBase_t', w.np.array([2, 3], dtype='int32'))
            if how in ('bases', 'same'):  # a zone in each of two bases
                b = node(w, h, 'Base2', 'CGNSBase_t', w.np.array([2, 3], dtype='int32'))
                z = node(w, b, 'z0' if how == 'same' else 'y', 'Zone_t', w.np.array([[3], [1], [0]], dtype='int32'))
                node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Unstructured'))
            for k in range(2 if how == 'zones' else 1):
                z = node(w, base, f'z{k}', 'Zone_t', w.np.array([[3], [1], [0]], dtype='int32'))
                node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Structured' if how == 'structured' else 'Unstructured'))
    r = C.cgnsMesh(f)
    sel = {'same': 'z0', 'unknown': 'zz'}.get(how)
    _, exc = w.raises(lambda: r.read_data(**({'zone': sel} if sel else {})), Exception)
    w.check(exc is not None, "refused")


def scenarios(tier):
    T = tier == 'thorough'
    V = lambda n, fam=None, k=2: (n, fam, 'PointList', 'Vertex', k)
    F = lambda n, fam=None, k=1, kind='PointList': (n, fam, kind, 'FaceCenter', k)
    cf = []
    q = [('A', 'quad4', 2), ('B', 'bar2', 2), ('C', 'bar2', 1)]
    for p in itertools.permutations(q) if T else (q, q[::-1], [q[1], q[0], q[2]]):
        cf.append(dict(dim=2, nnode=5, sections=list(p), bcs=[V('b0', 'in'), F('b1', 'wall', 2), F('b2', None, 1, 'ElementList')], symconn=1))
    cf.append(dict(dim=2, nnode=5, sections=[('x', 'tri3', 1), ('w', 'bar2', 2), ('a', 'quad4', 1), ('b', 'tri3', 1)], idx='int64',
                   bcs=[F('b0', 'wall', ('w',)), ('all', 'FLUID', 'PointList', 'Vertex', 'allnodes'), V('b1', None, 3)], symconn=3))
    cf.append(dict(dim=2, nnode=4, sections=[('x', 'tri3', 2), ('w', 'bar2', 2)], symconn=2,
                   bcs=[F('b0', 'wall', ('w',), 'ElementList'), ('all', 'FLUID', 'ElementList', 'CellCenter', 'allcells')]))
    cf.append(dict(dim=2, nnode=4, sections=[('w', 'bar2', 3), ('x', 'tri3', 2)], symconn=1,
                   bcs=[F('b0', 'wall', 2, 'ElementList'), ('all', 'FLUID', 'ElementList', 'CellCenter', 'allcells'), F('b1', 'wall', 1)]))
    cf.append(dict(dim=3, nnode=8, sections=[('hex', 'hexa8', 1), ('t', 'tri3', 1), ('qq', 'quad4', 1), ('e', 'bar2', 1)], symconn=1,
                   bcs=[F('b0', None, ('t', 'qq')), F('b1', 'Fam/in 2', ('qq',), 'ElementList'), V('b3', 'Fam/in 2', 2), V('b2', 'in 2', 1)]))
    cf.append(dict(dim=3, nnode=8, sections=[('qq', 'quad4', 2), ('hex', 'hexa8', 1), ('qr', 'quad4', 1)], symconn=1,
                   bcs=[F('b0', 'w', 1), F('b1', 'u', ('qr',)), V('b2', 'u', 3)]))
    cf.append(dict(dim=2, nnode=4, sections=[('x', 'tri3', 2), ('w', 'bar2', 2)], symconn=1, zbc=('ZoneGridConnectivity', 'ZoneGridConnectivity_t', 'GridConnectivity_t'),
                   bcs=[F('b0', None, ('w',)), V('b1', None, 2)]))
    # as many boundary faces, marked nodes or cells as nodes or cells in the zone
    cf.append(dict(dim=2, nnode=4, sections=[('w', 'bar2', 4), ('x', 'quad4', 1)], symconn=0, bcs=[F('b0', None, ('w',)), V('b1', None, 1), F('b2', 'one', 1)]))
    cf.append(dict(dim=2, nnode=4, sections=[('x', 'quad4', 1), ('w', 'bar2', 4)], symconn=0, bcs=[F('b0', 'wall', 4, 'ElementList'), V('b1', None, 3)]))
    cf.append(dict(dim=2, nnode=4, sections=[('x', 'tri3', 2), ('u', 'bar2', 2), ('v', 'bar2', 2)], symconn=1, bcs=[F('b0', None, ('u',)), V('b1', None, 2), F('b2', None, ('u', 'v'))]))
    cf.append(dict(dim=2, nnode=4, sections=[('w', 'bar2', 4), ('x', 'tri3', 4)], symconn=0, bcs=[F('b0', None, ('w',)), V('b1', None, 3), ('all', 'FLUID', 'PointList', 'Vertex', 'allnodes')]))
    # every kind of volume cell
    cf.append(dict(dim=3, nnode=6, sections=[('w', 'tri3', 2), ('t', 'tetra4', 2), ('q', 'quad4', 1), ('p', 'pyra5', 1), ('r', 'prism6', 1)], symconn=2,
                   bcs=[F('b0', None, ('w',)), F('b1', 'fam', 1)]))
    cf.append(dict(dim=3, nnode=8, sections=[('r', 'prism6', 1), ('h', 'hexa8', 1), ('p', 'pyra5', 2), ('q', 'quad4', 2), ('t', 'tetra4', 1)], symconn=1,
                   bcs=[F('b0', None, ('q',), 'ElementList')]))
    # other bases, zones given by their names, names used in two nodes
    tri = dict(dim=2, nnode=4, sections=[('x', 'tri3', 2), ('w', 'bar2', 2)], symconn=1, bcs=[F('b0', None, ('w',)), V('b1', None, 2)])
    cf += [dict(tri, bases=[('A', 3, [])]), dict(tri, bases=[('Z', 3, [])]), dict(tri, bases=[('A', 3, ['y']), ('Z', 1, ['z', 'zone 2'])], select='zone 1'), dict(tri, select='zone 1')]
    cf.append(dict(dim=2, nnode=4, sections=[('x', 'tri3', 2), ('w', 'bar2', 2), ('v', 'bar2', 1)], symconn=1, parents=(0, 1, 1, 0),
                   bcs=[F('b0', None, ('w',)), F('b0', 'fam', ('v',)), V('b1', None, 2), V('b1', None, 1)]))
    if T:
        cf += [dict(c, symconn=3) for c in cf]
    L = [dict(n=(12, 11), split=5, where=(17,), face=True), dict(n=(12, 11), split=5, where=(17,), pieces=4, idx='int64', lists=('left', 'top')), dict(n=(8, 7, 6), split=4, where=(400,), face=True, lists=('kmin', 'jmax')),
         dict(n=(110, 100), split=3, where=(7000,)), dict(n=(26, 22, 16), split=7, pieces=3, lists=('imin', 'jmin', 'kmax')), dict(n=(40, 30), where=(), pieces=60)]
    if T:
        L += [dict(n=(260, 260), lists=('top', 'left')), dict(n=(40, 40, 42), lists=('imin', 'imax'))]
    return [('many', many, L, {}), ('zone', zone, cf, dict(max_replay=8)), ('refused', refused, [dict(how=h) for h in ('absent', 'zones', 'structured', 'bases', 'same', 'unknown')], {})]
