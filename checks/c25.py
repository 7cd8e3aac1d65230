"""C25: meshes hold exactly what they are given and refuse the rest."""
from checks import big, shapes
from checks.c04 import conn_of, faces_of
from checks.c06 import LAY as LAYOUTS
from checks.c20 import describe

META = dict(
    bounds="meshes of <= 5 nodes and 3 cells with <= 6 boundary faces, coordinates of 64 free bits (exact reals where they are computed with), every subset of the boundary faces "
           "in 1 or 2 marks or in several ones, sequences of 4 changes of faces; boxes of up to 4352 cells, three nodes having symbolic coordinates and three faces being in the marks or not",
    outside="larger meshes of other shapes, morphing functions other than permutations, affine functions, products and quotients of coordinates, marks of nodes when the faces are known (C06)",
    assumptions=["deformed coordinates are exact reals (replayed in floating point with a tolerance)"],
    must_reach=["coordinates: node coordinates as they were given", "morph: nodes are moved by the function", "morph: nothing else changes", "faces: number of faces held",
                "marks: mesh accepted when all boundary faces are marked", "marks: checking changes nothing", "data: removed data are gone, others stay", "refuse: refused",
                "remark: a mark given again replaces the first one", "many: nodes are moved by the function", "many: faces in no mark are gathered"],
)


def mesh_of(w, lay, xyz, faces=False):
    M = w.mod('cfdtools.meshbase._mesh')
    spec = LAYOUTS[lay]
    nn = 1 + max(i for _, c in spec for i in c)
    m = M.Mesh(len(spec), nn)
    m.set_nodescoord_nd(xyz(nn))
    m.set_cell2node(conn_of(w, [[t, list(c), k] for k, (t, c) in enumerate(spec)]))
    if faces:
        m.make_face_connectivity()
    return m


def alleq(w, a, b):
    if isinstance(b, list):
        return w.And(len(a) == len(b), *[alleq(w, p, q) for p, q in zip(a, b)])
    return w.polyeq(a, b)


def coordinates(w, n, how):
    M = w.mod('cfdtools.meshbase._mesh')
    m = M.Mesh(1, n)
    for k, form in enumerate(how):  # the last coordinates replace the first ones
        a = w.intarray(f'x{k}', (n, 3), -10 ** 6, 10 ** 6, 'i8') if form == 'ints' else w.f64array(f'x{k}', (n, 3))
        x = w.plain(a)
        cols = [[p[c] for p in x] for c in range(3)]
        if form in ('nd', 'ints'):
            m.set_nodescoord_nd(a)
        elif form == 'columns':
            m.set_nodescoord_nd(w.np.column_stack([a[:, 0], a[:, 1], a[:, 2]]))
        elif form == 'fortran':
            m.set_nodescoord_nd(w.np.array([cols[0], cols[1], cols[2]]).T)
        elif form == 'xyz':
            m.set_nodescoord_xyz(a[:, 0], a[:, 1], a[:, 2])
        elif form == 'list':
            m.set_nodescoord_xyz(*cols)
        elif form == 'tuple':
            m.set_nodescoord_xyz(*[tuple(c) for c in cols])
        w.check(w.same(m.nodescoord(ndarray=True), x), "node coordinates as they were given")
        w.check(w.same([w.plain(c) if not isinstance(c, (list, tuple)) else list(c) for c in m.nodescoord()], cols), "node coordinates as they were given")
        w.check(tuple(m.nodescoord(ndarray=True).shape) == (n, 3), "node coordinates as they were given")
        w.check(m.nnode == n, "number of nodes held")


def full_mesh(w, lay, xyz, names=None):
    """mesh with cells, faces, marks, state, partition and data"""
    M, C, D = w.mod('cfdtools.meshbase._mesh'), w.mod('cfdtools.meshbase._connectivity'), w.mod('cfdtools.data')
    m = mesh_of(w, lay, xyz, faces=True)
    nb = m._faces['boundary']['face2node'].nelem
    for k in range(2):
        b = M.submeshmark(f'b{k}')
        b.geodim, b.type, b.index = 'bdface', 'boundary', C.indexlist(ilist=[k, nb - 1 - k])
        b.properties['periodic_transform'] = None
        m.add_boco(b)
    for nm, kind, n in (('nodedata', 'nodal', m.nnode), ('celldata', 'cellaverage', m.ncell), ('facedata', 'cellaverage', 1)):
        d = D.DataSet(kind)
        for v in names or (nm[0] + 'P', nm[0] + 'Q'):
            d.add_data(v, w.f64array(nm + v, (n,)))
        getattr(m, 'set_' + nm)(d)
    m.set_params({'step': 1, 'dt': 0.5})
    step = w.int('step', 0, 9)
    m.set_params({'step': step})
    w.check(list(m._params) == ['step'] and w.same(m._params['step'], step), "parameters given again replace the former ones")
    m.update_params({'time': w.f64('time')})
    m.set_partition({'npart': 1, 'icvpart': w.intarray('part', (m.ncell,), 0, 3)})
    return m


def rest(w, m):
    d = describe(w, m)
    return d[:2] + d[3:] + [m.nface, w.plain(m._cellprop['partition']['icvpart'])]


def morph(w, lay, how, lists=False):
    exact = how not in ('swap', 'keep')
    given = []

    def xyz(n):
        given.append(w.realarray('x', (n, 3), -8, 8) if exact else w.f64array('x', (n, 3)))
        return given[0]

    m = full_mesh(w, lay, xyz)
    twin = mesh_of(w, lay, lambda n: given[0])  # made of the same coordinates
    x = w.plain(m.nodescoord(ndarray=True))
    before = rest(w, m)
    if lists:
        m.set_nodescoord_xyz(*[[p[c] for p in x] for c in range(3)])
    a = w.reals('a', 4, -4, 4)
    f = {
        'keep': lambda x, y, z: (x, y, z), 'swap': lambda x, y, z: (z, x, y),
        'affine': lambda x, y, z: (a[0] * x + a[1] * y + a[2], y - z * a[3], 2 * z),
        'product': lambda x, y, z: (x * y, y * y - z, x + z * y), 'quotient': lambda x, y, z: (x / (1 + y * y), y, z),
        'shape': lambda x, y, z: (x, y, z + 0 * w.np.abs(x)) if not hasattr(x, 'mean') else (x - x.mean(), y, z),
        'scale': lambda x, y, z: (a[0] * x, a[1] * y, a[2] * z),
    }[how]
    if how == 'scale':
        m.scale([a[0], a[1], a[2]])
    else:
        m.morph(f)
    y = w.plain(m.nodescoord(ndarray=True))
    if how == 'shape':
        mean = sum([p[0] for p in x], 0)
        w.check(alleq(w, [p[0] * len(x) for p in y], [p[0] * len(x) - mean for p in x]) and w.same([p[1:] for p in y], [p[1:] for p in x]), "nodes are moved by the function")
    elif how == 'quotient':
        w.check(alleq(w, [q[0] * (1 + p[1] * p[1]) for p, q in zip(x, y)], [p[0] for p in x]) and w.same([p[1:] for p in y], [p[1:] for p in x]), "nodes are moved by the function")
    else:
        want = [list(f(*p)) for p in x]
        w.check(alleq(w, y, want) if exact else w.same(y, want), "nodes are moved by the function")
    w.check(w.same(rest(w, m), before), "nothing else changes")
    w.check(w.same(given[0], x) and w.same(twin.nodescoord(ndarray=True), x), "coordinates of the caller and of other meshes stay")


def remark(w, n):
    """marks given again and removed, in any order"""
    C, M = w.mod('cfdtools.meshbase._connectivity'), w.mod('cfdtools.meshbase._mesh')
    m, other = mesh_of(w, 'tet', lambda n: w.f64array('x', (n, 3)), faces=True), mesh_of(w, 'tet', lambda n: w.f64array('y', (n, 3)), faces=True)
    held = {}
    for k in range(n):
        nm, act = w.pick(f'n{k}', ('w', 'wall')), w.pick(f'act{k}', ('list', 'range', 'empty', 'remove'))
        if act == 'remove':
            if nm in held:
                m.remove_boco(nm)
                del held[nm]
        else:
            b = M.submeshmark(nm)
            b.geodim, b.type = 'bdface', 'boundary'
            b.index = {'list': lambda: C.indexlist(ilist=[3, k % 3]), 'range': lambda: C.indexlist(irange=[k % 3, 2]), 'empty': lambda: C.indexlist(ilist=[])}[act]()
            b.properties['k'] = k
            m.add_boco(b)
            held[nm] = b, {'list': [3, k % 3], 'range': list(range(k % 3, 3)), 'empty': []}[act]
        w.check(sorted(m._bocos) == sorted(held), "marks held")
        for q, (b, l) in held.items():
            w.check(m.seekmark(q) is b and m._bocos[q] is b and list(m._bocos[q].index.list()) == l, "a mark given again replaces the first one")
        w.check(list(other._bocos) == [], "marks of other meshes stay")


def faces(w, n):
    """faces of the three kinds given and removed in any order"""
    C, M = w.mod('cfdtools.meshbase._connectivity'), w.mod('cfdtools.meshbase._mesh')
    m = M.Mesh(1, 4)
    held = {}
    for k in range(n):
        kind = w.pick(f'kind{k}', ('mixed', 'internal', 'boundary'))
        act = w.pick(f'act{k}', ('two', 'three', 'remove'))
        if act == 'remove':
            m.pop_faces(kind)
            held.pop(kind, None)
        else:
            c = C.elem_connectivity()
            c.add_elems('tri3', w.np.array([[0, 1, 2], [1, 2, 3]]))
            if act == 'three':
                c.add_elems('bar2', w.np.array([[0, 1]]))
            m.add_faces(kind, c, C.indexindirection(w.np.array([[0, -1]] * (2 + (act == 'three')))))
            held[kind] = 2 + (act == 'three')
        w.check(w.same([m.nface], [sum(held.values())]), "number of faces held")
        w.check(sorted(m._faces) == sorted(held), "kinds of faces held")


def counts(w, first, then):
    """cells given again"""
    m = mesh_of(w, first, lambda n: w.f64array('x', (n, 3)))
    w.check(m.ncell == len(LAYOUTS[first]), "number of cells held")
    m.set_cell2node(conn_of(w, [[t, list(c), k] for k, (t, c) in enumerate(LAYOUTS[then])]))
    w.check(m.ncell == len(LAYOUTS[then]), "number of cells held")
    m.make_face_connectivity()
    sets = {}
    for c, f in faces_of([[t, list(c), k] for k, (t, c) in enumerate(LAYOUTS[then])]):
        sets[frozenset(f)] = sets.get(frozenset(f), 0) + 1
    w.check(m.nface == len(sets), "number of faces held")
    m.make_face_connectivity()
    w.check(m.nface == len(sets) and sorted(m._faces) == ['boundary', 'internal'], "number of faces held")
    m.set_cell2node(conn_of(w, [[t, list(c), k] for k, (t, c) in enumerate(LAYOUTS[first])]))
    m.make_face_connectivity()
    sets = {}
    for c, f in faces_of([[t, list(c), k] for k, (t, c) in enumerate(LAYOUTS[first])]):
        sets.setdefault(frozenset(f), []).append(c[0] if isinstance(c, (list, tuple)) else c)
    w.check(m.nface == len(sets), "number of faces held")
    have = {}
    for kind, n in (('internal', 2), ('boundary', 1)):
        tab = {}
        for _, e in m._faces[kind]['face2node'].items():
            tab.update(zip(e['index'].list(), w.plain(e['elem2node'])))
        own = w.plain(m._faces[kind]['face2cell'].conn)
        for i, ids in tab.items():
            have[frozenset(ids)] = sorted(own[i][:n])
    w.check(have == {k: sorted(v) for k, v in sets.items()}, "faces are those of the cells")


def marks(w, lay, nmark, overlap=0):
    """any subset of the boundary faces is marked"""
    M, C = w.mod('cfdtools.meshbase._mesh'), w.mod('cfdtools.meshbase._connectivity')
    m = mesh_of(w, lay, lambda n: w.f64array('x', (n, 3)), faces=True)
    nb = m._faces['boundary']['face2node'].nelem
    owner = [w.int(f'o{i}', -1, nmark - 1) for i in range(nb)]
    held = [int(o) for o in owner]
    for k in range(nmark):
        l = [i for i in range(nb) if held[i] == k]
        b = M.submeshmark(f'b{k}')
        b.geodim, b.type = ('face', 'bdface')[k % 2], 'boundary'
        b.index = C.indexlist(irange=[l[0], l[-1]]) if l and l[-1] - l[0] + 1 == len(l) and k % 2 else C.indexlist(ilist=l)
        b.properties['periodic_transform'] = None
        m.add_boco(b)
    extra = [int(w.int(f'x{i}', 0, nb - 1)) for i in range(overlap)]
    if overlap:  # faces in several marks, or twice in a mark
        b = M.submeshmark('bx')
        b.geodim, b.type, b.index = 'bdface', 'boundary', C.indexlist(ilist=extra)
        b.properties['periodic_transform'] = None
        m.add_boco(b)
    names = list(m._bocos)
    held = [-1 if held[i] < 0 and i not in extra else 0 for i in range(nb)]
    before = describe(w, m)
    full = -1 not in held
    for _ in range(2):
        _, e = w.raises(m.check, Exception)
        if full:
            w.check(e is None, "mesh accepted when all boundary faces are marked")
        else:
            w.check(e is not None, "mesh refused when a boundary face is not marked")
        w.check(w.same(describe(w, m), before), "checking changes nothing")
    left = m.make_unmarked_BC('left')
    w.check(sorted(left) == [i for i in range(nb) if held[i] < 0], "faces in no mark are gathered")
    w.check(sorted(m._bocos) == sorted(names + ['left'] * (not full)), "faces in no mark are gathered")
    _, e = w.raises(m.check, Exception)
    w.check(e is None, "mesh accepted when all boundary faces are marked")
    if not full:
        w.check(sorted(m._bocos['left'].index.list()) == sorted(left), "faces in no mark are gathered")
        m.remove_boco('left')
        w.check(w.same(describe(w, m), before), "removed marks are gone, others stay")
        _, e = w.raises(m.reindex_boundaryfaces, Exception)
        w.check(e is not None, "faces in no mark are refused when renumbering")


def empty(w):
    """meshes with no node or no cell"""
    M = w.mod('cfdtools.meshbase._mesh')
    n, c = int(w.int('n', 0, 2)), int(w.int('c', 0, 2))
    m = M.Mesh(c, n)
    w.check(m.ncell == c and m.nnode == n and m.nface == 0, "number of cells held")
    _, e = w.raises(m.check, Exception)
    w.check((e is None) == (n > 0 and c > 0), "mesh accepted when all boundary faces are marked")


NEAR = ('P', 'P_AVG', 'p')  # the same names everywhere, one begins another one


def data(w, lay):
    """data and marks removed in any order"""
    m = full_mesh(w, lay, lambda n: w.f64array('x', (n, 3)), NEAR)
    sets = {'n': m._nodedata, 'c': m._celldata, 'f': m._facedata}
    pop = {'n': m.pop_nodedata, 'c': m.pop_celldata, 'f': m.pop_facedata}
    vals = {(k, v): w.plain(sets[k][v]) for k in sets for v in NEAR}
    held = dict(vals)
    before = rest(w, m)
    for i in range(2):
        k, v = w.pick(f'k{i}', 'ncf'), w.pick(f'v{i}', (*NEAR, 'none', 'AVG'))
        r = pop[k](v)
        if (k, v) in held:
            w.check(w.same(r, held.pop((k, v))), "removed data are given back")
        else:
            w.check(r is None, "data which do not exist are ignored")
        for q in sets:
            w.check(sorted(sets[q].keys()) == sorted(n for s, n in held if s == q), "removed data are gone, others stay")
            for n in sets[q].keys():
                w.check(w.same(sets[q][n], vals[q, n]), "removed data are gone, others stay")
    b = w.pick('boco', ('b0', 'b1'))
    m.remove_boco(b)
    w.check(list(m._bocos) == ['b1' if b == 'b0' else 'b0'], "removed marks are gone, others stay")
    w.check(m.seekmark(list(m._bocos)[0]) is m._bocos[list(m._bocos)[0]], "removed marks are gone, others stay")
    w.check(w.same(rest(w, m)[:2], before[:2]), "nothing else changes")


def nodata(w):
    """removing data from a mesh which has none"""
    m = mesh_of(w, 'tet', lambda n: w.f64array('x', (n, 3)))
    k = w.pick('k', ('pop_nodedata', 'pop_celldata', 'pop_facedata'))
    w.check(getattr(m, k)('P') is None, "data which do not exist are ignored")


def refuse(w, what):
    M, C = w.mod('cfdtools.meshbase._mesh'), w.mod('cfdtools.meshbase._connectivity')
    m = full_mesh(w, 'tet', lambda n: w.f64array('x', (n, 3)))
    before = describe(w, m)

    def no(f, *a):
        _, e = w.raises(lambda: f(*a), Exception)
        w.check(e is not None, "refused")
        w.check(w.same(describe(w, m), before), "refusing changes nothing")

    if what == 'nd':
        n = w.pick('n', (0, 1, 3, 5, 8))
        no(m.set_nodescoord_nd, w.f64array('y', (n, 3)))
        no(m.set_nodescoord_nd, w.f64array('z', (3, 4)))
    elif what == 'xyz':
        n = [int(w.int(f'n{c}', 3, 5)) for c in range(3)]
        w.assume(w.Or(*[v != 4 for v in n]))
        if n == [4, 4, 4]:
            return
        y = [w.f64s(f'y{c}', n[c]) for c in range(3)]
        no(m.set_nodescoord_xyz, *(y if bool(w.bool('lists')) else [w.array(v, float) for v in y]))
    elif what == 'morph':
        k = int(w.int('k', 0, 2))
        no(m.morph, lambda *x: tuple(v[1:] if c == k else v for c, v in enumerate(x)))
    elif what == 'faces':
        c = C.elem_connectivity()
        c.add_elems('tri3', w.np.array([[0, 1, 2]]))
        no(m.add_faces, w.pick('kind', ('face', 'bdface', '', 'Internal')), c)
    elif what == 'mark':
        b = M.submeshmark('b')
        _, e = w.raises(lambda: setattr(b, 'index', C.indexlist(ilist=[0])), Exception)
        w.check(e is not None, "refused")
        k = w.pick('k', ('geodim', 'type'))
        b.geodim, b.type, b.index = 'bdface', 'perio_cart', C.indexlist(ilist=[2, 0])
        _, e = w.raises(lambda: setattr(b, k, w.pick('v', ('edge', 'wall', '', 'Boundary', None))), Exception)
        w.check(e is not None, "refused")
        w.check(b.geodim == 'bdface' and b.type == 'perio_cart' and b.index.list() == [2, 0] and b.name == 'b', "refusing changes nothing")
    elif what == 'kinds':
        for g, node, face in (('node', 1, 0), ('bdnode', 1, 0), ('intnode', 1, 0), ('face', 0, 1), ('bdface', 0, 1), ('intface', 0, 1), ('cell', 0, 0)):
            b = M.submeshmark('b')
            b.geodim = g
            w.check(bool(b.nodebased()) == bool(node) and bool(b.facebased()) == bool(face), "marks know what they hold")
    elif what == 'extrude':
        n = int(w.int('n', 0, 1))
        m2 = mesh_of(w, 'tri-quad', lambda n: w.f64array('y', (n, 3)))
        before2 = describe(w, m2)
        _, e = w.raises(lambda: m2.export_extruded(extrude=[1.0] * n), Exception)
        w.check(e is not None, "refused")
        b = M.submeshmark('b')
        b.geodim, b.type, b.index = 'bdface', 'boundary', C.indexlist(ilist=[0])
        m2.add_boco(b)
        _, e = w.raises(lambda: m2.export_extruded(extrude=[0.0, 1.0]), Exception)
        w.check(e is not None, "refused")
        m2.remove_boco('b')
        w.check(w.same(describe(w, m2), before2), "refusing changes nothing")


def many(w, n, split=0, how='affine'):
    """boxes of many cells: coordinates given and moved, faces counted, any of the picked faces out of the marks"""
    M, C = w.mod('cfdtools.meshbase._mesh'), w.mod('cfdtools.meshbase._connectivity')
    cells, pos = big.cells3(n, split), big.lattice(n)
    nn = len(pos)
    where = (0, nn // 2, nn - 1)
    xyz, x = big.array(w, 'x', (nn, 3), where, None if how in ('swap', 'scale1') else lambda v: w.real(v, -8, 8))
    m = M.Mesh(len(cells), nn)
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(big.conn(w, cells))
    w.check(w.same(m.nodescoord(ndarray=True), x), "node coordinates as they were given")
    m.make_face_connectivity()
    own = {}
    for c, (t, ids) in enumerate(cells):
        for q in shapes.OUT[t]:
            own.setdefault(frozenset(ids[i] for i in q), []).append(c)
    w.check(m.nface == len(own) and m.ncell == len(cells) and m.nnode == nn, "number of faces held")
    b = m._faces['boundary']['face2node']
    nb = sum(1 for v in own.values() if len(v) == 1)
    w.check(b.nelem == nb, "number of faces held")
    tab = {int(i): frozenset(int(v) for v in q) for _, e in b.items() for i, q in zip(e['index'].list(), w.plain(e['elem2node']))}
    one = w.plain(m._faces['boundary']['face2cell'].conn)
    w.check(len(tab) == nb and all(own.get(q) == [int(one[i][0])] for i, q in tab.items()), "faces are those of the cells")
    a = w.reals('a', 4, -4, 4)
    f = {'affine': lambda x, y, z: (a[0] * x + a[1] * y + a[2], y - z * a[3], 2 * z), 'swap': lambda x, y, z: (z, x, y), 'product': lambda x, y, z: (x * y, y * y - z, x + z * y),
         'scale': lambda x, y, z: (a[0] * x, a[1] * y, a[2] * z), 'scale1': lambda x, y, z: (2.0 * x, -0.5 * y, 4.0 * z)}[how]
    if how.startswith('scale'):
        m.scale(list(a[:3]) if how == 'scale' else [2.0, -0.5, 4.0])
    else:
        m.morph(f)
    y = w.plain(m.nodescoord(ndarray=True))
    w.check(len(y) == nn, "nodes are moved by the function")
    if len(y) != nn:
        return
    if how in ('swap', 'scale1'):
        w.check(w.same(y, [list(f(*p)) for p in x]), "nodes are moved by the function")
    else:
        places = sorted(set(where) | set(range(0, nn, max(1, nn // 40))) | {1, nn - 2})
        w.check(alleq(w, [y[i] for i in places], [list(f(*x[i])) for i in places]), "nodes are moved by the function")
        if how == 'product':
            w.check(all(y[i] == list(f(*x[i])) for i in range(nn) if i not in where), "nodes are moved by the function")
    out = [i for i in (0, nb // 3, nb - 1) if bool(w.bool(f'out{i}'))]
    k, held = 7, [i for i in range(nb) if i not in out]
    for j in range(k):
        q = M.submeshmark(f'b{j}')
        q.geodim, q.type, q.index = 'bdface', 'boundary', C.indexlist(ilist=held[j::k])
        q.properties['periodic_transform'] = None
        m.add_boco(q)
    _, e = w.raises(m.check, Exception)
    w.check((e is None) == (not out), "mesh accepted when all boundary faces are marked" if not out else "mesh refused when a boundary face is not marked")
    left = m.make_unmarked_BC('left')
    w.check(sorted(int(i) for i in left) == out, "faces in no mark are gathered")
    w.check(all(sorted(m._bocos[f'b{j}'].index.list()) == held[j::k] for j in range(k)), "removed marks are gone, others stay")
    _, e = w.raises(m.check, Exception)
    w.check(e is None, "mesh accepted when all boundary faces are marked")


def scenarios(tier):
    T = tier == 'thorough'
    co = [dict(n=n, how=h) for n, h in ((3, ['nd', 'list']), (2, ['xyz', 'fortran']), (4, ['columns', 'tuple', 'nd']), (1, ['list', 'xyz']), (3, ['ints', 'nd', 'ints']))]
    mo = [dict(lay=l, how=h) for l, h in (('tet', 'keep'), ('tets2', 'swap'), ('tri-quad', 'affine'), ('tet', 'product'), ('tet', 'quotient'), ('tet', 'shape'), ('quads', 'scale'))]
    mo += [dict(lay='tet', how='affine', lists=True), dict(lay='tet', how='swap', lists=True), dict(lay='tet', how='scale', lists=True)]
    mk = [dict(lay='tet', nmark=1), dict(lay='tet', nmark=2), dict(lay='tri-quad', nmark=1), dict(lay='prism', nmark=1)]
    mk += [dict(lay='tet', nmark=1, overlap=2), dict(lay='tri-quad', nmark=1, overlap=1)]
    if T:
        mk += [dict(lay='tets2', nmark=2), dict(lay='hex', nmark=2), dict(lay='quads', nmark=2), dict(lay='tet', nmark=3)]
    cn = [dict(first=a, then=b) for a, b in (('tet', 'tets2'), ('quads', 'tri-quad'), ('hex-prism', 'tet'))]
    o = dict(max_replay=10)
    return [('coordinates', coordinates, co, o), ('morph', morph, mo, o), ('faces', faces, [dict(n=4 if T else 3)], o), ('counts', counts, cn, o), ('remark', remark, [dict(n=3)], o), ('marks', marks, mk, o), ('empty', empty, [{}], o),
            ('data', data, [dict(lay='tet')], o), ('nodata', nodata, [{}], o), ('refuse', refuse, [dict(what=x) for x in ('nd', 'xyz', 'morph', 'faces', 'mark', 'kinds', 'extrude')], o),
            ('many', many, [dict(n=(12, 10, 9)), dict(n=(5, 4, 60), split=3, how='swap'), dict(n=(7, 6, 5), split=2, how='product'), dict(n=(40, 5, 6), how='scale'), dict(n=(16, 16, 17), how='scale1')], o)]
