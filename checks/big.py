"""Meshes of many cells: mostly given numbers, with symbolic values at picked places."""
from checks import shapes
from checks.meshlib import face_table, make_mesh

SIDES = {'imin': (0, 0), 'imax': (0, 1), 'jmin': (1, 0), 'jmax': (1, 1), 'kmin': (2, 0), 'kmax': (2, 1)}


def nid(n, i, j, k):
    return i + (n[0] + 1) * (j + (n[1] + 1) * k)


def cells3(n, split=0):
    """hexahedra, one column out of `split` being cut in two prisms"""
    hexa, pris = [], []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                q = [nid(n, i + a, j + b, k + c) for c in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
                if split and (i + 3 * j) % split == 0:
                    pris += [('prism6', [q[0], q[1], q[2], q[4], q[5], q[6]]), ('prism6', [q[0], q[2], q[3], q[4], q[6], q[7]])]
                else:
                    hexa.append(('hexa8', q))
    return hexa + pris


def cells2(n, split=0):
    quad, tri = [], []
    for j in range(n[1]):
        for i in range(n[0]):
            q = [i + a + (n[0] + 1) * (j + b) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            if split and (i + 3 * j) % split == 0:
                tri += [('tri3', [q[0], q[1], q[2]]), ('tri3', [q[0], q[2], q[3]])]
            else:
                quad.append(('quad4', q))
    return quad + tri


def lattice(n):
    return [[i, j, k] for k in range(n[2] + 1) for j in range(n[1] + 1) for i in range(n[0] + 1)]


def number(k, salt=0):
    """a number with a full mantissa, different for each k"""
    return (((k + 1) * 2654435761 + salt * 40503) % 4294967291) / 4294967291.0 + k * 1e-3 + salt


def array(w, name, shape, where=(), sym=None, salt=0):
    """floats, symbolic at the given places of the first axis; returns (array, values as lists)"""
    n = shape[0]
    m = 1
    for s in shape[1:]:
        m *= s
    sym = sym or w.f64
    flat = [number(k, salt) for k in range(n * m)]
    for p in where:
        q = (p % n) * m
        flat[q] = sym(f'{name}{p}')
    a = w.array(flat, float).reshape(shape)
    if len(shape) == 1:
        return a, flat
    rows = [flat[i * m:(i + 1) * m] for i in range(n)]
    if len(shape) == 3:
        rows = [[r[i * shape[2]:(i + 1) * shape[2]] for i in range(shape[1])] for r in rows]
    return a, rows


def conn(w, cells, first=0):
    C = w.mod('cfdtools.meshbase._connectivity')
    c = C.elem_connectivity()
    types = []
    for t, _ in cells:
        if t not in types:
            types.append(t)
    for t in types:
        ids = [i for i, x in enumerate(cells) if x[0] == t]
        c.add_elems(t, w.np.array([cells[i][1] for i in ids]), C.indexlist(ilist=[first + i for i in ids]))
    return c


def mesh(w, n, split=0, where=(), sides=SIDES, sym=None):
    """box of cells with marks of nodes; returns (mesh, expectations)"""
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    cells = cells3(n, split)
    pos = lattice(n)
    xyz, vals = array(w, 'x', (len(pos), 3), where, sym)
    m = make_mesh(w, len(pos), len(cells), xyz)
    m.set_cell2node(conn(w, cells))
    marks = {}
    for nm, (d, v) in sides.items():
        k = M.submeshmark(nm)
        k.geodim, k.type = 'bdnode', 'boundary'
        marks[nm] = [i for i, p in enumerate(pos) if p[d] == v * n[d]]
        k.index = C.indexlist(ilist=list(marks[nm]))
        m.add_boco(k)
    return m, dict(cells=cells, pos=pos, xyz=vals, marks=marks)


def same_faces(cells, tab, pairs):
    """None, or what is wrong with faces (index, nodes) and (cell, cell or negative) of the cells"""
    want = {}
    for c, (t, ids) in enumerate(cells):
        for f in shapes.OUT[t]:
            want.setdefault(frozenset(ids[i] for i in f), []).append((c, [ids[i] for i in f]))
    if len(tab) != len(want) or sorted(int(i) for i, _ in tab) != list(range(len(want))) or len(pairs) != len(want):
        return 'number of faces'
    for i, nodes in tab:
        nodes, (a, b) = [int(v) for v in nodes], [int(v) for v in pairs[int(i)]]
        own = dict(want.pop(frozenset(nodes), []))
        if a not in own or len(own[a]) != len(nodes):
            return f'face {i} of cell {a}'
        r = own[a].index(nodes[0])
        if own[a][r:] + own[a][:r] != nodes:
            return f'order of the nodes of face {i}'
        if (b < 0) != (len(own) == 1) or b >= 0 and (b == a or b not in own):
            return f'cells of face {i}'
    return None


def sides_ok(m, x, tab, boundary='boundary'):
    """each mark holds exactly the boundary faces, the nodes of which it held"""
    ids = {int(i): [int(v) for v in f] for i, f in tab}
    for nm, nodes in x['marks'].items():
        if nm not in m._bocos or m._bocos[nm].type != boundary:
            return f'{nm} missing'
        s = set(nodes)
        if sorted(int(i) for i in m._bocos[nm].index.list()) != sorted(i for i, f in ids.items() if s.issuperset(f)):
            return f'faces of {nm}'
    return None


def check_written(w, m, x, what="mesh of many cells kept"):
    """a mesh read from a file holds the box"""
    w.check(m.nnode == len(x['pos']) and m.ncell == len(x['cells']), what)
    w.check(w.same(m.nodescoord(ndarray=True), x['xyz']), "node coordinates of many nodes kept bit for bit")
    f = m._faces['mixed']
    tab = face_table(w, f['face2node'])
    w.check(m.nface == len(tab), what)
    bad = same_faces(x['cells'], tab, w.plain(f['face2cell'].conn))
    w.check(bad is None, f"{what} (faces)")
    w.check(sides_ok(m, x, tab) is None, f"{what} (marks)")


def faces(cells, pos, n, sides=SIDES):
    """boundary faces side after side, then internal ones: (node lists, pairs of cells, {side: (first, last)})"""
    own = {}
    for c, (t, ids) in enumerate(cells):
        for f in shapes.OUT[t]:
            f = [ids[i] for i in f]
            own.setdefault(frozenset(f), []).append((c, f))
    nodes, pairs, zones = [], [], {}
    outer = [v[0] for v in own.values() if len(v) == 1]
    for nm, (d, v) in sides.items():
        mine = [(c, f) for c, f in outer if all(pos[i][d] == v * n[d] for i in f)]
        zones[nm] = (len(nodes), len(nodes) + len(mine) - 1)
        nodes += [f for _, f in mine]
        pairs += [[c, -1] for c, _ in mine]
    for v in own.values():
        if len(v) == 2:
            nodes.append(v[0][1])
            pairs.append([v[0][0], v[1][0]])
    return nodes, pairs, zones


def build(w, n, split=0, where=(), data=(), part=True, wgt=(), state=True):
    """the same as c01.build for a box"""
    D, C = w.mod('cfdtools.data'), w.mod('cfdtools.meshbase._connectivity')
    M = w.mod('cfdtools.meshbase._mesh')
    cells, pos = cells3(n, split), lattice(n)
    x = dict(ndof=1, nnode=len(pos), ncell=len(cells), n={}, c={}, params={})
    xyz, x['xyz'] = array(w, 'x', (len(pos), 3), where)
    m = make_mesh(w, len(pos), len(cells), xyz)
    x['nodes'], x['cells'], zones = faces(cells, pos, n)
    x['nf'] = len(x['nodes'])
    fc = C.elem_connectivity()
    for t, k in (('tri3', 3), ('quad4', 4)):
        ids = [i for i, f in enumerate(x['nodes']) if len(f) == k]
        if ids:
            fc.add_elems(t, w.np.array([x['nodes'][i] for i in ids]), C.indexlist(ilist=ids))
    m.add_faces('mixed', fc, C.indexindirection(w.np.array(x['cells'])))
    x['spec'] = []
    for nm, (a, b) in zones.items():
        k = M.submeshmark(nm)
        k.geodim, k.type = 'bdface', 'boundary'
        k.index = C.indexlist(irange=[a, b])
        k.properties['periodic_transform'] = None
        m.add_boco(k)
        x['spec'].append((nm, 'boundary', a, b, None))
    if state:
        x['params'] = {'step': 12, 'dt': 0.25, 'time': 1.5}
    for i, s in enumerate(wgt):
        x['params'][s + '_wgt'] = w.f64(f'wgt{i}')
    m.set_params(dict(x['params']))
    if part:
        x['npart'] = 7
        x['icv'] = [(k * 7919) % 2**31 for k in range(len(cells))]
        m.set_partition({'npart': 7, 'icvpart': w.np.array(x['icv'], dtype='int32')})
    ds = {'node': D.DataSet('nodal'), 'cell': D.DataSet('cellaverage')}
    for i, (loc, kind, nm) in enumerate(data):
        shape = (len(pos) if loc == 'node' else len(cells), *{'s': (), 'v': (3,), 't': (3, 3)}[kind])
        a, v = array(w, nm, shape, where, salt=i + 1)
        ds[loc].add_data(nm, a)
        x['n' if loc == 'node' else 'c'][nm] = (kind, v, shape)
    m.set_nodedata(ds['node'])
    m.set_celldata(ds['cell'])
    return m, x


def rectangle(n, split=0):
    """cells, positions and boundary edges of the sides of a rectangle"""
    pos = [[i, j, 0] for j in range(n[1] + 1) for i in range(n[0] + 1)]
    at = lambda i, j: i + (n[0] + 1) * j
    sides = {'bottom': [[at(i, 0), at(i + 1, 0)] for i in range(n[0])], 'top': [[at(i + 1, n[1]), at(i, n[1])] for i in range(n[0])],
             'left': [[at(0, j + 1), at(0, j)] for j in range(n[1])], 'right': [[at(n[0], j), at(n[0], j + 1)] for j in range(n[1])]}
    return cells2(n, split), pos, sides


def box(n, split=0):
    """cells, positions and boundary faces of the sides of a box"""
    cells, pos = cells3(n, split), lattice(n)
    nodes, _, zones = faces(cells, pos, n)
    return cells, pos, {k: nodes[a:b + 1] for k, (a, b) in zones.items()}


def held(w, m, xyz, cells, marks, what):
    """a mesh holds these nodes, these cells type after type and these marks of nodes"""
    w.check(m.nnode == len(xyz) and m.ncell == len(cells), f"{what}: sizes")
    w.check(w.same(m.nodescoord(ndarray=True), xyz), f"{what}: node coordinates")
    want = {}
    for t, ids in cells:
        want.setdefault(t, []).append(list(ids))
    got = {t: [[int(v) for v in q] for q in w.plain(e['elem2node'])] for t, e in m._cell2node.items()}
    w.check(got == want, f"{what}: cells of a type with their nodes")
    w.check(sorted(int(i) for _, e in m._cell2node.items() for i in e['index'].list()) == list(range(len(cells))), f"{what}: every cell has its own index")
    if marks is not None:
        w.check({k: set(int(i) for i in b.index.list()) for k, b in m._bocos.items()} == {k: set(v) for k, v in marks.items()}, f"{what}: marks")
