"""C04: faces generated from cells: each exactly once, right cells, right nodes, right orientation."""
from checks import big, shapes
from checks.meshlib import face_table

META = dict(
    bounds="boxes of up to 16500 cells and rectangles of up to 70000 cells with given numbers; 2 cells of any pair of 3D types with symbolic node numbers sharing nodes in every possible way (3 cells in 2D, triangles and "
           "quadrangles; chains of 3 cells in 3D with symbolic numbering), symbolic cell indices, cells given in one or several blocks; node numbers that are small ones plus 0 or 1 times "
           "a power of 2 or 10 (two cells), and listed numbers up to 2**32 that read alike once joined or packed",
    outside="more cells with symbolic numbers, 3D pairs whose shared nodes are not in the number ranges listed per configuration, non-conforming meshes (a face shared by three cells), hexa27",
    assumptions=["a cell has distinct nodes", "no face belongs to more than two cells (conforming mesh)"],
    must_reach=["many: every cell face appears exactly once", "glue: every cell face appears exactly once", "layout: every cell face appears exactly once", "layout: written mesh has the same faces",
                "wide: every cell face appears exactly once", "labels: every cell face appears exactly once"],
)


def conn_of(w, cells):
    """cells: list of (type, nodes, index) given block by block (consecutive same types form one block)"""
    C = w.mod('cfdtools.meshbase._connectivity')
    conn = C.elem_connectivity()
    i = 0
    while i < len(cells):
        j = i
        while j < len(cells) and cells[j][0] == cells[i][0]:
            j += 1
        conn.add_elems(cells[i][0], w.array([c[1] for c in cells[i:j]], dtype='int64'), C.indexlist(ilist=[c[2] for c in cells[i:j]]))
        i = j
    return conn


def rot(w, a, b):
    n = len(a)
    return w.Or(*[w.And(*[a[(i + r) % n] == b[i] for i in range(n)]) for r in range(n if n > 2 else 1)])


def sameset(w, a, b):
    return w.And(*[w.Or(*[x == y for y in b]) for x in a])


def faces_of(cells):
    return [(c, [cells[c][1][i] for i in f]) for c in range(len(cells)) for f in shapes.OUT[cells[c][0]]]


def conforming(w, cells):
    """no face belongs to three cells; a cell does not have the same face twice by construction"""
    fs = faces_of(cells)
    n = len(cells)
    if n < 3:
        return
    for i, (a, fa) in enumerate(fs):
        for j, (b, fb) in enumerate(fs[:i]):
            for k, (c, fc) in enumerate(fs[:j]):
                if len({a, b, c}) == 3 and len(fa) == len(fb) == len(fc):
                    w.assume(w.Not(w.And(sameset(w, fa, fb), sameset(w, fa, fc))))


def check_faces(w, cells, internal, i2c, boundary, b2c):
    fs = faces_of(cells)
    bd = face_table(w, boundary)
    it = face_table(w, internal)
    bc, ic = w.plain(b2c.conn), w.plain(i2c.conn)
    w.check(len(bd) == len(bc) and len(it) == len(ic), "as many face to cell pairs as faces")
    w.check(len(bd) + 2 * len(it) == len(fs), "number of boundary and internal faces")
    w.check(w.same([i for i, _ in bd], list(range(len(bd)))) if bd else True, "boundary faces are numbered consecutively")
    w.check(w.same([i for i, _ in it], list(range(len(it)))) if it else True, "internal faces are numbered consecutively")
    if len(bd) != len(bc) or len(it) != len(ic):
        return
    bd = [n for _, n in bd]
    it = [n for _, n in it]
    for (c, f) in fs:
        idx = cells[c][2]
        shared = w.Or(*[sameset(w, f, g) for d, g in fs if d != c and len(g) == len(f)])
        hb = [w.And(rot(w, b, f), bc[k][0] == idx, bc[k][1] == -1) for k, b in enumerate(bd) if len(b) == len(f)]
        hi = []
        for k, b in enumerate(it):
            if len(b) == len(f):
                first = w.And(rot(w, b, f), ic[k][0] == idx, ic[k][1] != idx)
                second = w.And(sameset(w, b, f), ic[k][1] == idx, ic[k][0] != idx)
                hi.append(w.Or(first, second))
        w.check(w.Implies(shared, w.And(w.Or(*hi), w.Not(w.Or(*hb)))), "a shared face is an internal face linked to both cells")
        w.check(w.Implies(w.Not(shared), w.And(w.Or(*hb), w.Not(w.Or(*hi)))), "an unshared face is a boundary face ordered outward")
        allh = hb + hi
        w.check(w.And(*[w.Not(w.And(allh[a], allh[b])) for a in range(len(allh)) for b in range(a)]), "every cell face appears exactly once")


def glue(w, types, nnode, symidx=False, fixed=(), maxshared=None):
    """cells with symbolic nodes; cell k in `fixed` has nodes 0..; others any distinct nodes of range(nnode)"""
    cells = []
    for k, t in enumerate(types):
        n = shapes.NN[t]
        if k in fixed:
            nodes = list(range(n))
        else:
            nodes = w.ints(f'n{k}', n, 0, nnode - 1)
            w.assume(w.distinct(nodes))
            if maxshared:
                w.assume(sum([w.ite(n < shapes.NN[types[0]], 1, 0) for n in nodes]) <= maxshared)
        cells.append([t, nodes, None])
    idx = w.permutation('idx', len(types)) if symidx else [(k * 2 + 1) % len(types) if len(types) % 2 else k for k in range(len(types))]
    for c, i in zip(cells, idx):
        c[2] = i
    conforming(w, cells)
    conn = conn_of(w, cells)
    check_faces(w, cells, *conn.create_faces_from_elems())


LAYOUTS = {
    'hex-prism': [('hexa8', (0, 1, 2, 3, 4, 5, 6, 7)), ('prism6', (1, 8, 2, 5, 9, 6))],
    'prisms': [('prism6', (0, 1, 2, 3, 4, 5)), ('prism6', (1, 6, 2, 4, 7, 5)), ('prism6', (3, 4, 5, 8, 9, 10))],
    'pyr-hex-tet': [('pyra5', (4, 5, 6, 7, 8)), ('hexa8', (0, 1, 2, 3, 4, 5, 6, 7)), ('tetra4', (4, 5, 8, 9))],
    'tets': [('tetra4', (0, 1, 2, 3)), ('tetra4', (1, 2, 3, 4)), ('tetra4', (0, 2, 1, 5)), ('tetra4', (2, 3, 4, 6))],
    'hexes': [('hexa8', (0, 1, 2, 3, 4, 5, 6, 7)), ('hexa8', (4, 5, 6, 7, 8, 9, 10, 11))],
    'hexes4': [('hexa8', (0, 1, 4, 3, 9, 10, 13, 12)), ('hexa8', (1, 2, 5, 4, 10, 11, 14, 13)), ('hexa8', (3, 4, 7, 6, 12, 13, 16, 15)),
               ('hexa8', (4, 5, 8, 7, 13, 14, 17, 16))],
    'single-tet': [('tetra4', (0, 1, 2, 3))],
    'single-pri': [('prism6', (0, 1, 2, 3, 4, 5))],
    'tri-quad': [('tri3', (0, 1, 2)), ('quad4', (1, 3, 4, 2)), ('tri3', (3, 5, 4))],
    'quads': [('quad4', (0, 1, 4, 3)), ('quad4', (1, 2, 5, 4)), ('quad4', (3, 4, 7, 6)), ('quad4', (4, 5, 8, 7))],
}


def layout(w, name, symidx=True, write=True, order=None):
    """fixed shape of mesh, symbolic node numbering (any permutation) and cell numbering"""
    spec = LAYOUTS[name]
    nn = 1 + max(i for _, c in spec for i in c)
    p = w.permutation('p', nn)
    idx = w.permutation('idx', len(spec)) if symidx else list(range(len(spec)))
    cells = [[t, [p[i] for i in c], idx[k]] for k, (t, c) in enumerate(spec)]
    if order:
        cells = [cells[k] for k in order]
    conn = conn_of(w, cells)
    check_faces(w, cells, *conn.create_faces_from_elems())
    if not write:
        return
    # through the mesh object: faces generated on demand keep the same faces when merged for writing
    M = w.mod('cfdtools.meshbase._mesh')
    m = M.Mesh(len(spec), nn)
    m.set_cell2node(conn_of(w, cells))
    m.make_face_connectivity()
    mixed, f2c = m.export_mixedfaces()
    nb = m._faces['boundary']['face2node'].nelem
    tab = sorted_table(w, face_table(w, mixed))
    pairs = w.plain(f2c.conn)
    w.check(m.nface == len(tab) == len(pairs), "number of faces of the mesh")
    fs = faces_of(cells)
    for k, nodes in enumerate(tab):
        ok = [w.And(rot(w, nodes, f), pairs[k][0] == cells[c][2], (pairs[k][1] == -1) if k < nb else pairs[k][1] >= 0) for c, f in fs if len(f) == len(nodes)]
        w.check(w.Or(*ok), "written mesh has the same faces")


def wide(w, types, nnode, mods):
    """node numbers much larger than their count: small parts, and multiples of a power that may be added to each"""
    M = w.pick('M', mods)
    cells = []
    for k, t in enumerate(types):
        n = shapes.NN[t]
        a = w.ints(f'n{k}', n, 0, nnode - 1)
        h = w.ints(f'h{k}', n, 0, 1) if k else [0] * n
        if k == 0:
            for i, v in enumerate(a):
                w.assume(v == i)
        nodes = [x + M * y for x, y in zip(a, h)]
        w.assume(w.distinct(nodes))
        cells.append([t, nodes, k])
    check_faces(w, cells, *conn_of(w, cells).create_faces_from_elems())


# numbers which read the same once written one after the other, or packed in too few bits or digits
LABELS = {
    'digits': [('tri3', (1, 23, 123)), ('tri3', (11, 12, 3123)), ('tri3', (12, 31, 23)), ('tri3', (3, 112, 1)), ('tri3', (2, 311, 1123))],
    'bars': [('tri3', (1, 23, 5)), ('tri3', (12, 3, 7)), ('quad4', (2, 31, 23, 11)), ('quad4', (112, 3, 32, 111)), ('tri3', (0, 101, 10)), ('tri3', (1, 0, 1010))],
    'tets': [('tetra4', (1, 23, 123, 200)), ('tetra4', (11, 23, 300, 12)), ('tetra4', (112, 3, 31, 230)), ('tetra4', (0, 1, 231, 23200)), ('tetra4', (12, 312, 3200, 301))],
    'packed': [('tetra4', (1, 65539, 70000, 3)), ('tetra4', (65537, 65538, 70000, 2)), ('tetra4', (1000001, 5, 7, 1000003)), ('tetra4', (1, 8, 6, 1000)), ('tetra4', (1001, 1002, 4001, 2**31)), ('tetra4', (2**32 + 1, 2**32 + 8, 2**32 + 6, 2**32))],
    'mixed': [('hexa8', (2, 13, 23, 34, 111, 222, 333, 444)), ('hexa8', (21, 3, 2334, 4, 1, 1122, 2333, 44)), ('prism6', (1112, 22, 333, 5, 55, 555)), ('pyra5', (213, 23, 3, 4111, 6))],
    'shared': [('hexa8', (7, 77, 777, 8, 78, 87, 778, 788)), ('hexa8', (78, 87, 778, 788, 70000, 7007, 700, 70)), ('prism6', (70000, 7007, 700, 65536, 131072, 196608)), ('tetra4', (65536, 131072, 196608, 0))],
}


def labels(w, name):
    """given node numbers, symbolic cell numbers and order of the nodes"""
    spec = LABELS[name]
    idx = w.permutation('idx', len(spec)) if len(spec) < 5 else [(k + int(w.int('s', 0, 4))) % len(spec) for k in range(len(spec))]
    cells = []
    for k, (t, c) in enumerate(spec):
        r = w.int(f'r{k}', 0, len(c) - 1) if t in ('tri3', 'quad4') and k % 2 else 0
        c = list(c)
        cells.append([t, c[int(r):] + c[:int(r)], idx[k]])
    check_faces(w, cells, *conn_of(w, cells).create_faces_from_elems())


def many(w, n, split=0, reverse=False):
    """boxes and rectangles of many cells (given numbers), the picked cell of which has the last number"""
    cells = (big.cells3 if len(n) == 3 else big.cells2)(n, split)
    if reverse:
        cells = cells[::-1]
    last = w.pick('last', [0, len(cells) // 2])
    cells[last], cells[-1] = (cells[-1], cells[last]) if cells[-1][0] == cells[last][0] else (cells[last], cells[-1])
    types = list(dict.fromkeys(t for t, _ in cells))
    cells = [c for t in types for c in cells if c[0] == t]
    internal, i2c, boundary, b2c = big.conn(w, cells).create_faces_from_elems()
    bd, it = face_table(w, boundary), face_table(w, internal)
    nb = len(bd)
    w.check([int(i) for i, _ in bd] == list(range(nb)) and [int(i) for i, _ in it] == list(range(len(it))), "faces are numbered consecutively")
    pairs = w.plain(b2c.conn) + w.plain(i2c.conn)
    w.check(all(p[1] == -1 for p in pairs[:nb]) and all(p[1] >= 0 for p in pairs[nb:]), "boundary and internal faces")
    w.check(big.same_faces(cells, bd + [(i + nb, f) for i, f in it], pairs) is None, "every cell face appears exactly once")


def sorted_table(w, tab):
    out = [None] * len(tab)
    for i, n in tab:
        out[int(i)] = n
    return out


def scenarios(tier):
    T = tier == 'thorough'
    g = []
    for types, nn in [(('tri3', 'tri3'), 6), (('quad4', 'quad4'), 7), (('tri3', 'quad4'), 7), (('quad4', 'tri3'), 6)]:
        g.append(dict(types=list(types), nnode=nn, symidx=True))
    g.append(dict(types=['tetra4', 'tetra4'], nnode=7 if T else 6, symidx=True))
    g.append(dict(types=['tri3', 'tri3', 'tri3'], nnode=5 if T else 4, fixed=[0]))
    g.append(dict(types=['hexa8', 'hexa8'], nnode=13, fixed=[0], maxshared=4))
    if T:
        g.append(dict(types=['quad4', 'quad4', 'quad4'], nnode=6, fixed=[0]))
        g.append(dict(types=['hexa8', 'hexa8'], nnode=12, fixed=[0]))
        g.append(dict(types=['tetra4', 'tetra4', 'tetra4'], nnode=5, fixed=[0]))
    for pair in [('prism6', 'prism6'), ('pyra5', 'pyra5'), ('hexa8', 'prism6'), ('hexa8', 'pyra5'), ('prism6', 'tetra4'),
                 ('pyra5', 'tetra4'), ('prism6', 'pyra5'), ('tetra4', 'tetra4')]:
        nn = sum(shapes.NN[t] for t in pair) - 3
        g.append(dict(types=list(pair), nnode=nn, fixed=[0]))
    lay = [dict(name=n, symidx=len(s) <= 3) for n, s in LAYOUTS.items()]
    lay.append(dict(name='prisms', order=[2, 0, 1]))
    lay.append(dict(name='tri-quad', order=[1, 2, 0]))
    o = dict(max_replay=12, budget=2500 if T else 60)
    mn = [dict(n=[12, 11, 9], split=4), dict(n=[22, 22, 21], reverse=True), dict(n=[1, 1, 16500]), dict(n=[120, 90], split=3), dict(n=[70000, 1]), dict(n=[300, 1, 36], split=2)]
    if T:
        mn += [dict(n=[47, 47, 47]), dict(n=[400, 300], split=3)]
    return [('many', many, mn, dict(max_replay=2)), ('glue', glue, g, o), ('layout', layout, lay, o), ('labels', labels, [dict(name=n) for n in LABELS], o),
            ('wide', wide, [dict(types=list(t), nnode=n, mods=m) for t, n in ((('tri3', 'tri3'), 4), (('quad4', 'tri3'), 5), (('tetra4', 'tetra4'), 5)) for m in ([2**8, 2**16, 1000], [2**31, 2**32, 10**6])], o)]
