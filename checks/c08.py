"""C08: extrusion of a 2D mesh."""
from checks import big as B
from checks import shapes
from checks.c04 import LAYOUTS, conn_of, faces_of
from checks.meshlib import face_table

META = dict(
    bounds="rectangles of up to 67600 cells and up to 1200 planes with given numbers, a coordinate of picked nodes being any real; 2D meshes of 1 to 4 cells (triangles, quadrangles, mixed; boundary elements as lines), 2 to 4 planes; every node and cell numbering, "
           "coordinates (or integers), direction and plane positions any reals in [-8,8], marks with any nodes",
    outside="symbolic numberings of more cells or planes",
    assumptions=["coordinates are exact reals (replayed in floating point with a tolerance)"],
    must_reach=["extrude: nodes are displaced copies", "extrude: every cell is extruded once between consecutive planes",
                "extrude: volume of layers", "extrude: marks cover all planes", "many: cells of a large mesh are extruded", "shared: faces of the extruded mesh match up"],
)
UP = dict(tri3='prism6', quad4='hexa8', bar2='quad4')
LAY = dict(LAYOUTS)
LAY['tri'] = [('tri3', (0, 1, 2))]
LAY['quad'] = [('quad4', (0, 1, 2, 3))]
LAY['bars'] = [('bar2', (0, 1)), ('bar2', (1, 2))]
LAY['unused'] = [('quad4', (1, 2, 3, 4)), ('tri3', (3, 2, 6))]     # nodes 0 and 5 are in no cell
LAY['tris'] = [('tri3', (0, 1, 2)), ('tri3', (2, 1, 3)), ('tri3', (2, 3, 4))]
LAY['tris4'] = [('tri3', (0, 1, 4)), ('tri3', (1, 2, 4)), ('tri3', (2, 3, 4)), ('tri3', (3, 0, 4))]
LAY['qtq'] = [('quad4', (0, 1, 2, 3)), ('tri3', (1, 4, 2)), ('quad4', (3, 2, 5, 6))]


def make(w, lay, perm, symidx, order, shuffle, coords='real'):
    M = w.mod('cfdtools.meshbase._mesh')
    spec = LAY[lay]
    nn = 1 + max(i for _, c in spec for i in c)
    p = w.permutation('p', nn) if perm else list(range(nn))
    idx = w.permutation('idx', len(spec)) if symidx else list(range(len(spec)))[::-1]
    cells = [[t, [p[i] for i in c], idx[k]] for k, (t, c) in enumerate(spec)]
    if order:
        cells = [cells[k] for k in order]
    if coords == 'real':
        xyz = w.realarray('x', (nn, 3), -8, 8)
    else:
        xyz = w.intarray('x', (nn, 3), -8, 8, 'i8' if coords == 'int' else coords)
    m = M.Mesh(len(spec), nn)
    if coords == 'list':
        m.set_nodescoord_xyz(*[[p[c] for p in w.plain(xyz)] for c in range(3)])
    else:
        m.set_nodescoord_nd(xyz)
    m.set_cell2node(conn_of(w, cells))
    return m, cells, nn, w.plain(xyz)


def rotations(nodes, up):
    n = len(nodes)
    for r in range(n):
        k = [(i + r) % n for i in range(n)]
        yield [nodes[i] for i in k], [up[i] for i in k]


def extrude(w, lay, np_=3, perm=True, symidx=True, order=None, marks=(), direction='list', default=False, geom=False, domain='fluid', coords='real'):
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    m, cells, nn, x = make(w, lay, perm, symidx, order, None, coords)
    nc = len(cells)
    mk = []
    for k, (n, typ) in enumerate(marks):
        b = M.submeshmark(f'mark{k}')
        b.geodim = ('bdnode', 'node', 'intnode')[k % 3]
        b.type = typ
        b.properties['periodic_transform'] = w.f64s(f'rd{k}', 16) if typ != 'boundary' else None
        ids = w.ints(f'm{k}', n, 0, nn - 1)
        b.index = C.indexlist(ilist=list(ids))
        m.add_boco(b)
        mk.append((b.name, typ, ids, b.properties['periodic_transform']))
    if default:
        d, s = [0, 0, 1], [0, 1]
        new = m.export_extruded()
        np_ = 2
    else:
        d = w.reals('d', 3, -8, 8)
        s = w.reals('s', np_, -8, 8)
        dd = {'list': lambda: list(d), 'tuple': lambda: tuple(d), 'array': lambda: w.array(d, dtype=float)}[direction]()
        ss = w.array(s, dtype=float) if direction == 'array' else list(s)
        new = m.export_extruded(direction=dd, extrude=ss, domain=domain)
    # nodes
    w.check(w.And(new.nnode == nn * np_, new.ncell == nc * (np_ - 1)), "numbers of nodes and cells")
    y = w.plain(new.nodescoord(ndarray=True))
    w.check(len(y) == nn * np_, "numbers of nodes and cells")
    if len(y) != nn * np_:
        return
    for i in range(np_):
        for k in range(nn):
            w.check(w.And(*[w.polyeq(y[i * nn + k][c], x[k][c] + s[i] * d[c]) for c in range(3)]), "nodes are displaced copies")
    w.check(w.same(m.nodescoord(ndarray=True), x) if w.symbolic else w.close(w.plain(m.nodescoord(ndarray=True)), x), "initial mesh is not changed")
    w.check(m.ncell == nc and len(m._bocos) == len(mk), "initial mesh is not changed")
    # cells
    out = [(t, i, n) for t, e in new._cell2node.items() for i, n in zip(e['index'].list(), w.plain(e['elem2node']))]
    w.check(len(out) == nc * (np_ - 1), "numbers of nodes and cells")
    for t, c, _ in cells:
        for i in range(np_ - 1):
            lo, hi = [n + i * nn for n in c], [n + (i + 1) * nn for n in c]
            hits = []
            for u, _, n in out:
                if u == UP[t]:
                    if t == 'bar2':
                        hits.append(w.Or(*[w.same(n, q[r:] + q[:r]) for q in [lo + hi[::-1]] for r in range(4)]))
                    else:
                        hits.append(w.Or(*[w.same(n, a + b) for a, b in rotations(lo, hi)]))
            w.check(w.Or(*hits), "every cell is extruded once between consecutive planes")
            w.check(w.And(*[w.Not(w.And(hits[a], hits[b])) for a in range(len(hits)) for b in range(a)]), "every cell is extruded once between consecutive planes")
    ids = [i for _, i, _ in out]
    w.check(w.And(w.distinct(ids), *[w.And(i >= 0, i < len(out)) for i in ids]), "extruded cells are numbered once")
    # marks
    def check_mark(name, want, typ, rd, allowed=None, kind='bdnode'):
        w.check(name in new._bocos, "all marks are kept")
        if name not in new._bocos:
            return
        b = new._bocos[name]
        got = list(b.index.list())
        w.check(b.geodim == kind and b.type == typ, "marks keep their type")
        if rd is not None:
            w.check(w.same(b.properties.get('periodic_transform'), rd), "marks keep their periodic transform")
        w.check(w.And(*[w.Or(*[g == v for g in got]) for v in want], *[w.Or(*[g == v for v in allowed or want]) for g in got]), "marks cover all planes")

    for k, (name, typ, ids, rd) in enumerate(mk):
        check_mark(name, [v + i * nn for v in ids for i in range(np_)], typ, rd, kind=('bdnode', 'node', 'intnode')[k % 3])
    used = [n for _, c, _ in cells for n in c]
    check_mark(domain + '0', used, 'boundary', None, list(range(nn)))
    check_mark(domain + '1', [n + (np_ - 1) * nn for n in used], 'boundary', None, list(range((np_ - 1) * nn, np_ * nn)))
    w.check(len(new._bocos) == len(mk) + 2, "no other mark")
    if geom and lay != 'bars':
        flat = [list(p) for p in x]
        if any(t == 'quad4' for t, _, _ in cells):     # planar quadrangles
            for p in flat[1:]:
                w.assume(p[2] == flat[0][2])
            flat = [p[:2] + [flat[0][2]] for p in flat]
        for t, c, _ in cells:
            c = [int(v) for v in c]
            pts = [tuple(flat[v]) for v in c]
            a2 = shapes.area2(pts)
            for i in range(np_ - 1):
                lo, hi = [n + i * nn for n in c], [n + (i + 1) * nn for n in c]
                el = [n for u, _, n in out if u == UP[t] and sorted(n) == sorted(lo + hi)]
                if len(el) != 1:
                    continue
                q = [tuple(flat[int(v) % nn][k] + s[int(v) // nn] * d[k] for k in range(3)) for v in el[0]]
                flux = sum([shapes.flux2([q[j] for j in f]) for f in shapes.OUT[UP[t]]])
                w.check(w.polyeq(flux, 36 * (s[i + 1] - s[i]) * shapes.dot(a2, d)), "volume of layers")


def shared(w, lay, np_=3):
    """faces generated for the extruded mesh: those of its cells, shared between layers and neighbours"""
    m, cells, nn, x = make(w, lay, False, False, None, None)
    new = m.export_extruded(direction=[0.0, 0.0, 1.0], extrude=w.reals('s', np_, -8, 8))
    new.make_face_connectivity()
    edges = [frozenset(c[i] for i in f) for t, c, _ in cells for f in shapes.OUT[t]]
    lone = [e for e in edges if edges.count(e) == 1]
    nl = np_ - 1
    bd = [frozenset(int(v) for v in n) for _, n in face_table(w, new._faces['boundary']['face2node'])]
    it = [frozenset(int(v) for v in n) for _, n in face_table(w, new._faces['internal']['face2node'])]
    want = [frozenset(c) for _, c, _ in cells] + [frozenset(v + nl * nn for v in c) for _, c, _ in cells]
    want += [frozenset([v + i * nn for v in e] + [v + (i + 1) * nn for v in e]) for e in lone for i in range(nl)]
    w.check(len(bd) == len(want) and set(bd) == set(want), "faces of the extruded mesh match up")
    want = [frozenset(v + i * nn for v in c) for _, c, _ in cells for i in range(1, nl)]
    want += [frozenset([v + i * nn for v in e] + [v + (i + 1) * nn for v in e]) for e in set(edges) - set(lone) for i in range(nl)]
    w.check(len(it) == len(want) and set(it) == set(want), "faces of the extruded mesh match up")
    # boundary faces are exactly split by the marks of first and last plane and the side
    new.bocomarks_set_node_to_face()
    tab = {int(i): set(int(v) for v in n) for i, n in face_table(w, new._faces['boundary']['face2node'])}
    for name, off in (('fluid0', 0), ('fluid1', nl * nn)):
        got = sorted(sorted(tab[int(i)]) for i in new._bocos[name].index.list())
        w.check(got == sorted(sorted(v + off for v in c) for _, c, _ in cells), "first and last planes are marked")
    c2 = w.plain(new._faces['internal']['face2cell'].conn)
    cellnodes = {int(i): set(int(v) for v in n) for t, e in new._cell2node.items() for i, n in zip(e['index'].list(), w.plain(e['elem2node']))}
    for (a, b), f in zip(c2, it):
        w.check(int(a) != int(b) and f <= cellnodes[int(a)] and f <= cellnodes[int(b)], "internal faces join two extruded cells")


def many(w, n, planes, split=7, where=(0,), mark=True):
    """rectangle of many cells: the numbers are given, but those of the nodes `where`"""
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    cells = B.cells2(n, split)
    nn = (n[0] + 1) * (n[1] + 1)
    xyz, x = B.array(w, 'x', (nn, 3), [p % nn for p in where], lambda nm: w.real(nm, -8, 8))
    m = M.Mesh(len(cells), nn)
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(B.conn(w, cells))
    ids = [i for i in range(nn) if i % (n[0] + 1) == 0]
    if mark:
        k = M.submeshmark('side')
        k.geodim, k.type = 'bdnode', 'boundary'
        k.index = C.indexlist(ilist=ids[::-1])
        m.add_boco(k)
    d, s = [0.25, -0.5, 1.5], [0.75 * i + 0.03125 * i * i for i in range(planes)]
    new = m.export_extruded(direction=d, extrude=s)
    w.check(new.nnode == nn * planes and new.ncell == len(cells) * (planes - 1), "sizes of a large extruded mesh")
    y = w.plain(new.nodescoord(ndarray=True))
    sym, bad = set(p % nn for p in where), None
    for i in range(planes):
        for k in range(nn):
            for c in range(3):
                a, b = y[i * nn + k][c], x[k][c]
                if k in sym and c == 0:
                    w.check(w.polyeq(a, b + s[i] * d[c]), "nodes of a large mesh are displaced copies")
                elif not abs(a - (b + s[i] * d[c])) <= 1e-9 * (1 + abs(b) + abs(s[i] * d[c])):
                    bad = bad or (i, k, c)
    w.check(bad is None, "nodes of a large mesh are displaced copies")
    def key(lo, hi):
        r = lo.index(min(lo))
        return tuple(lo[r:] + lo[:r] + hi[r:] + hi[:r])

    out, ids2 = [], []
    for t, e in new._cell2node.items():
        h = {'prism6': 3, 'hexa8': 4}[t]
        ids2 += [int(i) for i in e['index'].list()]
        out += [key(q[:h], q[h:]) for q in [[int(v) for v in q] for q in w.plain(e['elem2node'])]]
    want = [key([v + i * nn for v in c], [v + (i + 1) * nn for v in c]) for _, c in cells for i in range(planes - 1)]
    w.check(sorted(out) == sorted(want), "cells of a large mesh are extruded")
    w.check(sorted(ids2) == list(range(len(want))), "extruded cells are numbered once")
    marks = {'fluid0': range(nn), 'fluid1': range(nn * (planes - 1), nn * planes)}
    if mark:
        marks['side'] = [v + i * nn for v in ids for i in range(planes)]
    w.check(sorted(new._bocos) == sorted(marks), "no other mark")
    for nm, v in marks.items():
        w.check(nm in new._bocos and set(int(i) for i in new._bocos[nm].index.list()) == set(v), "marks of a large mesh cover all planes")


def refused(w, what):
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    m, cells, nn, x = make(w, 'quad', False, False, None, None)
    if what == 'plane':
        _, e = w.raises(lambda: m.export_extruded(extrude=[w.real('s', -8, 8)]), Exception, SystemExit)
    else:
        b = M.submeshmark('m')
        b.geodim = 'bdface'
        b.type = 'boundary'
        b.index = C.indexlist(ilist=w.ints('i', 2, 0, 3))
        m.add_boco(b)
        _, e = w.raises(lambda: m.export_extruded(), Exception, SystemExit)
    w.check(e is not None, "impossible extrusion is refused")


def scenarios(tier):
    T = tier == 'thorough'
    c = [dict(lay='tri', geom=True, perm=False), dict(lay='quad', geom=True, perm=False, direction='array'),
         dict(lay='tri-quad', geom=True, perm=False, direction='tuple', np_=2), dict(lay='tri-quad', marks=[(2, 'boundary'), (1, 'perio_cart')]),
         dict(lay='tri-quad', perm=False, np_=2, marks=[(1, 'internal'), (1, 'boundary'), (2, 'internal')]),
         dict(lay='tris', np_=4), dict(lay='tris4', perm=False, np_=3, marks=[(3, 'boundary')]), dict(lay='quads', perm=False, np_=2),
         dict(lay='bars'), dict(lay='qtq', perm=False, np_=3), dict(lay='qtq', order=[1, 0, 2], perm=False, np_=2, domain='dom'),
         dict(lay='quad', default=True, marks=[(2, 'perio_cart')]), dict(lay='tris', default=True), dict(lay='tri-quad', order=[1, 2, 0], np_=2),
         dict(lay='unused', perm=False), dict(lay='tri-quad', coords='int', perm=False), dict(lay='tris', coords='i4', default=True), dict(lay='bars', np_=4, symidx=False, marks=[(1, 'boundary')])]
    if T:
        c += [dict(lay='unused', np_=4), dict(lay='quads', np_=3), dict(lay='tris4', np_=4, marks=[(3, 'boundary'), (2, 'perio_cart')]), dict(lay='qtq', np_=5),
              dict(lay='quads', geom=True, perm=False, np_=4), dict(lay='tris4', geom=True, perm=False, np_=4)]
    s = [dict(lay=n, np_=k) for n in ('tri', 'quad', 'tri-quad', 'quads', 'tris', 'tris4', 'qtq') for k in (2, 3, 4)]
    L = [dict(n=(7, 5), planes=40, where=(3, 20)), dict(n=(20, 20), planes=12, split=0, where=(430,)), dict(n=(150, 120), planes=3, where=(9000,)), dict(n=(260, 260), planes=3, split=0, where=()),
         dict(n=(3, 2), planes=1200, where=(5,))]
    if T:
        L += [dict(n=(40, 30), planes=40, where=(5, 700)), dict(n=(300, 260), planes=3, where=())]
    return [('many', many, L, {}), ('extrude', extrude, c, dict(budget=1500 if T else 60, max_replay=15)), ('shared', shared, s, {}),
            ('refused', refused, [dict(what='plane'), dict(what='face')], {})]
