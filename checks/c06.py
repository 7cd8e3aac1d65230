"""C06: boundary marks become contiguous face zones when a mesh is written."""
from checks import ic3fmt as F
from checks import big, shapes
from checks.c04 import LAYOUTS, conn_of, faces_of
from checks.meshlib import face_table

META = dict(
    bounds="marks of up to 22404 nodes of boxes of many cells, in any order; meshes of 1 to 3 cells (4 to 10 boundary faces of one or two shapes), 1 to 3 marks, each made of a symbolic set of nodes, or a "
           "symbolic list of faces or a range of faces, in any order, with symbolic overlaps; observed in the restart file which is written",
    outside="marks given as overlapping ranges of faces only (they are written as they are), a user mark named 'unmarked'",
    assumptions=["node and face indices of marks are valid"],
    must_reach=["many: faces in no mark are gathered in one more zone", "marks: zone holds exactly the faces of its mark", "marks: marks which overlap on a face are refused",
                "marks: faces in no mark are gathered in one more zone"],
)
LAY = dict(LAYOUTS)
LAY['tet'] = LAY['single-tet']
LAY['prism'] = LAY['single-pri']
LAY['pyr'] = [('pyra5', (0, 1, 2, 3, 4))]
LAY['hex'] = [('hexa8', (0, 1, 2, 3, 4, 5, 6, 7))]
LAY['tets2'] = [('tetra4', (0, 1, 2, 3)), ('tetra4', (1, 2, 3, 4))]


def outer_faces(spec):
    cells = [(t, c) for t, c in spec]
    fs = faces_of(cells)
    return [(c, f) for c, f in fs if not any(set(f) == set(g) and d != c for d, g in fs)]


def marks(w, lay, spec, ver=3, prefaces=False):
    """spec: list of (kind, arg, type): kind 'node' (arg: number of nodes or explicit list), 'nodes*' unsorted with repetitions,
    'face' (arg: number of faces) or 'frange' (arg: first, last)"""
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    W = w.mod(f'cfdtools.ic3.writerV{ver}')
    cells = LAY[lay]
    nn = 1 + max(i for _, c in cells for i in c)
    m = M.Mesh(len(cells), nn)
    m.set_nodescoord_nd(w.f64array('x', (nn, 3)))
    m.set_cell2node(conn_of(w, [(t, list(c), k) for k, (t, c) in enumerate(cells)]))
    outer = outer_faces(cells)
    nb = len(outer)
    if prefaces or any(k[0] in ('face', 'frange') for k in spec):
        m.make_face_connectivity()
        tab = {int(i): [int(v) for v in f] for i, f in face_table(w, m._faces['boundary']['face2node'])}
    member = []     # member[k][j]: outer face j belongs to mark k
    for k, (kind, arg, typ) in enumerate(spec):
        b = M.submeshmark(f'mark{k}')
        b.type = typ
        b.properties['periodic_transform'] = None if typ == 'boundary' else w.f64s(f'rd{k}', 16)
        if kind in ('node', 'nodes*'):
            b.geodim = 'bdnode'
            if isinstance(arg, int):
                ids = w.ints(f'm{k}', arg, 0, nn - 1)
                if kind == 'node':
                    w.assume(w.And(*[ids[i] < ids[i + 1] for i in range(arg - 1)]))
            else:
                ids = list(arg)
            mem = [w.And(*[w.Or(*[i == n for i in ids]) for n in f]) for _, f in outer]
            b.index = C.indexlist(ilist=ids)
        else:
            b.geodim = 'bdface'
            if kind == 'face':
                ids = w.ints(f'm{k}', arg, 0, nb - 1)
                w.assume(w.distinct(ids))
                b.index = C.indexlist(ilist=ids)
            else:
                ids = list(range(arg[0], arg[1] + 1))
                b.index = C.indexlist(irange=list(arg))
            mem = [w.Or(*[w.And(i == g) for i in ids for g in tab if set(tab[g]) == set(f)]) for _, f in outer]
        member.append(mem)
        m.add_boco(b)
    overlap = w.Or(*[w.And(member[a][j], member[b][j]) for j in range(nb) for a in range(len(spec)) for b in range(a)])
    fn = w.path('m.ic3')

    def go():
        W.writer(m, endian='little').write_data(fn)

    _, refused = w.raises(go, Exception, SystemExit)
    refused = refused is not None
    w.check(w.Implies(overlap, refused), "marks which overlap on a face are refused")
    w.check(w.Implies(w.Not(overlap), not refused), "marks which do not overlap are written")
    if refused:
        return
    _, _, secs = F.parse(w, w.get_file(fn), 'little')
    un = w.struct.unpack
    by = {}
    for s in secs:
        by.setdefault(int(s.id), []).append(s)
    counts = by[F.CODE['COUNTS']][0].idata
    nf = int(counts[1])
    s = by[F.CODE['NOOFA']][0]
    nv = int(s.idata[1])
    data = list(un(f'<{nf + nv}i', s.body))
    sizes, vals = [int(v) for v in data[:nf]], data[nf:]
    faces, pos = [], 0
    for z in sizes:
        faces.append([int(v) for v in vals[pos:pos + z]])
        pos += z
    cv = list(un(f'<{2 * nf}i', by[F.CODE['CVOFA']][0].body))
    pair = [(int(cv[2 * i]), int(cv[2 * i + 1])) for i in range(nf)]
    # each boundary face once, first in the file, with its cell and outward order
    where = []
    for c, f in outer:
        hit = [i for i in range(nf) if set(faces[i]) == set(f)]
        w.check(len(hit) == 1, "each boundary face is kept once")
        if len(hit) != 1:
            return
        i = hit[0]
        r = faces[i].index(f[0])
        w.check(faces[i][r:] + faces[i][:r] == list(f) and pair[i] == (c, -1), "each boundary face keeps its nodes and its cell")
        where.append(i)
    w.check(sorted(where) == list(range(nb)), "boundary faces come first")
    inner = [(faces[i], pair[i]) for i in range(nf) if i not in where]
    for f, (a, b) in inner:
        w.check(a != b and min(a, b) >= 0 and all(any(set(f) == set(g) for d, g in faces_of(cells) if d == c) for c in (a, b)),
                "internal faces keep their cells")
    zones = {F.name_of(z): (int(z.idata[0]), int(z.idata[1]), int(z.idata[2])) for z in by[F.CODE['FA_ZONE']]}
    w.check(len(zones) == len(by[F.CODE['FA_ZONE']]), "zones have different names")
    for k, (kind, arg, typ) in enumerate(spec):
        w.check(f'mark{k}' in zones, "every mark becomes a zone")
        if f'mark{k}' not in zones:
            return
        q, a, b = zones.pop(f'mark{k}')
        w.check(q == F.KIND[typ], "zone keeps the type of its mark")
        w.check(w.And(*[(a <= where[j] <= b) == member[k][j] for j in range(nb)]), "zone holds exactly the faces of its mark")
        if typ != 'boundary':
            z = [z for z in by[F.CODE['FA_ZONE']] if F.name_of(z) == f'mark{k}'][0]
            w.check(w.same(z.rdata, m._bocos[f'mark{k}'].properties['periodic_transform']), "zone keeps the transform of its mark")
    free = [w.Not(w.Or(*[mem[j] for mem in member])) for j in range(nb)]
    rest = [z for z in zones.values() if z[0] != F.KIND['internal'] and z[2] >= z[1]]
    w.check(w.And(*[any(a <= where[j] <= b for _, a, b in rest) == free[j] for j in range(nb)]) and len(rest) <= 1,
            "faces in no mark are gathered in one more zone")
    internal = [z for z in zones.values() if z[0] == F.KIND['internal']]
    w.check(len(internal) == 1 and (nf == nb or internal[0][1:] == (nb, nf - 1)), "internal faces are the last zone")


def many(w, n, split=0, ver=3, leave=(), order=0):
    """node marks of the sides of a box of many cells, in any order; the faces of sides without mark are gathered"""
    names = [s for s in big.SIDES if s not in leave]
    k = w.pick('first', range(len(names) if n[0] * n[1] * n[2] < 2000 else 2))
    names = names[k:] + names[:k]
    m, x = big.mesh(w, n, split, sides={s: big.SIDES[s] for s in names})
    for s in names[::2]:  # nodes of marks in any order
        ids = x['marks'][s]
        m._bocos[s].index = w.mod('cfdtools.meshbase._connectivity').indexlist(ilist=ids[::-1])
    fn = w.path('m.ic3')
    w.mod(f'cfdtools.ic3.writerV{ver}').writer(m, endian='little').write_data(fn)
    r = w.mod('cfdtools.ic3.reader_legacy').reader(fn)
    r.read_data()
    m2 = r.export_mesh()
    big.check_written(w, m2, x, "marks of many faces")
    nb = sum(1 for a, b in w.plain(m2._faces['mixed']['face2cell'].conn) if b < 0)
    got, rest = [], []
    for nm, b in m2._bocos.items():
        if b.type == 'internal':
            continue
        ids = [int(i) for i in b.index.list()]
        w.check(ids == list(range(ids[0], ids[-1] + 1)) if ids else True, "zones are contiguous")
        got += ids
        rest += ids if nm not in names else []
    w.check(sorted(got) == list(range(nb)), "zones cover the boundary faces once")
    left = {i for d, v in (big.SIDES[s] for s in leave) for i, p in enumerate(x['pos']) if p[d] == v * n[d]}
    w.check((len(rest) > 0) == bool(leave) and all(left.issuperset(int(v) for v in f) for i, f in face_table(w, m2._faces['mixed']['face2node']) if i in set(rest)), "faces in no mark are gathered in one more zone")


def scenarios(tier):
    T = tier == 'thorough'
    B, P = 'boundary', 'perio_cart'
    c = []
    # node marks
    c += [dict(lay=l, spec=[], ver=v) for l, v in (('tet', 3), ('hex-prism', 2), ('tri-quad', 3))] + [dict(lay='prism', spec=[], prefaces=True)]
    c += [dict(lay='tet', spec=[('node', 3, B)]), dict(lay='tet', spec=[('node', 2, B)]),
          dict(lay='tet', spec=[('node', 3, B), ('node', 3, P)]), dict(lay='tet', spec=[('node', 4, B), ('node', 3, B)]),
          dict(lay='tet', spec=[('nodes*', 4, B)]), dict(lay='prism', spec=[('node', 4, B), ('node', 3, B)]),
          dict(lay='tets2', spec=[('node', 4, B)], ver=2), dict(lay='hex', spec=[('node', 4, P)]),
          dict(lay='pyr', spec=[('node', 3, B), ('node', [0, 1, 2, 3], B)]),
          dict(lay='hex-prism', spec=[('node', [0, 3, 4, 7], B), ('node', [8, 2, 6, 9], P), ('node', [0, 1, 2, 3, 8], B)]),
          dict(lay='hex-prism', spec=[('node', [0, 3, 4, 7], B), ('node', 3, P)]),
          dict(lay='pyr-hex-tet', spec=[('node', [6, 7, 8, 5], B), ('node', [4, 8, 9], B), ('node', [0, 1, 2, 3], B)]),
          dict(lay='prisms', spec=[('node', 3, B)]),
          dict(lay='tri-quad', spec=[('node', 2, B), ('node', 2, B)]),
          dict(lay='quads', spec=[('node', 3, B)])]
    # face marks
    c += [dict(lay='tet', spec=[('face', 2, B), ('face', 1, P)]), dict(lay='tet', spec=[('face', 1, B), ('face', 1, B), ('face', 1, B)]),
          dict(lay='prism', spec=[('face', 2, B), ('frange', (3, 4), B)]), dict(lay='prism', spec=[('face', 1, B), ('node', 4, B)]),
          dict(lay='tets2', spec=[('face', 3, B)]), dict(lay='hex-prism', spec=[('face', 1, B), ('face', 1, B)]),
          dict(lay='tri-quad', spec=[('face', 2, B), ('face', 1, B)]),
          dict(lay='tet', spec=[('frange', (0, 1), B), ('frange', (2, 3), B)]),
          dict(lay='tet', spec=[('frange', (1, 2), B)]), dict(lay='tet', spec=[('face', 4, B)])]
    if T:
        c += [dict(lay='hex', spec=[('node', 4, B), ('node', 4, B)]), dict(lay='tets2', spec=[('node', 3, B), ('node', 4, B)]),
              dict(lay='hex-prism', spec=[('node', 4, B)]), dict(lay='hex-prism', spec=[('face', 2, B), ('face', 1, B)]),
              dict(lay='prism', spec=[('face', 2, B), ('face', 2, B)]), dict(lay='pyr', spec=[('node', 3, B), ('node', 3, B), ('node', 4, B)]),
              dict(lay='hex', spec=[('face', 2, B), ('face', 2, B)]), dict(lay='prisms', spec=[('node', 4, B), ('node', 3, B)]),
              dict(lay='pyr-hex-tet', spec=[('node', 4, B)])]
    mn = [dict(n=[12, 9, 10], split=4), dict(n=[22, 21, 22], ver=2, leave=['jmax']), dict(n=[1, 5600, 1], leave=['imin', 'kmax']), dict(n=[60, 2, 40], split=3)]
    if T:
        mn.append(dict(n=[40, 40, 41], leave=['imin']))
    return [('many', many, mn, dict(max_replay=2)), ('marks', marks, c, dict(max_replay=10, budget=2000 if T else 60))]
