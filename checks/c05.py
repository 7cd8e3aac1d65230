"""C05: the faces generated for a cell of any type are a closed surface pointing outward."""
from checks import shapes
from checks.meshlib import face_table

META = dict(
    bounds="one cell of each supported type (tri3, quad4, tetra4, pyra5, prism6, hexa8), both numbering conventions; closedness for any node "
           "coordinates in [-1,1]; enclosed volume for any affine image of the reference cell (coefficients in [-1,1])",
    outside="second order cells (hexa27), which no reader produces",
    assumptions=["coordinates are exact reals (replayed in floating point with a tolerance)"],
    must_reach=["cell: area vectors sum to zero", "cell: outward flux of the position is dimension times volume"],
)


def cell(w, etype, convention, how, perm=None):
    E = w.mod('cfdtools.meshbase._elements')
    C = w.mod('cfdtools.meshbase._connectivity')
    M = w.mod('cfdtools.meshbase._mesh')
    if convention == 'gmsh':
        E.elem2faces = E.gmsh_elem2faces
    n = shapes.NN[etype]
    ids = perm or list(range(n))
    conn = C.elem_connectivity()
    conn.add_elems(etype, w.array([ids], dtype='int64'))
    if how == 'conn':
        _, _, bd, b2c = conn.create_faces_from_elems()
    else:
        m = M.Mesh(1, n)
        m.set_cell2node(conn)
        m.make_face_connectivity()
        bd, b2c = m._faces['boundary']['face2node'], m._faces['boundary']['face2cell']
    faces = [f for _, f in face_table(w, bd)]
    w.check(w.same(b2c.conn, [[0, -1]] * len(shapes.OUT[etype])), "every face is a boundary face of the cell")
    w.check(sorted(len(f) for f in faces) == sorted(len(f) for f in shapes.OUT[etype]), "number of faces by type")
    dim = len(shapes.REF[etype][0])
    faces = [[ids.index(i) for i in f] for f in faces]
    if dim == 3:
        edges = [(f[i], f[(i + 1) % len(f)]) for f in faces for i in range(len(f))]
    else:
        edges = [f[0] for f in faces] + [f[1] for f in faces]
    if dim == 3:
        w.check(len(set(edges)) == len(edges) and all((b, a) in edges for a, b in edges), "each edge is used once in each direction")
    else:
        w.check(all(edges.count(i) == 2 for i in range(n)), "each node starts one edge and ends one")
    # any coordinates: closed
    x = [w.reals(f'x{i}', dim, -1, 1) for i in range(n)]
    for k in range(dim):
        w.check(w.polyeq(sum([shapes.area2([x[i] for i in f])[k] for f in faces]), 0), "area vectors sum to zero")
    # affine images: flux of the position = dim * volume, positive when the cell is
    A = [w.reals(f'A{i}', dim, -1, 1) for i in range(dim)]
    b = w.reals('b', dim, -1, 1)
    y = [tuple(b[k] + sum([A[k][j] * shapes.REF[etype][i][j] for j in range(dim)]) for k in range(dim)) for i in range(n)]
    y = [tuple(float(c) if not w.symbolic else c for c in p) for p in y]
    if dim == 3:
        det = shapes.dot(A[0], shapes.cross(A[1], A[2]))
    else:
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    flux = sum([shapes.flux2([y[i] for i in f]) for f in faces])
    w.check(w.polyeq(flux, det * (24 * dim * shapes.VOL[etype])), "outward flux of the position is dimension times volume")


def scenarios(tier):
    cfgs = []
    for t in shapes.OUT:
        for conv in ('cgns', 'gmsh'):
            for how in ('conn', 'mesh'):
                cfgs.append(dict(etype=t, convention=conv, how=how))
            cfgs.append(dict(etype=t, convention=conv, how='conn', perm=list(range(shapes.NN[t]))[::-1]))
    return [('cell', cell, cfgs, {})]
