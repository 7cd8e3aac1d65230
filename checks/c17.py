"""C17: Cartesian boxes are valid meshes of the unit cube."""
from fractions import Fraction

from checks.meshlib import face_table

META = dict(
    bounds="complete meshes for every number of cells from 1 to 3 in each direction (quick; 4 thorough), a cell, a node and a face of which are symbolic; boxes of 1, 2 or 10 cells per direction written by the command; "
           "boxes of up to 264000 nodes (thin, flat and cubical), every cell, node and mark; every number of cells up to 110 (200) along each direction, whose ends are exact; numbering formulas for symbolic sizes up to 60 and symbolic lattice positions",
    outside="faces and symbolic cells of boxes of more than 3 (4) cells per direction",
    assumptions=["coordinates are compared as fractions (1e-12 when replayed)"],
    must_reach=["box: a cell for each lattice position", "box: nodes at their lattice position", "box: unit volume", "box: faces are shared consistently",
                "box: marks hold the nodes of their side", "box: each boundary face is on one side", "command: a cell for each lattice position", "command: marks hold the faces of their side", "large: corners in order", "sweep: the ends of the unit cube are exact", "large: marks hold the nodes of their side", "formula: nodes numbered once", "formula: cells numbered once"],
)
HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
TETS = [(0, 1, 2, 5), (0, 2, 3, 7), (0, 5, 7, 4), (2, 7, 5, 6), (0, 2, 7, 5)]


def det(a, b, c, d):
    u, v, t = [[q - p for p, q in zip(a, x)] for x in (b, c, d)]
    return (u[0] * (v[1] * t[2] - v[2] * t[1]) - u[1] * (v[0] * t[2] - v[2] * t[0]) + u[2] * (v[0] * t[1] - v[1] * t[0]))


def lattice(v, k):
    """position of a coordinate on the lattice, or None"""
    for q in range(k + 1):
        if bool(abs(v * k - q) <= 1e-9):
            return q


def box(w, nx, nmax, default=False):
    S = w.mod('cfdtools.meshbase.simple')
    n = [w.int('nx', nx, nx), w.int('ny', 1, nmax), w.int('nz', 1, nmax)]
    if default:
        n[2] = 1
    c = S.Cube(*(n[:2] if default else n))
    m = c.export_mesh()
    nx, ny, nz = n = [int(v) for v in n]
    ncell, nnode = nx * ny * nz, (nx + 1) * (ny + 1) * (nz + 1)
    w.check(w.And(m.ncell == ncell, m.nnode == nnode, c.ncell == ncell, c.nnode == nnode), "sizes")
    xyz = w.plain(m.nodescoord(ndarray=True))
    w.check(len(xyz) == nnode, "sizes")
    # lattice position of each node
    pos = [tuple(lattice(v, k) for v, k in zip(p, n)) for p in xyz]
    w.check(not any(q is None for p in pos for q in p), "nodes at their lattice position")
    if any(q is None for p in pos for q in p):
        return
    w.check(len(set(pos)) == nnode and all(0 <= q <= k for r in pos for q, k in zip(r, n)), "nodes at their lattice position")
    w.check(list(m._cell2node.keys()) == ['hexa8'], "hexahedra")
    tab = face_table(w, m._cell2node)
    tab = [(int(i), [int(v) for v in nod]) for i, nod in tab]
    w.check(sorted(i for i, _ in tab) == list(range(ncell)), "cells are numbered once")
    w.check(all(0 <= v < nnode for _, nod in tab for v in nod), "existing nodes")
    # a symbolic cell of the lattice is found exactly once with its eight corners in order
    corner = {pos[nod[0]]: [pos[v] for v in nod] for _, nod in tab}
    w.check(len(corner) == ncell, "a cell for each lattice position")
    ci = [w.int(f'c{d}', 0, n[d] - 1) for d in range(3)]
    got = w.Or(*[w.And(*[a == b for a, b in zip(ci, p)], nods == [tuple(q + s for q, s in zip(p, h)) for h in HEX]) for p, nods in corner.items()])
    w.check(got, "a cell for each lattice position")
    vol = Fraction(0)
    for _, nod in tab:
        X = [[Fraction(v, k) for v, k in zip(pos[i], n)] for i in nod]
        d = [det(*[X[i] for i in t]) for t in TETS]
        w.check(all(v > 0 for v in d), "positively oriented")
        vol += sum(d) / 6
    w.check(vol == 1, "unit volume")
    # sides
    sides = {'imin': (0, 0), 'imax': (0, nx), 'jmin': (1, 0), 'jmax': (1, ny), 'kmin': (2, 0), 'kmax': (2, nz)}
    w.check(sorted(m._bocos) == sorted(sides), "six marks")
    for nm, (d, v) in sides.items():
        if nm not in m._bocos:
            continue
        k = m._bocos[nm]
        idx = [int(i) for i in k.index.list()]
        w.check(k.nodebased() and k.geodim == 'bdnode' and k.type == 'boundary' and len(idx) == len(set(idx)), "boundary marks of nodes")
        node = w.int(f'node {nm}', 0, nnode - 1)
        inside = w.Or(*[node == i for i in idx])
        w.check(inside == w.Or(*[node == i for i, p in enumerate(pos) if p[d] == v]), "marks hold the nodes of their side")
    # faces
    m.make_face_connectivity()
    ni = (nx - 1) * ny * nz + nx * (ny - 1) * nz + nx * ny * (nz - 1)
    fi = face_table(w, m._faces['internal']['face2node'])
    fb = face_table(w, m._faces['boundary']['face2node'])
    w.check(len(fi) == ni and len(fb) == 2 * (nx * ny + ny * nz + nx * nz), "faces are shared consistently")
    for _, nod in fb:
        on = [s for s, (d, v) in sides.items() if all(pos[int(i)][d] == v for i in nod)]
        w.check(len(on) == 1 or min(n) == 0, "each boundary face is on one side")
    m.bocomarks_set_node_to_face()
    w.check(bool(m.check()), "complete mesh")


def large(w, sizes):
    """boxes with more nodes than small integers hold; a symbolic cell and the sizes"""
    S = w.mod('cfdtools.meshbase.simple')
    np = w.np
    nx, ny, nz = n = [int(w.pick(f'n{d}', list(range(k, k + 2)) if k > 8 and d == 0 else [k])) for d, k in enumerate(sizes)]
    c = S.Cube(nx, ny, nz)
    m = c.export_mesh()
    ncell, nnode = nx * ny * nz, (nx + 1) * (ny + 1) * (nz + 1)
    w.check(m.ncell == ncell and m.nnode == nnode and c.ncell == ncell and c.nnode == nnode, "sizes")
    w.check(list(m._cell2node.keys()) == ['hexa8'], "hexahedra")
    (e,) = [v for _, v in m._cell2node.items()]
    num = [int(i) for i in w.plain(e['index'].list())]
    ids = [[int(v) for v in r] for r in w.plain(e['elem2node'])]
    xyz = w.plain(m.nodescoord(ndarray=True))
    w.check(len(xyz) == nnode and len(ids) == ncell and sorted(num) == list(range(ncell)), "cells are numbered once")
    if len(xyz) != nnode:
        return
    pos = [tuple(round(float(v) * k) for v, k in zip(p, n)) for p in xyz]
    w.check(all(abs(float(v) * k - q) <= 1e-9 * max(1, k) for p, r in zip(xyz, pos) for v, q, k in zip(p, r, n)), "nodes at their lattice position")
    w.check(len(set(pos)) == nnode and all(0 <= q <= k for r in pos for q, k in zip(r, n)), "nodes at their lattice position")
    w.check(all(0 <= v < nnode for r in ids for v in r), "existing nodes")
    if not all(0 <= v < nnode for r in ids for v in r):
        return
    low = [pos[r[0]] for r in ids]
    w.check(len(set(low)) == ncell and all(0 <= q < k for r in low for q, k in zip(r, n)), "a cell for each lattice position")
    w.check(all([pos[v] for v in r] == [(a + x, b + y, d + z) for x, y, z in HEX] for r, (a, b, d) in zip(ids, low)), "corners in order")
    for nm, (d, v) in {'imin': (0, 0), 'imax': (0, nx), 'jmin': (1, 0), 'jmax': (1, ny), 'kmin': (2, 0), 'kmax': (2, nz)}.items():
        have = [int(i) for i in w.plain(m._bocos[nm].index.list())] if nm in m._bocos else None
        w.check(have is not None and sorted(have) == [i for i, p in enumerate(pos) if p[d] == v], "marks hold the nodes of their side")


def sweep(w, d, kmax):
    """any number of cells in a direction: the ends are exactly 0 and 1"""
    S = w.mod('cfdtools.meshbase.simple')
    k = int(w.pick('k', list(range(1, kmax + 1))))
    n = [1, 1, 1]
    n[d] = k
    m = S.Cube(*n).export_mesh()
    xyz = [[float(v) for v in p] for p in w.plain(m.nodescoord(ndarray=True))]
    w.check(m.ncell == k and len(xyz) == 4 * (k + 1), "sizes")
    w.check(all(min(p[c] for p in xyz) == 0.0 and max(p[c] for p in xyz) == 1.0 for c in range(3)), "the ends of the unit cube are exact")
    w.check(sorted(round(p[d] * k) for p in xyz) == [i for i in range(k + 1) for _ in range(4)] and all(abs(p[d] - round(p[d] * k) / k) <= 1e-14 for p in xyz), "nodes at their lattice position")
    for c, nm in enumerate('ijk'):
        lo, hi = [sorted(int(i) for i in w.plain(m._bocos[nm + e].index.list())) for e in ('min', 'max')]
        w.check(lo == [i for i, p in enumerate(xyz) if p[c] == 0.0] and hi == [i for i, p in enumerate(xyz) if p[c] == 1.0], "marks hold the nodes of their side")


def command(w, fname, fmt=None, nmax=2, given='xyz', order=0, out=None):
    """cfdwritecube writes the box in the format of the option or of the extension"""
    w.capture_log()
    n = {c: w.int('n' + c, 1, nmax) if c in given else 10 for c in 'xyz'}
    n = {c: int(v) for c, v in n.items()}
    opts = [['--n' + c, str(n[c])] for c in given]
    if fmt:
        opts.append(['--fmt', fmt])
    if out:
        w.mkdir(w.path(out))
        opts.append(['--outpath', w.path(out)])
    opts.insert(order % (len(opts) + 1), [w.path(fname)])
    if out:
        fname = out + '/' + fname.split('/')[-1]
    got = w.mod('cfdtools._cli').cfdwritecube([a for o in opts for a in o])
    nx, ny, nz = [int(n[c]) for c in 'xyz']
    w.check(got == w.path(fname) and w.exists(got), "the box is written")
    w.check(not out or not w.exists(w.path(fname.split('/')[-1])), "the box is written in the requested folder")
    if not w.exists(w.path(fname)):
        return
    kind = fmt or fname.split('.')[-1]
    sides = {'imin': (0, 0), 'imax': (0, nx), 'jmin': (1, 0), 'jmax': (1, ny), 'kmin': (2, 0), 'kmax': (2, nz)}
    N, e = (nx, ny, nz), 1e-12
    if kind == 'vtu':
        g = w.pv.read(w.path(fname))
        xyz, cells = w.plain(g.points), w.plain(g.cells_dict.get(12, []))
        w.check(g.n_cells == nx * ny * nz and len(cells) == nx * ny * nz, "sizes")
    else:
        r = w.mod('cfdtools.ic3.reader_legacy').reader(w.path(fname))
        r.read_data()
        m = r.export_mesh()
        xyz, cells = w.plain(m.nodescoord(ndarray=True)), None
        w.check(w.And(m.ncell == nx * ny * nz, m.nnode == (nx + 1) * (ny + 1) * (nz + 1)), "sizes")
    w.check(len(xyz) == (nx + 1) * (ny + 1) * (nz + 1), "sizes")
    pos = [tuple(lattice(v, k) for v, k in zip(p, N)) for p in xyz]
    w.check(all(q is not None for p in pos for q in p) and len(set(pos)) == len(pos), "nodes at their lattice position")
    if not all(q is not None for p in pos for q in p):
        return
    if cells is not None:
        c = w.int('c', 0, nx * ny * nz - 1)
        want = [sorted((i + a, j + b, k + d) for a, b, d in HEX) for i in range(nx) for j in range(ny) for k in range(nz)]
        have = [sorted(pos[int(v)] for v in ids) for ids in cells]
        w.check(w.And(*[w.Implies(c == q, x in have) for q, x in enumerate(want)]), "a cell for each lattice position")
        return
    own, tab = m._faces['mixed']['face2cell'].conn, dict((int(i), [int(v) for v in ids]) for i, ids in face_table(w, m._faces['mixed']['face2node']))
    own = w.plain(own)
    w.check(len(tab) == (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1), "faces are shared consistently")
    w.check(sorted(k for k, b in m._bocos.items() if b.type != 'internal') == sorted(sides), "six marks")
    for nm, (d, v) in sides.items():
        if nm not in m._bocos:
            continue
        idx = [int(i) for i in m._bocos[nm].index.list()]
        w.check(m._bocos[nm].type == 'boundary' and sorted(idx) == sorted(i for i, ids in tab.items() if all(pos[q][d] == v for q in ids)), "marks hold the faces of their side")
        w.check(all(own[i][1] < 0 for i in idx), "marks hold the faces of their side")
    # the nodes of the faces of a cell are the corners of a cell of the lattice, each cell once
    corners = {}
    for i, ids in tab.items():
        for c in own[i]:
            if c >= 0:
                corners.setdefault(int(c), set()).update(pos[q] for q in ids)
    want = {frozenset((i + a, j + b, k + d) for a, b, d in HEX) for i in range(nx) for j in range(ny) for k in range(nz)}
    w.check(sorted(corners) == list(range(nx * ny * nz)) and {frozenset(v) for v in corners.values()} == want, "a cell for each lattice position")


def formula(w, which, nmax):
    """the numbering formulas are one to one onto 0..N-1 for any size"""
    S = w.mod('cfdtools.meshbase.simple')
    n = [w.int(c, 1, nmax) for c in ('nx', 'ny', 'nz')]
    c = S.Cube(*n)
    e = 1 if which == 'node' else 0
    f = c.nodeglobindex_ijk if which == 'node' else c.elemglobindex_ijk
    N = c.nnode if which == 'node' else c.ncell
    p = [w.int(f'p{d}', 0, nmax) for d in range(3)]
    q = [w.int(f'q{d}', 0, nmax) for d in range(3)]
    for r in (p, q):
        for a, k in zip(r, n):
            w.assume(a <= k - 1 + e)
    a, b = f(*p), f(*q)
    w.check(w.And(a >= 0, a <= N - 1), f"{which}s numbered once".replace('cells', 'cells'))
    w.check(w.Implies(a == b, w.And(*[x == y for x, y in zip(p, q)])), f"{which}s numbered once")


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=40, budget=200 if not T else 1500)
    return [('box', box, [dict(nx=i, nmax=4 if T else 3) for i in range(1, 5 if T else 4)] + [dict(nx=i, nmax=2, default=True) for i in (1, 4)], o),
            ('command', command, [dict(fname='a.ic3'), dict(fname='b.vtu', order=3), dict(fname='d.dat', fmt='IC3', order=2), dict(fname='e.vtu', given='xy'),
                                  dict(fname='f.vtu', given='z'), dict(fname='g.ic3', given='yz'), dict(fname='h.vtu', given=''),
                                  dict(fname='i.ic3', given='xy', nmax=1, out='od'), dict(fname='j.vtu', given='xz', nmax=1, out='od/sub', order=1)], o), ('large', large, [dict(sizes=s) for s in ((31, 32, 31), (8191, 1, 1), (1, 16384, 1), (2, 1, 11000), (130, 128, 1), (1, 260, 64), (40, 41, 40), (33000, 1, 1), (1, 1, 66000)) + (((64, 64, 65), (300, 1, 300)) if T else ())], o), ('sweep', sweep, [dict(d=d, kmax=200 if T else 110) for d in range(3)], dict(max_replay=10, budget=60 if not T else 600)), ('formula', formula, [dict(which=k, nmax=60) for k in ('node', 'cell')], o)]
