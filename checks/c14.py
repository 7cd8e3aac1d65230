"""C14: plane averages combine exactly the cells above each other."""
import itertools
import math
from fractions import Fraction
import re

from checks import big as B
from checks.c13 import AX, SHAPE, VTK, at, positions

META = dict(
    bounds="grids of up to 18000 neighbour cells or 300 planes with given numbers, values of picked cells being any real; otherwise 2-4 planes of 2-3 cells (tri3, quad4, hexa8 or mixed) stacked along any axis, spaced by 0.01 to 1000, in any order of the file (symbolic permutation for 4 cells, "
           "every order of the planes beyond), at symbolic positions; values are symbolic reals, scalar or vector",
    outside="Fourier modes of other than 2, 3, 4, 6 planes (exact roots of unity), degrees of misalignment between a quarter and twice the tolerance, "
            "numbers of modes above that of the planes less one",
    assumptions=["floating point data and coordinates are exact reals", "cell centres are the mean of the nodes and KDTree returns a nearest "
                 "point (models replayed on the real libraries)"],
    must_reach=["lattice: plane averages of many cells", "lattice: irregular large grid refused", "stack: mean of aligned cells", "stack: standard deviation of aligned cells", "stack: Fourier modes of aligned cells",
                "stack: snapshot of one plane", "stack: phase of aligned cells", "select: only selected data", "refuse: irregular grid refused"],
)
ROT = {'z': 'x', 'x': 'y', 'y': 'z'}  # direction of the stack -> axis of the cells in a plane
SPLIT = {
    'z': None, 'x': lambda c: (c[:, 1:3], c[:, 0]), 'y': lambda c: (c[:, ::2], c[:, 1]),
}


def grid(w, cells, along):
    """cells: list of (type, position in the plane, position along the direction[, other position in the plane])"""
    pts, flat = [], []
    a, b = AX[ROT[along]], AX[along]
    for t, p, z, *y in cells:
        flat.append(len(SHAPE[t]))
        for s in SHAPE[t]:
            flat.append(len(pts))
            pts.append([s[k] + p if k == a else s[k] + z if k == b else s[k] + (y[0] if y else 0.0) for k in range(3)])
    return w.pv.UnstructuredGrid(w.array(flat), w.np.array([VTK[c[0]] for c in cells], dtype='uint8'), w.array(pts, float))


def layout(w, n, types, along, order, z0=0.0, h=1.0, tol=1e-6, displace=False):
    """grid of n planes with a cell of every type in each one; order: how cells are listed.
    returns grid, position of the cells in the plane, and for each cell of the file (column, plane)"""
    m = len(types)
    p = positions(w, m)
    e = w.real('e', -tol / 4, tol / 4) if displace else None
    both = displace == 'both'  # in the two directions of the plane, in a grid at any place
    y = [w.real('y', -1, 1)] if both else []
    f, up = [w.real(c, -tol / 4, tol / 4) for c in ('f', 'up')] if both else (None, None)
    z0 = w.real('z0', -8, 8) if both else z0
    who = w.pick('who', list(range(n * m))) if both else (n - 1) * m
    std = [(i, k) for k in range(n) for i in range(m)]
    if order == 'any':
        perm = list(w.pick('o', list(itertools.permutations(range(n * m)))))
        where = [std[j] for j in perm]
    elif order == 'planes':  # every order of the planes, cells of a plane rotated
        pl = w.pick('o', list(itertools.permutations(range(n))))
        where = [((i + k) % m, k) for k in pl for i in range(m)]
    elif order == 'columns':
        pl = w.pick('o', list(itertools.permutations(range(n))))
        where = [(i, pl[(k + i) % n]) for i in range(m) for k in range(n)]
    else:
        where = std
    cells = []
    for i, k in where:
        x = p[i]
        moved = displace and k * m + i == who
        cells.append((types[i], x + e if moved else x, z0 + k * h + up if moved and both else z0 + k * h, *[q + f if moved else q for q in y]))
    return grid(w, cells, along), p, where


def check_values(w, g, along, p, types, n, where, data, name, opt, msg):
    """data[j]: value(s) of cell j of the file"""
    m = len(p)
    cd = g.cell_data
    col = {(i, k): data[j] for j, (i, k) in enumerate(where)}
    a = AX[ROT[along]]
    ctr = w.plain(g.cell_centers().points)
    off = {t: sum(s[a] for s in SHAPE[t]) / len(SHAPE[t]) for t in types}
    nm = opt.get('nmode', 0)
    have = {}
    for key, on in ((f'{name}_avg', opt.get('avg', True)), (f'{name}_rms', opt.get('rms')), (name, opt.get('snapshot'))):
        w.check((key in cd.keys()) == bool(on), "only selected data")
        if on and key in cd.keys():
            have[key] = w.plain(cd[key])
    for i in range(1, nm + 1):
        have[f'{name}_k{i}'] = w.plain(cd[f'{name}_k{i}'])
        if opt.get('phase'):
            have[f'{name}_k{i}_phase'] = w.plain(cd[f'{name}_k{i}_phase'])
    w.check(not any(k.startswith(f'{name}_k') and k not in have for k in cd.keys()), "only selected data")
    for j in range(m):
        for i in range(m):
            here = abs(ctr[j][a] - p[i] - off[types[i]]) <= 0.25
            if not here:  # decided on each path
                continue
            xs = [col[(i, k)] for k in range(n)]
            for c in range(len(xs[0]) if isinstance(xs[0], list) else 1):
                ys = [x[c] if isinstance(x, list) else x for x in xs]

                def v(key):
                    x = have[key][j]
                    return x[c] if isinstance(x, list) else x

                s = sum(ys, 0)
                if f'{name}_avg' in have:
                    w.check(w.polyeq(v(f'{name}_avg') * n, s), "mean of aligned cells")
                if f'{name}_rms' in have:
                    r = v(f'{name}_rms')
                    var = sum([(n * y - s) * (n * y - s) for y in ys], 0)
                    w.check(w.And(r >= 0, w.polyeq(r * r * n ** 3, var)), "standard deviation of aligned cells")
                if name in have:
                    w.check(w.polyeq(v(name), ys[0]), "snapshot of one plane")
                for q in range(1, nm + 1):
                    re, im, s3 = dft(ys, q)
                    r = v(f'{name}_k{q}')
                    w.check(w.And(r >= 0, w.polyeq(r * r * (4 * n), re * re + s3 * im * im)), "Fourier modes of aligned cells")
                    if f'{name}_k{q}_phase' in have:
                        w.check(w.angle_is(v(f'{name}_k{q}_phase'), im, s3, re), "phase of aligned cells")


def dft(ys, q):
    """twice the transform: (re, im, s) meaning re + i sqrt(s) im"""
    n = len(ys)
    re, im, s = 0, 0, 3 if n in (3, 6) else 1
    for k, y in enumerate(ys):
        t = 2 * math.pi * q * k / n
        re = re + round(2 * math.cos(t)) * y
        im = im - round(2 * math.sin(t) / math.sqrt(s)) * y
    return re, im, s


def stack(w, n, types, along='z', order='any', opts={}, vec=False, displace=False, dump=False, tol=1e-6, **z):
    V = w.mod('cfdtools.vtk._vtk')
    g, p, where = layout(w, n, types, along, order, tol=tol, displace=displace, **z)
    N = n * len(types)
    vals = w.realarray('q', (N, 2) if vec else (N,), -100, 100)
    data = w.plain(vals)
    g.cell_data['Q'] = vals
    v = V.vtkMesh(pvmesh=g)
    out = v.vtk_zconvolution(splitcoords=SPLIT[along], tol=tol, **opts)
    og = out.pyvista_grid
    w.check(w.And(out.ncell == len(types), og.n_cells == len(types)), "one plane of cells")
    ctr = w.plain(og.cell_centers().points)
    a, b = AX[ROT[along]], AX[along]
    off = {t: [sum(s[k] for s in SHAPE[t]) / len(SHAPE[t]) for k in range(3)] for t in types}
    for t, x in zip(types, p):
        w.check(w.Or(*[abs(c[a] - x - off[t][a]) <= 2 * tol for c in ctr]), "a cell at each position")
    w.check(og.n_points == sum(len(SHAPE[t]) for t in types), "no other node is kept")
    check_values(w, og, along, p, types, n, where, data, 'Q', opts, 'x')
    w.check(w.same(v.pyvista_grid.cell_data['Q'], data) and list(v.pyvista_grid.cell_data.keys()) == ['Q'], "the original data are unchanged")
    w.check(len(og.point_data.keys()) == 0, "no node data")


def lattice(w, n, along='z', types='hexa', step=1, tol=1e-6, move=0.3, h=1.0, where=(), opts={}, away=None, scale=1.0, base=0.0):
    """planes of many neighbour cells, given numbers but the values of the cells `where` of the file"""
    V = w.mod('cfdtools.vtk._vtk')
    nx, ny, nz = n
    rot = {'z': (0, 1, 2), 'x': (1, 2, 0), 'y': (2, 0, 1)}[along]    # axis of each direction of the lattice
    cells = B.cells3(n, 0 if types == 'hexa' else 4)
    m = len(cells) // nz
    place = {}
    for k in range(nz):
        for c in B.cells3((nx, ny, 1), 0 if types == 'hexa' else 4):
            place[tuple(i + k * (nx + 1) * (ny + 1) for i in c[1])] = len(place)
    pos = []
    for q, p in enumerate(B.lattice(n)):
        c = p[0] + (nx + 1) * p[1]
        p = [scale * (p[0] + 0.25 * (B.number(c, 1) % 1.0)), scale * (p[1] + 0.25 * (B.number(c, 2) % 1.0)), h * p[2] - 3.0]
        p = [v + move * tol * (B.number(q, 3 + i) % 1.0 - 0.5) for i, v in enumerate(p)]
        pos.append([p[rot.index(a)] for a in range(3)])
    nc = len(cells)
    perm = [(k * step + 5) % nc for k in range(nc)]
    assert len(set(perm)) == nc
    if away is not None:
        for i in cells[away % nc][1]:
            pos[i][rot[0]] += 0.03 * scale
    val, x = B.array(w, 'q', (nc,), [p % nc for p in where], lambda nm: w.real(nm, -100, 100))
    if base:                                    # small fluctuations of a large value
        x = [base + 1e-9 * abs(base) * (v % 1.0) for v in x]
    code = dict(hexa8=12, prism6=13)
    g = w.pv.UnstructuredGrid(w.np.array([v for k in perm for v in [len(cells[k][1])] + cells[k][1]]), w.np.array([code[cells[k][0]] for k in perm], dtype='uint8'), w.np.array(pos))
    g.cell_data['Q'] = w.array([x[k] for k in perm], float)
    split = {'z': None, 'x': lambda c: (c[:, 1:3], c[:, 0]), 'y': lambda c: (c[:, ::2], c[:, 1])}[along]
    out, exc = w.raises(lambda: V.vtkMesh(pvmesh=g).vtk_zconvolution(splitcoords=split, tol=tol, **opts), ValueError)
    w.check((exc is None) == (away is None), "planes of many cells accepted" if away is None else "irregular large grid refused")
    if exc is not None or away is not None:
        return
    og = out.pyvista_grid
    w.check(og.n_cells == m and out.ncell == m, "one plane of many cells")
    # column of each cell of the plane, from its nodes: those of the lattice at the same place
    at = {tuple(float(v) for v in p): i for i, p in enumerate(pos)}
    rows, off, pts = w.plain(og.cells), w.plain(og.offset), w.plain(og.points)
    col = []
    for j in range(m):
        ids = [at.get(tuple(float(v) for v in pts[int(i)])) for i in rows[int(off[j]) + j + 1:int(off[j + 1]) + j + 1]]
        col.append(None if None in ids else place.get(tuple(ids)))
    w.check(sorted(c if c is not None else -1 for c in col) == list(range(m)), "cells of the first plane of a large grid")
    # columns of the file: cells3 lists the cells of a plane, hexahedra before prisms
    rank = {}
    for k, (_, ids) in enumerate(cells):
        rank[place[tuple(ids)]] = k
    cd = {k: w.plain(og.cell_data[k]) for k in og.cell_data.keys()}
    nm = opts.get('nmode', 0)
    bad = None
    for j, c in enumerate(col):
        ys = [x[rank[c + k * m]] for k in range(nz)]
        free = any(rank[c + k * m] in [p % nc for p in where] for k in range(nz))
        s = sum(ys, 0)
        var = sum([(nz * y - s) * (nz * y - s) for y in ys], 0)
        want = [(cd['Q_avg'][j] * nz, s, nz)]
        if opts.get('rms'):
            want.append((cd['Q_rms'][j] * cd['Q_rms'][j] * nz ** 3, var, nz ** 3))
        if opts.get('snapshot'):
            want.append((cd['Q'][j], ys[0], 1))
        if nm and not free:
            for q in range(1, nm + 1):
                re = sum(y * math.cos(2 * math.pi * q * k / nz) for k, y in enumerate(ys))
                im = sum(y * math.sin(2 * math.pi * q * k / nz) for k, y in enumerate(ys))
                want.append((cd[f'Q_k{q}'][j] ** 2 * nz, re * re + im * im, nz))
        if base and opts.get('rms'):
            mean = sum(map(Fraction, ys)) / nz
            ref = math.sqrt(sum((Fraction(y) - mean) ** 2 for y in ys) / nz)
            if not abs(cd['Q_rms'][j] - ref) <= 1e-2 * ref or not abs(cd['Q_avg'][j] - float(mean)) <= 1e-12 * abs(base):
                bad = bad or (j, cd['Q_rms'][j], ref)
            continue
        for a, b, size in want:
            if free:
                w.check(w.polyclose(a, b, 1e-6 * size), "plane averages of many cells")
            elif not abs(a - b) <= 1e-9 * (size + abs(b)):
                bad = bad or (j, a, b)
    w.check(bad is None, "plane averages of many cells")


def select(w, sel, want, opts={}, n=2, types=('quad4', 'quad4'), names=('Q', 'P', 'U')):
    """options chosen for each variable"""
    V = w.mod('cfdtools.vtk._vtk')
    types = list(types)
    g, p, where = layout(w, n, types, 'z', 'columns')
    N = n * len(types)
    data = {}
    for nm in names:
        vals = w.realarray(nm, (N,), -100, 100)
        data[nm] = w.plain(vals)
        g.cell_data[nm] = vals
    before = repr(sel)
    out = V.vtkMesh(pvmesh=g).vtk_zconvolution(select=sel, **opts)
    og = out.pyvista_grid
    for nm in names:
        if nm in want:
            check_values(w, og, 'z', p, types, n, where, data[nm], nm, want[nm], 'x')
        else:
            w.check(not any(re.fullmatch(re.escape(nm) + r'(_avg|_rms|_k\d+|_k\d+_phase)?', k) for k in og.cell_data.keys()), "only selected data")
    w.check(repr(sel) == before, "options are not modified")
    _, e = w.raises(lambda: V.vtkMesh(pvmesh=g).vtk_zconvolution(select={'nope': 'avg'}), ValueError)
    w.check(e is not None, "unknown variable refused")


def refuse(w, what, n=3, types=('quad4', 'quad4'), tol=1e-6, h=1.0):
    V = w.mod('cfdtools.vtk._vtk')
    types = list(types)
    m = len(types)
    p = positions(w, m)
    cells = [[types[i], p[i], h * k] for k in range(n) for i in range(m)]
    if what == 'spacing':  # one plane is moved
        k = w.pick('k', range(n))
        d = w.real('d', -0.4 * h, 0.4 * h)
        w.assume(w.Or(d >= 100 * tol, d <= -100 * tol))
        for c in range(m):
            cells[k * m + c][2] = cells[k * m + c][2] + d
    elif what == 'shift':  # one cell is moved in its plane
        j = w.pick('j', range(n * m))
        d = w.real('d', -20, 20)
        for q in p:
            x = cells[j][1] + d - q
            w.assume(w.Or(x >= 10 * tol, x <= -10 * tol))
        cells[j][1] = cells[j][1] + d
    elif what == 'missing':
        j = w.pick('j', range(n * m))
        del cells[j]
    elif what == 'double':  # a cell at the place of another one of its plane
        k = w.pick('k', range(n))
        i, j = w.pick('i', list(itertools.permutations(range(m), 2)))
        cells[k * m + i][1] = cells[k * m + j][1]
    elif what == 'single':
        cells = cells[:m]
    o = w.pick('order', range(2)) if what != 'spacing' else 0
    if o:
        cells = cells[::-1]
    g = grid(w, cells, 'z')
    g.cell_data['Q'] = w.realarray('q', (len(cells),), -100, 100)
    _, e = w.raises(lambda: V.vtkMesh(pvmesh=g).vtk_zconvolution(tol=tol), ValueError)
    w.check(e is not None, "irregular grid refused")


def scenarios(tier):
    T = tier == 'thorough'
    full = dict(rms=True, snapshot=True)
    S = [dict(n=2, types=['quad4'] * 2, opts=dict(full, nmode=1, phase=True)), dict(n=2, types=['hexa8'] * 2, along='x', opts=full), dict(n=2, types=['tri3', 'quad4'], opts=full),
         dict(n=4, types=['hexa8'] * 2, order='planes', opts=dict(full, nmode=2, phase=True)),
         dict(n=4, types=['tri3'] * 3, order='columns', along='y', opts=dict(nmode=1)),
         dict(n=3, types=['quad4'] * 2, order='planes', opts=dict(full, nmode=1, phase=True), vec=True),
         dict(n=3, types=['quad4', 'tri3', 'quad4'], order='columns', opts=dict(rms=True), z0=-3.0, h=0.5),
         dict(n=2, types=['quad4'] * 3, order='columns', opts=full, displace=True), dict(n=2, types=['quad4'] * 2, order='rev', opts=dict(rms=True), displace='both'), dict(n=3, types=['tri3'] * 2, order='columns', along='x', displace='both', opts=dict(rms=True), tol=1e-3),
         dict(n=2, types=['hexa8'] * 2, order='columns', along='y', displace='both', tol=1e-5), dict(n=2, types=['hexa8'], order='any', opts=full),
         dict(n=4, types=['quad4'] * 2, order='columns', opts=dict(nmode=3, phase=True)), dict(n=3, types=['tri3'] * 2, order='planes', opts=dict(nmode=2, phase=True), vec=True)]
    L = [dict(sel={'Q': 'avg'}, want={'Q': {}}), dict(sel={'Q': ['no_avg', 'rms'], 'U': 'snapshot'}, want={'Q': dict(avg=False, rms=True), 'U': dict(snapshot=True)}),
         dict(sel={'P': [{'nmode': 1}, 'phase'], 'Q': 'no_avg'}, opts=dict(rms=True), want={'P': dict(nmode=1, phase=True, rms=True), 'Q': dict(avg=False, rms=True)}),
         dict(sel={'U': [{'nmode': 0, 'rms': False}], 'P': 'snapshot'}, opts=dict(nmode=1, rms=True), want={'U': {}, 'P': dict(snapshot=True, nmode=1, rms=True)}),
         dict(sel={'Q': ['no_avg', 'rms', {'nmode': 1}], 'U': ['snapshot', {'rms': True}, 'no_avg', {'nmode': 1}, 'phase']},
              want={'Q': dict(avg=False, rms=True, nmode=1), 'U': dict(avg=False, rms=True, snapshot=True, nmode=1, phase=True)}),
         dict(sel=None, opts=dict(snapshot=True), want={k: dict(snapshot=True) for k in 'QPU'}),
         dict(sel={'QU': ['rms', 'no_avg'], 'q': 'snapshot'}, names=('Q', 'QU', 'q'), want={'QU': dict(avg=False, rms=True), 'q': dict(snapshot=True)}),
         dict(sel={'rms': 'avg', 'avg': 'no_avg'}, opts=dict(rms=True), names=('rms', 'avg', 'phase'), want={'rms': dict(rms=True), 'avg': dict(avg=False, rms=True)})]
    R = [dict(what=x) for x in ('spacing', 'shift', 'missing', 'double', 'single')] + [dict(what='shift', n=2), dict(what='spacing', h=1000.0), dict(what='spacing', h=0.01), dict(what='double', n=2, types=['tri3'] * 3)]
    if T:
        S += [dict(n=6, types=['quad4'] * 2, order='rev', opts=dict(full, nmode=3, phase=True)), dict(n=3, types=['quad4'] * 2, order='any', opts=full),
              dict(n=4, types=['quad4'] * 3, order='columns', opts=dict(full, nmode=2, phase=True))]
        R += [dict(what='spacing', n=4), dict(what='double', n=3, types=['quad4'] * 3)]
    o = dict(max_replay=6)
    G = [dict(n=(8, 7, 4), step=37, where=(9, 150), opts=dict(full)), dict(n=(30, 20, 3), step=7, where=(700,), opts=dict(full)), dict(n=(6, 5, 40), step=7, along='x', where=(), opts=dict(full)), dict(n=(60, 50, 3), step=7, where=(), along='y', opts=dict(full)),
         dict(n=(5, 4, 4), step=7, types='mix', where=(13,), opts=dict(rms=True)), dict(n=(25, 20, 2), step=1, where=(600,), tol=1e-3, move=0.5), dict(n=(30, 20, 3), step=7, away=1000), dict(n=(3, 2, 300), step=7, opts=dict(rms=True, nmode=5)), dict(n=(8, 7, 8), step=37, opts=dict(full, nmode=3)), dict(n=(3, 2, 15), step=7, opts=dict(nmode=7)), dict(n=(3, 2, 16), step=7, opts=dict(nmode=15)), dict(n=(2, 2, 25), step=7, opts=dict(nmode=24)),
         dict(n=(100, 90, 2), step=7, opts=dict(full)), dict(n=(5, 4, 3), step=7, scale=1e-3, h=1e-3, tol=1e-8, opts=dict(full)), dict(n=(5, 4, 3), step=7, scale=1e4, h=50.0, tol=1e-3, opts=dict(full)), dict(n=(4, 3, 6), step=7, base=101325.0, opts=dict(rms=True)), dict(n=(3, 2, 40), step=7, base=-3e8, opts=dict(rms=True))]
    if T:
        G += [dict(n=(100, 90, 8), step=7, opts=dict(full)), dict(n=(200, 170, 2), step=7, opts=dict(full)), dict(n=(100, 90, 2), step=7, away=9005)]
    return [('lattice', lattice, G, o), ('stack', stack, S, o), ('select', select, L, o), ('refuse', refuse, R, o)]
