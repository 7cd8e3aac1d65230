"""C13: packing a VTK time series attaches each value to the right cell."""
import itertools
import xml.etree.ElementTree as ET

from checks import big as B

META = dict(
    bounds="grids of up to 32000 neighbour cells and series of up to 30 files with given numbers, values of picked cells being any number; otherwise two neighbour cells exchanged or a cell moved anywhere among 20 cells or 12 files; 2-3 files of 2-4 cells (4 files or 5 cells in the thorough tier) at symbolic positions at least 1 apart, in any order (symbolic permutation), displaced by "
           "up to a quarter of the tolerance; values are 64 free bits, scalar or vector; 1 or 2 variables, time present, absent, or in some files only",
    outside="node data; meshes with coincident cells; displacements between a quarter of the tolerance and twice the tolerance; "
            "the cells of the HDF5 mesh are grouped by type and do not record their numbering when types are interleaved",
    assumptions=["pyvista keeps points, cells and data through save and read, cell centres are the mean of the nodes (model replayed "
                 "on the real library)", "KDTree returns a nearest point (checked by its definition)", "coordinates are exact reals"],
    must_reach=["lattice: values in the cell order of the first file for large grids", "lattice: displaced cell of a large grid refused", "order: values in the cell order of the first file", "order: one entry per file", "refuse: displaced cell refused",
                "refuse: cells at the same position refused", "refuse: other number of cells refused",
                "dump: values of each file", "dump: cells of the mesh", "many: values in the cell order of the first file", "many: displaced cell refused", "jitter: values in the cell order of the first file", "coincide: reports whether cells coincide"],
)
VTK = {'tri3': 5, 'quad4': 9, 'tetra4': 10, 'hexa8': 12, 'prism6': 13, 'pyra5': 14}
XDMF = {'tri3': 'Triangle', 'quad4': 'Quadrilateral', 'tetra4': 'Tetrahedron', 'hexa8': 'Hexahedron', 'prism6': 'Wedge', 'pyra5': 'Pyramid'}   # names of the XDMF standard
SHAPE = {
    'tri3': [(0, 0, 0), (.25, 0, 0), (0, .25, 0)],
    'quad4': [(0, 0, 0), (.25, 0, 0), (.25, .25, 0), (0, .25, 0)],
    'tetra4': [(0, 0, 0), (.25, 0, 0), (0, .25, 0), (0, 0, .25)],
    'prism6': [(x, y, z) for z in (0, .5) for x, y in ((0, 0), (.25, 0), (0, .25))],
    'pyra5': [(0, 0, 0), (.25, 0, 0), (.25, .25, 0), (0, .25, 0), (0, 0, .5)],
    'hexa8': [(x, y, z) for z in (0, .5) for x, y in ((0, 0), (.25, 0), (.25, .25), (0, .25))],
}
AX = {'x': 0, 'y': 1, 'z': 2}


def grid(w, types, pos, axis='x', other=None):
    """one separate cell per position along the axis; other: positions along the next two axes"""
    pts, flat = [], []
    for i, (t, p) in enumerate(zip(types, pos)):
        flat.append(len(SHAPE[t]))
        at = [p, *(other[i] if other else (0.0, 0.0))]
        for s in SHAPE[t]:
            flat.append(len(pts))
            pts.append([s[k] + at[(k - AX[axis]) % 3] for k in range(3)])
    return w.pv.UnstructuredGrid(w.array(flat), w.np.array([VTK[t] for t in types], dtype='uint8'), w.array(pts, float))


def positions(w, n):
    p = w.reals('p', n, -10, 10)
    for i in range(n):
        for j in range(i):
            w.assume(w.Or(p[i] - p[j] >= 1, p[j] - p[i] >= 1))
    return p


def at(w, xs, i):
    """xs[i] for a symbolic index"""
    v = xs[-1]
    for k in range(len(xs) - 1):
        v = w.ite(i == k, xs[k], v)
    return v


def order(w, types, nfile, vars=(('Q', 1),), tol=1e-6, time=True, axis='x', sel=None, displace=True, dump=None, extra=None, mixed=False, taken=0, opts={}, verbose=False):
    L = w.mod('cfdtools.vtk._vtkList')
    n = len(types)
    p = positions(w, n)
    names, perms, vals, times = [], [], [], []
    for f in range(nfile):
        perm = list(range(n))
        if f and mixed:
            perm = list(w.pick(f'o{f}', itertools.permutations(range(n))))
        elif f:
            perm = w.permutation(f'o{f}', n)
        pos = p if f == 0 else [at(w, p, k) for k in perm]
        if f and displace:
            e = w.reals(f'e{f}', n, -tol / 4, tol / 4)
            pos = [a + b for a, b in zip(pos, e)]
        g = grid(w, [types[k] for k in perm] if mixed else types, pos, axis)
        d = {}
        for v, m in vars:
            if v == extra and f == 0:
                continue
            x = w.f64array(f'{v}{f}', (n,) if m == 1 else (n, m))
            g.cell_data[v] = x
            d[v] = w.plain(x)
        t = w.f64(f't{f}') if time is True or time and f in time else None
        times.append(t)
        if t is not None:
            g.field_data['TimeValue'] = w.array([t])
        nm = w.path(f's{f}.vtu')
        g.save(nm)
        names.append(nm)
        perms.append(perm)
        vals.append(d)
    ls = L.vtkList(names, verbose=True) if verbose else L.vtkList(names)
    w.check(w.And(ls.nfile == nfile, ls.allexist()), "number of files")
    ls.read(filterdata=sel, tol=tol, tolverbose=tol)
    dl = ls._data._datalist
    w.check(len(dl) == nfile, "one entry per file")
    wanted = sel if sel else [v for v, _ in vars]

    def right(f, get):
        for v in wanted:
            if v not in vals[f]:
                continue
            got = w.plain(get(v))
            w.check(len(got) == n, "one value per cell")
            for j in range(n):
                # the value of the j-th cell of the file is found at the cell of the first file it coincides with
                for k in range(n):
                    w.check(w.Implies(perms[f][j] == k, w.same(got[k], vals[f][v][j])), "values in the cell order of the first file")

    for f in range(nfile):
        if f < len(dl):
            w.check(sorted(k for k in dl[f] if k != 'time') == sorted(v for v in wanted if v in vals[f]), "variables of each file")
            right(f, lambda v: dl[f][v])
            if times[f] is not None:
                w.check(w.same(w.plain(dl[f]['time']), [times[f]]), "time of each file")
            else:
                w.check('time' not in dl[f], "no time is invented")
    if dump is None:
        return
    xdmf = dump == 'xdmf'
    out = w.path('o.hdf')
    for k in range(taken):  # the names which exist already
        w.put_file(w.path(f'o({k}).hdf' if k else 'o.hdf'), b'other content')
    fn = ls.dumphdf(out, xdmf=xdmf, **opts)
    if taken and opts:
        taken = 0
    w.check(fn == (w.path(f'o({taken}).hdf') if taken else out), "name of the file")
    h = w.h5.File(fn, 'r')
    w.check(h.attrs['cfd_datatype'] == 'datalist', "kind of file recorded")
    m = h['mesh']
    pts = w.plain(w.np.array(m['nodes']))
    xs = [pts[i] for i in range(len(pts))]
    g0 = grid(w, types, p, axis)
    w.check(w.same(xs, w.plain(g0.points)), "nodes of the mesh")
    base, row = 0, {}
    for t in types:
        row.setdefault(t, []).append(list(range(base, base + len(SHAPE[t]))))
        base += len(SHAPE[t])
    w.check(sorted(m['cells'].keys()) == sorted(row), "types of cells of the mesh")
    for t in row:
        w.check(w.same(w.plain(w.np.array(m['cells'][t])), row[t]), "cells of the mesh")
    grp = [h['datalist'][k] for k in sorted(h['datalist'].keys())]
    w.check(len(grp) == nfile, "one group per file")
    for f in range(nfile):
        w.check(('time' in grp[f].attrs) == (times[f] is not None), "no time is invented")
        if times[f] is not None:
            w.check(w.same(w.plain(grp[f].attrs['time']), [times[f]]), "time of each file is written")
        for v in wanted:
            if v in vals[f]:
                got = w.plain(w.np.array(grp[f][v]))
                for j in range(n):
                    for k in range(n):
                        w.check(w.Implies(perms[f][j] == k, w.same(got[k], vals[f][v][j])), "values of each file")
    h.close()
    if xdmf:
        xmf = w.path(f'o({taken}).xmf' if taken else 'o.xmf')
        w.check(w.exists(xmf), "XDMF file written")
        text = w.get_text(xmf)
        w.check(text.count(':/') == text.count(f'{fn}:/'), "XDMF: refers to the file which is written")
        w.check(text.count(f'{fn}:/mesh/nodes') == nfile and all(text.count(f'{fn}:/mesh/cells/{t}') == nfile for t in row),
                "XDMF: common mesh for each file")
        for f in range(nfile):
            for v in wanted:
                w.check(text.count(f'{fn}:/datalist/i{f:06}/{v}\n') == (v in vals[f]), "XDMF: each variable of each file")
        described(w, text, fn, row, len(pts), nfile, [[v for v in wanted if v in vals[f]] for f in range(nfile)], dict(vars), n)


def described(w, text, fn, row, npts, nfile, names, width, n):
    """what the XDMF file says of the HDF5 datasets, read as the standard says"""
    steps = [g for g in ET.fromstring(text).iter('Grid') if g.find('Grid') is None]
    w.check(len(steps) == nfile, "XDMF: one grid per file")

    def item(e):
        d = e.find('DataItem')
        return d.text.strip(), [int(k) for k in d.get('Dimensions').split()], d.get('Format')

    for f, g in enumerate(steps):
        geo = g.find('Geometry')
        ref, dim, form = item(geo)
        w.check(geo.get('GeometryType') == 'XYZ' and ref == f'{fn}:/mesh/nodes' and dim in ([3 * npts], [npts, 3]) and form == 'HDF', "XDMF: nodes are described")
        top = {}
        for t in g.findall('Topology'):
            ref, dim, form = item(t)
            top[ref] = (t.get('TopologyType'), int(t.get('NumberOfElements')), dim in ([int(t.get('NumberOfElements')) * len(SHAPE[ref.split('/')[-1]])], [int(t.get('NumberOfElements')), len(SHAPE[ref.split('/')[-1]])]))
        w.check(top == {f'{fn}:/mesh/cells/{t}': (XDMF[t], len(c), True) for t, c in row.items()}, "XDMF: cells are described")
        att = {a.get('Name'): (a.get('AttributeType'), a.get('Center'), *item(a)[:2]) for a in g.findall('Attribute')}
        w.check(att == {v: ('Scalar' if width[v] == 1 else 'Vector', 'Cell', f'{fn}:/datalist/i{f:06}/{v}', [n] if width[v] == 1 else [n, width[v]]) for v in names[f]}, "XDMF: variables are described")


def refuse(w, what, n=2, tol=1e-6, axis='x', typ='tri3', before=0, after=0):
    L = w.mod('cfdtools.vtk._vtkList')
    p = positions(w, n)
    g = grid(w, [typ] * n, p, axis)
    g.cell_data['Q'] = w.f64array('q0', (n,))
    g.save(w.path('a.vtu'))
    names = [w.path('a.vtu')]

    def good(m, tag):  # valid files before and after the bad one
        for f in range(m):
            g = grid(w, [typ] * n, [at(w, p, k) for k in w.permutation(f'{tag}{f}', n)], axis)
            g.cell_data['Q'] = w.f64array(f'{tag}q{f}', (n,))
            names.append(w.path(f'{tag}{f}.vtu'))
            g.save(names[-1])

    good(before, 'u')
    if what == 'displaced':
        perm = w.permutation('o', n)
        pos = [at(w, p, k) for k in perm]
        e = w.real('e', -20, 20)
        j = w.int('j', 0, n - 1)
        pos = [w.ite(j == k, x + e, x) for k, x in enumerate(pos)]
        for q in p:
            d = at(w, pos, j) - q
            w.assume(w.Or(d >= 2 * tol, d <= -2 * tol))
    elif what == 'same':
        k = w.ints('k', n, 0, n - 1)
        w.assume(w.Not(w.distinct(k)))
        pos = [at(w, p, i) for i in k]
    elif what == 'missing':
        pos = [at(w, p, k) for k in w.permutation('o', n)]
    else:
        m = what
        pos = [at(w, p, i) for i in w.ints('k', m, 0, n - 1)]
    g = grid(w, [typ] * len(pos), pos, axis)
    g.cell_data['P' if what == 'missing' else 'Q'] = w.f64array('q1', (len(pos),))
    g.save(w.path('b.vtu'))
    names.append(w.path('b.vtu'))
    good(after, 'v')
    _, exc = w.raises(lambda: L.vtkList(names).read(tol=tol, tolverbose=tol, **(dict(filterdata=['Q']) if what == 'missing' else {})))
    w.check(exc is not None, {'displaced': "displaced cell refused", 'missing': "a selected variable is in every file", 'same': "cells at the same position refused"}
            .get(what, "other number of cells refused"))


def drift(w, n=2, tol=1e-3, steps=1):
    """each file is close to the previous one, the last is too far from the first"""
    L = w.mod('cfdtools.vtk._vtkList')
    p = positions(w, n)
    names = []

    def file(e):
        g = grid(w, ['tri3'] * n, [x + y for x, y in zip(p, e)])
        g.cell_data['Q'] = w.f64array(f'q{len(names)}', (n,))
        names.append(w.path(f's{len(names)}.vtu'))
        g.save(names[-1])

    file([0.0] * n)
    for s in range(steps):
        file(w.reals(f'e{s}', n, -0.75 * tol, 0.75 * tol))
    file(w.reals('far', n, 1.25 * tol, 1.5 * tol))
    _, exc = w.raises(lambda: L.vtkList(names[:-1]).read(tol=tol, tolverbose=tol))
    w.check(exc is None, "cells within the tolerance accepted")
    _, exc = w.raises(lambda: L.vtkList(names).read(tol=tol, tolverbose=tol))
    w.check(exc is not None, "displaced cell refused")
    for k in range(1, len(names)):
        r = L.vtkList(names[:k]).check_order(tol=tol)
        w.check(r == True, "reports whether cells coincide")  # noqa: E712
    w.check(L.vtkList(names).check_order(tol=tol) == False, "reports whether cells coincide")  # noqa: E712


def jitter(w, n, nfile, tol=1e-6, axis='x', typ='tri3'):
    """grids at any place, the cells of which are in line; in each file but the first, cells are exchanged and one is
    displaced in any direction by less than the tolerance"""
    L = w.mod('cfdtools.vtk._vtkList')
    p = positions(w, n)
    o = w.reals('o', 2, -2, 2)
    names, vals = [], []
    for f in range(nfile):
        perm, pos, other = list(range(n)), list(p), [list(o) for _ in range(n)]
        if f:
            perm = list(w.pick(f'p{f}', itertools.permutations(range(n))))
            i = w.pick(f'i{f}', range(n))
            e = w.reals(f'e{f}', 3, -tol / 4, tol / 4)
            pos[i], other[i] = pos[i] + e[0], [a + b for a, b in zip(o, e[1:])]
        g = grid(w, [typ] * n, [pos[k] for k in perm], axis, [other[k] for k in perm])
        x = w.f64s(f'q{f}', n)
        vals.append(x)
        g.cell_data['Q'] = w.array([x[k] for k in perm], float)
        names.append(w.path(f's{f}.vtu'))
        g.save(names[-1])
    ls = L.vtkList(names)
    _, exc = w.raises(lambda: ls.read(tol=tol, tolverbose=tol))
    w.check(exc is None, "coincident cells accepted")
    if exc is None:
        got = [d['Q'] for d in ls._data._datalist]
        w.check(len(got) == nfile and w.And(*[w.same(w.plain(a), b) for a, b in zip(got, vals)]), "values in the cell order of the first file")


def many(w, n, nfile, typ='tri3', bad=False, tol=1e-6, split=1, part=0):
    """many cells or files, two neighbour cells being exchanged in one of the files (or a cell being away)"""
    L = w.mod('cfdtools.vtk._vtkList')
    f, i = w.pick('file', range(1, nfile)), w.pick('cell', range(part, n - 1, split))
    names, vals = [], []
    for k in range(nfile):
        pos = [float(j) for j in range(n)]
        x = w.f64s(f'q{k}', n)
        vals.append(x)
        perm = list(range(n))
        if k == f:
            perm[i], perm[i + 1] = perm[i + 1], perm[i]
        pos = [pos[j] for j in perm]
        if k == f and bad:
            pos[i] = pos[i] + w.real('e', 2 * tol, 0.4)
        g = grid(w, [typ] * n, pos)
        g.cell_data['Q'] = w.array([x[j] for j in perm], float)
        g.field_data['TimeValue'] = w.array([float(k)])
        names.append(w.path(f's{k}.vtu'))
        g.save(names[-1])
    ls = L.vtkList(names)
    _, exc = w.raises(lambda: ls.read(tol=tol, tolverbose=tol))
    w.check((exc is not None) == bad, "displaced cell refused" if bad else "coincident cells accepted")
    w.check(L.vtkList(names).check_order(tol=tol) == False, "reports whether cells coincide")  # noqa: E712
    if bad:
        return
    got = [d['Q'] for d in ls._data._datalist]
    w.check(len(got) == nfile and w.And(*[w.same(w.plain(a), b) for a, b in zip(got, vals)]), "values in the cell order of the first file")
    fn = ls.dumphdf(w.path('o.hdf'))
    with w.h5.File(fn, 'r') as h:
        grp = [h['datalist'][k] for k in sorted(h['datalist'].keys())]
        w.check(len(grp) == nfile and w.And(*[w.And(w.same(w.plain(g['Q'][()]), b), w.same(w.plain(g.attrs['time']), [float(k)])) for k, (g, b) in enumerate(zip(grp, vals))]), "values of each file")


def lattice(w, n, nfile=2, tol=1e-6, split=0, step=7919, where=(0,), away=None, move=0.3, xdmf=False, scale=1.0):
    """many neighbour cells (given numbers), listed in another order and moved by less than the tolerance in the files but the first;
    away: a cell of the last file is out of tolerance"""
    L = w.mod('cfdtools.vtk._vtkList')
    cells, pos, _ = B.rectangle(n, split) if len(n) == 2 else B.box(n, split)
    pos = [[scale * (v + 0.25 * (B.number(i, k) % 1.0 - 0.5)) for k, v in enumerate(p)] for i, p in enumerate(pos)]
    nc, names, vals = len(cells), [], []
    vt = dict(tri3=5, quad4=9, hexa8=12, prism6=13)
    for f in range(nfile):
        perm = [(k * step + 11 * f) % nc for k in range(nc)] if f else list(range(nc))
        assert len(set(perm)) == nc
        ids = [(i * 17 + f) % len(pos) for i in range(len(pos))] if f and len(pos) % 17 else list(range(len(pos)))
        new = [None] * len(pos)
        for i, p in enumerate(pos):
            new[ids[i]] = [v + (move * tol * (B.number(i, k + f) % 1.0 - 0.5) if f else 0.0) for k, v in enumerate(p)]
        if f == nfile - 1 and away is not None:
            for i in cells[away % nc][1]:
                new[ids[i]][0] += 4 * tol
        q, x = B.array(w, f'q{f}', (nc,), [p % nc for p in where], lambda nm: w.f64(nm), salt=f)
        vals.append(x)
        g = w.pv.UnstructuredGrid(w.np.array([v for k in perm for v in [len(cells[k][1])] + [ids[i] for i in cells[k][1]]]), w.np.array([vt[cells[k][0]] for k in perm], dtype='uint8'), w.np.array(new))
        g.cell_data['Q'] = w.array([x[k] for k in perm], float)
        names.append(w.path(f's{f}.vtu'))
        g.save(names[-1])
    ls = L.vtkList(names)
    _, exc = w.raises(lambda: ls.read(tol=tol, tolverbose=tol))
    w.check((exc is None) == (away is None), "coincident cells of a large grid accepted" if away is None else "displaced cell of a large grid refused")
    if away is not None or exc is not None:
        return
    got = [d['Q'] for d in ls._data._datalist]
    w.check(len(got) == nfile and w.And(*[w.same(w.plain(a), b) for a, b in zip(got, vals)]), "values in the cell order of the first file for large grids")
    if split:
        return
    with w.h5.File(ls.dumphdf(w.path('o.hdf')), 'r') as h:
        grp = [h['datalist'][k] for k in sorted(h['datalist'].keys())]
        w.check(len(grp) == nfile and w.And(*[w.same(w.plain(g['Q'][()]), b) for g, b in zip(grp, vals)]), "values of each file")


def coincide(w, pos='cellcenter', n=2, tol=1e-6, verbose=False):
    L = w.mod('cfdtools.vtk._vtkList')
    p = positions(w, n)
    q = w.reals('q', n, -10, 10)
    grid(w, ['tri3'] * n, p).save(w.path('a.vtu'))
    grid(w, ['tri3'] * n, q).save(w.path('b.vtu'))
    r = L.vtkList([w.path('a.vtu'), w.path('b.vtu')], verbose=verbose).check_order(pos, tol=tol)
    near = w.And(*[w.And(a - b <= tol / 2, b - a <= tol / 2) for a, b in zip(p, q)])
    far = w.Or(*[w.Or(a - b >= 2 * tol, b - a >= 2 * tol) for a, b in zip(p, q)])
    w.check(w.And(w.Implies(near, r == True), w.Implies(far, r == False)), "reports whether cells coincide")  # noqa: E712


def scenarios(tier):
    T = tier == 'thorough'
    o = [dict(types=['tri3'] * 2, nfile=3), dict(types=['hexa8'] * 4, nfile=2, axis='z'), dict(types=['quad4'] * 3, nfile=3, vars=[('Q', 1), ('U', 2)]),
         dict(types=['tri3', 'quad4', 'tri3'], nfile=2, mixed=True), dict(types=['tri3'] * 2, nfile=2, tol=1e-3), dict(types=['quad4'] * 3, nfile=2, displace=False, axis='y'),
         dict(types=['hexa8'] * 2, nfile=2, vars=[('Q', 1), ('U', 3)], tol=1e-10, axis='z', time=False),
         dict(types=['tetra4'] * 2, nfile=2, vars=[('Q', 1), ('P', 1), ('R', 2)], sel=['R', 'P']),
         dict(types=['tri3'] * 2, nfile=2, vars=[('Q', 1), ('P', 1)], extra='P'),
         dict(types=['tri3'] * 2, nfile=2, vars=[('Q', 1), ('QQ', 1), ('q', 1), ('time_Q', 2)], sel=['QQ']), dict(types=['tri3'] * 2, nfile=2, vars=[('Q', 1), ('times', 1), ('Q_AVG', 1)])]
    o += [dict(types=['tri3'] * 2, nfile=2, verbose=True, sel=['Q'], vars=[('Q', 1), ('P', 1)]), dict(types=['tri3'] * 2, nfile=2, verbose=True)]
    d = [dict(types=['tri3', 'quad4'], nfile=2, dump='hdf', mixed=True), dict(types=['quad4'] * 2, nfile=2, vars=[('Q', 1), ('U', 3)], dump='xdmf'),
         dict(types=['tri3'] * 2, nfile=2, vars=[('Q', 1)], dump='xdmf', time=False, sel=['Q']), dict(types=['hexa8'] * 1, nfile=3, dump='hdf'), dict(types=['tri3'], nfile=3, time=(0, 2), dump='hdf'), dict(types=['tri3'], nfile=3, time=(1,), dump='xdmf'),
          dict(types=['prism6'] * 2, nfile=2, dump='xdmf'), dict(types=['pyra5'] * 2, nfile=1, vars=[('Q', 1), ('U', 3)], dump='xdmf'), dict(types=['hexa8'] * 2, nfile=2, dump='xdmf'), dict(types=['tetra4'] * 3, nfile=1, dump='xdmf'),
          dict(types=['quad4'] * 2, nfile=2, dump='xdmf', taken=1), dict(types=['tri3'], nfile=2, vars=[('U', 3)], dump='xdmf', taken=3), dict(types=['tri3'], nfile=2, dump='xdmf', taken=2, opts=dict(overwrite=True)),
          dict(types=['tri3'] * 2, nfile=2, dump='hdf', opts=dict(compression='gzip'))]
    r = [dict(what='displaced'), dict(what='displaced', n=3, tol=1e-3), dict(what='displaced', before=1), dict(what='displaced', after=1), dict(what='same', n=2), dict(what=1, before=1), dict(what='same', before=1, after=1), dict(what='same', n=3), dict(what=1, n=2),
         dict(what='missing'), dict(what='missing', after=1), dict(what=2, n=1), dict(what=3, n=2), dict(what=2, n=3)]
    c = [dict(), dict(pos='node'), dict(n=3), dict(verbose=True)]
    if T:
        o += [dict(types=['tri3'] * 5, nfile=2), dict(types=['quad4'] * 3, nfile=4), dict(types=['hexa8'] * 4, nfile=3, axis='z'),
              dict(types=['tri3', 'quad4', 'quad4', 'tri3'], nfile=2, mixed=True)]
        r += [dict(what='displaced', n=4), dict(what='displaced', n=3, before=1, after=1), dict(what='same', n=4, axis='z', typ='hexa8')]
    opts = dict(max_replay=6)
    m = [dict(n=20, nfile=2, split=4, part=k) for k in range(4)] + [dict(n=3, nfile=12), dict(n=15, nfile=2, bad=True), dict(n=2, nfile=5, bad=True)]
    j = [dict(n=2, nfile=2), dict(n=2, nfile=3, tol=1e-3, axis='y'), dict(n=3, nfile=2, axis='z', typ='hexa8', tol=1e-5)]
    G = [dict(n=(12, 9), where=(5, 60), step=31), dict(n=(12, 9), where=(5,), step=31, split=5), dict(n=(40, 30), where=(700,), tol=1e-3), dict(n=(40, 30), where=(0,), step=1, nfile=4), dict(n=(90, 70), where=(6000,), tol=1e-4, move=0.9),
         dict(n=(8, 7, 6), where=(100,), step=97, nfile=3), dict(n=(40, 30), away=777), dict(n=(90, 70), away=6200, tol=1e-3), dict(n=(200, 160), where=()), dict(n=(20, 20), nfile=30, where=(), step=101),
         dict(n=(6, 5), where=(3,), step=7, scale=1e5, tol=1e-2), dict(n=(6, 5), where=(3,), step=7, scale=1e-6, tol=1e-9)]
    if T:
        G += [dict(n=(200, 160), where=(), away=30000), dict(n=(20, 20, 20), nfile=3, where=(7,))]
    return [('lattice', lattice, G, opts), ('jitter', jitter, j, opts), ('order', order, o, opts), ('dump', order, d, opts), ('refuse', refuse, r, opts), ('coincide', coincide, c, opts), ('many', many, m, opts), ('drift', drift, [dict(), dict(n=1, tol=1e-6, steps=2)], opts)]
