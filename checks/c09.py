"""C09: IC3 v4 (HDF5) files round trip."""
from checks.c01 import build, derived, I63
from checks.meshlib import face_table, by_index

META = dict(
    bounds="boxes of up to 16500 cells and 66004 nodes with symbolic values at one node and cell; <= 5 nodes, <= 4 faces of 2-4 nodes, <= 4 cells, <= 4 marks, <= 8 variables; every float is 64 free bits, step any "
           "int64, node and cell ids any valid value",
    outside="zones named like the datasets of the group (labels, offsets, kinds), with / or over 128 bytes; "
            "lower-case variable names; several degrees of freedom per cell; dt (not stored by the format)",
    assumptions=["h5py stores and returns what it is given with the documented conversions (model replayed on the real h5py)",
                 "log output and printing have no effect on results"],
    must_reach=["roundtrip: cell data preserved bit for bit", "rewrite: cell data preserved bit for bit",
                "convert: cell data preserved bit for bit", "meshonly: face to node lists preserved"],
)


def verify(w, m2, x, solution=True, names=None):
    nf = x['nf']
    w.check(w.And(m2.nnode == x['nnode'], m2.ncell == x['ncell'], m2.nface == nf), "mesh sizes preserved")
    w.check(w.same(m2.nodescoord(ndarray=True), x['xyz']), "node coordinates preserved bit for bit")
    back = m2._faces['mixed']
    tab = face_table(w, back['face2node'])
    w.check(len(tab) == nf, "number of faces preserved")
    got = by_index(w, tab, nf, "faces")
    w.check(w.same(got, x['nodes']), "face to node lists preserved")
    w.check(w.same(back['face2cell'].conn, x['cells']), "face to cell pairs preserved")
    for nm, ty, a, b, rd in x['spec']:
        w.check(nm in m2._bocos, "mark kept")
        if nm not in m2._bocos:
            continue
        k = m2._bocos[nm]
        w.check(k.type == ty, "mark type preserved")
        w.check(w.same(k.index.list(), list(range(a, b + 1))), "mark face range preserved")
        if rd is not None:
            w.check(w.same(k.properties['periodic_transform'][:3], rd[:3]), "periodic translation preserved")
        else:
            t = k.properties.get('periodic_transform')  # version 2 and 3 store null transforms
            w.check(t is None or w.same(t, [0.0] * len(t)), "no invented periodicity")
    derived(w, m2, x)
    extra = [n for n in m2._bocos if n not in [s[0] for s in x['spec']]]
    w.check(all(m2._bocos[n].type == 'internal' for n in extra), "no spurious boundary mark")
    for n in extra:
        first = max([s[3] for s in x['spec']], default=-1) + 1
        w.check(w.same(m2._bocos[n].index.list(), list(range(first, nf))), "internal zone holds the other faces")
    w.check(list(m2._nodedata.keys()) == [], "no invented node data")
    if not solution:
        w.check(list(m2._celldata.keys()) == [], "no invented cell data")
        return got
    for key in list(k for k in x['params'] if k.endswith('_wgt')) + [k for k in ('step', 'time') if k in x['params']]:
        w.check(key in m2._params, "step/time/weights kept")
        if key in m2._params:
            w.check(w.same(m2._params[key], x['params'][key]), "step/time/weights preserved")
    names = names or sorted(x['c'])
    w.check(sorted(m2._celldata.keys()) == sorted(names), "cell variables preserved (names)")
    for name in names:
        kind, a, shape = x['c'][name]
        if name in m2._celldata.keys():
            w.check(w.same(m2._celldata[name], a), "cell data preserved bit for bit")
            n = 1
            for s in shape[1:]:
                n *= s
            w.check(tuple(m2._celldata[name].shape) == ((shape[0], n) if n > 1 else (shape[0],)), "one row per cell")
    return got


def W4(w):
    return w.mod('cfdtools.ic3.writerV4'), w.mod('cfdtools.ic3.readerV4')


def roundtrip(w, **kw):
    W, R = W4(w)
    names = kw.pop('names', None)
    mesh, x = build(w, part=False, **kw)
    f, g = w.path('mesh.h5'), w.path('sol.h5')
    W.writer(mesh).write_data(f, g)
    r = R.reader(f, g)
    r.read_data()
    w.check(r.ncell == x['ncell'], "number of cells known by the reader")
    w.observe('faces', verify(w, r.export_mesh(), x, names=names))


def meshonly(w, **kw):
    W, R = W4(w)
    mesh, x = build(w, **kw)
    f = w.path('mesh.h5')
    W.writer(mesh).write_data(f)
    r = R.reader(f)
    r.read_data()
    w.check(r.ncell == x['ncell'], "number of cells known by the reader")
    w.check(not bool(w.exists(w.path('sol.h5'))), "no solution file without a name")
    w.observe('faces', verify(w, r.export_mesh(), x, solution=False))


def rewrite(w, **kw):
    """v4 -> v4 -> same mesh"""
    W, R = W4(w)
    mesh, x = build(w, **kw)
    f, g, f2, g2 = (w.path(n) for n in ('a.h5', 'as.h5', 'b.h5', 'bs.h5'))
    W.writer(mesh).write_data(f, g)
    r = R.reader(f, g)
    r.read_data()
    m1 = r.export_mesh()
    W.writer(m1).write_data(f2, g2)
    r2 = R.reader(f2, g2)
    r2.read_data()
    verify(w, r2.export_mesh(), x)


def convert(w, ver, way, **kw):
    """v2/v3 -> v4 and v4 -> v2/v3"""
    W, R = W4(w)
    OW, OR = w.mod(f'cfdtools.ic3.writerV{ver}'), w.mod('cfdtools.ic3.reader_legacy')
    mesh, x = build(w, **kw)
    f, g, o = w.path('a.h5'), w.path('as.h5'), w.path('o.ic3')
    if way == 'to4':
        OW.writer(mesh).write_data(o)
        r = OR.reader(o)
        r.read_data()
        W.writer(r.export_mesh()).write_data(f, g)
        r = R.reader(f, g)
    else:
        W.writer(mesh).write_data(f, g)
        r = R.reader(f, g)
        r.read_data()
        OW.writer(r.export_mesh()).write_data(o)
        r = OR.reader(o)
    r.read_data()
    verify(w, r.export_mesh(), x)


def missing(w, which):
    """absent files are refused"""
    W, R = W4(w)
    mesh, x = build(w, sizes=[3, 3], nnode=4, ncell=1, nbd=2, zones=[('b', 'boundary', 0, 1)], data=[])
    f, g = w.path('a.h5'), w.path('as.h5')
    if which != 'mesh':
        W.writer(mesh).write_data(f)
    r, exc = w.raises(lambda: R.reader(f, g), FileExistsError, FileNotFoundError, OSError)
    w.check(exc is not None, "absent file refused")


def scenarios(tier):
    T = tier == 'thorough'
    cons = [('cell', 's', 'RHO'), ('cell', 'v', 'RHOU'), ('cell', 's', 'RHOE')]
    stats = [('cell', 's', 'P_AVG'), ('cell', 'v', 'U_AVG'), ('cell', 'v', 'U_RMS'), ('cell', 's', 'P_RMS'), ('cell', 'v', 'U_REY')]
    z1 = [('inlet', 'boundary', 0, 0), ('per', 'perio_cart', 1, 1)]
    A = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=cons + stats, wgt=('rho', 'p_avg'))
    B = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=cons)
    one = dict(sizes=[3, 3, 3, 3], nnode=4, ncell=1, nbd=4, data=cons,
               zones=[('z', 'perio_cylz', 2, 2), ('wall', 'boundary', 3, 3), ('x', 'perio_cart', 0, 1)])
    same = dict(sizes=[3, 3, 2], nnode=3, ncell=3, nbd=2, zones=[('b', 'boundary', 0, 1)], data=cons + stats[:2])
    empty = dict(sizes=[3, 4, 3], nnode=4, ncell=2, nbd=2, data=cons, state=False,
                 zones=[('a', 'boundary', 0, 1), ('void', 'boundary', 0, -1)])
    nobd = dict(sizes=[4, 3], nnode=4, ncell=2, nbd=0, zones=[], data=cons, state=False)
    only = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], data=stats, wgt=('u_avg', 'P_AVG'))
    neg = dict(sizes=[3, 3], nnode=4, ncell=2, nbd=2, zones=[('p', 'perio_cart', 0, 1)], data=[], neg=True)
    part = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], names=['RHO', 'RHOU', 'RHOE'],
                data=cons + [('node', 's', 'P'), ('cell', 's', 'OTHER')])
    rt = [dict(A), dict(B, symcells=T), dict(one), dict(same, symcells=T), dict(empty, symcells=T), dict(nobd), dict(only), dict(neg), dict(part)]
    near = dict(sizes=[3, 4, 3, 3], nnode=4, ncell=2, nbd=4, part=False, symcells=False, data=cons + [('cell', 's', 'P_AVG'), ('cell', 's', 'PP_AVG'), ('cell', 's', 'RHO_AVG'), ('cell', 'v', 'P_REY'), ('cell', 's', 'P_AVG_FINE'), ('cell', 'v', 'U_RMS2')], zones=[('wall', 'boundary', 0, 0), ('wall2', 'boundary', 1, 1), ('Wall', 'perio_cart', 2, 2), ('wal', 'boundary', 3, 3)])
    rt.append(dict({k: v for k, v in near.items() if k != 'part'}))
    # long names, which differ at their end only
    for a, b, c in ((51, 52, 53), (63, 64, 65), (100, 127, 128)):
        z = [('w' * (a - 1) + 'x', 'boundary', 0, 0), ('w' * b, 'perio_cart', 1, 1), ('w' * (c - 6) + ' 1.%/+', 'boundary', 2, 2), ('w' * a, 'boundary', 3, 3)]
        z = [(n.replace('/', ':'), *r) for n, *r in z]
        rt.append(dict(sizes=[3, 4, 3, 3], nnode=4, ncell=2, nbd=4, symcells=False, zones=z, data=cons))
    lg = [dict(box=n, split=c, at=(1237, -1) if c else (77,), data=cons) for n, c in (([11, 10, 10], 0), ([40, 2, 21], 5), ([1, 16500, 1], 0), ([20, 23, 22], 0))]
    rt += lg
    rt += [dict(A, mem='F', symcells=False), dict(B, mem='F', symcells=False)]
    mo = [dict(B), dict(one, data=[]), dict(nobd), dict(empty, symcells=T), dict(A, symcells=T, part=True)]
    mo.append(dict(B, mem='F', symcells=False))
    rw = [dict(A, symcells=T), dict(one), dict(only, part=False), dict(empty, symcells=T, part=False), dict(same, symcells=T)]
    cv = [dict(ver=v, way=way, symcells=T or (v, way) == (3, 'to4'), **c) for v in (2, 3) for way in ('to4', 'from4')
          for c in (dict(A, part=False), dict(one, part=False))]
    if T:
        cv += [dict(ver=v, way=way, **c) for v in (2, 3) for way in ('to4', 'from4') for c in (dict(same), dict(only), dict(nobd))]
        big = dict(sizes=[3, 4, 3, 4, 2], nnode=6, ncell=3, nbd=3, zones=[('b', 'perio_cylz', 2, 2), ('a', 'boundary', 0, 1)], data=cons + stats)
        rt.append(dict(big))
        rw.append(dict(big))
    o = dict(max_replay=12)
    return [('roundtrip', roundtrip, rt, o), ('meshonly', meshonly, mo, o), ('rewrite', rewrite, rw, o), ('convert', convert, cv, o),
            ('missing', missing, [dict(which='mesh'), dict(which='sol')], {})]
