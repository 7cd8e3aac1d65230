"""C01: IC3 v2/v3 restart files written then read give back the same mesh, state and data."""
from checks import big as B
from checks.meshlib import face_table, by_index, make_mesh, mixed_faces, marks

META = dict(
    bounds="boxes of hexahedra and prisms of up to 16500 cells and 66004 nodes, the values of one node and cell of which are symbolic; <= 5 nodes, <= 4 faces of 2-4 nodes, <= 4 cells, <= 4 marks, <= 6 variables; every float is 64 free bits, "
           "step/npart/int data any int64, node and cell ids any valid value; versions 2 and 3, native/little/big endian; "
           "variable names of 1 to 52 ASCII characters",
    outside="meshes of over 66004 nodes, face data (the v2/v3 "
            "writers have no face section), non ASCII names, names starting with DEOF, single precision data",
    assumptions=["log output and printing have no effect on results",
                 "struct packing follows the documented standard sizes (model replayed on the real struct module)"],
    must_reach=["large: mesh of many cells kept (faces)", "roundtrip: cell data preserved bit for bit", "rewrite: second file identical"],
)
I63 = 2**63


def build(w, *a, box=None, **kw):
    """a small mesh with symbolic contents or a box of many cells; returns (mesh, expectations)"""
    if box is None:
        return small(w, *a, **kw)
    at = kw.pop('at', None)
    return B.build(w, box, where=(w.pick('where', list(at)),) if at else (), **kw)


def small(w, sizes, nnode, ncell, nbd, zones, data, ndof=1, state=True, part=True, wgt=(), neg=False, symcells=True, mem='C'):
    """a mesh with symbolic contents; returns (mesh, expectations)"""
    D = w.mod('cfdtools.data')
    x = {}
    xyz = w.f64array('x', (nnode, 3), mem)
    mesh = make_mesh(w, nnode, ncell, xyz)
    conn, f2c, x['nodes'], x['cells'] = mixed_faces(w, sizes, nnode, ncell, nbd, neg=neg, symcells=symcells)
    mesh.add_faces('mixed', conn, f2c)
    x['spec'] = []
    for i, (nm, ty, a, b) in enumerate(zones):
        rd = w.f64s(f'rd{i}', 16) if ty.startswith('perio') else None
        x['spec'].append((nm, ty, a, b, rd))
    for k in marks(w, x['spec']):
        mesh.add_boco(k)
    params = {}
    if state:
        params = {'step': w.int('step', -I63, I63 - 1), 'dt': w.f64('dt'), 'time': w.f64('time')}
    for i, n in enumerate(wgt):
        params[n + '_wgt'] = w.f64(f'wgt{i}')
    x['params'] = dict(params)
    mesh.set_params(dict(params))
    if part:
        x['npart'] = w.int('npart', 1, I63 - 1)
        x['icv'] = w.intarray('icv', (ncell,), -(2**31), 2**31 - 1, 'int32')
        mesh.set_partition({'npart': x['npart'], 'icvpart': x['icv']})
    nd = D.DataSet('nodal')
    cd = D.DataSet('spectralcell', ndof=ndof) if ndof > 1 else D.DataSet('cellaverage')
    x['n'], x['c'] = {}, {}
    for i, (loc, kind, name) in enumerate(data):
        n = nnode if loc == 'node' else ncell * ndof
        shape = {'s': (n,), 'i': (n,), 'v': (n, 3), 't': (n, 3, 3)}[kind]
        a = w.intarray(f'd{i}', shape, -I63, I63 - 1) if kind == 'i' else w.f64array(f'd{i}', shape, mem)
        (nd if loc == 'node' else cd).add_data(name, a)
        x['n' if loc == 'node' else 'c'][name] = (kind, w.plain(a), tuple(shape))
    mesh.set_nodedata(nd)
    mesh.set_celldata(cd)
    x['xyz'] = w.plain(xyz)
    x['ndof'], x['nnode'], x['ncell'], x['nf'] = ndof, nnode, ncell, len(sizes)
    return mesh, x


def derived(w, m2, x):
    """what the readers derive from the mesh: nodes of the marks and numbers of things"""
    big_ = x['nf'] > 100
    p = m2._params
    for key, v in (('no_count', x['nnode']), ('fa_count', x['nf']), ('cv_count', x['ncell']), ('noofa_count', sum(len(n) for n in x['nodes']))):
        if key in p:
            w.check(w.same(p[key], v), "counts of the mesh")
    for key, f in (('nfa_b', lambda c: c == -1), ('nfa_bp', lambda c: c < -1)):
        if key in p:
            w.check(w.same(p[key], sum([w.ite(f(c[1]), 1, 0) for c in x['cells']], 0)), "counts of the mesh")
    for nm, ty, a, b, rd in x['spec']:
        got = m2._bocos[nm].properties.get('slicing') if nm in m2._bocos else None
        if got is None:
            continue
        got = w.plain(got)
        nodes = [i for f in x['nodes'][a:b + 1] for i in f]
        if big_:
            w.check(sorted(int(i) for i in got) == sorted({int(i) for i in nodes}), "nodes of the mark")
        else:
            w.check(w.And(*[w.Or(*[g == i for i in nodes]) for g in got], *[w.Or(*[g == i for g in got]) for i in nodes]), "nodes of the mark")


def verify(w, m2, x):
    nf = x['nf']
    w.check(w.And(m2.nnode == x['nnode'], m2.ncell == x['ncell'], m2.nface == nf), "mesh sizes preserved")
    w.check(w.same(m2.nodescoord(ndarray=True), x['xyz']), "node coordinates preserved bit for bit")
    back = m2._faces['mixed']
    tab = face_table(w, back['face2node'])
    w.check(len(tab) == nf, "number of faces preserved")
    got = by_index(w, tab, nf, "faces")
    w.check(w.same(got, x['nodes']), "face to node lists preserved")
    w.check(w.same(back['face2cell'].conn, x['cells']), "face to cell pairs preserved")
    for nm, ty, a, b, rd in x['spec']:
        w.check(nm in m2._bocos, "mark kept")
        if nm not in m2._bocos:
            continue
        k = m2._bocos[nm]
        w.check(k.type == ty, "mark type preserved")
        w.check(w.same(k.index.list(), list(range(a, b + 1))), "mark face range preserved")
        if rd is not None:
            w.check(w.same(k.properties['periodic_transform'], rd), "periodic transform preserved")
    derived(w, m2, x)
    extra = [n for n in m2._bocos if n not in [s[0] for s in x['spec']]]
    w.check(all(m2._bocos[n].type == 'internal' for n in extra), "no spurious boundary mark")
    for key, v in x['params'].items():
        w.check(key in m2._params, "step/dt/time/weights kept")
        if key in m2._params:
            w.check(w.same(m2._params[key], v), "step/dt/time/weights preserved")
    if 'npart' in x:
        w.check(w.same(m2._cellprop['partition']['npart'], x['npart']), "partition count preserved")
        w.check(w.same(m2._cellprop['partition']['icvpart'], x['icv']), "partition preserved")
    for want, ds, loc in ((x['n'], m2._nodedata, 'node'), (x['c'], m2._celldata, 'cell')):
        w.check(sorted(ds.keys()) == sorted(want.keys()), f"{loc} variables preserved (names)")
        for name, (kind, a, shape) in want.items():
            if name in ds.keys():
                w.check(w.same(ds[name], a), f"{loc} data preserved bit for bit")
                w.check(tuple(ds[name].shape) == shape, f"{loc} data shape preserved")
                if kind == 'i':
                    w.check(str(ds[name].dtype) == 'int64', "integer data keep their type")
    if x['ndof'] > 1:
        w.check(m2._celldata.ndof == x['ndof'], "ndof preserved")
    return got


def roundtrip(w, ver, endian, integrity=False, given=(), **kw):
    W = w.mod(f'cfdtools.ic3.writerV{ver}')
    R = w.mod('cfdtools.ic3.reader_legacy')
    mesh, x = build(w, **kw)
    f = w.path('a.ic3')
    wr = W.writer(mesh, endian=endian)
    if given:  # a state given to the writer goes before that of the mesh
        st = {k: w.int('gstep', -I63, I63 - 1) if k == 'step' else w.f64('g' + k) for k in given}
        had = dict(x['params'])
        wr.set_simstate(dict(st))
        w.check(mesh._params.keys() == had.keys() and all(w.same(mesh._params[k], had[k]) for k in had), "the state of the mesh is left as it was")
        x['params'].update(st)
    wr.write_data(f)
    r = R.reader(f, cIntegrity=integrity)
    r.read_data()
    w.check(r.ncell == x['ncell'], "number of cells known by the reader")
    got = verify(w, r.export_mesh(), x)
    w.observe('faces', got)


def rewrite(w, ver, endian, **kw):
    """write, read, write again, read: same bytes and same mesh"""
    W = w.mod(f'cfdtools.ic3.writerV{ver}')
    R = w.mod('cfdtools.ic3.reader_legacy')
    mesh, x = build(w, **kw)
    f, g = w.path('a.ic3'), w.path('b.ic3')
    W.writer(mesh, endian=endian).write_data(f)
    r = R.reader(f)
    r.read_data()
    W.writer(r.export_mesh(), endian=endian).write_data(g)
    w.check(w.samebytes(w.get_file(f), w.get_file(g)), "second file identical")
    r2 = R.reader(g)
    r2.read_data()
    verify(w, r2.export_mesh(), x)


def large(w, ver, n, split=0, endian='native', at=(0, 1237, -1)):
    """many cells, nodes, faces and values"""
    D = w.mod('cfdtools.data')
    where = (w.pick('where', list(at)),)
    m, x = B.mesh(w, n, split, where)
    want = {}
    ds = {'node': D.DataSet('nodal'), 'cell': D.DataSet('cellaverage')}
    for i, (loc, nm, s) in enumerate([('node', 'P', ()), ('cell', 'rho', ()), ('cell', 'U', (3,))]):
        a, want[loc, nm] = B.array(w, nm, (len(x['pos' if loc == 'node' else 'cells']), *s), where, salt=i + 1)
        ds[loc].add_data(nm, a)
    m.set_nodedata(ds['node'])
    m.set_celldata(ds['cell'])
    icv = [(k * 7919) % 2**31 for k in range(len(x['cells']))]
    m.set_partition({'npart': 9, 'icvpart': w.np.array(icv, dtype='int32')})
    m.set_params({'step': 1, 'dt': 0.1, 'time': 0.2})
    f = w.path('a.ic3')
    w.mod(f'cfdtools.ic3.writerV{ver}').writer(m, endian=endian).write_data(f)
    r = w.mod('cfdtools.ic3.reader_legacy').reader(f)
    r.read_data()
    m2 = r.export_mesh()
    B.check_written(w, m2, x)
    w.check(w.same(m2._cellprop['partition']['icvpart'], icv), "partition preserved")
    for (loc, nm), v in want.items():
        d = m2._nodedata if loc == 'node' else m2._celldata
        w.check(nm in d.keys() and w.same(d[nm], v), "values of many cells and nodes kept bit for bit")


def scenarios(tier):
    z1 = [('inlet', 'boundary', 0, 0), ('per', 'perio_cart', 1, 1)]
    d1 = [('node', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U'), ('cell', 't', 'tau'), ('node', 'v', 'nv')]
    A = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=d1)
    # same number of nodes, faces and cells
    same = dict(sizes=[3, 3, 2], nnode=3, ncell=3, nbd=2, zones=[('b', 'boundary', 0, 1)],
                data=[('node', 's', 'n1'), ('cell', 's', 'c1'), ('cell', 'v', 'c3'), ('node', 'v', 'n3')])
    nobd = dict(sizes=[4, 3], nnode=4, ncell=2, nbd=0, zones=[], data=[], state=False, part=False)
    allk = dict(sizes=[2, 3, 4, 3], nnode=4, ncell=1, nbd=4, data=[('cell', 's', 'a')], state=False, part=False,
                zones=[('x', 'perio_cylx', 2, 2), ('y', 'perio_cyly', 3, 3), ('z', 'perio_cylz', 0, 0), ('i', 'boundary', 1, 1)])
    rng = dict(sizes=[3, 3, 3, 4], nnode=4, ncell=1, nbd=4, zones=[('wall', 'boundary', 2, 3), ('in', 'boundary', 0, 1)],
               data=[('node', 's', 'n' * 52), ('node', 's', 'n' * 51), ('cell', 's', 'c'), ('cell', 'v', 'v ' + 'w' * 40)])
    ints = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], state=True, part=True,
                data=[('node', 'i', 'NO_ID'), ('node', 's', 'p'), ('cell', 'i', 'CV_ID'), ('cell', 's', 'q'), ('cell', 'v', 'u')])
    hand = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], ndof=2, wgt=('rho', 'u_avg'),
                data=[('cell', 's', 'RHO'), ('cell', 'v', 'RHOU'), ('cell', 't', 'TAU')])
    W = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], wgt=('rho', 'u_avg'),
             data=[('cell', 's', 'RHO')])
    neg = dict(sizes=[3, 3], nnode=4, ncell=2, nbd=2, zones=[('p', 'perio_cart', 0, 1)], data=[], neg=True)
    hd = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], ndof=3,
              data=[('cell', 'i', 'ID'), ('cell', 's', 'Q'), ('node', 'i', 'K')])
    hv = [dict(hd, data=[('cell', k, 'V'), ('node', 's', 'N')], symcells=False) for k in 'vt']
    # names which begin, end or spell like another one
    near = dict(sizes=[3, 4, 3, 3], nnode=4, ncell=2, nbd=4, part=False, symcells=False, zones=[('wall', 'boundary', 0, 0), ('wall2', 'boundary', 1, 1), ('Wall', 'perio_cart', 2, 2), ('wal', 'boundary', 3, 3)],
                data=[('node', 's', 'P'), ('cell', 's', 'P'), ('cell', 's', 'P_AVG'), ('node', 's', 'p'), ('cell', 'v', 'PP'), ('cell', 's', 'p'), ('node', 'v', 'P_'), ('cell', 'v', 'EOF'), ('cell', 's', 'step')])
    longz = dict(sizes=[3, 4, 3, 3], nnode=4, ncell=2, nbd=4, part=False, symcells=False,
                 zones=[('w' * 52, 'boundary', 0, 0), ('w' * 51, 'perio_cart', 1, 1), ('w' * 50 + 'x', 'boundary', 2, 2), ('w 1.%/+ -#' * 5 + 'z', 'boundary', 3, 3)],
                 data=[('node', 's', 'a' * 51 + 'b'), ('node', 's', 'a' * 52), ('cell', 's', 'a' * 51 + 'b'), ('cell', 'v', 'a/b (c)')])
    T = tier == 'thorough'
    cfgs = []
    for ver in (2, 3):
        for endian in ('native', 'little', 'big'):
            cfgs.append(dict(ver=ver, endian=endian, **A, symcells=T or (ver, endian) == (2, 'big')))
        cfgs.append(dict(ver=ver, endian='native', integrity=True, **A, symcells=T))
        cfgs.append(dict(ver=ver, endian='big', **same, symcells=T or ver == 3))
        cfgs.append(dict(ver=ver, endian='little', **nobd))
        cfgs.append(dict(ver=ver, endian='native', **allk))
        cfgs.append(dict(ver=ver, endian='big', **rng))
        cfgs.append(dict(ver=ver, endian='native', **W, symcells=T))
        cfgs.append(dict(ver=ver, endian='native', **neg))
        cfgs.append(dict(ver=ver, endian='little', **near))
        cfgs.append(dict(ver=ver, endian='little', **longz))
        cfgs.append(dict(ver=ver, endian='big', mem='F', **A, symcells=False))
    cfgs += [dict(ver=3, endian='big', given=('step',), **W), dict(ver=2, endian='native', given=('time', 'dt', 'rho_wgt'), **W), dict(ver=2, endian='little', given=('step', 'time'), **dict(nobd))]
    cfgs.append(dict(ver=3, endian='native', **ints))
    cfgs.append(dict(ver=3, endian='big', **hand))
    cfgs.append(dict(ver=3, endian='little', **hd))
    cfgs += [dict(ver=3, endian='big', **h) for h in hv]
    rw = [dict(ver=2, endian='native', **W, symcells=T), dict(ver=3, endian='big', **W), dict(ver=3, endian='native', **hand, symcells=T),
          dict(ver=3, endian='native', **ints, symcells=T), dict(ver=2, endian='big', **same, symcells=T)]
    rw += [dict(ver=v, endian='big', box=[11, 12, 10], split=4, at=(77, -1), data=d1[:2], wgt=('rho',)) for v in (2, 3)]
    if tier == 'thorough':
        big = dict(sizes=[3, 4, 3, 4, 2], nnode=6, ncell=3, nbd=3, zones=[('a', 'boundary', 0, 1), ('b', 'perio_cylz', 2, 2)], data=d1)
        for ver in (2, 3):
            for endian in ('native', 'big'):
                cfgs.append(dict(ver=ver, endian=endian, **big))
                rw.append(dict(ver=ver, endian=endian, **A))
    o = dict(max_replay=12)
    lg = [dict(ver=2, n=[11, 10, 10]), dict(ver=3, n=[22, 22, 21], endian='big', at=(1237, -1)), dict(ver=3, n=[70, 1, 33], split=3), dict(ver=2, n=[1, 1, 16500], at=(-1,))]
    if T:
        lg += [dict(ver=v, n=[47, 47, 47]) for v in (2, 3)]
    return [('large', large, lg, dict(max_replay=2)), ('roundtrip', roundtrip, cfgs, o), ('rewrite', rewrite, rw, o)]
