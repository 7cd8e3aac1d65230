"""C26: data sets keep what they are given, series are dumped as they are."""
from checks import big as B
from checks.c12 import VTK, cells_of, conn_of, grouped

META = dict(
    bounds="series of every number of instants up to 105, of up to 1103 instants, 120 variables or 66000 cells with given numbers, those of picked instants being any number; otherwise data sets of <= 4 additions under 2 names, every kind of data set; series of <= 3 instants of <= 2 variables of <= 3 cells (scalars, vectors, integers; every float 64 free "
           "bits), meshes of <= 3 cells; files of every kind and any integer version",
    outside="meshes of a series which are not cfdtools meshes (C13 has those of VTK files), the image drawn from the curves (matplotlib)",
    assumptions=["h5py keeps its datasets and attributes (model replayed on the real library)"],
    must_reach=["long: variables of each instant of a long series", "manydata: many data as given", "kept: data last given", "kinds: unknown kinds refused", "series: variables of each instant", "series: time of each instant", "series: mesh of the series",
                "series: data of the caller unchanged", "header: kind and version given back", "count: any number of instants, in order", "refused: existing file kept", "append: an appended file keeps what it has", "told: informations tell the kind and the version", "drawn: the named data are drawn"],
)


def kept(w, n, Xrep='cellaverage', Trep='instant'):
    D = w.mod('cfdtools.data')
    ds, other = D.DataSet(Xrep, Trep=Trep), D.DataSet()
    want, t = {}, None
    for k in range(n):
        name = w.pick(f'n{k}', ('P', 'U'))
        kind = w.pick(f'k{k}', ('scalar', 'vector'))
        a = w.f64array(f'a{k}', (2, 3) if kind == 'vector' else (3,))
        if bool(w.bool(f't{k}')):
            t = w.f64(f'time{k}')
            ds.add_data(name, a, time=t)
        else:
            ds.add_data(name, a)
        w.check(t is None and 'time' not in ds._properties or t is not None and w.same(ds._properties.get('time'), t), "time last given")
        want[name] = w.plain(a)
        w.check(list(ds.keys()) == list(want), "names in the order of their addition")
        w.check(w.And(*[w.same(ds[v], want[v]) for v in want]), "data last given")
        w.check([v for v, _ in ds.items()] == list(want) and w.And(*[w.same(a, want[v]) for v, a in ds.items()]), "data last given")
    w.check(list(other.keys()) == [] and list(other.data) == [], "other data sets stay empty")
    w.check(ds.Xrep == Xrep and ds.Trep == Trep and ds.ndof == 1, "kind of the data set")
    _, e = w.raises(lambda: ds['absent'], KeyError)
    w.check(e is not None, "data never given are refused")
    v = w.pick('v', ('P', 'U'))
    if v in want:
        w.check(w.same(ds.data.pop(v), want.pop(v)), "data last given")
        w.check(list(ds.keys()) == list(want), "names in the order of their addition")
    ds.data = {'Q': w.array(w.f64s('q', 2), float)}
    w.check(list(ds.keys()) == ['Q'], "data replaced")


def kinds(w, cls):
    D = w.mod('cfdtools.data')
    X = ('nodal', 'cellaverage', 'spectralcell', 'node', '')
    T = ('instant', 'timeevol', 'spectrum', 'spectrogram', 'pod', 'time')
    known = {'DataSetBase': (2, ('instant',)), 'DataSet': (3, T[:4]), 'DataSetList': (3, ('instant', 'timeevol', 'pod'))}[cls]
    x, t, n = w.pick('x', X), w.pick('t', T), w.int('ndof', 1, 4)
    mk = getattr(D, cls)
    args = (2,) if cls == 'DataSetList' else ()
    ok = x in X[:known[0]] and t in known[1]
    good = w.And(ok, w.Or(n == 1, x == 'spectralcell'))
    ds, e = w.raises(lambda: mk(*args, x, n, t), Exception)
    w.check(w.same([e is None], [good]), "unknown kinds refused")
    if e is None:
        w.check(w.And(ds.Xrep == x, ds.Trep == t, ds.ndof == n), "kind of the data set")
        y, s = w.pick('y', X), w.pick('s', T)
        _, e = w.raises(lambda: setattr(ds, 'Xrep', y), Exception)
        w.check((e is None) == (y in X[:known[0]]) and ds.Xrep == (y if e is None else x), "unknown kinds refused")
        _, e = w.raises(lambda: setattr(ds, 'Trep', s), Exception)
        w.check((e is None) == (s in known[1]) and ds.Trep == (s if e is None else t), "unknown kinds refused")
        if ds.Xrep != 'spectralcell':
            m = w.int('m', 1, 4)
            _, e = w.raises(lambda: setattr(ds, 'ndof', m), Exception)
            w.check(w.same([e is None], [m == 1]), "several degrees of freedom only for spectral data")


def nodes(w, dims):
    D = w.mod('cfdtools.data')
    mk = (lambda: D.DataSetList(1)) if dims % 2 else D.DataSet
    ds, other = mk(), mk()
    c = [w.f64array(k, (3,)) for k in 'xyz'[:dims]]
    ds.set_nodes(*c)
    w.check(sorted(ds.geoprop) == list('xyz'[:dims]) and w.And(*[w.same(ds.geoprop[k], v) for k, v in zip('xyz', c)]), "nodes as given")
    m = w.mod('cfdtools.meshbase._mesh').Mesh(1, 4)
    ds.set_mesh(m)
    w.check(ds.geoprop['mesh'] is m and sorted(ds.geoprop) == sorted(['mesh', *'xyz'[:dims]]), "nodes as given")
    w.check(other.geoprop == {}, "other data sets stay empty")


def series(w, types, nnode, n, vars=('s',), times='all', reuse=False, opts={}, overwrite=False, names=('V0', 'V1', 'V2'), tkind=None):
    """a series of n instants written to HDF5"""
    D, M = w.mod('cfdtools.data'), w.mod('cfdtools.meshbase._mesh')
    xyz = w.f64array('x', (nnode, 3))
    cells = cells_of(w, types, nnode, 1)
    x0 = w.plain(xyz)
    m = M.Mesh(len(cells), nnode)
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(conn_of(w, cells))
    L = D.DataSetList(n, Xrep='cellaverage', Trep='instant')
    L.set_mesh(m)
    want, d = [], {}
    for i in range(n):
        if not reuse:
            d = {}
        vals = {}
        for k, kind in enumerate(vars):
            shape = (len(cells), 3) if kind == 'v' else (len(cells),)
            a = w.intarray(f'd{i}{k}', shape, -2**63, 2**63 - 1) if kind == 'i' else w.f64array(f'd{i}{k}', shape)
            d[names[k]] = a
            vals[names[k]] = w.plain(a)
        t = w.f64(f't{i}') if times == 'all' or times == 'first' and i == 0 else None
        keys = list(d)
        tt = t if tkind is None or t is None else w.array([t], float) if tkind == '1d' else w.array([t], float).reshape(())
        L.add_datalist(d, time=tt) if t is not None else L.add_datalist(d)
        w.check(list(d) == keys and w.And(*[w.same(d[v], vals[v]) for v in vals]), "data of the caller unchanged")
        want.append((t, vals))
    if reuse:
        d.clear()
    f = w.path('s.hdf')
    if overwrite:
        w.put_file(f, b'old content')
    got = L.dumphdf(f, overwrite=overwrite, **opts)
    w.check(str(got) == str(f), "name of the file")
    H = w.mod('cfdtools.hdf5').h5File(got)
    H.open()
    w.check(H.datatype == 'datalist', "kind and version given back")
    h = H['/mesh']
    w.check(h.attrs['meshtype'] == 'unsmesh' and w.same(h['nodes'][()], x0), "mesh of the series")
    by = grouped(cells)
    w.check(sorted(h['cells'].keys()) == sorted(by), "mesh of the series")
    for t in by:
        if t in h['cells'].keys():
            w.check(w.same(h['cells'][t][()], by[t]), "mesh of the series")
    h = H['/datalist']
    inst = sorted(h.keys())
    w.check(len(inst) == n, "one entry per instant, in order")
    if len(inst) != n:
        return
    for nm, (t, vals) in zip(inst, want):
        w.check(sorted(h[nm].keys()) == sorted(vals), "variables of each instant")
        for v in vals:
            if v in h[nm].keys():
                w.check(w.same(h[nm][v][()], vals[v]), "variables of each instant")
                if v == names[0]:
                    w.check(('int64' if vars[0] == 'i' else 'float64') == str(h[nm][v].dtype), "variables of each instant")
        if t is None:
            w.check('time' not in h[nm].attrs, "time of each instant")
        else:
            w.check('time' in h[nm].attrs and w.same([w.plain(h[nm].attrs['time'])], [[t] if tkind == '1d' else t]), "time of each instant")
    H.close()
    # the same series again: same content
    got2 = L.dumphdf(w.path('t.hdf'))
    with w.h5.File(got2, 'r') as h2:
        w.check(sorted(h2['datalist'].keys()) == inst and w.And(*[w.same(h2['datalist'][nm][v][()], vals[v]) for nm, (_, vals) in zip(inst, want) for v in vals]), "variables of each instant")


def long(w, n, ncell, where=(), nvar=1, xdmf=False):
    """a series of many instants, variables or cells: numbers given but those of the instants `where`"""
    D, M = w.mod('cfdtools.data'), w.mod('cfdtools.meshbase._mesh')
    cells, pos, _ = B.rectangle((ncell, 1))
    m = M.Mesh(len(cells), len(pos))
    m.set_nodescoord_nd(w.np.array(pos, dtype=float))
    m.set_cell2node(B.conn(w, cells))
    L = D.DataSetList(n, Xrep='cellaverage', Trep='instant')
    L.set_mesh(m)
    want = []
    for i in range(n):
        d, vals = {}, {}
        for k in range(nvar):
            a, v = B.array(w, f'd{i}{k}', (ncell,), [ncell - 1] if i in where else [], lambda nm: w.f64(nm), salt=i + 7 * k)
            d[f'V{k}'], vals[f'V{k}'] = a, v
        t = w.f64(f't{i}') if i in where else B.number(i)
        L.add_datalist(d, time=t)
        want.append((t, vals))
    with w.h5.File(L.dumphdf(w.path('s.hdf')), 'r') as h:
        inst = sorted(h['datalist'].keys())
        w.check(len(inst) == n, "one entry per instant of a long series, in order")
        w.check(w.And(*[w.same(w.plain(h['datalist'][k].attrs['time']), t) for k, (t, _) in zip(inst, want)]), "one entry per instant of a long series, in order")
        w.check(w.And(*[w.same(sorted(h['datalist'][k].keys()), sorted(x)) for k, (_, x) in zip(inst, want)]), "variables of each instant of a long series")
        w.check(w.And(*[w.same(h['datalist'][k][v][()], x[v]) for k, (_, x) in zip(inst, want) for v in x if v in h['datalist'][k].keys()]), "variables of each instant of a long series")
        w.check(w.same(h['mesh']['nodes'][()], pos) and w.same(h['mesh']['cells']['quad4'][()], [c for _, c in cells]), "mesh of the series")


def count(w, lo, hi):
    """every number of instants: in order in the file"""
    D, M = w.mod('cfdtools.data'), w.mod('cfdtools.meshbase._mesh')
    n = w.pick('n', range(lo, hi + 1))
    cells, pos, _ = B.rectangle((1, 1))
    m = M.Mesh(1, len(pos))
    m.set_nodescoord_nd(w.np.array(pos, dtype=float))
    m.set_cell2node(B.conn(w, cells))
    L = D.DataSetList(int(n), Xrep='cellaverage', Trep='instant')
    L.set_mesh(m)
    want = []
    for i in range(int(n)):
        v = w.f64('last') if i == n - 1 else B.number(i)
        L.add_datalist({'P': w.array([v], float)}, time=B.number(2 * i))
        want.append((v, B.number(2 * i)))
    with w.h5.File(L.dumphdf(w.path('s.hdf')), 'r') as h:
        inst = sorted(h['datalist'].keys())
        w.check(len(inst) == n and w.And(*[w.same([w.plain(h['datalist'][k]['P'][()]), w.plain(h['datalist'][k].attrs['time'])], [[v], t]) for k, (v, t) in zip(inst, want)]), "any number of instants, in order")


def manydata(w, n, size=5, where=(0,)):
    """many names, or long data, in a data set"""
    D = w.mod('cfdtools.data')
    ds = D.DataSet()
    names = [f'v{(k * 37) % n}' for k in range(n)] if n % 37 else [f'v{n - k}' for k in range(n)]
    want = {}
    for k, nm in enumerate(names):
        a, v = B.array(w, nm, (size,), [size // 2] if k in where else [], lambda q: w.f64(q), salt=k)
        ds.add_data(nm, a)
        want[nm] = v
    w.check(list(ds.keys()) == names and [k for k, _ in ds.items()] == names, "many names in the order of their addition")
    w.check(w.And(*[w.same(ds[k], want[k]) for k in names]), "many data as given")


def nomesh(w):
    """a series on something which is not a mesh is refused"""
    L = w.mod('cfdtools.data').DataSetList(1)
    L.add_datalist({'P': w.f64array('p', (2,))})
    k = w.pick('k', ('none', 'text'))
    if k != 'none':
        L.set_mesh('mesh')
    _, e = w.raises(lambda: L.dumphdf(w.path('a.hdf')), Exception)
    w.check(e is not None, "a series needs a mesh")


KINDS = ('external', 'dataset', 'datalist', 'probes', 'cfdmesh')


def header(w, kind):
    H = w.mod('cfdtools.hdf5')
    f = w.path('h.hdf')
    v = w.int('v', 0, 2**31 - 1)
    a = H.h5File(f)
    a.open(mode=w.pick('mode', ('w', 'w-', 'x')), datatype=kind, version=v)
    a.close()
    for mode in ('r', 'r+'):
        b = H.h5File(f)
        b.open(mode=mode)
        w.check(b.datatype == kind and w.same([b._version], [v]), "kind and version given back")
        w.check(b._cfdtools_version == w.mod('cfdtools').__version__, "kind and version given back")
        b.close()
    if bool(w.bool('again')):  # w- and x do not replace an existing file
        w.protect(f)
        _, e = w.raises(lambda: H.h5File(f).open(mode=w.pick('m2', ('w-', 'x')), datatype=kind, version=v), Exception)
        w.check(e is not None and w.intact(f), "existing file kept")


def foreign(w, typed):
    """files without version or of other origin"""
    H = w.mod('cfdtools.hdf5')
    f = w.path('h.hdf')
    with w.h5.File(f, 'w') as h:
        h.create_dataset('P', data=w.f64array('p', (2,)))
        if typed:
            h.attrs['cfd_datatype'] = 'dataset'
    b = H.h5File(f)
    b.open()
    w.check(b.datatype == ('dataset' if typed else None) and b._version == (0 if typed else None), "kind and version given back")
    b.close()


def badopen(w):
    H = w.mod('cfdtools.hdf5')
    k = w.pick('k', ('kind', 'nokind', 'noversion', 'absent'))
    f = H.h5File(w.path('h.hdf'))
    _, e = w.raises(lambda: {'kind': lambda: f.open('w', datatype='mesh', version=1), 'nokind': lambda: f.open('w', version=1), 'noversion': lambda: f.open('w', datatype='dataset'),
                             'absent': lambda: f.open('r')}[k](), Exception)
    w.check(e is not None, "unknown kinds refused")


def refused(w, how):
    """an existing file is kept when the kind, the version or the mode is refused"""
    H = w.mod('cfdtools.hdf5')
    f = w.path('h.hdf')
    a = H.h5File(f)
    p = w.f64array('p', (2,))
    v = w.int('v', 0, 2**31 - 1)
    a.open('w', datatype='dataset', version=v)
    a._h5file.create_dataset('P', data=p)
    a.close()
    mode, kind, ver = {'kind': ('w', 'mesh', 1), 'nokind': ('w', None, 1), 'noversion': ('w', 'dataset', None), 'mode': ('rw', 'dataset', 1), 'exist': ('x', 'dataset', 1), 'empty': ('', None, None)}[how]
    _, e = w.raises(lambda: H.h5File(f).open(mode, datatype=kind, version=ver), Exception)
    w.check(e is not None, "unknown kinds refused")
    b = H.h5File(f)
    b.open()
    w.check(b.datatype == 'dataset' and w.same([b._version], [v]) and w.same(b['P'][()], p), "existing file kept")
    b.close()
    _, e = w.raises(lambda: H.h5File(w.path('new.hdf')).open(mode, datatype=kind, version=ver), Exception)
    w.check(how == 'exist' or e is not None and not w.exists(w.path('new.hdf')), "nothing is made when refused")


def append(w, exist):
    """mode a: the file is made or completed"""
    H = w.mod('cfdtools.hdf5')
    f = w.path('h.hdf')
    v, p, q = w.int('v', 0, 2**31 - 1), w.f64array('p', (2,)), w.f64array('q', (2,))
    if exist:
        a = H.h5File(f)
        a.open('w', datatype='probes', version=v)
        a._h5file.create_dataset('P', data=p)
        a.close()
    a = H.h5File(f)
    a.open('a', **({} if exist and bool(w.bool('bare')) else dict(datatype='probes', version=v)))
    w.check(a.datatype == 'probes' and w.same([a._version], [v]), "kind and version given back")
    a._h5file.create_dataset('Q', data=q)
    a.close()
    b = H.h5File(f)
    b.open()
    w.check(b.datatype == 'probes' and w.same([b._version], [v]), "kind and version given back")
    w.check(sorted(b._h5file.keys()) == (['P', 'Q'] if exist else ['Q']) and w.same(b['Q'][()], q) and (not exist or w.same(b['P'][()], p)), "an appended file keeps what it has")
    b.close()


def told(w, kind, mode):
    """the informations given on an open file"""
    log = w.capture_log()
    H = w.mod('cfdtools.hdf5')
    f = w.path('h.hdf')
    v = w.int('v', 1, 2**31 - 1)
    a = H.h5File(f)
    a.printinfo()
    a.open('w', datatype=kind, version=v)
    if mode != 'w':
        a.close()
        a = H.h5File(f)
        a.open(mode)
    w.check(a.datatype == kind, "kind and version given back")
    del log[:]
    a.printinfo()
    a.close()
    lines = [str(t) for _, t in log]
    w.check(any('type' in l and l.split()[-1] == kind for l in lines), "informations tell the kind and the version")
    got = [w.numbers(l)[-1] for l in lines if 'data version' in l]
    w.check(len(got) == 1 and w.same(got, [v]), "informations tell the kind and the version")


class Drawing:
    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(('plot', a, k))

    def contourf(self, *a, **k):
        self.calls.append(('contourf', a, k))


def drawn(w):
    D = w.mod('cfdtools.data')
    ds = D.DataSet(Trep='spectrogram')
    x, y, v = w.f64array('x', (3,)), w.f64array('y', (2,)), w.f64array('v', (3, 2))
    for n, a in (('V', v), ('X', x), ('Y', y), ('Z', w.f64array('z', (3,)))):
        ds.add_data(n, a)
    g = Drawing()
    ds.plot('X', 'Z', axes=g, color='r')
    k, a, o = g.calls[0]
    w.check(k == 'plot' and len(g.calls) == 1 and w.same([w.plain(a[0]), w.plain(a[1])], [w.plain(x), w.plain(ds['Z'])]) and o == {'color': 'r'} and len(a) == 2, "the named data are drawn")
    ds.contourf('X', 'Y', 'V', axes=g, levels=3)
    k, a, o = g.calls[1]
    p = w.plain(v)
    w.check(k == 'contourf' and len(g.calls) == 2 and len(a) == 3 and o == {'levels': 3}, "the named data are drawn")
    w.check(w.same([w.plain(a[0]), w.plain(a[1]), w.plain(a[2])], [w.plain(x), w.plain(y), [[p[i][j] for i in range(3)] for j in range(2)]]), "the named data are drawn")
    w.check(w.same(ds['V'], p), "data last given")


def scenarios(tier):
    T = tier == 'thorough'
    ke = [dict(n=4 if T else 3), dict(n=2, Xrep='nodal', Trep='timeevol')]
    S = [dict(types=['tri3', 'quad4'], nnode=5, n=2, vars=('s', 'v')), dict(types=['hexa8'], nnode=8, n=3, vars=('s',), reuse=True), dict(types=['quad4', 'tri3', 'quad4'], nnode=6, n=2, vars=('i',), times='first'),
         dict(types=['tetra4', 'pyra5'], nnode=6, n=1, vars=('v',), times='none', opts={'compression': 'gzip'}), dict(types=['tri3'] * 2, nnode=4, n=12, vars=('s',), times='none'),
         dict(types=['tri3'], nnode=3, n=2, vars=('s', 's'), reuse=True, times='first', overwrite=True),
         dict(types=['tri3'], nnode=3, n=2, tkind='0d'), dict(types=['tri3'], nnode=3, n=2, tkind='1d', vars=('s', 'v')),
         dict(types=['tri3'] * 2, nnode=4, n=2, vars=('s', 's', 'v'), names=('time_avg', 'timestep', 'Time')),
         dict(types=['tri3'], nnode=3, n=2, vars=('s', 's', 's'), names=('mesh', 'datalist', 'instants'), times='first'),
         dict(types=['tri3'], nnode=3, n=2, vars=('s', 's', 's'), names=('U_time', 'p', 'P'), reuse=True),
         dict(types=['tri3', 'quad4'], nnode=5, n=2, vars=('i', 's', 'v')), dict(types=['tri3'], nnode=3, n=2, vars=('s', 'i'), times='none')]
    if T:
        S += [dict(types=['prism6', 'hexa8', 'tetra4'], nnode=9, n=4, vars=('s', 'v', 'i')), dict(types=['tri3'], nnode=3, n=11, vars=('v', 's'), reuse=True)]
    o = dict(max_replay=8)
    G = [dict(n=12, ncell=3, where=(1, 10)), dict(n=1103, ncell=2, where=(999, 1000)), dict(n=2, ncell=20000, where=(1,)), dict(n=3, ncell=66000), dict(n=2, ncell=3, nvar=120, where=(0,))]
    H = [dict(n=130, where=(1, 101)), dict(n=3, size=70000, where=()), dict(n=3, size=3000, where=(1,))]
    if T:
        G += [dict(n=10050, ncell=1, where=(9999,))]
    K = [dict(lo=a, hi=b) for a, b in ((1, 33), (34, 60), (61, 80), (81, 95), (96, 105), (999, 1001))] + ([dict(lo=106, hi=180), dict(lo=9999, hi=10001)] if T else [])
    return [('long', long, G, {}), ('count', count, K, dict(max_replay=3)), ('manydata', manydata, H, {}), ('kept', kept, ke, o), ('kinds', kinds, [dict(cls=c) for c in ('DataSetBase', 'DataSet', 'DataSetList')], o), ('nodes', nodes, [dict(dims=d) for d in (1, 2, 3)], o), ('series', series, S, o),
            ('nomesh', nomesh, [{}], o), ('header', header, [dict(kind=k) for k in KINDS], o), ('foreign', foreign, [dict(typed=t) for t in (True, False)], o), ('badopen', badopen, [{}], o), ('drawn', drawn, [{}], o),
            ('refused', refused, [dict(how=h) for h in ('kind', 'nokind', 'noversion', 'mode', 'exist', 'empty')], o), ('append', append, [dict(exist=e) for e in (True, False)], o),
            ('told', told, [dict(kind='dataset', mode='w'), dict(kind='probes', mode='r'), dict(kind='cfdmesh', mode='r+')], o)]
