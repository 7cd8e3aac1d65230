"""C03: an IC3 v2/v3 restart file cut anywhere before its end, or with contradictory counts, is refused."""
from checks import big, ic3fmt as F
from checks.c01 import build, verify
from checks.c02 import order_of

META = dict(
    bounds="files of 13-17 sections (<= 5 nodes, <= 4 faces, <= 4 cells, <= 6 variables) written by the writers or by an independent "
           "encoder, cut at any symbolic byte length from 0 to the length minus one; or with one count of a header replaced by any "
           "other 32 bit value, or a node number, a cell number, the faces of a zone or the size of the partition beyond the mesh, or the number of nodes of faces, or an identifier or count of the integrity check; files of 1100 to 2040 cells cut anywhere, or with a node or cell number beyond the mesh at 10 places; an identifier of 100100 nodes off by one; both byte orders, versions 2 and 3, with and without integrity check",
    outside="other places of larger files; flipped bits in payloads (the format has no checksum); the HDF5 based v4 format (integrity is libhdf5's)",
    assumptions=["log output and printing have no effect on results", "a cut file holds a prefix of the complete file"],
    must_reach=["cut: complete file is accepted", "cut: cut file is refused", "cutbox: cut file is refused", "beyond: numbers beyond the mesh are refused", "counts: wrong count is refused", "exceeds: numbers beyond the mesh are refused",
                "identity: identifiers are accepted", "identity: wrong identifiers are refused", "bigids: wrong identifiers are refused"],
)


def cut(w, ver, endian, integrity=False, how='writer', order='cgkzaxdpv', **kw):
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = build(w, **kw)
    if how == 'writer':
        w.mod(f'cfdtools.ic3.writerV{ver}').writer(mesh, endian=endian).write_data(f)
    else:
        x['f'] = {}
        S = F.mesh_sections(x)
        w.put_file(f, F.encode(w, [S[k] for k in order_of(list(S), order)], endian, ver))
    total = len(w.get_file(f))
    r = R.reader(f, cIntegrity=integrity)
    r.read_data()
    r.export_mesh()
    w.cover("complete file is accepted")
    n = w.int('length', 0, total - 1)
    w.truncate(f, n)

    def attempt():
        r = R.reader(f, cIntegrity=integrity)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "cut file is refused")


def counts(w, ver, endian, sec, pos, integrity=False, order='cgkzaxdpv', **kw):
    """one integer of one header contradicts the rest of the file"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = build(w, **kw)
    x['f'] = {}
    S = F.mesh_sections(x)
    good = S[sec].idata[pos]
    bad = w.int('bad', 0, 40)
    w.assume(bad != good)
    S[sec].idata = list(S[sec].idata)
    S[sec].idata[pos] = bad
    w.put_file(f, F.encode(w, [S[k] for k in order_of(list(S), order)], endian, ver))

    def attempt():
        r = R.reader(f, cIntegrity=integrity)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "wrong count is refused")


def exceeds(w, ver, endian, what, order='cgkzaxdpv', integrity=False, **kw):
    """a node number, a cell number, the faces of a zone or the size of the partition do not fit in the mesh"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = build(w, **kw)
    x['f'] = {}
    S = F.mesh_sections(x)
    if what[0] == 'node':
        s, k = S['noofa'], x['nf'] + what[1]
        bad = w.int('bad', -2**31, 2**31 - 1)
        w.assume(w.Or(bad < 0, bad >= x['nnode']))
        s.payload = list(s.payload)
        s.payload[k] = bad
    elif what[0] == 'cell':
        s = S['cvofa']
        s.payload = list(s.payload)
        s.payload[what[1]] = w.int('bad', x['ncell'], 2**31 - 1)
    elif what[0] == 'size':
        s = S['noofa']
        good = [s.payload[k] for k in what[1:]]
        s.payload = list(s.payload)
        for k in what[1:]:
            s.payload[k] = w.int(f'bad{k}', -2**31, 2**31 - 1)
        new = [s.payload[k] for k in what[1:]]
        if len(new) == 1:
            w.assume(new[0] != good[0])
        else:  # the same total, but a face with a negative number of nodes
            w.assume(w.And(sum(new[1:], new[0]) == sum(good), w.Or(*[v < 0 for v in new])))
    elif what[0] == 'zone':
        s = S['zone:' + what[1]]
        a, b = w.int('first', -2**31, 2**31 - 1), w.int('last', -2**31, 2**31 - 1)
        w.assume(w.Or(w.And(a >= 0, a < x['nf'], b >= x['nf']), w.And(a < 0, b >= 0, b < x['nf'])))
        s.idata = [s.idata[0], a, b] + list(s.idata[3:])
    else:
        bad = w.int('bad', 0, 2**31 - 1)
        w.assume(bad != x['ncell'])
        S['part'].idata = [bad] + list(S['part'].idata[1:])
    w.put_file(f, F.encode(w, [S[k] for k in order_of(list(S), order)], endian, ver))

    def attempt():
        r = R.reader(f, cIntegrity=integrity)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "numbers beyond the mesh are refused")


def cutbox(w, ver, endian, at, box, data, split=0, integrity=False):
    """file of many cells cut near a place: a fraction of the file, or at most a number of bytes before its end, or anywhere"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = big.build(w, box, split, data=data)
    w.mod(f'cfdtools.ic3.writerV{ver}').writer(mesh, endian=endian).write_data(f)
    total = len(w.get_file(f))
    R.reader(f, cIntegrity=integrity).read_data()
    w.cover("complete file is accepted")
    a, b = (0, total - 1) if at is None else (total - at, total - 1) if at > 1 else (int(total * at), int(total * at) + 300)
    n = w.int('length', a, b)
    w.truncate(f, n)

    def attempt():
        r = R.reader(f, cIntegrity=integrity)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "cut file is refused")


def beyond(w, ver, endian, what, k, box, split=0, endian2=None):
    """one number of a file of many cells is beyond the mesh"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = big.build(w, box, split)
    x['f'] = {}
    S = F.mesh_sections(x)
    s = S[what]
    s.payload = list(s.payload)
    lim = {'noofa': x['nnode'], 'cvofa': x['ncell']}[what]
    first = x['nf'] if what == 'noofa' else 0
    k = first + k if k >= 0 else len(s.payload) + k
    if what == 'cvofa' and s.payload[k] < 0:
        k -= 1
    bad = w.int('bad', lim, 2**31 - 1)
    s.payload[k] = bad
    w.put_file(f, F.encode(w, [S[n] for n in order_of(list(S), 'cgkzaxdpv')], endian, ver))

    def attempt():
        r = R.reader(f)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "numbers beyond the mesh are refused")


CHECKS = (('NO_CHECK', 30, 'nnode'), ('FA_CHECK', 20, 'nf'), ('CV_CHECK', 40, 'ncell'))


def identity(w, ver, endian, sec, pos=None, order='cUgkzaxdpv', **kw):
    """one identifier (or the count) of a section read by the integrity check is not the expected one"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = build(w, **kw)
    x['f'] = {}
    S = F.mesh_sections(x)
    extra = [F.Section(nm, code, [x[k]], payload=list(range(x[k])), fmt=f'{x[k]}i') for nm, code, k in CHECKS]
    good = F.encode(w, [S['counts']] + extra + [S[k] for k in order_of(list(S), order.replace('c', '').replace('U', ''))], endian, ver)
    w.put_file(f, good)
    r = R.reader(f, cIntegrity=True)
    r.read_data()
    w.cover("identifiers are accepted")
    e = extra[sec]
    if pos == 'all':  # whatever the identifiers
        n = len(e.payload)
        e.payload = w.ints('bad', n, -1, n)
        w.assume(w.Or(*[b != i for i, b in enumerate(e.payload)]))
    else:
        bad = w.int('bad', -2**31, 2**31 - 1)
    if pos == 'all':
        pass
    elif pos is None:
        w.assume(w.And(bad != e.idata[0], bad >= 0))
        e.idata = [bad] + list(e.idata[1:])
    else:
        w.assume(bad != e.payload[pos])
        e.payload[pos] = bad
    w.put_file(f, F.encode(w, [S['counts']] + extra + [S[k] for k in order_of(list(S), order.replace('c', '').replace('U', ''))], endian, ver))

    def attempt():
        r = R.reader(f, cIntegrity=True)
        r.read_data()
        return r.export_mesh()

    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "wrong identifiers are refused")


def bigids(w, n, endian='little'):
    """one identifier of a mesh of many nodes, of which the check sections are intact otherwise"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    f = w.path('a.ic3')
    mesh, x = big.build(w, (2, 1, 1))
    x['f'] = {}
    x['xyz'] = list(x['xyz']) + [[0.0, 0.0, 0.0]] * (n - x['nnode'])
    x['nnode'] = n
    S = F.mesh_sections(x)
    extra = [F.Section(nm, code, [x[k]], payload=list(range(x[k])), fmt=f'{x[k]}i') for nm, code, k in CHECKS]
    chain = [S['counts']] + extra + [S[k] for k in order_of(list(S), 'gkzaxdpv')]
    k = w.pick('position', [100001, n - 1])

    def attempt():
        w.put_file(f, F.encode(w, chain, endian, 2))
        r = R.reader(f, cIntegrity=True)
        r.read_data()
        return r.export_mesh()

    attempt()
    extra[0].payload[k] += 1
    res, exc = w.raises(attempt, Exception, SystemExit)
    w.check(exc is not None, "wrong identifiers are refused")


def scenarios(tier):
    T = tier == 'thorough'
    z1 = [('inlet', 'boundary', 0, 0), ('per', 'perio_cart', 1, 1)]
    d1 = [('node', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U'), ('cell', 't', 'tau'), ('node', 'v', 'nv')]
    A = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=d1, symcells=False)
    B = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=[], symcells=False)
    ints = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], symcells=False,
                data=[('node', 'i', 'NO_ID'), ('cell', 'i', 'CV_ID')])
    cfgs = []
    for ver in (2, 3):
        for endian in ('little', 'big'):
            cfgs += [dict(ver=ver, endian=endian, **k) for k in (A, B)]
    cfgs.append(dict(ver=3, endian='native', **ints))
    cfgs.append(dict(ver=2, endian='big', integrity=True, **A))
    cfgs.append(dict(ver=3, endian='little', integrity=True, **B))
    for o in ('cgkzaxdpv', 'vpdxazkgc', 'cvgkzaxdp') + (('xcgzkavdp', 'Zcgkaxpv') if T else ()):
        cfgs.append(dict(ver=3, endian='big', how='indep', order=o, **A))
    cnt = []
    for sec, pos in [('noofa', 0), ('noofa', 1), ('cvofa', 0), ('xno', 0), ('xno', 1), ('NO:P', 0), ('CV:rho', 0), ('CV:U', 0), ('CV:tau', 0),
                     ('NO:nv', 0), ('counts', 0), ('counts', 1), ('counts', 2), ('counts', 3)]:
        for ver in (2, 3) if T else (3,):
            cnt.append(dict(ver=ver, endian='little', sec=sec, pos=pos, **A))
    o = dict(max_replay=6)
    ex = []
    for what in (('node', 0), ('node', 5), ('node', 9), ('cell', 0), ('cell', 1), ('cell', 4), ('zone', 'inlet'), ('zone', 'per'), ('part',),
                 ('size', 0), ('size', 1), ('size', 2), ('size', 0, 1), ('size', 1, 2), ('size', 0, 1, 2)):
        for ver, endian in ((2, 'big'), (3, 'little')) if T else ((2 + len(ex) % 2, ('big', 'little')[len(ex) // 2 % 2]),):
            ex.append(dict(ver=ver, endian=endian, what=what, **A))
    ids = [dict(ver=2 + (i + (p if isinstance(p, int) else 0)) % 2, endian=('big', 'little')[i % 2], sec=i, pos=p, **B)
           for i, n in enumerate((5, 3, 2)) for p in [None, 'all', *(range(n) if T else (0, n - 1))]]
    bd = [('node', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U')]
    cb = [dict(ver=2 + i % 2, endian=('big', 'little')[i // 2 % 2], at=a, box=(11, 10, 10), data=bd if i % 3 else [], split=(0, 4)[i % 2]) for i, a in enumerate((0.03, 0.2, 0.4, 0.55, 0.7, 0.85, 0.97, 300, 5, 64))]
    cb += [dict(ver=3, endian='big', at=a, box=(5, 8, 51), data=bd) for a in (270, 0.5, None)] + [dict(ver=2, endian='little', at=None, box=(11, 10, 10), split=4, data=bd)]
    by = [dict(ver=2 + i % 2, endian=('big', 'little')[i // 2 % 2], what=h, k=k, box=(11, 10, 10), split=(0, 4)[i % 2]) for i, (h, k) in enumerate([(h, k) for h in ('noofa', 'cvofa') for k in (0, 1024, 4096, 5001, -1)])]
    return [('cutbox', cutbox, cb, o), ('beyond', beyond, by, o), ('cut', cut, cfgs, o), ('counts', counts, cnt, o), ('exceeds', exceeds, ex, o), ('identity', identity, ids, o),
            ('bigids', bigids, [dict(n=100100, endian='big')], dict(max_replay=2))]