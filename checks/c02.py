"""C02: IC3 v2/v3 binary layout - what the writers produce and what the reader understands."""
from checks import ic3fmt as F
from checks.c01 import build, verify

META = dict(
    bounds="boxes of up to 10120 cells and 32804 nodes with symbolic values at one node and cell; <= 5 nodes, <= 4 faces, <= 4 cells, <= 4 marks, <= 7 variables, symbolic contents; reader: every order of 3-4 blocks "
           "of sections around the symbolic contents, one or two foreign sections with any unused code and 0-12 bytes of payload; "
           "both byte orders, versions 2 and 3",
    outside="orders not listed, foreign sections with names starting with DEOF",
    assumptions=["log output and printing have no effect on results"],
    must_reach=["sections cover the file exactly", "reader: node coordinates preserved bit for bit"],
)


def layout(w, ver, endian, inside=None, **kw):
    W = w.mod(f'cfdtools.ic3.writerV{ver}')
    mesh, x = build(w, **kw)
    if inside:      # a mark on internal faces is not a zone of its own
        b = w.mod('cfdtools.meshbase._mesh').submeshmark('inside')
        b.geodim, b.type = inside, 'internal'
        b.index = w.mod('cfdtools.meshbase._connectivity').indexlist(irange=[x['nf'] - 1, x['nf'] - 1])
        mesh.add_boco(b)
    f = w.path('a.ic3')
    W.writer(mesh, endian=endian).write_data(f)
    magic, version, secs = F.parse(w, w.get_file(f), endian)
    w.check(w.same([magic, version], [F.MAGIC, ver]), "magic number and version")
    ids = [int(s.id) for s in secs]
    w.check(ids[-1] == F.CODE['EOF'] and ids.count(F.CODE['EOF']) == 1, "last section is EOF")
    want = F.mesh_sections(x)
    un, e = w.struct.unpack, F.E[endian]
    by = {}
    for s, i in zip(secs, ids):
        by.setdefault((i, F.name_of(s)), []).append(s)
    for key, s in want.items():
        hit = by.get((s.id, s.name), [])
        w.check(len(hit) == 1, f"one section per item: {key.split(':')[0]}")
        if len(hit) != 1:
            continue
        p = hit[0]
        size = w.struct.calcsize('=' + s.fmt) if s.fmt else 0
        w.check(len(p.body) == size, f"payload size of sections: {key.split(':')[0]}")
        n = {'counts': 4, 'noofa': 2, 'cvofa': 2, 'part': 2, 'xno': 2, 'data': 0, 'eof': 0}.get(key, 3 if key[:5] == 'zone:' else 1)
        ints = list(s.idata)
        if key[:3] == 'CV:':
            kind = x['c'][s.name][0]
            # version 2: extents of the value, version 3: number of degrees of freedom first
            ints[1:3] = {'v': [3, 0], 't': [3, 3]}.get(kind, [0, 0]) if ver == 2 else [x['ndof'], 3 if kind == 't' else 0]
            n = {'v': 2, 't': 3}.get(kind, 1 if ver == 2 else 2)
        elif key[:3] == 'NO:' and x['n'][s.name][0] == 'v':
            n = 2
        w.check(w.same(p.idata[:n], ints[:n]), f"integers of headers: {key.split(':')[0]}")
        if s.id in (F.CODE['FA_ZONE'], F.CODE['D0']):
            w.check(w.same(p.rdata, s.rdata), f"reals of headers: {key.split(':')[0]}")
        if s.fmt and len(p.body) == size:
            w.check(w.same(list(un(e + s.fmt, p.body)), s.payload), f"payload values: {key.split(':')[0]}")
    zones = sorted((int(s.idata[1]), int(s.idata[2]), int(s.idata[0])) for s, i in zip(secs, ids) if i == F.CODE['FA_ZONE'])
    nxt = 0
    for a, b, k in zones:
        if b >= a:
            w.check(a == nxt, "face zones cover the faces contiguously")
            nxt = b + 1
    w.check(nxt == x['nf'], "face zones cover all faces")
    w.check(sum(k == F.KIND['internal'] for _, _, k in zones) == 1, "one zone of internal faces")
    used = {(s.id, s.name) for s in want.values()}
    extra = {i for (i, nm) in by if (i, nm) not in used}
    w.check(extra <= {F.CODE['FA_ZONE'], F.CODE['NO_CHECK'], F.CODE['FA_CHECK'], F.CODE['CV_CHECK'], F.CODE['I0'], F.CODE['D0']},
            "no spurious section")
    for code, n in (('NO_CHECK', x['nnode']), ('FA_CHECK', x['nf']), ('CV_CHECK', x['ncell'])):
        for p in [s for s, i in zip(secs, ids) if i == F.CODE[code]]:
            w.check(w.same([p.idata[0]], [n]), "counts of check sections")
            w.check(len(p.body) == 4 * n and w.same(list(un(e + f'{n}i', p.body)), list(range(n))), "check sections enumerate entities")


def order_of(keys, order):
    z = [k for k in keys if k.startswith('zone:')]
    p = [k for k in keys if k.startswith('p:')]
    v = [k for k in keys if k[:3] in ('NO:', 'CV:', 'FA:')]
    blocks = dict(c=['counts'], g=['noofa'], k=['cvofa'], z=z, a=['part'], x=['xno'], d=['data'], p=p, v=v)
    blocks['Z'] = z[::-1]
    blocks['V'] = v[::-1]
    blocks['P'] = p[::-1]
    out = []
    for c in order:
        out += blocks[c] if c not in 'uU' else [c]
    return out + ['eof']


def reader(w, ver, endian, order, foreign=0, internal=False, face=(), integrity=False, **kw):
    """the reader on a file produced independently of cfdtools"""
    R = w.mod('cfdtools.ic3.reader_legacy')
    _, x = build(w, **kw)
    x['f'] = {}
    for i, (kind, name) in enumerate(face):
        n = x['nf']
        shape = {'s': (n,), 'i': (n,), 'v': (n, 3)}[kind]
        a = w.intarray(f'fd{i}', shape, -2**63, 2**63 - 1) if kind == 'i' else w.f64array(f'fd{i}', shape)
        x['f'][name] = (kind, w.plain(a), shape)
    S = F.mesh_sections(x)
    if internal:
        S['zone:in'] = F.Section('in', F.CODE['FA_ZONE'], [6, x['spec'][-1][3] + 1 if x['spec'] else 0, x['nf'] - 1])
    for c in 'uU':
        if c in order:
            ident = w.int('code' + c, -2**31, 2**31 - 1)
            for k in F.CODE.values():
                w.assume(ident != k)
            junk = w.ints('junk' + c, foreign, -128, 127)
            S[c] = F.Section('foreign' + c, ident, w.ints('ji' + c, 8, -2**63, 2**63 - 1), w.f64s('jr' + c, 16), junk, f'{foreign}b' if foreign else '')
    seq = order_of(list(S), order)
    data = F.encode(w, [S[k] for k in seq], endian, ver)
    f = w.path('a.ic3')
    w.put_file(f, data)
    r = R.reader(f, cIntegrity=integrity)
    r.read_data()
    m2 = r.export_mesh()
    verify(w, m2, x)
    w.cover("reader: node coordinates preserved bit for bit")
    if face:
        ds = m2._facedata
        w.check(sorted(ds.keys()) == sorted(x['f']), "face variables read (names)")
        for name, (kind, a, shape) in x['f'].items():
            if name in ds.keys():
                w.check(w.same(ds[name], a), "face data read bit for bit")


def scenarios(tier):
    T = tier == 'thorough'
    z1 = [('inlet', 'boundary', 0, 0), ('per', 'perio_cart', 1, 1)]
    d1 = [('node', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U'), ('cell', 't', 'tau'), ('node', 'v', 'nv')]
    A = dict(sizes=[3, 4, 3], nnode=5, ncell=2, nbd=2, zones=z1, data=d1)
    same = dict(sizes=[3, 3, 2], nnode=3, ncell=3, nbd=2, zones=[('b', 'boundary', 0, 1)], symcells=T,
                data=[('node', 's', 'n1'), ('cell', 's', 'c1'), ('cell', 'v', 'c3'), ('node', 'v', 'n3')])
    nobd = dict(sizes=[4, 3], nnode=4, ncell=2, nbd=0, zones=[], data=[], state=False, part=False)
    allk = dict(sizes=[2, 3, 4, 3], nnode=4, ncell=1, nbd=4, data=[('cell', 's', 'a')], state=False, part=False,
                zones=[('x', 'perio_cylx', 2, 2), ('y', 'perio_cyly', 3, 3), ('z', 'perio_cylz', 0, 0), ('i', 'boundary', 1, 1)])
    ints = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], wgt=('rho',), symcells=T,
                data=[('node', 'i', 'NO_ID'), ('node', 's', 'p'), ('cell', 'i', 'CV_ID'), ('cell', 's', 'q' * 52), ('cell', 'v', 'u' * 51)])
    hand = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, zones=[('b', 'boundary', 0, 0)], ndof=2, symcells=T,
                data=[('cell', 's', 'RHO'), ('cell', 'v', 'RHOU'), ('cell', 't', 'TAU'), ('cell', 'i', 'ID')])
    near = dict(sizes=[3, 4, 3, 3], nnode=4, ncell=2, nbd=4, part=False, symcells=False, zones=[('wall', 'boundary', 0, 0), ('wall2', 'boundary', 1, 1), ('Wall', 'perio_cart', 2, 2), ('wal', 'boundary', 3, 3)],
                data=[('node', 's', 'P'), ('cell', 's', 'P'), ('cell', 's', 'P_AVG'), ('node', 's', 'p'), ('cell', 'v', 'PP'), ('cell', 's', 'p'), ('node', 'v', 'P_'), ('cell', 'v', 'EOF'), ('cell', 's', 'step')])
    lay = []
    for ver in (2, 3):
        for endian in ('native', 'little', 'big'):
            lay.append(dict(ver=ver, endian=endian, **A, symcells=T))
        lay += [dict(ver=ver, endian='big', **same), dict(ver=ver, endian='native', **nobd), dict(ver=ver, endian='native', **allk)]
    lay += [dict(ver=v, endian='native', mem='F', **dict(A, symcells=False)) for v in (2, 3)]
    lay += [dict(ver=v, endian='big', **near) for v in (2, 3)]
    lay += [dict(ver=2 + i % 2, endian='little', inside=k, **dict(A, symcells=False)) for i, k in enumerate(('face', 'intface', 'intface', 'face', 'bdface'))]
    lay += [dict(ver=3, endian='native', **ints), dict(ver=3, endian='big', **hand)]
    rd = []
    orders = ['cgkzaxdpv', 'cgkzaxdpV', 'cugkzaxdpUv', 'vpdxazkgc', 'xcgzkavdp', 'ucvzpxgUkaP', 'Zcgkaxpv', 'cgkzuaxdpvU']
    for i, o in enumerate(orders):
        rd.append(dict(ver=2 + i % 2, endian=('big', 'little')[(i // 2) % 2], order=o, foreign=(0, 5, 12)[i % 3], **A, symcells=T))
    rd.append(dict(ver=2, endian='little', order='cgkzaxdpv', internal=True, **A, symcells=T))
    rd.append(dict(ver=3, endian='big', order='cgkZaxdpv', internal=True, **A, symcells=T))
    rd.append(dict(ver=3, endian='big', order='cgkzaxdpv', **same))
    rd += [dict(ver=v, endian='little', order='cgkzaxdpV', **near) for v in (2, 3)]
    rd.append(dict(ver=3, endian='little', order='cgkzaxdpV', **ints))
    rd.append(dict(ver=3, endian='big', order='cgkzaxvdp', **hand))
    rd.append(dict(ver=2, endian='big', order='cgkzaxdpv', face=[('s', 'fs'), ('v', 'fv')], **A, symcells=T))
    rd.append(dict(ver=3, endian='little', order='cgkzaxdpV', face=[('s', 'fs'), ('i', 'fi'), ('v', 'fv')], **same))
    rd.append(dict(ver=3, endian='little', order='cgkzaxdp', integrity=True, **nobd))
    if T:
        import itertools
        for k, perm in enumerate(itertools.permutations('gkzax')):
            o = 'c' + ''.join(perm) + 'dpv'
            rd.append(dict(ver=2 + k % 2, endian=('big', 'little')[(k // 2) % 2], order=o, **A, symcells=False))
    d3 = [('node', 's', 'P'), ('cell', 's', 'rho'), ('cell', 'v', 'U')]
    for v, e, n, c in ((2, 'big', [11, 10, 10], 0), (3, 'little', [40, 2, 21], 5), (2, 'native', [1, 16500 if T else 8200, 1], 0), (3, 'big', [20, 23, 22], 0)):
        lay.append(dict(ver=v, endian=e, box=n, split=c, at=(1237, -1) if c else (77,), data=d3))
        rd.append(dict(ver=v, endian=e, box=n, split=c, at=(1237, -1) if c else (77,), data=d3, order='cgkzaxdpv', internal=True))
    # many variables, many unknown sections
    lots = dict(sizes=[3, 4], nnode=4, ncell=2, nbd=1, part=False, symcells=False, zones=[('b', 'boundary', 0, 0)],
                data=[('cell', 's', f'a{i}') for i in range(130)] + [('cell', 'v', 'U'), ('node', 's', 'n'), ('node', 'v', 'V')])
    lay.append(dict(ver=3, endian='big', **lots))
    rd += [dict(ver=2, endian='little', order='cgkzaxdpv', **lots), dict(ver=3, endian='native', order='cgk' + 'u' * 300 + 'zadpxv', foreign=3, **nobd)]
    o = dict(max_replay=10)
    return [('layout', layout, lay, o), ('reader', reader, rd, o)]
