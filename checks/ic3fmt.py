"""Independent description of the IC3 v2/v3 restart format (from docs/ic3-format.md and the header definition):
two 4-byte integers (magic, version), then sections. A section is a 256 byte header - name[52], id int32, skip int64,
8 int64, 16 float64, no padding - followed by skip-256 bytes of payload; the last section is EOF."""

MAGIC = 123581321
CODE = dict(COUNTS=10, I0=11, D0=12, FA_CHECK=20, NOOFA=21, CVOFA=22, FA_ZONE=23, FA_D1=24, FA_D3=25, FA_II1=26, NO_CHECK=30,
            X_NO=31, NO_D1=32, NO_D3=33, NO_II1=34, CV_CHECK=40, CV_PART=41, CV_D1=42, CV_D3=43, CV_D33=44, CV_II1=45, DATA=50,
            EOF=51)
KIND = dict(boundary=1, perio_cart=2, perio_cylx=3, perio_cyly=4, perio_cylz=5, internal=6)
E = {'native': '<', 'little': '<', 'big': '>'}


class Section:
    def __init__(self, name, ident, idata=(), rdata=(), payload=(), fmt=''):
        self.name, self.id = name, ident
        self.idata = list(idata) + [0] * (8 - len(idata))
        self.rdata = list(rdata) + [0.0] * (16 - len(rdata))
        self.payload, self.fmt = list(payload), fmt


def encode(w, sections, endian, version):
    """bytes of a restart file"""
    e = E[endian]
    out = w.struct.pack(e + 'ii', MAGIC, version)
    for s in sections:
        body = w.struct.pack(e + s.fmt, *s.payload) if s.fmt else b''
        name = s.name.encode().ljust(52, b'\0')
        assert len(name) == 52
        out = out + name + w.struct.pack(e + 'i', s.id) + w.struct.pack(e + 'q', 256 + len(body))
        out = out + w.struct.pack(e + '8q', *s.idata) + w.struct.pack(e + '16d', *s.rdata) + body
    return out


class Parsed:
    pass


def parse(w, data, endian):
    """-> (magic, version, [Parsed])"""
    e = E[endian]
    un = w.struct.unpack
    n = len(data)
    w.check(n >= 8, "file starts with magic number and version")
    magic, version = un(e + 'ii', data[:8])
    pos, out = 8, []
    while pos < n:
        w.check(n - pos >= 256, "headers are 256 bytes long")
        if n - pos < 256:
            break
        h = data[pos:pos + 256]
        p = Parsed()
        p.rawname = h[:52]
        p.id, = un(e + 'i', h[52:56])
        p.skip, = un(e + 'q', h[56:64])
        p.idata = list(un(e + '8q', h[64:128]))
        p.rdata = list(un(e + '16d', h[128:256]))
        skip = int(p.skip)
        w.check(skip >= 256 and pos + skip <= n, "each header points to the next one")
        if skip < 256:
            break
        p.body = data[pos + 256:pos + skip]
        out.append(p)
        pos += skip
    w.check(pos == n, "sections cover the file exactly")
    return magic, version, out


def name_of(p):
    b = bytes(p.rawname)
    i = b.find(b'\0')
    return (b if i < 0 else b[:i]).decode()


def mesh_sections(x, order=None):
    """sections (independent of cfdtools) describing the expectations built by c01.build"""
    nf, nn, nc = x['nf'], x['nnode'], x['ncell']
    sizes = [len(f) for f in x['nodes']]
    flat = [n for f in x['nodes'] for n in f]
    S = {}
    S['counts'] = Section('NO_FA_CV_NOOFA_COUNTS', CODE['COUNTS'], [nn, nf, nc, len(flat)])
    S['noofa'] = Section('NOOFA_I_AND_V', CODE['NOOFA'], [nf, len(flat)], payload=sizes + flat, fmt=f'{nf + len(flat)}i')
    S['cvofa'] = Section('CVOFA', CODE['CVOFA'], [nf, 2], payload=[c for p in x['cells'] for c in p], fmt=f'{2 * nf}i')
    for nm, ty, a, b, rd in x['spec']:
        S['zone:' + nm] = Section(nm, CODE['FA_ZONE'], [KIND[ty], a, b], rd or ())
    S['part'] = Section('CV_PART', CODE['CV_PART'], [nc, x.get('npart', 1)], payload=list(x['icv']) if 'icv' in x else [0] * nc, fmt=f'{nc}i')
    S['xno'] = Section('X_NO', CODE['X_NO'], [nn, 3], payload=[v for p in x['xyz'] for v in p], fmt=f'{3 * nn}d')
    S['data'] = Section('DATA', CODE['DATA'])
    for k, v in x['params'].items():
        if k == 'step':
            S['p:' + k] = Section('STEP', CODE['I0'], [v])
        else:
            S['p:' + k] = Section(k.upper(), CODE['D0'], (), [v])
    for loc, tab in (('NO', x['n']), ('CV', x['c']), ('FA', x.get('f', {}))):
        for name, (kind, a, shape) in tab.items():
            count = {'NO': nn, 'CV': nc, 'FA': nf}[loc]
            ndof = x['ndof'] if loc == 'CV' else 1
            flatv = a
            while flatv and isinstance(flatv[0], list):
                flatv = [e for r in flatv for e in r]
            code = CODE[f"{loc}_{dict(s='D1', i='II1', v='D3', t='D33')[kind]}"]
            S[f'{loc}:{name}'] = Section(name, code, [count, ndof if loc == 'CV' else 3], payload=flatv,
                                         fmt=f"{len(flatv)}{'q' if kind == 'i' else 'd'}")
    S['eof'] = Section('EOF', CODE['EOF'])
    return S
