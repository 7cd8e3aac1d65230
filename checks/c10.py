"""C10: ASCII Gmsh files of version 2 and 4.1 are read faithfully."""
from checks import big as B
from checks.shapes import NN

META = dict(
    bounds="versions 2.2 and 4.1, ASCII; one or several blanks or tabs between fields; files of up to 12000 elements with given numbers, a coordinate of picked nodes being any number, nodes numbered from any place with any step and in up to 150 blocks; otherwise <= 9 nodes, <= 4 cells, <= 5 boundary elements after, before or around the cells, <= 4 groups; every coordinate is 64 free "
           "bits, element node numbers, group numbers, entity tags and the order of the nodes in the file are symbolic",
    outside="second order elements, binary files, a boundary named 'fluid', version 2 cells in several groups, the marks of files without "
            "physical names (all boundary elements make one mark)",
    assumptions=["text numbers are parsed exactly (tokens carry their value; witnesses are replayed with repr() text)"],
    must_reach=["many: file of many cells: marks", "v2: every node at its number", "v2: group holds exactly the nodes of its elements",
                "v4: every node at its number", "v4: group holds exactly the nodes of its elements"],
)
DIM = {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2, 'tetra4': 3, 'hexa8': 3, 'prism6': 3, 'pyra5': 3}
CODE = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}
NNODE = dict(NN, bar2=2, node1=1)


def node_ids(w, name, etype, nnode, sym, shift=0):
    n = NNODE[etype]
    if not sym:
        return [(i + shift) % nnode + 1 for i in range(n)]
    ids = w.ints(name, n, 1, nnode)
    w.assume(w.distinct(ids))
    return ids


def numbering(w, nnode, sparse):
    """increasing node numbers of the file, and the number in the file of a (symbolic) node 1..nnode"""
    if not sparse:
        return list(range(1, nnode + 1)), lambda i: i
    tags = w.ints('num', nnode, 1, nnode + sparse)
    w.assume(w.And(*[a < b for a, b in zip(tags, tags[1:])]))

    def number(i):
        t = tags[-1]
        for k in range(nnode - 1):
            t = w.ite(i == k + 1, tags[k], t)
        return t
    return tags, number


def check_mesh(w, R, f, nnode, xyz, cells, bnd, names, maxdim):
    """cells: [(type, ids)], bnd: [(group number, ids)], names: {group number of dimension maxdim-1: name}"""
    r = R.reader(f)
    r.read_data()
    w.check(r.ncell == len(cells), "number of cells known by the reader")
    m = r.export_mesh()
    w.check(w.And(m.nnode == nnode, m.ncell == len(cells)), "mesh sizes")
    w.check(w.same(m.nodescoord(ndarray=True), xyz), "every node at its number")
    want = {}
    for t, ids in cells:
        want.setdefault(t, []).append([i - 1 for i in ids])
    got = {t: w.plain(e['elem2node']) for t, e in m._cell2node.items()}
    w.check(sorted(got) == sorted(want), "cell types")
    for t in want:
        if t in got:
            w.check(w.same(got[t], want[t]), "cells of a type in file order with their nodes")
    idx = sorted(i for _, e in m._cell2node.items() for i in e['index'].list())
    w.check(w.same(idx, list(range(len(cells)))), "every cell has its own index")
    # a group with no element gives no mark
    for g, name in names.items():
        present = w.Or(*[gi == g for gi, _ in bnd]) if bnd else False
        has = name in m._bocos
        w.check(present if has else w.Not(present), "a mark for each group which has elements")
        if has:
            k = m._bocos[name]
            w.check(k.type == 'boundary', "boundary mark")
            w.check(k.nodebased(), "mark of nodes")
            lst = k.index.list()
            for n in range(nnode):
                inside = w.Or(*[v == n for v in lst])
                exp = w.Or(*[w.And(gi == g, w.Or(*[i - 1 == n for i in ids])) for gi, ids in bnd])
                w.check(inside == exp, "group holds exactly the nodes of its elements")
            w.check(w.And(*[w.And(v >= 0, v < nnode) for v in lst]), "marked nodes exist")
    if names:
        w.check(sorted(m._bocos) == sorted(n for n in names.values() if n in m._bocos), "nothing else becomes a mark")
    return m


def physical(names, other):
    """$PhysicalNames: (dim, number, name)"""
    ent = [(d, g, n) for (d, g), n in names] + list(other)
    if not ent:
        return []
    return ['$PhysicalNames', [len(ent)]] + [[d, g, '"%s"' % n] for d, g, n in ent] + ['$EndPhysicalNames']


def v2(w, cells, bnd, other=(), nnode=6, groups=('wall', 'inlet'), extra=(), symn=2, symb=3, order='after', ntag=2, symperm=True,
       volname='FLUID', samenum=False, sparse=0, pad=None):
    """cells, bnd, other: element types; symn/symb: number of cells/boundary elements with symbolic nodes"""
    R = w.mod('cfdtools.gmsh.reader')
    maxdim = max(DIM[t] for t in cells)
    xyz = w.f64array('x', (nnode, 3))
    w.assume(w.And(*[c == c for p in w.plain(xyz) for c in p]))  # text has one nan
    _, num = numbering(w, nnode, sparse)
    perm = w.permutation('perm', nnode) if symperm else list(range(nnode))
    C = [(t, node_ids(w, f'c{i}', t, nnode, i < symn)) for i, t in enumerate(cells)]
    ng = len(groups)
    gids = w.ints('gid', ng, 1, 9) if ng else []
    w.assume(w.distinct(gids))
    vol = w.int('vol', 1, 9)
    if samenum:
        w.assume(vol == gids[0])  # group numbers may be shared by groups of different dimensions
    B = []
    for i, t in enumerate(bnd):
        k = w.int(f'bg{i}', 0, max(ng - 1, 0) + (1 if extra else 0))  # the last one: not in a named group
        g = 0
        for j in range(ng):
            g = w.ite(k == j, gids[j], g)
        if not ng:
            g = 4  # files without physical names
        B.append((t, g, w.int(f'be{i}', 1, 3), node_ids(w, f'b{i}', t, nnode, i < symb, 2 * i)))
    lines = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
    lines += physical([((maxdim - 1, g), n) for g, n in zip(gids, groups)], [(maxdim, vol, volname)] if volname else [])
    lines += ['$Nodes', [nnode]]
    for k in range(nnode):
        # the k-th line holds node perm[k]
        p = perm[k]
        if symperm:
            c = [xyz[nnode - 1, j] for j in range(3)]
            for q in range(nnode - 1):
                c = [w.ite(p == q, xyz[q, j], c[j]) for j in range(3)]
        else:
            c = [xyz[k, j] for j in range(3)]
        lines.append([num(p + 1)] + c)
    lines += ['$EndNodes', '$Elements', [len(C) + len(B) + len(other)]]
    tags = [1, 1] + [7] * (ntag - 2)
    body_c = [[CODE[t], ntag, vol, 1] + tags[2:] + [num(n) for n in ids] for t, ids in C]
    body_b = [[CODE[t], ntag, g, e] + tags[2:] + [num(n) for n in ids] for t, g, e, ids in B]
    body_o = [[CODE[t], ntag, 1, 1] + tags[2:] + [num(n + 1) for n in range(NNODE[t])] for t in other]
    if order == 'after':
        body = body_o + body_b + body_c
    elif order == 'before':
        body = body_c + body_b + body_o
    else:  # interleaved
        body = []
        q = [list(body_b), list(body_c), list(body_o)]
        while any(q):
            for l in q:
                if l:
                    body.append(l.pop(0))
    lines += [[i + 1] + b for i, b in enumerate(body)] + ['$EndElements']
    f = w.path('a.msh')
    w.put_text(f, lines, w.cfg.get('pad', ('', ' ', '')))
    check_mesh(w, R, f, nnode, xyz, C, [(g, ids) for _, g, _, ids in B], dict(zip(range(ng), groups)) and _names(w, gids, groups), maxdim)


class _names(dict):
    """group number -> name with symbolic numbers"""

    def __init__(self, w, gids, groups):
        self._items = list(zip(gids, groups))

    def items(self):
        return list(self._items)

    def values(self):
        return [n for _, n in self._items]


def v4(w, nblocks, cells, bnd, nnode=6, groups=('wall', 'inlet'), named=None, symn=1, symb=2, symperm=True, points=0, curves=(), symtag=True,
       volname='FLUID', parametric=False, vols=1, sametag=False, ent=None, sparse=0, above=0, volgroups=1, pad=None, order='after'):
    """nblocks: sizes of the node blocks; cells: [(type, n)] blocks; bnd: [(type, n)] blocks, ent[i]: their entity;
    named[i]: groups of boundary entity i (None: in no group); order: blocks of cells after, before or between those of boundaries"""
    R = w.mod('cfdtools.gmsh.reader')
    maxdim = max(DIM[t] for t, _ in cells)
    xyz = w.f64array('x', (nnode, 3))
    w.assume(w.And(*[c == c for p in w.plain(xyz) for c in p]))  # text has one nan
    tagl, num = numbering(w, nnode, sparse)
    perm = w.permutation('perm', nnode) if symperm else list(range(nnode))
    ng = len(groups)
    gids = w.ints('gid', ng, 1, 9)
    w.assume(w.distinct(gids))
    vol = w.int('vol', 1, 9)
    ent = list(range(len(bnd))) if ent is None else ent
    nb = max(ent) + 1
    tags = w.ints('tag', nb, 1, 20) if symtag else list(range(1, nb + 1))
    w.assume(w.distinct(tags))
    vtag = [w.int(f'vtag{i}', 1, 20) if symtag else i + 1 for i in range(vols)]
    w.assume(w.distinct(vtag))
    ctags = [w.int(f'ctag{i}', 1, 20) if symtag else i + 1 for i in range(len(curves))]
    w.assume(w.distinct(ctags))
    if sametag:
        w.assume(w.And(vtag[0] == tags[0], *([ctags[-1] == tags[0]] if curves else [])))
    named = list(range(nb)) if named is None else named
    within = [[] if k is None else list(k) if isinstance(k, (list, tuple)) else [k] for k in named]
    lines = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat']
    lines += physical([((maxdim - 1, g), n) for g, n in zip(gids, groups)], [(maxdim, vol, volname)] if volname else [])
    box = ['0', '0', '0', '1', '1', '1']
    count = [points, 0, 0, 0]
    ents = {0: [[i + 1, '0', '0', '0', 0] for i in range(points)], 1: [], 2: [], 3: []}
    for i, g in enumerate(curves):  # lower dimension entities (in 3D): group number or None
        ents[1].append([ctags[i]] + box + ([1, g] if g is not None else [0]) + [2, 1, -2])
    for i in range(nb):
        phys = [len(within[i])] + [gids[k] for k in within[i]]
        ents[maxdim - 1].append([tags[i]] + box + phys + [2, 1, -2])
    for t in vtag:
        ents[maxdim].append([t] + box + ([volgroups, vol] + [vol + 1 + k for k in range(volgroups - 1)] if volname else [0]) + [2, 1, -2])
    for i in range(above):  # entities of higher dimension, without elements
        ents[maxdim + 1].append([w.int(f'above{i}', 1, 20)] + box + [i % 2] + [9] * (i % 2) + [1, 1])
    count = [len(ents[d]) for d in range(4)]
    lines += ['$Entities', count] + [l for d in range(4) for l in ents[d]] + ['$EndEntities']
    lines += ['$Nodes', [len(nblocks), nnode, tagl[0], tagl[-1]]]
    k = 0
    for b, n in enumerate(nblocks):
        lines.append([maxdim, vtag[0], 1 if parametric else 0, n])
        lines += [[num(perm[j] + 1)] for j in range(k, k + n)]
        for j in range(k, k + n):
            if symperm:
                c = [xyz[nnode - 1, q] for q in range(3)]
                for q in range(nnode - 1):
                    c = [w.ite(perm[j] == q, xyz[q, z], c[z]) for z in range(3)]
            else:
                c = [xyz[j, z] for z in range(3)]
            lines.append(c + (['0.5'] * maxdim if parametric else []))
        k += n
    lines.append('$EndNodes')
    C, B, bblocks, cblocks, e = [], [], [], [], 1
    ci = bi = 0
    for i, (t, n) in enumerate(bnd):
        i = ent[i]
        body = [[maxdim - 1, tags[i], CODE[t], n]]
        bblocks.append(body)
        for _ in range(n):
            ids = node_ids(w, f'b{bi}', t, nnode, bi < symb, 2 * bi)
            body.append([e] + [num(n) for n in ids])
            B += [(gids[k], ids) for k in within[i]]
            e, bi = e + 1, bi + 1
    for i, (t, n) in enumerate(cells):
        body = [[maxdim, vtag[i % vols], CODE[t], n]]
        cblocks.append(body)
        for _ in range(n):
            ids = node_ids(w, f'c{ci}', t, nnode, ci < symn)
            body.append([e] + [num(n) for n in ids])
            C.append((t, ids))
            e, ci = e + 1, ci + 1
    if order == 'before':
        blocks = cblocks + bblocks
    elif order == 'between':
        blocks = bblocks[:1] + cblocks + bblocks[1:]
    else:
        blocks = bblocks + cblocks
    body = [line for b in blocks for line in b]
    for i in range(len(curves)):
        if maxdim == 3:
            body[0:0] = [[1, ctags[i], 1, 1], [e, num(1), num(2)]]
            e += 1
    lines += ['$Elements', [len(bnd) + len(cells) + (len(curves) if maxdim == 3 else 0), e - 1, 1, e - 1]] + body + ['$EndElements']
    f = w.path('a.msh')
    w.put_text(f, lines, w.cfg.get('pad', ('', ' ', '')))
    check_mesh(w, R, f, nnode, xyz, C, B, _names(w, gids, groups), maxdim)


def many(w, ver, n, split=0, where=(), stride=1, blocks=1, first=1, back=False):
    """file of a rectangle or box of many cells: nodes in `blocks` blocks, numbered with steps of `stride`, in reverse order if `back`"""
    R = w.mod('cfdtools.gmsh.reader')
    d = len(n)
    cells, pos, sides = B.rectangle(n, split) if d == 2 else B.box(n, split)
    nn = len(pos)
    _, x = B.array(w, 'x', (nn, 3), [p % nn for p in where], lambda nm: w.f64(nm))
    for p in where:
        w.assume(x[p % nn][0] == x[p % nn][0])
    num = lambda i: first + stride * i
    face = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
    lines = ['$MeshFormat', '2.2 0 8' if ver == 2 else '4.1 0 8', '$EndMeshFormat']
    lines += physical([((d - 1, 10 + k), s) for k, s in enumerate(sides)], [(d, 3, 'FLUID')])
    rank = list(range(nn))[::-1] if back else list(range(nn))
    if ver == 2:
        lines += ['$Nodes', [nn]] + [[num(k)] + x[k] for k in rank] + ['$EndNodes']
        body = [[CODE[face[len(f)]], 2, 10 + k, 1 + k] + [num(i) for i in f] for k, s in enumerate(sides) for f in sides[s]]
        body += [[CODE[t], 2, 3, 1] + [num(i) for i in c] for t, c in cells]
        lines += ['$Elements', [len(body)]] + [[i + 1] + b for i, b in enumerate(body)] + ['$EndElements']
    else:
        zero = ['0', '0', '0', '1', '1', '1']
        ent = [[k + 1] + zero + [1, 10 + k, 2, 1, -2] for k in range(len(sides))], [[1] + zero + [1, 3, 2, 1, -2]]
        lines += ['$Entities', [0, 0] + [len(ent[0]), 1] if d == 3 else [0, len(ent[0]), 1, 0]] + ent[0] + ent[1] + ['$EndEntities']
        cut = [nn * k // blocks for k in range(blocks + 1)]
        lines += ['$Nodes', [blocks, nn, num(0), num(nn - 1)]]
        for a, b in zip(cut, cut[1:]):
            lines += [[d, 1, 0, b - a]] + [[num(k)] for k in rank[a:b]] + [x[k] for k in rank[a:b]]
        lines.append('$EndNodes')
        groups = []
        for k, s in enumerate(sides):
            for l in (2, 3, 4):
                groups.append((d - 1, k + 1, face[l], [f for f in sides[s] if len(f) == l]))
        for t in sorted({t for t, _ in cells}):
            groups.append((d, 1, t, [c for u, c in cells if u == t]))
        groups = [g for g in groups if g[3]]
        tot = sum(len(g[3]) for g in groups)
        lines += ['$Elements', [len(groups), tot, 1, tot]]
        e = 0
        for dim, tag, t, l in groups:
            lines.append([dim, tag, CODE[t], len(l)])
            for c in l:
                e += 1
                lines.append([e] + [num(i) for i in c])
        lines.append('$EndElements')
    f = w.path('a.msh')
    w.put_text(f, lines, w.cfg.get('pad', ('', ' ', '')))
    r = R.reader(f)
    r.read_data()
    B.held(w, r.export_mesh(), x, cells, {s: {i for q in v for i in q} for s, v in sides.items()}, "file of many cells")


def scenarios(tier):
    T = tier == 'thorough'
    a = []
    a.append(dict(cells=['tri3', 'quad4'], bnd=['bar2', 'bar2'], nnode=4, symn=2, symb=2, symperm=False))
    a.append(dict(cells=['tri3', 'quad4', 'tri3'], bnd=['bar2', 'bar2'], nnode=5, symn=1, symb=1, symperm=False, order='mix', extra=[1], other=['node1']))
    a.append(dict(cells=['tri3'], bnd=['bar2'], nnode=3, symn=0, symb=0, groups=('wall',), symperm=True, order='before'))
    a.append(dict(cells=['tetra4', 'pyra5'], bnd=['tri3', 'quad4'], nnode=6, symn=2, symb=1, symperm=False, order='before', other=['bar2', 'node1'], ntag=3))
    a.append(dict(cells=['hexa8', 'prism6'], bnd=['quad4', 'tri3'], nnode=9, symn=2, symb=0, symperm=False, ntag=4))
    a.append(dict(cells=['tetra4'], bnd=['tri3', 'tri3'], nnode=4, symn=0, symb=2, symperm=False, samenum=True, volname='wall'))
    a.append(dict(cells=['tri3'], bnd=['bar2', 'bar2'], nnode=3, symn=0, symb=1, symperm=False, groups=('two words', 'inlet')))
    a.append(dict(cells=['prism6'], bnd=['tri3', 'tri3', 'quad4'], nnode=6, symn=0, symb=0, symperm=False, groups=('wall',)))
    a.append(dict(cells=['prism6'], bnd=['quad4', 'tri3', 'quad4'], nnode=6, symn=0, symb=0, symperm=False, groups=('wall',), order='before'))
    a.append(dict(cells=['tri3', 'quad4'], bnd=['bar2', 'bar2'], nnode=4, symn=0, symb=1, symperm=False, sparse=1))
    a.append(dict(cells=['tetra4'], bnd=['tri3'], nnode=4, symn=0, symb=1, symperm=False, sparse=2, groups=('wall',), other=['bar2'], ntag=3))
    a.append(dict(cells=['tri3'], bnd=['bar2'], nnode=3, symn=0, symb=0, symperm=True, sparse=1, groups=('wall',)))
    a.append(dict(cells=['tri3', 'quad4'], bnd=['bar2', 'bar2'], nnode=4, symn=1, symb=1, symperm=False, groups=(), volname=None))
    a.append(dict(cells=['tri3', 'quad4'], bnd=['bar2', 'bar2'], nnode=4, symn=0, symb=1, symperm=False, groups=('Fluid', 'FLUID wall')))
    a.append(dict(cells=['tetra4'], bnd=['tri3', 'tri3', 'tri3'], nnode=4, symn=0, symb=1, symperm=False, groups=('wall', 'wall2', 'Wall'), volname='wall 3'))
    b = []
    b.append(dict(nblocks=[2, 2], cells=[('tri3', 2)], bnd=[('bar2', 1), ('bar2', 1)], nnode=4, symperm=False, symb=1, symn=0, sparse=2))
    b.append(dict(nblocks=[4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1)], nnode=4, symperm=False, symb=1, symn=0, sparse=2, curves=(1,)))
    b.append(dict(nblocks=[4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1)], named=[(0, 1), 1], nnode=4, symperm=False, symb=2, symn=1))
    b.append(dict(nblocks=[4], cells=[('tri3', 2)], bnd=[('bar2', 2), ('bar2', 1)], named=[(1, 0, 2), None], groups=('a', 'b', 'c'), nnode=4, symperm=False, symb=1, symn=0))
    b.append(dict(nblocks=[4], cells=[('tri3', 2)], bnd=[('bar2', 2)], named=[None], groups=(), volname=None, nnode=4, symperm=False, symb=1, symn=1))
    b.append(dict(nblocks=[6], cells=[('prism6', 1)], bnd=[('tri3', 1), ('tri3', 1), ('quad4', 2)], ent=[0, 1, 1], named=[0, 0], groups=('wall',), nnode=6, symperm=False, symb=0))
    b.append(dict(nblocks=[6], cells=[('prism6', 1)], bnd=[('quad4', 1), ('tri3', 1), ('quad4', 1)], ent=[0, 0, 1], named=[0, 1], nnode=6, symperm=False, symb=0))
    b.append(dict(nblocks=[2, 1, 1], cells=[('tri3', 2)], bnd=[('bar2', 1), ('bar2', 1)], nnode=4, symperm=True, symb=0, symn=0))
    b.append(dict(nblocks=[3, 2], cells=[('tri3', 1), ('quad4', 1)], bnd=[('bar2', 2), ('bar2', 1)], nnode=5, symperm=False, points=2, symb=1, symn=2))
    b.append(dict(nblocks=[4, 1], cells=[('tetra4', 1), ('pyra5', 1)], bnd=[('tri3', 1), ('quad4', 1)], nnode=5, symperm=False, symb=1, curves=(None, 1), parametric=True))
    b.append(dict(nblocks=[0, 4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1), ('tri3', 1)], named=[0, None, 0], groups=('wall',), nnode=4, symperm=False, symb=2, curves=(2,)))
    b.append(dict(nblocks=[8, 1], cells=[('hexa8', 1), ('prism6', 1)], bnd=[('quad4', 1), ('tri3', 1)], nnode=9, symperm=False, symtag=False, vols=2))
    b.append(dict(nblocks=[4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1)], named=[1, 1], nnode=4, symperm=False, sametag=True, curves=(3,)))
    b.append(dict(nblocks=[4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1)], nnode=4, symperm=False, symb=1, symn=0, groups=('FLUID', 'fluid2'), volname='air'))
    b.append(dict(nblocks=[4], cells=[('tri3', 2)], bnd=[('bar2', 2), ('bar2', 1), ('bar2', 1)], nnode=4, symperm=False, symb=1, symn=0, groups=('wall', 'wall2', 'Wall'), volname='wal'))
    b.append(dict(nblocks=[4], cells=[('tri3', 2)], bnd=[('bar2', 2), ('bar2', 1)], nnode=4, symperm=False, symb=1, symn=0, above=1, volgroups=2))
    b.append(dict(nblocks=[4], cells=[('tri3', 1), ('quad4', 1)], bnd=[('bar2', 1), ('bar2', 1)], nnode=4, symperm=False, symb=0, symn=1, above=2, volgroups=3, vols=2))
    b.append(dict(nblocks=[4], cells=[('tetra4', 1)], bnd=[('tri3', 1), ('tri3', 1)], nnode=4, symperm=False, symb=1, symn=0, volgroups=2))
    for o in ('before', 'between'):  # cells are not always the last elements
        b.append(dict(nblocks=[4], cells=[('tri3', 1), ('quad4', 1)], bnd=[('bar2', 1), ('bar2', 2)], named=[(0, 1), 1], nnode=4, symperm=False, symb=1, symn=1, order=o, volgroups=2))
        b.append(dict(nblocks=[6], cells=[('prism6', 1)], bnd=[('tri3', 1), ('quad4', 1), ('tri3', 1)], named=[0, (1, 0), (0, 1)], nnode=6, symperm=False, symb=0, symn=0, order=o, curves=(1,)))
    for pad in (('', '  ', ''), (' ', ' ', ' '), ('\t', '\t ', '  ')):  # blanks between the fields
        a.append(dict(cells=['tri3', 'quad4'], bnd=['bar2', 'bar2'], nnode=4, symn=0, symb=1, symperm=False, pad=pad))
        b.append(dict(nblocks=[3, 2], cells=[('tri3', 1), ('quad4', 1)], bnd=[('bar2', 2), ('bar2', 1)], nnode=5, symperm=False, points=2, symb=1, symn=1, pad=pad))
    if T:
        a.append(dict(cells=['tri3', 'quad4', 'tri3'], bnd=['bar2', 'bar2', 'bar2'], nnode=5, symn=1, symb=1, symperm=False, order='mix', extra=[1], other=['node1']))
        a += [dict(c, symb=3, symn=3) for c in a] + [dict(cells=['tri3', 'tri3'], bnd=['bar2'] * 4, nnode=4, symn=1, symb=4, symperm=False, groups=('a', 'b', 'c'))]
        b += [dict(c, symb=3, symn=3) for c in b]
    L = [dict(ver=2, n=(12, 11), split=5, where=(17,)), dict(ver=4, n=(12, 11), split=5, where=(130,), blocks=7, back=True), dict(ver=2, n=(8, 7, 6), split=4, where=(), stride=3, first=5),
         dict(ver=4, n=(8, 7, 6), split=4, where=(400,), stride=2, blocks=150), dict(ver=2, n=(110, 100), split=3, where=(7000,)), dict(ver=4, n=(110, 100), split=3, where=(), blocks=3),
         dict(ver=2, n=(3, 2), where=(), stride=99991, back=True), dict(ver=4, n=(3, 2), where=(5,), stride=99991, first=70000)]
    if T:
        L += [dict(ver=v, n=(260, 260), split=0) for v in (2, 4)] + [dict(ver=v, n=(30, 22, 20), split=6) for v in (2, 4)]
    return [('many', many, L, {}), ('v2', v2, a, dict(max_replay=8)), ('v4', v4, b, dict(max_replay=8))]
