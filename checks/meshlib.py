"""Shared scenario helpers (work in both the symbolic and the concrete world)."""


def face_table(w, conn):
    """list of (index, [nodes]) of an elem_connectivity, read through its public accessors"""
    out = []
    for etype, e2n in conn.items():
        idx = e2n['index'].list()
        nod = w.plain(e2n['elem2node'])
        assert len(idx) == len(nod)
        out += list(zip(idx, nod))
    return out


def by_index(w, table, n, msg):
    """reorder a (possibly symbolically indexed) table by index; forks on the order"""
    if n > 100:
        d = {int(i): nod for i, nod in table}
        w.check(sorted(d) == list(range(n)) and len(table) == n, f"{msg}: entry missing")
        return [d.get(i) for i in range(n)]
    res = []
    for f in range(n):
        hit = None
        for i, nod in table:
            if i == f:
                hit = nod
                break
        w.check(hit is not None, f"{msg}: entry {f} missing")
        res.append(hit)
    return res


def make_mesh(w, nnode, ncell, xyz):
    M = w.mod('cfdtools.meshbase._mesh')
    m = M.Mesh(ncell, nnode)
    m.set_nodescoord_nd(xyz)
    return m


ETYPE = {2: 'bar2', 3: 'tri3', 4: 'quad4'}


def mixed_faces(w, sizes, nnode, ncell, nbd, neg=False, symcells=True):
    """symbolic mixed face connectivity: sizes[f] nodes for face f; the first nbd faces are boundary faces"""
    C = w.mod('cfdtools.meshbase._connectivity')
    nodes = [w.ints(f'fn{f}', s, 0, nnode - 1) for f, s in enumerate(sizes)]
    for nn in nodes:
        w.assume(w.distinct(nn))
    cells = []
    for f in range(len(sizes)):
        if not symcells:
            cells.append([min(f, ncell - 1), -1 if f < nbd else (f + 1) % ncell])
            continue
        a = w.int(f'fc{f}a', 0, ncell - 1)
        b = (w.int(f'fc{f}b', -3, -1) if neg else -1) if f < nbd else w.int(f'fc{f}b', 0, ncell - 1)
        cells.append([a, b])
    # every cell is referenced by some face (documented precondition of the format: cells are 0..ncell-1)
    if symcells:
        w.assume(w.Or(*[c == ncell - 1 for fc in cells for c in fc]))
    conn = C.elem_connectivity()
    order = sorted(set(sizes))
    for s in order:
        fs = [f for f, z in enumerate(sizes) if z == s]
        conn.add_elems(ETYPE[s], w.array([nodes[f] for f in fs]), C.indexlist(ilist=fs))
    f2c = C.indexindirection(w.array(cells))
    return conn, f2c, nodes, cells


def marks(w, spec):
    """spec: list of (name, type, first, last, rdata or None)"""
    M = w.mod('cfdtools.meshbase._mesh')
    C = w.mod('cfdtools.meshbase._connectivity')
    out = []
    for name, typ, a, b, rd in spec:
        k = M.submeshmark(name)
        k.geodim = 'intface' if typ == 'internal' else 'bdface'
        k.type = typ
        k.index = C.indexlist(irange=[a, b])
        k.properties['periodic_transform'] = rd
        out.append(k)
    return out
