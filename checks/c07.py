"""C07: connectivity containers behave as the sequences they represent."""
META = dict(
    bounds="lists of up to 70000 indices, one of which is any integer (2000 indices) or all are given, connectivities of up to 70001 elements in up to 150 parts with given numbers; otherwise index lists and ranges of up to 4 symbolic values, sequences of up to 4 operations; connectivities of up to 5 elements of up to 3 "
           "types in up to 4 blocks with symbolic indices and nodes; up to 3 merged connectivities; face lists of up to 5 faces of 2 to 4 nodes",
    outside="longer lists, changing an index list or an array after it was given to a container",
    assumptions=["indices given to a connectivity are distinct"],
    must_reach=["long: long list of values", "manyelems: merge of many elements", "lists: list of values", "lists: compression gives a range for consecutive values only", "elems: every index keeps its nodes",
                "csr: exported list of nodes", "merge: merged connectivity holds every element with shifted index"],
)
BIG = 2**40


def make(w, C, name, kind, n, given=None):
    if kind == 'list':
        v = w.ints(name, n, -BIG, BIG)
        arg = list(v)
        if given is not None:
            given.append(arg)
        return C.indexlist(ilist=arg), v
    if kind == 'array':
        v = w.ints(name, n, -BIG, BIG)
        return C.indexlist(ilist=w.array(v, dtype='int64')), v
    a = w.int(name, -BIG, BIG)
    return C.indexlist(irange=[a, a + n - 1]), [a + k for k in range(n)]


def agree(w, x, v, msg="list of values"):
    w.check(w.same(x.list(), v), msg)
    w.check(x.size == len(v), "size of list")
    if x.type == 'range':
        w.check(w.same(list(x.range()), [v[0], v[-1]] if v else list(x.range())), "range goes from first to last value")
    for k in range(-len(v), len(v)):
        w.check(w.same(x[k], v[k]), "access by position")
    if len(v) > 1:
        w.check(w.same(list(x[1:]), v[1:]), "access by position")


def lists(w, kind, n, ops):
    C = w.mod('cfdtools.meshbase._connectivity')
    given = []
    x, v = make(w, C, 'a', kind, n, given)
    agree(w, x, v)
    others, first = [], list(v)
    if given:  # a second list built from the same values
        others.append((C.indexlist(ilist=given[0]), list(v)))
    for k, op in enumerate(ops):
        before, bv = x, list(v)
        if op == 'shift':
            s = w.int(f's{k}', -BIG, BIG)
            x = x.shift(s)
            v = [i + s for i in v]
            agree(w, before, bv, "shift leaves its operand")
            others.append((before, bv))
        elif op[:3] == 'add':
            y, yv = make(w, C, f'b{k}', op[4:], 2)
            x = x + y
            v = v + yv
            agree(w, before, bv, "sum leaves its operands")
            agree(w, y, yv, "sum leaves its operands")
            others += [(before, bv), (y, yv)]
        elif op == 'append':
            yv = w.ints(f'b{k}', 2, -BIG, BIG)
            arg = list(yv)
            x.append(arg)
            v = v + yv
            w.check(w.same(arg, yv), "append leaves its argument")
        elif op == 'append3':
            yv = w.ints(f'b{k}', 3, -BIG, BIG)
            x.append(list(yv))
            v = v + yv
        elif op == 'append1':
            yv = w.ints(f'b{k}', 1, -BIG, BIG)
            x.append(yv)
            v = v + yv
        elif op == 'compress':
            x.compress()
            consecutive = w.And(*[v[i + 1] == v[i] + 1 for i in range(len(v) - 1)])
            w.check((x.type == 'range') == consecutive, "compression gives a range for consecutive values only")
        elif op == 'set_range':
            a = w.int(f'r{k}', -BIG, BIG)
            x.set_range([a, a + 1])
            v = [a, a + 1]
        elif op == 'set_list':
            v = w.ints(f'b{k}', 2, -BIG, BIG)
            x.set_list(list(v))
        agree(w, x, v)
    if x.type == 'list':
        r, e = w.raises(lambda: x.range(), Exception, SystemExit)
        w.check(e is not None, "a list has no range")
    if others:  # a new list shares nothing with those it comes from
        u = w.int('u', -BIG, BIG)
        x.append([u])
        v = v + [u]
        for y, yv in others:
            agree(w, y, yv, "a shifted list or a sum shares nothing with its operands")
        if given:
            w.check(w.same(given[0], first), "the list given to build one is left as it was")
        for y, yv in others:
            y.append([u + 1])
        agree(w, x, v, "a shifted list or a sum shares nothing with its operands")


NN = dict(bar2=2, tri3=3, quad4=4, tetra4=4, hexa8=8, prism6=6, pyra5=5)

TOP = {'int64': BIG, 'int32': 2**31 - 1, 'int16': 2**15 - 1, 'uint8': 255}


def build(w, C, tag, blocks, shift=0, perm=True, maxnode=BIG):
    """blocks: list of (type, n, how) with how 'auto', 'list', 'range'; indices are a permutation of range(total)"""
    conn = C.elem_connectivity()
    tot = sum(b[1] for b in blocks)
    if perm:
        p = w.permutation(f'{tag}p', tot) if tot else []
    else:
        p, a = [], 0
        for _, n, how, *_ in blocks:  # decreasing inside a list
            p += list(range(a, a + n))[::-1 if how == 'list' else 1]
            a += n
    out, pos = [], 0
    for k, (t, n, how, *kind) in enumerate(blocks):
        kind = kind[0] if kind else 'int64'
        nodes = [w.ints(f'{tag}n{k}_{i}', NN[t], 0, min(maxnode, TOP[kind])) for i in range(n)]
        if how == 'auto':
            ids = list(range(pos, pos + n))
            w.assume(w.same(p[pos:pos + n], ids) if perm else True)
            p[pos:pos + n] = ids
            idx = None
        elif how == 'range':
            a = p[pos]
            w.assume(w.And(*[p[pos + i] == a + i for i in range(n)]))
            ids = [a + i for i in range(n)]
            idx = C.indexlist(irange=[a, a + n - 1])
        else:
            ids = p[pos:pos + n]
            idx = C.indexlist(ilist=list(ids))
        conn.add_elems(t, w.array(nodes, dtype=kind), idx)
        out += list(zip([t] * n, ids, nodes))
        pos += n
    return conn, out


def holds(w, conn, model, msg):
    """model: list of (type, index, nodes) in order of insertion"""
    types = []
    for t, _, _ in model:
        if t not in types:
            types.append(t)
    w.check(list(conn.elems()) == types and list(conn.keys()) == types, "types of elements in order")
    w.check(conn.nelem == len(model), "number of elements")
    want = [(i, n) for t in types for tt, i, n in model if tt == t]
    w.check(w.same([[i, n] for i, n in conn.index_elem_tuples()], [[i, n] for i, n in want]), msg)
    w.check(w.same(list(conn.all_index()), [i for i, _ in want]), "list of indices")
    for t in types:
        w.check(w.same(conn[t], [n for tt, _, n in model if tt == t]), "nodes of a type")


def elems(w, blocks, pick=(), maxnode=BIG, nodelist=False):
    C = w.mod('cfdtools.meshbase._connectivity')
    conn, model = build(w, C, '', blocks, maxnode=maxnode)
    holds(w, conn, model, "every index keeps its nodes")
    w.check(conn.check() is True, "consistent indices are accepted")
    if nodelist:
        got = list(conn.nodelist())
        alln = [v for _, _, n in model for v in n]
        w.check(w.distinct(got), "nodes are listed once")
        w.check(w.And(*[w.Or(*[v == g for g in got]) for v in alln], *[w.Or(*[v == g for v in alln]) for g in got]), "exactly the nodes of the elements are listed")
    if pick:
        sel = w.ints('sel', pick, 0, len(model) - 1)
        got = list(conn.nodes_of_indexlist(list(sel)))
        inn = [(w.Or(*[s == i for s in sel]), n) for _, i, n in model]
        w.check(w.distinct(got), "nodes of selected elements are listed once")
        w.check(w.And(*[w.Implies(c, w.Or(*[v == g for g in got])) for c, n in inn for v in n]), "nodes of selected elements")
        w.check(w.And(*[w.Or(*[w.And(c, g == v) for c, n in inn for v in n]) for g in got]), "only nodes of selected elements")
    holds(w, conn, model, "every index keeps its nodes")


def badindex(w, n):
    """check() refuses indices which are not a permutation"""
    C = w.mod('cfdtools.meshbase._connectivity')
    ids = w.ints('i', n, -2, n + 1)
    conn = C.elem_connectivity()
    conn.add_elems('tri3', w.array([[0, 1, 2]] * (n - 1)), C.indexlist(ilist=ids[:-1]))
    conn.add_elems('quad4', w.array([[0, 1, 2, 3]]), C.indexlist(ilist=ids[-1:]))
    _, e = w.raises(conn.check, Exception, SystemExit)
    ok = w.And(w.distinct(ids), *[w.And(i >= 0, i < n) for i in ids])
    w.check((e is None) == ok, "indices are accepted if and only if they number the elements")


def csr(w, sizes, how):
    C = w.mod('cfdtools.meshbase._connectivity')
    name = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
    nodes = [w.ints(f'n{i}', s, 0, BIG) for i, s in enumerate(sizes)]
    start = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
    flat = [v for n in nodes for v in n]
    conn = C.elem_connectivity()
    if how == 'import':
        z = C.compressed_listofindex(w.array(start, dtype='int64'), w.array(flat, dtype='int64'))
        w.check(z.check() is True and z.size == len(flat), "compressed list is consistent")
        conn.importfrom_compressedindex(z)
        tab = {int(i): n for i, n in conn.index_elem_tuples()}
        w.check(sorted(tab) == list(range(len(sizes))) and conn.nelem == len(sizes), "indices of imported faces")
        w.check(w.same([tab[i] for i in range(len(sizes))], nodes), "nodes of imported faces")
        for t, e in conn.items():
            w.check(w.same(e['elem2node'], [nodes[int(i)] for i in e['index'].list()]), "nodes of imported faces by type")
    else:       # blocks by type with symbolic indices
        p = w.permutation('p', len(sizes))
        # p[i]: index of the i-th face given
        for s in sorted(set(sizes), reverse=(how == 'desc')):
            k = [i for i, z in enumerate(sizes) if z == s]
            conn.add_elems(name[s], w.array([nodes[i] for i in k], dtype='int64'), C.indexlist(ilist=[p[i] for i in k]))
        order = [int([i for i in range(len(sizes)) if p[i] == k][0]) for k in range(len(sizes))]
        nodes = [nodes[i] for i in order]
        start = [sum(len(n) for n in nodes[:i]) for i in range(len(nodes) + 1)]
        flat = [v for n in nodes for v in n]
    out = conn.exportto_compressedindex()
    w.check(w.same(list(out._index), start), "exported starts of lists")
    w.check(w.same(list(out._value), flat), "exported list of nodes")
    back = C.elem_connectivity()
    back.importfrom_compressedindex(out)
    tab = {int(i): n for i, n in back.index_elem_tuples()}
    w.check(w.same([tab.get(i) for i in range(len(sizes))], nodes), "import of an export")


def merge(w, parts, perm=True):
    C = w.mod('cfdtools.meshbase._connectivity')
    conns, models = [], []
    for k, blocks in enumerate(parts):
        c, m = build(w, C, f'c{k}', blocks, perm=perm)
        conns.append(c)
        models.append(m)
    out = C.elem_connectivity()
    out.importfrom_merge(tuple(conns))
    types, model, off = [], [], 0
    for m in models:
        model += [(t, i + off, n) for t, i, n in m]
        off += len(m)
    w.check(out.nelem == off, "number of elements")
    got = [(t, i, n) for t, e in out.items() for i, n in zip(e['index'].list(), w.plain(e['elem2node']))]
    w.check(len(got) == len(model), "number of elements")
    w.check(w.And(*[w.Or(*[w.And(i == j, w.same(n, q)) for u, j, q in got if u == t]) for t, i, n in model]),
            "merged connectivity holds every element with shifted index")
    w.check(all(isinstance(i, float) is False for _, i, _ in got), "indices are integers")
    w.check(out.check() is True, "merged indices are consistent")
    for c, m in zip(conns, models):
        holds(w, c, m, "merge leaves its operands")


def pairs(w, sizes, kinds=()):
    C = w.mod('cfdtools.meshbase._connectivity')
    x = C.indexindirection()
    w.check(x.nelem == 0, "empty at first")
    model = []
    for k, n in enumerate(sizes):
        t = kinds[k] if kinds else 'int64'
        a = w.intarray(f'a{k}', (n, 2), -TOP[t], TOP[t], t)
        x.append(a)
        model += w.plain(a)
        w.check(x.nelem == len(model), "number of pairs")
        w.check(w.same(x.conn, model), "pairs in order")
    for i in range(len(model)):
        w.check(w.same(list(x[i]), model[i]) and w.same(list(x[i:i + 1, 1]), [model[i][1]]), "access to pairs")
    _, e = w.raises(lambda: x.append(w.intarray('bad', (2, 3), 0, 5)), Exception)
    w.check(e is not None, "only pairs are accepted")
    b = w.intarray('b', (2, 2), -BIG, BIG)
    x.conn = b
    w.check(w.And(x.nelem == 2, w.same(x.conn, b)), "pairs are replaced")


def long(w, n, order='up', start=0, free=None):
    """a list of many given indices, one of which (at `free`) is any integer"""
    C = w.mod('cfdtools.meshbase._connectivity')
    v = {'up': lambda: list(range(start, start + n)), 'down': lambda: list(range(start + n - 1, start - 1, -1)), 'swap': lambda: list(range(start, start + n - 2)) + [start + n - 1, start + n - 2],
         'mixed': lambda: [start + (k * 7919) % n for k in range(n)], 'gap': lambda: list(range(start, start + n - 1)) + [start + n],
         'twice': lambda: [start] + list(range(start, start + n - 1))}[order]()
    if free is not None:
        v[free] = w.int('v', -BIG, BIG)
    x = C.indexlist(ilist=list(v))
    w.check(x.size == n and w.same(x.list(), v), "long list of values")
    x.compress()
    straight = w.And(*[v[i + 1] == v[i] + 1 for i in range(n - 1)])
    w.check((x.type == 'range') == straight, "compression gives a range for consecutive values only")
    w.check(x.size == n and w.same(x.list(), v), "long list of values")
    y = x.shift(1000003)
    w.check(w.same(y.list(), [i + 1000003 for i in v]) and w.same(x.list(), v), "long list of values")
    z = x + y
    w.check(z.size == 2 * n and w.same(z.list(), v + [i + 1000003 for i in v]), "long list of values")
    x.append([7])
    w.check(w.same(x.list(), v + [7]), "long list of values")


def longelems(w, sizes, parts=1, step=31, first=0):
    """many elements of several types, given numbers: export, import, merge, check"""
    C = w.mod('cfdtools.meshbase._connectivity')
    name = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
    n = len(sizes)
    nodes = [[first + (13 * i + 5 * j * j + j) % (3 * n + 11) for j in range(k)] for i, k in enumerate(sizes)]
    perm = [(k * step) % n for k in range(n)]   # the order in which elements are given
    assert len(set(perm)) == n
    conn = C.elem_connectivity()
    cut = [n * k // parts for k in range(parts + 1)]
    given = {}
    for a, b in zip(cut, cut[1:]):
        for s in (4, 2, 3):
            ids = [i for i in perm[a:b] if sizes[i] == s]
            if ids:
                conn.add_elems(name[s], w.np.array([nodes[i] for i in ids], dtype='int64'), C.indexlist(ilist=list(ids)))
                given.setdefault(s, []).extend(ids)
    w.check(conn.nelem == n and conn.check() is True, "many elements are numbered")
    w.check({t: (list(e['index'].list()), w.plain(e['elem2node'])) for t, e in conn.items()} == {name[s]: (ids, [nodes[i] for i in ids]) for s, ids in given.items()}, "every index keeps its nodes among many")
    w.check(sorted((int(i), [int(v) for v in q]) for i, q in conn.index_elem_tuples()) == list(enumerate(nodes)), "every index keeps its nodes among many")
    w.check(sorted(int(i) for i in conn.all_index()) == list(range(n)), "every index keeps its nodes among many")
    sel = [(k * k + 3) % n for k in range(min(n, 400))]
    w.check(sorted(int(i) for i in conn.nodes_of_indexlist(sel)) == sorted({v for i in sel for v in nodes[i]}), "nodes of many selected elements")
    z = conn.exportto_compressedindex()
    start = [0]
    for q in nodes:
        start.append(start[-1] + len(q))
    w.check([int(i) for i in z._index] == start and [int(i) for i in z._value] == [v for q in nodes for v in q], "exported starts and nodes of many lists")
    back = C.elem_connectivity()
    back.importfrom_compressedindex(C.compressed_listofindex(w.np.array(start), w.np.array([v for q in nodes for v in q])))
    w.check(back.nelem == n and sorted((int(i), [int(v) for v in q]) for i, q in back.index_elem_tuples()) == list(enumerate(nodes)), "import of many lists")
    ones = []
    for k in range(parts):
        one = C.elem_connectivity()
        ids = list(range(cut[k], cut[k + 1]))
        for s in (3, 4, 2):
            l = [i for i in ids if sizes[i] == s]
            if l:
                one.add_elems(name[s], w.np.array([nodes[i] for i in l], dtype='int64'), C.indexlist(ilist=[i - cut[k] for i in l]))
        ones.append(one)
    out = C.elem_connectivity()
    out.importfrom_merge(tuple(ones))
    w.check(out.nelem == n and sorted((int(i), [int(v) for v in q]) for i, q in out.index_elem_tuples()) == list(enumerate(nodes)), "merge of many elements")


def sizes_of(n, kinds):
    return [kinds[(i * i + i // 3) % len(kinds)] for i in range(n)]


def manyelems(w, n, kinds, parts=1, step=31, first=0):
    longelems(w, sizes_of(n, kinds), parts, step, first)


def scenarios(tier):
    T = tier == 'thorough'
    L = []
    for kind in ('list', 'array', 'range'):
        for ops in (['compress'], ['shift', 'compress', 'shift'], ['append', 'compress'], ['add:range', 'compress', 'shift'], ['add:list', 'append1'],
                    ['set_range', 'append1', 'compress'], ['compress', 'set_list', 'compress', 'append'], ['add:array', 'shift']):
            L.append(dict(kind=kind, n=3 if T else 2, ops=ops))
        L.append(dict(kind=kind, n=4, ops=['compress', 'shift']))
        L.append(dict(kind=kind, n=1, ops=['compress', 'append1', 'compress']))
        L.append(dict(kind=kind, n=2, ops=['append3', 'compress']))
        if T:
            L.append(dict(kind=kind, n=4, ops=['shift', 'append', 'compress', 'add:range', 'compress']))
    L.append(dict(kind='list', n=0, ops=['compress']))
    L.append(dict(kind='list', n=0, ops=['append', 'compress']))
    E = [dict(blocks=[('tri3', 2, 'list'), ('quad4', 1, 'list'), ('tri3', 1, 'list')], pick=1),
         dict(blocks=[('tri3', 2, 'auto'), ('quad4', 2, 'auto'), ('tri3', 1, 'auto')]),
         dict(blocks=[('quad4', 1, 'auto'), ('bar2', 2, 'range'), ('quad4', 1, 'list')], pick=1),
         dict(blocks=[('hexa8', 1, 'list'), ('prism6', 1, 'list'), ('tetra4', 1, 'list'), ('pyra5', 1, 'list')]),
         dict(blocks=[('bar2', 2, 'range'), ('bar2', 2, 'range'), ('bar2', 1, 'list')]),
         dict(blocks=[('bar2', 2, 'auto'), ('tri3', 1, 'auto')], maxnode=3, nodelist=True),
         dict(blocks=[('tri3', 1, 'list'), ('bar2', 1, 'list')], pick=2, nodelist=True)]
    E += [dict(blocks=[('tri3', 1, 'list', a), ('tri3', 2, 'list', b)], pick=1) for a, b in (('int32', 'int64'), ('int16', 'int32'), ('int64', 'int32'), ('uint8', 'int64'))]
    E += [dict(blocks=[('tri3', 1, 'list', 'int32'), ('quad4', 1, 'list', 'int64'), ('tri3', 1, 'list', 'int16')])]
    Z = [dict(sizes=s, how=h) for s in ([3, 4, 3], [4, 4], [3], [2, 4, 3, 2], [4, 3, 3, 4, 2]) for h in ('import', 'asc', 'desc')
         if not (h != 'import' and len(s) > 4 and not T)]
    t, q, b = ('tri3', 1, 'list'), ('quad4', 2, 'list'), ('bar2', 1, 'auto')
    G = [dict(parts=[[t, q], [q, t]]), dict(parts=[[t], [q], [t]]), dict(parts=[[b], [t, b]]), dict(parts=[[q], [q], [b, q]], perm=False),
         dict(parts=[[], [t, q]]), dict(parts=[[t], [], [t]]), dict(parts=[[('quad4', 2, 'range')], [('quad4', 2, 'range')]]),
         dict(parts=[[t, t], [t]]), dict(parts=[[t]]), dict(parts=[[('tri3', 1, 'list', 'int32')], [t], [('quad4', 1, 'list', 'int16')]]), dict(parts=[[('tri3', 1, 'list', 'int16')], [('tri3', 1, 'list', 'int32'), q], [t]])]
    Pr = [dict(sizes=s) for s in ([2], [1, 2], [3, 0, 1])] + [dict(sizes=[1, 2, 1], kinds=k) for k in (('int32', 'int64', 'int32'), ('int16', 'int32', 'int64'), ('int64', 'int32', 'int16'))]
    o = dict(max_replay=20, budget=2000 if T else 60)
    H = [dict(n=n, order=k) for n in (50, 1025) for k in ('up', 'down', 'swap', 'mixed', 'gap', 'twice')] + [dict(n=70000, order=k, start=5) for k in ('up', 'swap', 'mixed')]
    H += [dict(n=n, order='up', free=f, start=7) for n, f in ((40, 0), (40, 39), (300, 150), (2000, 1999))]
    Y = [dict(n=40, kinds=(3, 4)), dict(n=1000, kinds=(3, 4, 2), parts=40), dict(n=12001, kinds=(4, 3), parts=3, first=1000000), dict(n=40000, kinds=(4,), step=1), dict(n=70001, kinds=(3, 4), step=1), dict(n=300, kinds=(2,), parts=150, step=7)]
    return [('long', long, H, o), ('manyelems', manyelems, Y, {}), ('lists', lists, L, o), ('elems', elems, E, o), ('badindex', badindex, [dict(n=2), dict(n=3)], o), ('csr', csr, Z, o),
            ('merge', merge, G, o), ('pairs', pairs, Pr, o)]
