"""C24: summaries tell what meshes and files hold, and change nothing."""
import re

from checks import big as B
from checks import ic3fmt as F
from checks.c20 import Cgns, Gmsh, Gmsh4, Ic3Read, describe
from checks.shapes import NN

META = dict(
    bounds="meshes of up to 10900 cells and variables of up to 70001 values with given numbers, those of picked places being any number; otherwise meshes of up to 3 cells of 6 types with up to 9 nodes of symbolic coordinates and marks of up to 4 symbolic nodes or faces; Gmsh, CGNS and IC3 (2, 3 and 4) files of up to 8 nodes; VTK grids of up "
           "to 9 points; statistics of scalar and vector variables of up to 3 values; three wrong identifiers of files read by cfdinfo --check",
    outside="the wording and layout of the messages, tensor components, the mean of values read bit for bit",
    assumptions=["messages are observed through logging and print; figures shown with 3 decimals (5 for statistics) are compared within this rounding on the real code"],
    must_reach=["many: range of coordinates of a large mesh", "manystats: statistics of a long variable", "mesh: numbers of nodes, cells and faces", "mesh: cells and faces of each type", "mesh: range of coordinates", "mesh: extent of the boundaries", "mesh: mesh unchanged",
                "cfdinfo: numbers of nodes, cells and faces", "cfdinfo: range of coordinates", "cfdinfo: file unchanged", "brief: sections of the file", "vtkbrief: numbers of points and cells",
                "stats: statistics of the variable", "checked: wrong identifiers are refused when checking"],
)
NUM = r'[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?'


def lines(msgs):
    return [l for _, t in msgs for l in str(t).split('\n')]


def shows(w, msgs, key, *nums):
    """some message names `key` and then shows these integers in a row"""
    ok = []
    for l in lines(msgs):
        m = re.search(r'(?<![\w.-])' + re.escape(key) + r'(?![\w-])', l)
        if m:
            v = w.numbers(l[m.end():])
            ok += [w.And(*[a == b for a, b in zip(v[k:], nums)]) for k in range(len(v) - len(nums) + 1)]
    return w.Or(*ok) if ok else False


def extreme(w, v, xs, low, tol):
    if not w.symbolic or all(isinstance(x, (int, float)) for x in [v, *xs]):
        ref = min(xs) if low else max(xs)
        return abs(v - ref) <= tol(ref)
    return w.And(w.Or(*[v == x for x in xs]), *[(v <= x if low else v >= x) for x in xs])


def ranges(w, msgs, xyz, mean, msg="range of coordinates"):
    for k, c in enumerate('xyz'):
        xs = [p[k] for p in xyz]
        got = [w.numbers(l.split('=')[-1] if '=' in l else l.split(':', 1)[-1]) for l in lines(msgs) if re.search(rf'(?<!\w){c}(?!\w)', l, re.I) and re.search('min|max|bound', l)]
        got = [g for g in got if len(g) in (2, 3)]
        w.check(len(got) >= 1, msg)
        for g in got:
            w.check(w.And(extreme(w, g[0], xs, True, lambda r: 6e-4), extreme(w, g[-1], xs, False, lambda r: 6e-4)), msg)
            if mean and len(g) == 3:
                if len(xs) > 100 and w.symbolic and not isinstance(g[1], (int, float)):
                    w.check(w.polyclose(g[1] * len(xs), sum(xs), 1e-6), msg)
                else:
                    w.check(w.close(g[1] * len(xs), sum(xs), 0, 0 if w.symbolic and not isinstance(g[1], (int, float)) else 6e-4 * len(xs)), msg)


def counts(w, msgs, m):
    w.check(shows(w, msgs, 'nnode', m.nnode), "numbers of nodes, cells and faces")
    w.check(shows(w, msgs, 'ncell', m.ncell), "numbers of nodes, cells and faces")
    nf = sum(len(e['index'].list()) for f in m._faces.values() for _, e in f['face2node'].items())
    w.check(shows(w, msgs, 'nface', nf), "numbers of nodes, cells and faces")
    tables = ([m._cell2node] if m._cell2node is not None else []) + [f['face2node'] for f in m._faces.values()]
    for t in tables:
        for name, e in t.items():
            n, nn = w.plain(e['elem2node']), len(w.plain(e['elem2node'])[0])
            w.check(shows(w, msgs, name, len(n), nn), "cells and faces of each type")


def boundaries(w, msgs, m):
    for n, b in m._bocos.items():
        ids = list(b.index.list())
        own = [l for l in lines(msgs) if re.search(r'(?<![\w.-])' + re.escape(n) + r'(?![\w-])', l)]
        w.check(len(own) >= 1, "extent of the boundaries")
        if ids:
            lo, hi = [], []
            for l in own:
                v = w.numbers(l[l.index(n) + len(n):])
                for a, c, *r in zip(v, v[1:], v[2:]) if b.index.type == 'list' else zip(v, v[1:]):
                    lo.append(w.And(*[x == len(ids) for x in r], extreme(w, a, ids, True, lambda r: 0), extreme(w, c, ids, False, lambda r: 0)))
            w.check(w.Or(*lo), "extent of the boundaries")


def mesh(w, types, nnode, faces=None, marks=(), detailed=False, empty=False, params=None):
    """summary of a mesh held in memory"""
    msgs = w.capture_log()
    M, C = w.mod('cfdtools.meshbase._mesh'), w.mod('cfdtools.meshbase._connectivity')
    xyz = [w.reals(f'x{i}', 3, -100, 100) for i in range(nnode)]
    m = M.Mesh(0, nnode)
    m.set_nodescoord_nd(w.array(xyz, float))
    conn = C.elem_connectivity()
    for k, t in enumerate(types):
        ids = [(k + j) % nnode for j in range(NN[t])]
        conn.add_elems(t, w.np.array([ids]))
    if types:
        m.set_cell2node(conn)
    if faces == 'built':
        m.make_face_connectivity()
    elif faces:
        f = C.elem_connectivity()
        start = 0
        for t, n in faces:
            k = {'tri3': 3, 'quad4': 4, 'bar2': 2}[t]
            f.add_elems(t, w.np.array([[(i + j) % nnode for j in range(k)] for i in range(n)]), C.indexlist(ilist=list(range(start, start + n))))
            start += n
        m.add_faces('mixed', f, C.indexindirection(w.np.array([[0, -1]] * start)))
    for k, (name, geodim, n) in enumerate(marks):
        b = M.submeshmark(name)
        b.geodim = geodim
        b.type = 'boundary'
        if isinstance(n, list):
            b.index = C.indexlist(irange=n)
        else:
            b.index = C.indexlist(ilist=w.ints(f'm{k}', n, 0, 20) if k % 2 == 0 else list(range(3, 3 + n)))
        m.add_boco(b)
    if params:
        m.set_params(dict(params))
    kinds = {n: (b.index.type, b.geodim) for n, b in m._bocos.items()}
    before = describe(w, m)
    del msgs[:]
    m.printinfo(detailed=True) if detailed else m.printinfo()
    counts(w, msgs, m)
    ranges(w, msgs, xyz, True)
    boundaries(w, msgs, m)
    w.check(w.same(describe(w, m), before) and {n: (b.index.type, b.geodim) for n, b in m._bocos.items()} == kinds, "mesh unchanged")


class Ic3V4:
    """mesh file of version 4"""

    def prep(self, w, tag):
        C = w.mod('cfdtools.meshbase._connectivity')
        m = w.mod('cfdtools.meshbase._mesh').Mesh(2, 5)
        m.set_nodescoord_nd(w.array([w.reals(f'{tag}x{i}', 3, -1000, 1000) for i in range(5)], float))
        f = C.elem_connectivity()
        f.add_elems('tri3', w.np.array([[0, 1, 2], [1, 3, 4]]), C.indexlist(ilist=[0, 2]))
        f.add_elems('quad4', w.np.array([[1, 2, 3, 4]]), C.indexlist(ilist=[1]))
        m.add_faces('mixed', f, C.indexindirection(w.np.array([[0, -1], [1, -1], [1, 0]])))
        for name, r in (('in', [0, 0]), ('out', [1, 1])):
            b = w.mod('cfdtools.meshbase._mesh').submeshmark(name)
            b.geodim, b.type, b.index = 'bdface', 'boundary', C.indexlist(irange=r)
            b.properties['periodic_transform'] = None
            m.add_boco(b)
        m.set_params({'step': 3, 'dt': 0.5, 'time': 2.0})
        w.mod('cfdtools.ic3.writerV4').writer(m).write_data(w.path(tag + '.h5'))
        return w.path(tag + '.h5')


FILES = {'v4': lambda w: Ic3V4(), 'msh': lambda w: Gmsh([('hexa8', list(range(8)))], [('quad4', [0, 1, 2, 3])]), 'msh2d': lambda w: Gmsh([('quad4', [0, 1, 4, 3]), ('tri3', [1, 2, 4])]),
         'msh4': lambda w: Gmsh4(), 'cgns': lambda w: Cgns(), 'ic3': lambda w: Ic3Read('native'), 'ic3big': lambda w: Ic3Read('big', ver=2), 'ic3little': lambda w: Ic3Read('little', ver=3)}


def prepared(w, kind):
    op = FILES[kind](w)
    op.exact, op.free = True, 2
    f = op.prep(w, 'a')
    return op, f


def reader(w, kind, f):
    if kind.startswith('msh'):
        return w.mod('cfdtools.gmsh').reader(f)
    if kind == 'cgns':
        return w.mod('cfdtools.cgns').cgnsMesh(f)
    if kind == 'v4':
        return w.mod('cfdtools.ic3.readerV4').reader(f)
    return w.mod('cfdtools.ic3.reader_legacy').reader(f)


def cfdinfo(w, kind, opts=()):
    msgs = w.capture_log()
    _, f = prepared(w, kind)
    r = reader(w, kind, f)
    r.read_data()
    m = r.export_mesh()
    xyz = w.plain(m.nodescoord(ndarray=True))
    for p in xyz:
        w.assume(w.And(*[w.And(c >= -1000.0, c <= 1000.0) for c in p]))
    w.protect(f)
    there = w.listdir()
    del msgs[:]
    got = w.mod('cfdtools._cli').cfdinfo([*opts, f])
    w.check(got is True, "command succeeds")
    counts(w, msgs, m)
    ranges(w, msgs, xyz, False)
    boundaries(w, msgs, m)
    w.check(w.And(w.intact(f), w.listdir() == there), "file unchanged")


def checked(w, sec, pos, opt=0):
    """cfdinfo --check refuses a file one identifier of which is wrong"""
    w.capture_log()
    mesh, x = B.build(w, (2, 1, 1))
    x['f'] = {}
    S = F.mesh_sections(x)
    extra = [F.Section(nm, code, [x[k]], payload=list(range(x[k])), fmt=f'{x[k]}i') for nm, code, k in (('NO_CHECK', 30, 'nnode'), ('FA_CHECK', 20, 'nf'), ('CV_CHECK', 40, 'ncell'))]
    secs = [S['counts']] + extra + [v for k, v in S.items() if k != 'counts']
    f = w.path('a.ic3')
    argv = [['--check', f], [f, '--check']][opt]
    info = w.mod('cfdtools._cli').cfdinfo
    w.put_file(f, F.encode(w, secs, 'little', 2))
    w.check(info(argv) is True, "command succeeds")
    bad = w.int('bad', -2**31, 2**31 - 1)
    w.assume(bad != extra[sec].payload[pos])
    extra[sec].payload[pos] = bad
    w.put_file(f, F.encode(w, secs, 'little', 2))
    _, e = w.raises(lambda: info(argv), Exception, SystemExit)
    w.check(e is not None, "wrong identifiers are refused when checking")


def ic3brief(w, kind):
    msgs = w.capture_log()
    _, f = prepared(w, kind)
    w.protect(f)
    there = w.listdir()
    got = w.mod('cfdtools._cli').ic3brief([f])
    w.check(got is True, "command succeeds")
    t = '\n'.join(lines(msgs))
    w.check(all(n in t for n in ('T', 'P', 'EOF')), "sections of the file")
    w.check(w.And(w.intact(f), w.listdir() == there), "file unchanged")


def vtkbrief(w, types, npt, opts=()):
    msgs = w.capture_log()
    xyz = [w.reals(f'x{i}', 3, -100, 100) for i in range(npt)]
    code = {'tetra4': 10, 'hexa8': 12, 'quad4': 9, 'tri3': 5, 'pyra5': 14}
    cells, ids = [], []
    for k, t in enumerate(types):
        cells += [NN[t]] + [(k + j) % npt for j in range(NN[t])]
        ids.append(code[t])
    g = w.pv.UnstructuredGrid(w.np.array(cells), w.np.array(ids), w.array(xyz, float))
    g.cell_data['rho'] = w.array(w.reals('r', len(types), -10, 10), float)
    g.point_data['temp'] = w.array(w.reals('t', npt, -10, 10), float)
    f = w.path('a.vtu')
    g.save(f)
    w.protect(f)
    there = w.listdir()
    del msgs[:]
    got = w.mod('cfdtools._cli').vtkbrief([*opts, f])
    w.check(got is True, "command succeeds")
    w.check(shows(w, msgs, 'ncells', len(types)), "numbers of points and cells")
    w.check(shows(w, msgs, 'npoints', npt), "numbers of points and cells")
    ranges(w, msgs, xyz, False)
    t = '\n'.join(lines(msgs))
    w.check('rho' in t and 'temp' in t, "names of the data")
    w.check(w.And(w.intact(f), w.listdir() == there), "file unchanged")


def summary(w, msgs, cells, xyz, marks, mean):
    """figures shown for a mesh of many cells"""
    n = {}
    for t, _ in cells:
        n[t] = n.get(t, 0) + 1
    w.check(w.And(shows(w, msgs, 'nnode', len(xyz)), shows(w, msgs, 'ncell', len(cells))), "numbers of nodes, cells and faces of a large mesh")
    w.check(w.And(*[shows(w, msgs, t, k, NN[t]) for t, k in n.items()]), "numbers of nodes, cells and faces of a large mesh")
    ranges(w, msgs, xyz, mean, "range of coordinates of a large mesh")
    for nm, ids in marks.items():
        w.check(shows(w, msgs, nm, min(ids), max(ids)), "extent of the boundaries of a large mesh")


def many(w, n, how, split=0, where=()):
    msgs = w.capture_log()
    free = lambda nm: w.real(nm, -1000, 1000)  # noqa: E731
    if how == 'mesh':
        m, x = B.mesh(w, n, split, where, sym=free)
        m.make_face_connectivity()
        for b in m._bocos.values():
            ids = list(b.index.list())
            mid = ids[1:-1]
            mid = mid[1::2] + mid[0::2]
            # the extrema are where a sampling does not see them
            b.index = w.mod('cfdtools.meshbase._connectivity').indexlist(ilist=mid[:7] + ids[:1] + mid[7:10] + ids[-1:] + mid[10:])
        del msgs[:]
        m.printinfo()
        summary(w, msgs, x['cells'], x['xyz'], x['marks'], True)
        counts(w, msgs, m)
        return
    if how == 'vtk':
        cells, pos, _ = B.rectangle(n, split) if len(n) == 2 else B.box(n, split)
        xyz, x = B.array(w, 'x', (len(pos), 3), where, free)
        code = {'tri3': 5, 'quad4': 9, 'hexa8': 12, 'prism6': 13}
        g = w.pv.UnstructuredGrid(w.np.array([v for t, c in cells for v in [len(c)] + c]), w.np.array([code[t] for t, _ in cells], dtype='uint8'), xyz)
        g.save(w.path('a.vtu'))
        del msgs[:]
        w.check(w.mod('cfdtools._cli').vtkbrief([w.path('a.vtu')]) is True, "command succeeds")
        w.check(w.And(shows(w, msgs, 'ncells', len(cells)), shows(w, msgs, 'npoints', len(pos))), "numbers of nodes, cells and faces of a large mesh")
        ranges(w, msgs, x, False, "range of coordinates of a large mesh")
        return
    m, x = B.build(w, n, split, [], part=False)
    f = w.path('a.h5' if how == 4 else 'a.ic3')
    w.mod('cfdtools.ic3.readerV4')
    w.mod('cfdtools.ic3.writerV4' if how == 4 else f'cfdtools.ic3.writerV{how}').writer(m).write_data(f)
    del msgs[:]
    w.check(w.mod('cfdtools._cli').cfdinfo([f]) is True, "command succeeds")
    w.check(w.And(shows(w, msgs, 'nnode', x['nnode']), shows(w, msgs, 'ncell', x['ncell']), shows(w, msgs, 'nface', x['nf'])), "numbers of nodes, cells and faces of a large mesh")
    ranges(w, msgs, x['xyz'], False, "range of coordinates of a large mesh")
    for nm, _, a, b, _ in x['spec']:
        w.check(shows(w, msgs, nm, a, b), "extent of the boundaries of a large mesh")


def manystats(w, n, loc, where=()):
    """statistics of a variable of many values"""
    msgs = w.capture_log()
    nnode, ncell = (n, 2) if loc == 'n' else (3, n)
    vals = [1000 * B.number(i) % 7.0 - 3.0 for i in range(n)]
    for p in where:
        vals[p] = w.f64(f'd{p}')
        w.assume(w.And(vals[p] >= -1000.0, vals[p] <= 1000.0))
    x = dict(nf=2, nnode=nnode, ncell=ncell, ndof=1, nodes=[[0, 1, 2], [2, 1]], cells=[[0, -1], [ncell - 1, 0]], spec=[('in', 'boundary', 0, 0, None)],
             xyz=[[1.0 * i, 0.5, 0.25] for i in range(nnode)], params={'step': 1, 'dt': 0.5}, n={}, c={})
    x[loc]['MYVAR'] = ('s', vals, (n,))
    f = w.path('a.ic3')
    w.put_file(f, F.encode(w, list(F.mesh_sections(x).values()), 'native', 3))
    r = w.mod('cfdtools.ic3.reader_legacy').reader(f)
    del msgs[:]
    r.read_data()
    own = [w.numbers(l.split(':', 1)[1]) for l in lines(msgs) if 'MYVAR' in l and 'mean' in l]
    w.check(len(own) == 1 and len(own[0]) == 3, "statistics of a long variable")
    if len(own) == 1 and len(own[0]) == 3:
        a, b, c = own[0]
        tol = lambda r: 1e-5 * abs(r) + 1e-300  # noqa: E731
        w.check(w.And(extreme(w, a, vals, True, tol), extreme(w, c, vals, False, tol)), "statistics of a long variable")
        if not where:
            w.check(abs(b - sum(vals) / n) <= 2e-4, "statistics of a long variable")


def stats(w, kind, loc, n):
    """statistics printed for the variables of a restart file"""
    msgs = w.capture_log()
    ndim = {'s': (), 'v': (3,)}[kind]
    nnode, ncell = (n, 2) if loc == 'n' else (3, n)
    vals = [w.f64s(f'd{i}', 3) if i < 2 else [0.5, -3.0, 0.0] for i in range(n)] if kind == 'v' else w.f64s('d', 2) + [0.5, -3.0, 0.0][:n - 2]
    for v in (c for p in vals for c in p) if kind == 'v' else vals:
        w.assume(w.And(v >= -1000.0, v <= 1000.0))
    x = dict(nf=2, nnode=nnode, ncell=ncell, ndof=1, nodes=[[0, 1, 2], [2, 1]], cells=[[0, -1], [ncell - 1, 0]], spec=[('in', 'boundary', 0, 0, None)],
             xyz=[[1.0 * i, 0.5, 0.25] for i in range(nnode)], params={'step': 1, 'dt': 0.5}, n={}, c={})
    x[loc]['MYVAR'] = (kind, vals, (n, *ndim))
    f = w.path('a.ic3')
    w.put_file(f, F.encode(w, list(F.mesh_sections(x).values()), 'native', 3))
    r = w.mod('cfdtools.ic3.reader_legacy').reader(f)
    del msgs[:]
    r.read_data()
    own = [l for l in lines(msgs) if 'MYVAR' in l and 'mean' in l]
    nc = 3 if kind == 'v' else 1
    w.check(len(own) == nc, "statistics of the variable")
    if len(own) != nc:
        return
    tol = lambda r: 1e-5 * abs(r) + 1e-300  # noqa: E731
    for k, l in enumerate(own):
        v = w.numbers(l.split(':', 1)[1])
        xs = [p[k] for p in vals] if kind == 'v' else vals
        w.check(len(v) == 3, "statistics of the variable")
        w.check(w.And(extreme(w, v[0], xs, True, tol), extreme(w, v[-1], xs, False, tol)), "statistics of the variable")


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=4, budget=200 if not T else 1500)
    ms = [dict(types=['hexa8'], nnode=8, marks=[('wall', 'bdnode', 4), ('inlet', 'bdnode', 1), ('run', 'bdnode', 2), ('run2', 'bdnode', 3), ('leading-edge-of-the-upper-blade', 'bdnode', 2), ('leading-edge-of-the-lower-blade' + 3 * '-and-more', 'bdnode', 3)]), dict(types=['tri3', 'quad4'], nnode=5, marks=[('w1', 'bdnode', 2)], faces='built'),
          dict(types=['tetra4', 'pyra5', 'prism6'], nnode=9, detailed=True, params={'step': 3}), dict(types=[], nnode=4, faces=[('tri3', 1), ('quad4', 2)], marks=[('in', 'bdface', [0, 1]), ('out', 'bdface', [2, 2])]),
          dict(types=['tetra4'], nnode=4, faces='built', marks=[('none', 'bdnode', 0), ('all', 'bdnode', 3)])]
    if T:
        ms += [dict(types=[a, b], nnode=9, faces=f, detailed=d, marks=[('m', 'bdnode', 3)]) for a, b in (('tetra4', 'hexa8'), ('hexa8', 'prism6'), ('pyra5', 'tetra4')) for f in (None, 'built') for d in (False, True)]
    L = [dict(n=(6, 5, 4), how='mesh', split=3, where=(0, 149)), dict(n=(26, 20, 21), how='mesh', where=(9001,)), dict(n=(60, 40, 2), how='mesh'), dict(n=(101, 101), how='vtk', where=(9973,), split=4), dict(n=(8, 7, 6), how='vtk', where=(401,)),
         dict(n=(6, 5, 4), how=4, split=3), dict(n=(26, 20, 21), how=3), dict(n=(22, 22, 22), how=4)]
    S = [dict(n=1500, loc='n', where=(1489,)), dict(n=1500, loc='c', where=(0,)), dict(n=20011, loc='c'), dict(n=70001, loc='n')]
    return [('many', many, L, o), ('manystats', manystats, S, o), ('mesh', mesh, ms, o), ('cfdinfo', cfdinfo, [dict(kind=k, opts=x) for k in FILES for x in ([], ['--check', '--info'])], o), ('brief', ic3brief, [dict(kind=k) for k in FILES if k.startswith('ic3')], o),
            ('checked', checked, [dict(sec=i, pos=p, opt=i % 2) for i, p in ((0, 5), (1, -1), (2, 0))], o),
            ('vtkbrief', vtkbrief, [dict(types=t, npt=n) for t, n in ((['tetra4'], 4), (['hexa8', 'tetra4'], 9), (['quad4', 'tri3'], 5))] + [dict(types=['tetra4'], npt=5, opts=['--check'])], o),
            ('stats', stats, [dict(kind=k, loc=l, n=n) for k in 'sv' for l, n in (('n', 3), ('c', 2), ('c', 3))], o)]
