"""C20: results do not depend on what was done before."""
import os

from checks import ic3fmt as F
from checks.c11 import node, text
from checks.shapes import NN

META = dict(
    bounds="every pair of 26 operations (reading Gmsh 2 and 4, CGNS, IC3 of both byte orders, truncated IC3; writing IC3 2, 3, 4 and VTK; boxes, extrusion, probes, VTK files and series, commands) one after "
           "the other, files replaced by other ones of the same names and read again, and the same operation on two files that only differ in one thing in both orders, every interleaving of the steps of some pairs (all pairs in the thorough tier), one mesh written in 4 formats in every order, each question asked "
           "2 or 3 times on the same objects; small meshes whose floats are 64 free bits",
    outside="histories of more than two operations, changes made directly to the arrays of a mesh, the data an IC3 reader hands over to the mesh it exports (shared by design), "
            "threads",
    assumptions=["a session is a process: a new one starts with the modules of cfdtools just loaded", "external libraries keep no state that matters (replayed on the real ones)"],
    must_reach=["before: same result as in a fresh session", "rewritten: same result as in a fresh session", "interleaved: same result as in a fresh session", "again: same result when asked again",
                "imports: same result whatever is imported first", "formats: same file whatever was written before", "apart: two results share nothing", "memo: a function which keeps its results gives those of the function"],
)
GCODE = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7}


# ------------------------------------------------------------------------------ what is compared
def describe(w, m):
    """everything a mesh holds"""
    out = [m.ncell, m.nnode, w.plain(m.nodescoord(ndarray=True))]
    if m._cell2node is not None:
        out.append([[t, e['index'].list(), w.plain(e['elem2node'])] for t, e in sorted(m._cell2node.items())])
    for kind, f in sorted(m._faces.items()):
        out.append([kind, [[t, list(e['index'].list()), w.plain(e['elem2node'])] for t, e in sorted(f['face2node'].items())], w.plain(f['face2cell'].conn)])
    for n, b in m._bocos.items():
        t = b.properties.get('periodic_transform')
        out.append([n, b.type, b.geodim, list(b.index.list()), 'none' if t is None else w.plain(t)])
    out.append([[k, v] for k, v in sorted(m._params.items())])
    for ds in (m._nodedata, m._celldata, m._facedata):
        if ds:
            out.append([[k, w.plain(ds[k])] for k in ds.keys()])
    return out


# -------------------------------------------------------------------------------------- operations
def coordinates(w, op, name, n):
    return w.array([w.reals(f'{name}{i}', 3, -1000, 1000) for i in range(n)], float) if getattr(op, 'exact', False) else w.f64array(name, (n, 3))


# prep(w, tag) makes the inputs (without cfdtools), run(w, x) is a generator whose last item is the result
class Gmsh:
    def __init__(self, cells, bnd=(), faces=True, shift=0):
        self.cells, self.bnd, self.faces, self.shift = cells, bnd, faces, shift

    def prep(self, w, tag):
        nn = max(v for _, ids in self.cells for v in ids) + 1
        xyz = coordinates(w, self, tag + 'x', nn)
        w.assume(w.And(*[c == c for p in w.plain(xyz) for c in p]))
        d = 3 if any(t not in ('tri3', 'quad4') for t, _ in self.cells) else 2
        lines = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$PhysicalNames', '2', f'{d - 1} 1 "wall"', f'{d} 2 "FLUID"', '$EndPhysicalNames', '$Nodes', [nn]]
        lines += [[i + 1] + [xyz[i, j] for j in range(3)] for i in range(nn)] + ['$EndNodes', '$Elements', [len(self.cells) + len(self.bnd)]]
        el = [[GCODE[t], 2, 1, 1] + [v + 1 for v in ids] for t, ids in self.bnd] + [[GCODE[t], 2, 2, 1] + [v + 1 for v in ids] for t, ids in self.cells]
        w.put_text(w.path(tag + '.msh'), lines + [[i + 1] + e for i, e in enumerate(el)] + ['$EndElements'])
        return w.path(tag + '.msh')

    def run(self, w, f):
        r = w.mod('cfdtools.gmsh').reader(f)
        yield
        r.read_data()
        yield
        m = r.export_mesh()
        if self.faces:
            yield
            m.make_face_connectivity()
        yield describe(w, m)


class Gmsh4:
    """tetrahedron with boundary triangle"""

    def __init__(self, tet=(1, 2, 3, 4), tri=(1, 2, 3)):
        self.tet, self.tri = list(tet), list(tri)

    def prep(self, w, tag):
        xyz = coordinates(w, self, tag + 'x', 4)
        w.assume(w.And(*[c == c for p in w.plain(xyz) for c in p]))
        b = ['0', '0', '0', '1', '1', '1']
        lines = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat', '$PhysicalNames', [2], '2 1 "in"', '3 2 "FLUID"', '$EndPhysicalNames', '$Entities', [0, 0, 1, 1],
                 [5] + b + [1, 1, 0], [6] + b + [1, 2, 0], '$EndEntities', '$Nodes', [1, 4, 1, 4], [3, 6, 0, 4], *[[i + 1] for i in range(4)],
                 *[[xyz[i, j] for j in range(3)] for i in range(4)], '$EndNodes', '$Elements', [2, 2, 1, 2], [2, 5, 2, 1], [1] + self.tri, [3, 6, 4, 1], [2] + self.tet, '$EndElements']
        w.put_text(w.path(tag + '.msh'), lines)
        return w.path(tag + '.msh')

    run = Gmsh([]).run.__func__
    faces = True


class Cgns:
    def __init__(self, hexa=range(1, 9), quad=(1, 4, 3, 2)):
        self.hexa, self.quad = hexa, quad

    def prep(self, w, tag):
        f = w.path(tag + '.cgns')
        xyz = coordinates(w, self, tag + 'x', 8)
        with w.h5.File(f, 'w') as h:
            node(w, h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', w.np.array([3.1], dtype='f4'))
            z = node(w, node(w, h, 'Base', 'CGNSBase_t', w.np.array([3, 3], dtype='int32')), 'z', 'Zone_t', w.np.array([[8], [1], [0]], dtype='int32'))
            node(w, z, 'ZoneType', 'ZoneType_t', text(w, 'Unstructured'))
            g = node(w, z, 'GridCoordinates', 'GridCoordinates_t')
            for k, c in enumerate('XYZ'):
                node(w, g, 'Coordinate' + c, 'DataArray_t', xyz[:, k])
            for n, code, a, ids in (('H', 17, 1, self.hexa), ('Q', 7, 2, self.quad)):
                s = node(w, z, n, 'Elements_t', w.np.array([code, 0], dtype='int32'))
                node(w, s, 'ElementRange', 'IndexRange_t', w.np.array([a, a], dtype='int32'))
                node(w, s, 'ElementConnectivity', 'DataArray_t', w.np.array(list(ids), dtype='int32'))
            b = node(w, node(w, z, 'ZoneBC', 'ZoneBC_t'), 'B', 'BC_t', text(w, 'BCWall'))
            node(w, b, 'GridLocation', 'GridLocation_t', text(w, 'FaceCenter'))
            node(w, b, 'PointList', 'IndexArray_t', w.np.array([[2]], dtype='int32'))
        return f

    def run(self, w, f):
        r = w.mod('cfdtools.cgns').cgnsMesh(f)
        yield
        r.read_data()
        yield
        m = r.export_mesh()
        yield
        m.make_face_connectivity()
        yield describe(w, m)


class Ic3Read:
    free = 3  # nodes whose coordinates are symbolic

    def __init__(self, endian, cut=0, ver=3, nodes=((0, 1, 2), (2, 1)), zone='in'):
        self.endian, self.cut, self.ver, self.nodes, self.zone = endian, cut, ver, nodes, zone

    def prep(self, w, tag):
        x = dict(nf=2, nnode=3, ncell=2, ndof=1, nodes=[list(n) for n in self.nodes], cells=[[0, -1], [1, 0]], spec=[(self.zone, 'boundary', 0, 0, None)],
                 xyz=[w.f64s(f'{tag}x{i}', 3) if i < self.free else [0.5, -2.0, 0.0] for i in range(3)], params={'step': w.int(tag + 's', -2**63, 2**63 - 1), 'dt': w.f64(tag + 'dt')},
                 n={'T': ('s', w.f64s(tag + 'n', 3), (3,))}, c={'P': ('s', w.f64s(tag + 'c', 2), (2,))})
        f = w.path(tag + '.ic3')
        w.put_file(f, F.encode(w, list(F.mesh_sections(x).values()), self.endian, self.ver))
        if self.cut:
            w.truncate(f, self.cut)
        return f

    def run(self, w, f):
        r = w.mod('cfdtools.ic3.reader_legacy').reader(f)
        yield
        if self.cut:
            _, e = w.raises(r.read_data, Exception)
            yield [e is not None]
            return
        r.read_data()
        yield
        yield describe(w, r.export_mesh())


class Write:
    """mesh of one tetrahedron marked by its nodes, with data"""

    def __init__(self, fmt, marked=True, data=True, nodes=(0, 1, 2, 3), mark=(3, 1, 2)):
        self.fmt, self.marked, self.data, self.nodes, self.mark = fmt, marked, data, nodes, mark

    def prep(self, w, tag):
        return tag, w.f64array(tag + 'x', (4, 3)), w.f64array(tag + 'n', (4,)), w.f64array(tag + 'c', (1,)), w.f64(tag + 't')

    def mesh(self, w, x):
        tag, xyz, nd, cd, t = x
        m = w.mod('cfdtools.meshbase._mesh').Mesh(1, 4)
        C = w.mod('cfdtools.meshbase._connectivity')
        m.set_nodescoord_nd(w.np.array(xyz))
        c = C.elem_connectivity()
        c.add_elems('tetra4', w.np.array([list(self.nodes)]))
        m.set_cell2node(c)
        if self.marked:
            b = w.mod('cfdtools.meshbase._mesh').submeshmark('wall')
            b.geodim, b.type, b.index = 'bdnode', 'boundary', C.indexlist(ilist=list(self.mark))
            b.properties['periodic_transform'] = None
            m.add_boco(b)
        D = w.mod('cfdtools.data')
        a, b = D.DataSet('nodal'), D.DataSet('cellaverage')
        if self.data:
            m.set_params({'time': t, 'step': 3, 'rho_wgt': t})
            a.add_data('T', w.np.array(nd))
            b.add_data('P', w.np.array(cd))
        m.set_nodedata(a)
        m.set_celldata(b)
        return m

    def run(self, w, x):
        m = self.mesh(w, x)
        yield
        yield write(w, m, self.fmt, x[0])


def write(w, m, fmt, tag):
    """write a mesh; what the file holds"""
    if fmt in ('v2', 'v3', 'v3big'):
        W = w.mod(f'cfdtools.ic3.writerV{fmt[1]}')
        f = w.path(tag + '.ic3')
        (W.writer(m, endian='big') if fmt == 'v3big' else W.writer(m)).write_data(f)
        return w.get_file(f)
    if fmt == 'v4':
        f, g = w.path(tag + '_m.h5'), w.path(tag + '_s.h5')
        w.mod('cfdtools.ic3.writerV4').writer(m).write_data(f, g)
        r = w.mod('cfdtools.ic3.readerV4').reader(f, g)
        r.read_data()
        return describe(w, r.export_mesh())
    f = w.path(tag + '.vtu')
    w.mod('cfdtools.vtk').vtkMesh(m).write_data(f)
    g = w.pv.read(f)
    return [w.plain(g.points), w.plain(g.cells), w.plain(g.celltypes)]


class Box:
    def prep(self, w, tag):
        return w.int(tag + 'n', 1, 2)

    def run(self, w, n):
        c = w.mod('cfdtools.meshbase.simple').Cube(int(n), 1, 1)
        yield
        yield describe(w, c.export_mesh())


class Extrude:
    def __init__(self, nodes=(0, 1, 2, 3)):
        self.nodes = list(nodes)

    def prep(self, w, tag):
        x = w.reals(tag + 'x', 12, -8, 8)
        return w.array([x[3 * i:3 * i + 3] for i in range(4)], float), w.real(tag + 'h', 0.5, 2)

    def run(self, w, x):
        m = w.mod('cfdtools.meshbase._mesh').Mesh(1, 4)
        C = w.mod('cfdtools.meshbase._connectivity')
        m.set_nodescoord_nd(w.np.array(x[0]))
        c = C.elem_connectivity()
        c.add_elems('quad4', w.np.array([self.nodes]))
        m.set_cell2node(c)
        yield
        m3 = m.export_extruded(extrude=[0.0, x[1]])
        yield
        m3.make_face_connectivity()
        yield describe(w, m3)


class Hexa27:
    """mesh of a second order hexahedron given by CGNS numbers"""

    def prep(self, w, tag):
        return w.permutation(tag + 'p', 3)

    def run(self, w, p):
        m = w.mod('cfdtools.meshbase._mesh').Mesh(1, 27)
        C = w.mod('cfdtools.meshbase._connectivity')
        c = C.elem_connectivity()
        c.add_elems('hexa27', w.array([list(p) + list(range(3, 27))]))
        m.set_nodescoord_nd(w.np.zeros((27, 3)))
        m.set_cell2node(c)
        yield
        m.make_face_connectivity()
        yield describe(w, m)


class Command:
    """a conversion command"""

    def __init__(self, tool, *opts, inp=None):
        self.tool, self.opts, self.inp = tool, opts, inp or Ic3Read('little')

    def prep(self, w, tag):
        return self.inp.prep(w, tag), tag

    def run(self, w, x):
        w.mkdir(w.path('out' + x[1]))
        cli = w.mod('cfdtools._cli')
        yield
        f = getattr(cli, self.tool)([x[0], '--outpath', w.path('out' + x[1]), *self.opts])
        if self.tool.endswith('vtk'):
            g = w.pv.read(f)
            yield [w.plain(g.points), w.plain(g.cells), w.plain(g.celltypes)]
            return
        yield w.get_file(f)


class Vtu:
    """a VTK file read back"""

    def __init__(self, turn=2):
        self.turn = turn

    def prep(self, w, tag):
        from checks.c12 import cells_of, grid_of

        g = grid_of(w, w.f64array(tag + 'x', (6, 3)), cells_of(w, ['tri3', 'quad4', 'tri3'], 6, self.turn))
        g.cell_data['Q'] = w.f64array(tag + 'q', (3,))
        g.save(w.path(tag + '.vtu'))
        return w.path(tag + '.vtu')

    def run(self, w, f):
        v = w.mod('cfdtools.vtk').vtkMesh()
        v.read(f)
        yield
        g = v.pyvista_grid
        yield [describe(w, v.export_mesh()), [[n, w.plain(g.cell_data[n])] for n in sorted(g.cell_data.keys())]]


class Series:
    """two VTK files packed in one HDF5 file"""

    def prep(self, w, tag):
        from checks.c13 import grid

        p = w.reals(tag + 'p', 2, -10, 10)
        w.assume(w.Or(p[0] - p[1] >= 1, p[1] - p[0] >= 1))
        names = [w.path(f'{tag}{f}.vtu') for f in range(2)]
        for f in range(2):
            g = grid(w, ['tri3', 'tri3'], p[::-1] if f else p)
            g.cell_data['Q'] = w.f64array(f'{tag}q{f}', (2,))
            g.field_data['TimeValue'] = w.array([w.f64(f'{tag}t{f}')])
            g.save(names[f])
        return names

    def run(self, w, names):
        L = w.mod('cfdtools.vtk').vtkList(names)
        yield
        L.read(tol=1e-6, tolverbose=1e-6)
        yield
        f = w.path('series.hdf')
        L.dumphdf(f, overwrite=True)
        with w.h5.File(f, 'r') as h:
            d = h['datalist']
            yield [w.plain(w.np.array(h['mesh/nodes'])), [[n, w.plain(d[n].attrs['time']), [[q, w.plain(w.np.array(d[n][q]))] for q in sorted(d[n].keys())]] for n in sorted(d.keys())]]


class Probe:
    """a quantity of a probe, made from its files"""

    def __init__(self, *names, ask):
        self.names, self.ask = names, ask

    def prep(self, w, tag):
        t = w.real(tag + 't', 0, 100)
        for n in self.names:
            lo, hi = (0.5, 10) if n in ('P', 'RHO') else (-10, 10)
            w.put_text(w.path(f'{tag}.{n}'), [[i, t + i, 2] + w.reals(f'{tag}{n}{i}', 2, lo, hi) for i in range(2)])
        return [w.path(f'{tag}.{n}') for n in self.names]

    def run(self, w, files):
        base = files[0][:-len(self.names[0]) - 1]
        d = w.mod('cfdtools.probes.data').phydata(base)
        yield
        for q in self.ask:
            d.check_data(q, base)
            yield
        yield [[k, w.plain(d.alldata[k])] for k in sorted(d.alldata)]


HEX8 = [('hexa8', list(range(8)))]
BQ = [('quad4', [0, 1, 2, 3])]
SHEET = [('tri3', [0, 1, 2]), ('quad4', [0, 2, 3, 4])]
OPS = dict(
    gmsh_hexa=Gmsh(HEX8, BQ), gmsh_prism=Gmsh([('prism6', list(range(6)))], [('tri3', [0, 1, 2])]), gmsh_2d=Gmsh(SHEET, [('bar2', [0, 1])]),
    gmsh_v4=Gmsh4(), cgns=Cgns(), ic3_little=Ic3Read('little'), ic3_big=Ic3Read('big', ver=2), ic3_cut=Ic3Read('big', 700),
    write_v2=Write('v2'), write_v3=Write('v3'), write_v3big=Write('v3big', marked=False), write_v4=Write('v4'), write_vtk=Write('vtk'), write_bare=Write('v2', False, False),
    box=Box(), extrude=Extrude(), hexa27=Hexa27(), cmd_v3=Command('cfdwrite_ic3v3', '--remove-cell-data', 'P'), cmd_v2=Command('cfdwrite_ic3v2', '--scale', '2', '1', '1'),
    cmd_plain=Command('cfdwrite_ic3v3'), cmd_vtk=Command('cfdwrite_vtk', '--extrude', '1', inp=Gmsh(SHEET, [('bar2', [0, 1])])), cmd_vtk0=Command('cfdwrite_vtk', inp=Gmsh(SHEET)),
    vtu=Vtu(), series=Series(), probe=Probe('P', 'RHO', 'U-X', ask=['P', 'U-X']), probe_inv=Probe('Asound', 'U-X', ask=['INVX+', 'INVX-']),
)
# the same names and sizes with another content
TWINS = dict(
    gmsh_hexa=Gmsh([('hexa8', [1, 2, 3, 0, 5, 6, 7, 4])], [('quad4', [0, 4, 5, 1])]), gmsh_2d=Gmsh([('tri3', [4, 1, 2]), ('quad4', [0, 1, 4, 3])], [('bar2', [3, 0])]), gmsh_v4=Gmsh4((2, 3, 1, 4), (4, 1, 2)),
    cgns=Cgns((2, 3, 4, 1, 6, 7, 8, 5), (5, 6, 7, 8)), ic3_little=Ic3Read('little', nodes=((2, 1), (1, 0, 2)), zone='out'), ic3_big=Ic3Read('big', ver=2, nodes=((2, 0), (0, 1, 2))),
    write_v2=Write('v2', nodes=(1, 2, 0, 3), mark=(0, 1, 3)), write_v3=Write('v3', nodes=(0, 3, 1, 2), mark=(0, 2, 3)), write_v4=Write('v4', nodes=(0, 3, 1, 2), mark=(0, 2, 3)),
    write_vtk=Write('vtk', nodes=(0, 3, 1, 2)), extrude=Extrude((2, 3, 0, 1)), vtu=Vtu(1), cmd_plain=Command('cfdwrite_ic3v3', inp=Ic3Read('little', nodes=((2, 1), (1, 0, 2)), zone='out')),
)
OPS0 = list(OPS)
OPS.update({k + '~': v for k, v in TWINS.items()})


def last(g):
    r = None
    for r in g:
        pass
    return r


def before(w, then, first):
    """first, then the other one in the same session; the other one alone in a new session"""
    a, b = OPS[first], OPS[then]
    xa, xb = a.prep(w, 'A'), b.prep(w, 'B')
    last(a.run(w, xa))
    r = last(b.run(w, xb))
    w.fresh()
    w.check(w.same(r, last(b.run(w, xb))), "same result as in a fresh session")


def rewritten(w, op, also=None):
    """files read, then replaced by other ones of the same names, and read again by new objects"""
    o = OPS[op]
    xa, xb = o.prep(w, 'A'), (OPS[also] if also else o).prep(w, 'B')
    last(o.run(w, xa))
    name = lambda x: [x[0]] if isinstance(x, tuple) else x if isinstance(x, list) else [x]  # noqa: E731
    for a, b in zip(name(xa), name(xb)):
        w.copy(b, a)
    r = last(o.run(w, xa))
    w.fresh()
    w.check(w.same(r, last(o.run(w, xa))), "same result as in a fresh session")


def imports(w, first, op):
    """a session which starts by importing one of the modules"""
    x = OPS[op].prep(w, 'B')
    r = last(OPS[op].run(w, x))
    w.fresh(first)
    w.check(w.same(r, last(OPS[op].run(w, x))), "same result whatever is imported first")


def modules():
    from symx.loader import REPO

    for d, _, files in sorted(os.walk(os.path.join(REPO, 'cfdtools'))):
        for f in sorted(files):
            if f.endswith('.py'):
                n = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                yield n[:-9] if n.endswith('.__init__') else n


def interleaved(w, one, two):
    """the steps of two operations in any order"""
    ops, x, g, res = [OPS[one], OPS[two]], [], [], [None, None]
    for k in range(2):
        x.append(ops[k].prep(w, 'AB'[k]))
        g.append(ops[k].run(w, x[k]))
    live, i = [0, 1], 0
    while live:
        k = live[0]
        if len(live) == 2:
            k = 1 if bool(w.bool(f'turn{i}')) else 0
            i += 1
        try:
            v = next(g[k])
            res[k] = v if v is not None else res[k]
        except StopIteration:
            live.remove(k)
    for k in range(2):
        w.fresh()
        w.check(w.same(res[k], last(ops[k].run(w, x[k]))), "same result as in a fresh session")


def formats(w, fmts, marked=True, src='mesh'):
    """one mesh written in several formats, in any order: the same files as from a new mesh"""
    order = w.pick('order', _perms(len(fmts)))
    op = Write(None, marked)
    x = op.prep(w, 'A')
    m = op.mesh(w, x)
    got = {fmts[k]: write(w, m, fmts[k], f'a{k}') for k in order}
    w.check(w.same(m.nodescoord(ndarray=True), x[1]), "same file whatever was written before")
    for k, f in enumerate(fmts):
        w.fresh()
        w.check(w.same(got[f], write(w, op.mesh(w, x), f, f'b{k}')), "same file whatever was written before")


def _perms(n):
    import itertools

    return list(itertools.permutations(range(n)))


def again(w, what):
    """the same question asked again on the same objects"""
    def eq(a, b):
        w.check(w.same(a, b), "same result when asked again")

    if what in ('v2', 'v3', 'v4'):  # one writer, two files; then another writer of the same mesh
        op = Write(None)
        m = op.mesh(w, op.prep(w, 'A'))
        W = w.mod(f'cfdtools.ic3.writer{what.upper()}').writer(m)
        res = []
        for k in range(3):
            if k == 2:
                W = w.mod(f'cfdtools.ic3.writer{what.upper()}').writer(m)
            f = w.path(f'{k}.ic3')
            if what == 'v4':
                g = w.path(f'{k}s.ic3')
                W.write_data(f, g)
                r = w.mod('cfdtools.ic3.readerV4').reader(f, g)
                r.read_data()
                res.append(describe(w, r.export_mesh()))
            else:
                W.write_data(f)
                res.append(w.get_file(f))
        eq(res[0], res[1])
        eq(res[0], res[2])
    elif what.startswith('read '):
        op = OPS[what[5:]]
        f = op.prep(w, 'A')
        mk = {'cgns': lambda: w.mod('cfdtools.cgns').cgnsMesh(f), 'gmsh': lambda: w.mod('cfdtools.gmsh').reader(f),
              'ic3_': lambda: w.mod('cfdtools.ic3.reader_legacy').reader(f)}[what[5:9]]
        r = mk()
        r.read_data()
        a = describe(w, r.export_mesh())
        eq(describe(w, r.export_mesh()), a)
        n = r.ncell
        r.read_data()
        eq(describe(w, r.export_mesh()), a)
        eq(r.ncell, n)
        r.read_data()
        eq(describe(w, r.export_mesh()), a)
    elif what == 'faces':
        op = Gmsh(HEX8 + [('prism6', [0, 1, 8, 4, 5, 9])], BQ)
        r = w.mod('cfdtools.gmsh').reader(op.prep(w, 'A'))
        r.read_data()
        m = r.export_mesh()
        m.make_face_connectivity()
        a = describe(w, m)
        m.make_face_connectivity()
        eq(describe(w, m), a)
        m.bocomarks_set_node_to_face()
        m.make_unmarked_BC('rest')
        m.reindex_boundaryfaces()
        a = describe(w, m)
        m.bocomarks_set_node_to_face()
        m.make_unmarked_BC('rest')
        eq(describe(w, m), a)
        m.reindex_boundaryfaces()
        eq(describe(w, m), a)
        z = m.export_mixedfaces()
        b = [[[t, list(e['index'].list()), w.plain(e['elem2node'])] for t, e in z[0].items()], w.plain(z[1].conn)]
        z = m.export_mixedfaces()
        eq([[[t, list(e['index'].list()), w.plain(e['elem2node'])] for t, e in z[0].items()], w.plain(z[1].conn)], b)
        eq(describe(w, m), a)
    elif what == 'extrude':
        op = OPS['gmsh_2d']
        r = w.mod('cfdtools.gmsh').reader(op.prep(w, 'A'))
        r.read_data()
        m = r.export_mesh()
        a = describe(w, m)
        b = describe(w, m.export_extruded(extrude=[0.0, 1.0, 2.0]))
        eq(describe(w, m), a)
        eq(describe(w, m.export_extruded(extrude=[0.0, 1.0, 2.0])), b)
        m.export_extruded()
        eq(describe(w, m.export_extruded(extrude=[0.0, 1.0, 2.0])), b)
    elif what == 'volumes':  # of one mesh, then of another one given to the same object
        V = w.mod('cfdtools.vtk').vtkMesh
        g = []
        for k in range(2):
            x = w.realarray(f'x{k}', (5, 3), -4, 4)
            g.append(w.pv.UnstructuredGrid(w.array([4, 0, 1, 2, 3, 4, 1, 2, 3, 4]), w.np.array([10, 10], dtype='uint8'), x))
        v = V(pvmesh=g[0])
        a = w.plain(v.volumes())
        eq(v.volumes(), a)
        v.set_pvmesh(g[1])
        b = w.plain(v.volumes())
        eq(b, V(pvmesh=g[1]).volumes())
        v.set_pvmesh(g[0])
        eq(v.volumes(), a)
    elif what == 'zconv':  # averages of one grid with several options, in any order
        from checks.c14 import layout

        g, p, where = layout(w, 2, ['tri3', 'tri3'], 'z', 'std')
        g.cell_data['Q'] = w.realarray('q', (4,), -100, 100)
        g.cell_data['R'] = w.realarray('r', (4,), -100, 100)
        v = w.mod('cfdtools.vtk').vtkMesh(pvmesh=g)
        sel = {'Q': ['rms', {'nmode': 1}], 'R': 'avg'}

        def ask(k):
            o = v.vtk_zconvolution(**[dict(select=sel), dict(rms=True), {}][k]).pyvista_grid
            return [w.plain(o.points), w.plain(o.cells), [[n, w.plain(o.cell_data[n])] for n in sorted(o.cell_data.keys())]]
        first = {k: ask(k) for k in w.pick('order', _perms(3))}
        for k in w.pick('order2', _perms(3)[::2]):
            eq(ask(k), first[k])
        w.check(sel == {'Q': ['rms', {'nmode': 1}], 'R': 'avg'}, "same result when asked again")
    elif what == 'vtk':
        from checks.c12 import cells_of, grid_of

        xyz = w.f64array('x', (6, 3))
        v = w.mod('cfdtools.vtk').vtkMesh(pvmesh=grid_of(w, xyz, cells_of(w, ['tri3', 'quad4', 'tri3'], 6, 2)))
        a = describe(w, v.export_mesh())
        res = []
        for k in range(2):
            v.write_data(w.path(f'{k}.vtu'))
            g = w.pv.read(w.path(f'{k}.vtu'))
            with w.h5.File(v.dumphdf(w.path(f'{k}.hdf')), 'r') as h:
                res.append([w.plain(g.points), w.plain(g.cells), w.plain(g.celltypes), w.plain(w.np.array(h['mesh/nodes'])),
                            [[t, w.plain(w.np.array(h['mesh/cells'][t]))] for t in sorted(h['mesh/cells'].keys())]])
            ids = [2, 0]
            o = v.vtk_extract_cells(ids).pyvista_grid
            res[-1] += [w.plain(o.points), w.plain(o.cells), ids]
            m = v.export_mesh()
            m.scale([2.0, 2.0, 2.0])
            eq(describe(w, v.export_mesh()), a)
        eq(*res)
    elif what == 'list':  # a series of files read twice and written twice
        from checks.c13 import grid, positions

        p = positions(w, 2)
        names = []
        for f in range(2):
            g = grid(w, ['tri3', 'tri3'], p[::-1] if f else p)
            g.cell_data['Q'] = w.f64array(f'q{f}', (2,))
            g.field_data['TimeValue'] = w.array([w.f64(f't{f}')])
            names.append(w.path(f'l{f}.vtu'))
            g.save(names[-1])
        L = w.mod('cfdtools.vtk').vtkList(names)
        res = []
        for k in range(3):
            if k != 1:
                L.read(tol=1e-6, tolverbose=1e-6)
            with w.h5.File(L.dumphdf(w.path('l.hdf')), 'r') as h:
                d = h['datalist']
                res.append([w.plain(w.np.array(h['mesh/nodes'])), [[n, w.plain(d[n].attrs['time']), [[q, w.plain(w.np.array(d[n][q]))] for q in sorted(d[n].keys())]] for n in sorted(d.keys())]])
            w.check(L.check_order(tol=1e-6) is False or L.check_order(tol=1e-6) == False, "same result when asked again")  # noqa: E712
        eq(res[0], res[1])
        eq(res[0], res[2])
    elif what == 'index':
        C = w.mod('cfdtools.meshbase._connectivity')
        a, n = w.int('a', 0, 3), w.int('n', 0, 3)
        for i in (C.indexlist(irange=[a, a + n]), C.indexlist(ilist=w.permutation('p', 3))):
            l = list(i.list())
            eq(i.list(), l)
            i.size, str(i), i.type, i[0]
            eq(i.list(), l)
            i.compress()
            eq(i.list(), l)
            i.compress()
            eq(i.list(), l)
    elif what == 'weights':
        P = w.mod('cfdtools.utils.polybase').poly1d(2)
        x = w.real('x', -1, 1)
        a = w.plain(P.interp_weights(x)), w.plain(P.diff_weights(x))
        w.mod('cfdtools.utils.polybase').poly1d(3, 'polynomial').interp_weights(0.25)
        P.interp_weights(0.0)
        P.diff_weights(0.5)
        eq(P.interp_weights(x), a[0])
        eq(P.diff_weights(x), a[1])
    elif what == 'spectrum':
        D = w.mod('cfdtools.data')
        ds = D.DataSet(Trep='timeevol')
        v = w.reals('u', 4, -10, 10)
        ds.add_data('time', w.array([0.0, 0.5, 1.0, 1.5]))
        ds.add_data('U', w.array(v))
        q = lambda s: [[k, w.plain(s[k])] for k in s.keys()]  # noqa: E731
        a = q(ds.dataSet_spectrum())
        ds.dataSet_spectrum(datafilter=['time'], imin=1)
        ds.dtstats()
        eq(q(ds.dataSet_spectrum()), a)
        eq(ds['U'], v)


def memo(w, n, args):
    """a function which keeps its results, called several times"""
    A = w.mod('cfdtools.api')
    tab, calls = [[w.f64(f'v{i}') for i in range(2)] for _ in args], []

    def f(*a):
        calls.append(a)
        return tab[args.index(a)]
    g = A.memoize(f)
    asked = []
    for k in range(n):
        a = w.pick(f'a{k}', range(len(args)))
        asked.append(a)
        w.check(w.same(g(*args[a]), tab[a]), "a function which keeps its results gives those of the function")
    i = g.cache_info()
    w.check(i.misses == len(set(asked)) == len(calls) == i.currsize and i.hits == n - len(calls), "a function which keeps its results gives those of the function")


def apart(w, what):
    """changing one of two results leaves the other one as it was"""
    msg = "two results share nothing"
    if what == 'default':  # new data sets, meshes and marks start empty
        D, M = w.mod('cfdtools.data'), w.mod('cfdtools.meshbase._mesh')
        a = D.DataSet()
        a.add_data('P', w.array(w.reals('p', 2)))
        m = M.Mesh(1, 4)
        m._params['step'] = 1
        m._bocos['b'] = M.submeshmark('b')
        m._bocos['b'].properties['k'] = 1
        a.set_nodes(w.array(w.reals('x', 2)))
        l = D.DataSetList(1)
        l.set_mesh(m)
        l.add_datalist({'P': a['P']}, time=1.0)
        m.set_partition({'npart': 2})
        w.check(list(a.geoprop) == ['x'] and list(l.geoprop) == ['mesh'] and D.DataSet().geoprop == {} and D.DataSetList(1).geoprop == {} and D.DataSetList(2)._datalist == []
                and M.Mesh()._cellprop == {} and M.Mesh()._nodes == {} and M.Mesh()._faces == {}, msg)
        w.check(list(D.DataSet().keys()) == [] and M.Mesh(1, 4)._params == {} and list(M.Mesh()._bocos) == [] and M.submeshmark('c').properties.get('k') is None, msg)
        return
    op = OPS[what]
    f = op.prep(w, 'A')
    mk = {'cgns': lambda: w.mod('cfdtools.cgns').cgnsMesh(f), 'gmsh': lambda: w.mod('cfdtools.gmsh').reader(f),
          'ic3_': lambda: w.mod('cfdtools.ic3.reader_legacy').reader(f), 'box': lambda: w.mod('cfdtools.meshbase.simple').Cube(int(f), 1, 1)}[what[:4]]
    m = []
    for k in range(2):
        if k == 0 or what[:3] == 'ic3':  # an IC3 reader gives the data it holds to the mesh
            r = mk()
            if what != 'box':
                r.read_data()
        m.append(r.export_mesh())
    m1, m2 = m
    a = describe(w, m2)
    if m1._cell2node is not None:
        m1.make_face_connectivity()
    if 'boundary' in m1._faces:
        m1.bocomarks_set_node_to_face()
        m1.make_unmarked_BC('rest')
        m1.reindex_boundaryfaces()
    m1.scale([2.0, 3.0, 4.0])
    m1.morph(lambda x, y, z: (y, x, z))
    m1.set_params({'step': -1})
    m1.update_params({'time': 9.0})
    for n in list(m1._bocos):
        m1._bocos[n].type = 'internal'
        m1.remove_boco(n)
    for ds, pop in ((m1._celldata, m1.pop_celldata), (m1._nodedata, m1.pop_nodedata)):
        for k in list(ds.keys()):
            pop(k)
    w.check(w.same(describe(w, m2), a), msg)


def scenarios(tier):
    T = tier == 'thorough'
    names = OPS0
    pairs = [dict(then=b, first=a) for b in names for a in names] + [dict(then=b, first=a) for k in TWINS for a, b in ((k, k + '~'), (k + '~', k))]
    same = [('gmsh_hexa', 'cgns'), ('gmsh_2d', 'gmsh_hexa'), ('ic3_little', 'ic3_big'), ('write_v2', 'write_v3'), ('ic3_little', 'ic3_cut'), ('gmsh_v4', 'gmsh_2d'), ('cgns', 'cgns'),
            ('ic3_big', 'ic3_big'), ('gmsh_hexa', 'hexa27'), ('write_v4', 'write_v3big'), ('extrude', 'gmsh_2d'), *[(k, k + '~') for k in TWINS if k != 'cmd_plain']]
    if T:
        same = [(a, b) for i, a in enumerate(names) for b in names[i:]]
    o = dict(max_replay=3)
    return [('before', before, pairs, o), ('interleaved', interleaved, [dict(one=a, two=b) for a, b in same], o),
            ('imports', imports, [dict(first=m, op=p) for m in modules() for p in ('gmsh_hexa', 'write_v3', 'cmd_plain')], o),
            ('rewritten', rewritten, [dict(op=a) for a in names if not a.startswith(('write', 'box', 'extrude', 'hexa27'))]
             + [dict(op=a, also=b) for a, b in (('gmsh_hexa', 'gmsh_prism'), ('gmsh_2d', 'gmsh_v4'), ('gmsh_v4', 'gmsh_hexa'), ('ic3_little', 'ic3_big'), ('ic3_big', 'ic3_little'))]
             + [dict(op=a, also=b) for k in TWINS if not k.startswith(('write', 'extrude')) for a, b in ((k, k + '~'), (k + '~', k))], o),
            ('formats', formats, [dict(fmts=['v2', 'v3', 'v4', 'vtk']), dict(fmts=['v2', 'v3big', 'v2x'][:2], marked=False)], o),
            ('again', again, [dict(what=k) for k in ('v2', 'v3', 'v4', 'faces', 'extrude', 'volumes', 'zconv', 'vtk', 'list', 'index', 'weights', 'spectrum', 'read gmsh_hexa', 'read gmsh_2d', 'read gmsh_v4',
                                                     'read cgns', 'read ic3_little', 'read ic3_big')], o),
            ('memo', memo, [dict(n=3, args=a) for a in ([(-1,), (-2,), (0,)], [(2**61 - 1,), (0,), (2**61 - 2,), (-1,)], [(0, 1), (1, 0), (0,), (1,)], [('a', -1), ('a', -2), (('a', -1),), ('a',)], [(), (None,), ('',)])], o),
            ('apart', apart, [dict(what=k) for k in ('default', 'gmsh_hexa', 'gmsh_2d', 'cgns', 'ic3_little', 'ic3_big', 'box')], o)]
