"""C15: tools that pick an output name never overwrite or delete an existing file."""
import posixpath

META = dict(
    bounds="existence of the first 4 candidate names, and of similar names, symbolic (any subset), or up to 1003 names taken and any of the 3 following ones; names with several dots, no suffix, hidden, "
           "already numbered, in other folders; conversions from IC3 v2, v3, Gmsh and HDF5/VTK dumps",
    outside="files created by another process during the conversion; cfdwritecube, whose file name is given by the user",
    assumptions=["the file system is modelled in memory (replayed on a real scratch folder)"],
    must_reach=["name: first free name", "name: returns whether the name changed", "convert: existing files are kept", "convert: the input file is kept",
                "convert: written under the first free name", "dump: existing files are kept", "dump: written under the first free name", "pack: existing files are kept",
                "run: first free name"],
)
NMAX = 4


def numbered(name, i):
    if i == 0:
        return name
    d, b = posixpath.split(name)
    p = b.rfind('.')
    if p <= 0 or p == len(b) - 1:
        p = len(b)
    return posixpath.join(d, f"{b[:p]}({i}){b[p:]}")


def existing(w, base, always=(), others=(), n=NMAX):
    """any subset of the candidates exists; returns {name: condition}"""
    ex = {}
    for nm in [numbered(base, i) for i in range(n)] + list(others):
        if nm in always:
            ex[nm] = True
        else:
            ex[nm] = w.bool(f'exists {nm}')
            w.set_exists(w.path(nm), ex[nm])
    return ex


def first_free(w, ex, base, got, msg, n=NMAX):
    ok = []
    for i in range(n + 1):
        nm = numbered(base, i)
        if got == nm:
            ok = [ex[numbered(base, j)] for j in range(i)]
            if i < n:
                ok.append(w.Not(ex[nm]))
            w.check(w.And(*ok), msg)
            return
    w.check(False, msg)


def kept(w, ex, msg):
    for nm, c in ex.items():
        w.check(w.Implies(c, w.intact(w.path(nm))), msg)


def rel(w, p):
    p = str(p)
    root = w.path('')
    return p[len(root):] if p.startswith(root) else p


def folders(w, *names):
    for n in names:
        d = posixpath.dirname(n)
        parts = [x for x in d.split('/') if x]
        for i in range(len(parts)):
            w.mkdir(w.path('/'.join(parts[:i + 1])))


def name(w, path, base=None, outdir=None, nodir=False, suffix=None, isdir=None, others=()):
    """the name chosen by api._files"""
    A = w.mod('cfdtools.api')
    base = base or path
    folders(w, path, base, *others)
    if isdir is not None:  # a folder of this name exists
        w.mkdir(w.path(numbered(base, isdir)))
    ex = {}
    for i in range(NMAX):
        nm = numbered(base, i)
        if i == isdir:
            ex[nm] = True
        else:
            ex[nm] = w.bool(f'exists {nm}')
            w.set_exists(w.path(nm), ex[nm])
    for nm in others:
        w.set_exists(w.path(nm), w.bool(f'exists {nm}'))
    w.protect(*[w.path(nm) for nm in ex])
    f = A._files(path if nodir else w.path(path))
    if nodir:
        f.remove_dir()
    if outdir:
        f.change_dir(w.path(outdir))
    if suffix:
        f.change_suffix(suffix)
    r = f.find_safe_newfile()
    got = rel(w, f.filename)
    first_free(w, ex, base, got, "first free name")
    w.check(bool(r) == (got != base), "returns whether the name changed")
    kept(w, {nm: c for nm, c in ex.items() if isdir is None or nm != numbered(base, isdir)}, "existing files are kept")


def make_input(w, fname, kind):
    p = w.path(fname)
    if kind in ('v2', 'v3'):
        m = w.mod('cfdtools.meshbase.simple').Cube(1, 1, 1).export_mesh()
        wr = w.mod(f'cfdtools.ic3.writer{kind.upper()}')
        wr.writer(m).write_data(p)
    elif kind == 'msh':
        w.put_text(p, ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames", "2", '1 1 "wall"', '2 2 "fluid"', "$EndPhysicalNames", "$Nodes", "4",
                       "1 0 0 0", "2 1 0 0", "3 1 1 0", "4 0 1 0", "$EndNodes", "$Elements", "2", "1 1 2 1 1 1 2", "2 3 2 2 1 1 2 3 4", "$EndElements"])
    elif kind == 'vtu':
        grid(w).save(p)
    return p


def grid(w):
    V = w.mod('cfdtools.vtk._vtk')
    v = V.vtkMesh(w.mod('cfdtools.meshbase.simple').Cube(1, 1, 1).export_mesh())
    return v.pyvista_grid


TOOLS = {'cfdwrite_ic3v2': '.ic3', 'cfdwrite_ic3v3': '.ic3', 'cfdwrite_vtk': '.vtu'}


def convert(w, tool, kind, src, outdir=None, extra=(), fmt=None):
    """a conversion command with any set of existing outputs"""
    folders(w, src)
    if outdir:
        w.mkdir(w.path(outdir))
    p = make_input(w, src, kind)
    stem = posixpath.splitext(posixpath.basename(src))[0]
    base = posixpath.join(outdir or '', stem + TOOLS[tool])
    others = [stem + TOOLS[tool]] if outdir else []
    others = [o for o in others if o != src]
    ex = existing(w, base, always=(src,), others=others)
    w.protect(p, *[w.path(n) for n in ex])
    cli = w.mod('cfdtools._cli')
    got = getattr(cli, tool)([*(['--fmt', fmt] if fmt else []), *(['--outpath', w.path(outdir)] if outdir else []), *extra, p])
    first_free(w, ex, base, rel(w, got), "written under the first free name")
    w.check(w.exists(w.path(rel(w, got))), "the file is written")
    kept(w, ex, "existing files are kept")
    w.check(w.intact(p), "the input file is kept")


def dump(w, what, base, overwrite=False, xdmf=False, posix=True):
    """HDF5 dumps"""
    folders(w, base)
    names = [base]
    xbase = posixpath.splitext(base)[0] + '.xmf'
    ex = existing(w, base, n=3)
    if xdmf:
        names.append(xbase)
        ex.update(existing(w, xbase, n=3))
    g = grid(w)
    if what == 'list':
        g.cell_data['Q'] = w.realarray('q', (1,), -10, 10)
        src = w.path('src.vtu')
        g.save(src)
    w.protect(*[w.path(n) for n in ex], *([w.path('src.vtu')] if what == 'list' else []))
    if what == 'mesh':
        got = w.mod('cfdtools.vtk._vtk').vtkMesh(pvmesh=g).dumphdf(w.path(base), overwrite=overwrite)
    elif what == 'list':
        ls = w.mod('cfdtools.vtk._vtkList').vtkList([src])
        ls.read()
        got = ls.dumphdf(w.path(base), overwrite=overwrite, xdmf=xdmf)
        w.check(w.intact(src), "the input file is kept")
    else:
        D = w.mod('cfdtools.data')
        d = D.DataSetList(1, Xrep='cellaverage', Trep='instant')
        d.add_datalist({'Q': w.realarray('q', (1,), -10, 10)}, time=1.5)
        d.set_mesh(w.mod('cfdtools.vtk._vtk').vtkMesh(pvmesh=g).export_mesh())
        got = d.dumphdf(w.path(base), overwrite=overwrite)
    got = rel(w, got)
    if overwrite:
        w.check(got == base, "requested name used when overwriting")
        kept(w, {n: c for n, c in ex.items() if n not in names}, "other files are kept")
        return
    first_free(w, ex, base, got, "written under the first free name", n=3)
    w.check(w.exists(w.path(got)), "the file is written")
    kept(w, ex, "existing files are kept")


def pack(w):
    """vtkpack writes dumped.h5 in the current folder"""
    ex = existing(w, 'dumped.h5', n=3)
    src = w.path('a.vtu')
    grid(w).save(src)
    w.protect(src, *[w.path(n) for n in ex])
    got = w.mod('cfdtools._cli').vtkpack([src])
    first_free(w, ex, 'dumped.h5', rel(w, got), "written under the first free name", n=3)
    kept(w, ex, "existing files are kept")
    w.check(w.intact(src), "the input file is kept")


def run(w, path, n, what='name'):
    """n names are taken, the following ones may be"""
    A = w.mod('cfdtools.api')
    folders(w, path)
    ex = {}
    for i in range(n + 3):
        nm = numbered(path, i)
        ex[nm] = True if i < n else w.bool(f'exists {nm}')
        w.set_exists(w.path(nm), ex[nm])
    w.protect(*[w.path(nm) for nm in ex])
    if what == 'name':
        f = A._files(w.path(path))
        r = f.find_safe_newfile()
        w.check(bool(r), "returns whether the name changed")
        got = f.filename
    elif what == 'mesh':
        got = w.mod('cfdtools.vtk._vtk').vtkMesh(pvmesh=grid(w)).dumphdf(w.path(path))
    elif what == 'pack':
        src = w.path('a.vtu')
        grid(w).save(src)
        got = w.mod('cfdtools._cli').vtkpack([src])
    else:
        w.mkdir(w.path('in'))
        w.mkdir(w.path('o'))
        got = getattr(w.mod('cfdtools._cli'), what)(['--outpath', w.path('o'), make_input(w, 'in/m.msh', 'msh')] + (['--extrude', '1'] if 'ic3' in what else []))
    first_free(w, ex, path, rel(w, got), "first free name", n=n + 3)
    kept(w, ex, "existing files are kept")


def scenarios(tier):
    T = tier == 'thorough'
    N = [dict(path='mesh.ic3'), dict(path='a.b.ic3'), dict(path='noext'), dict(path='.hidden'), dict(path='m(1).h5'), dict(path='d/e/mesh.ic3', others=['mesh.ic3', 'd/mesh.ic3']),
         dict(path='d.x/mesh', base='d.x/mesh'), dict(path='d/mesh.msh', base='mesh.ic3', nodir=True, suffix='.ic3', others=['d/mesh.ic3', 'mesh.msh']),
         dict(path='d/mesh.v2.msh', base='o/mesh.v2.ic3', outdir='o', suffix='.ic3', others=['d/mesh.v2.ic3', 'o/mesh.ic3']), dict(path='mesh.ic3', isdir=0), dict(path='mesh.ic3', isdir=1),
         dict(path='d.msh/a.mshb.msh', base='d.msh/a.mshb.ic3', suffix='.ic3', others=['d.ic3/a.ic3b.ic3', 'd.msh/a.ic3b.ic3']), dict(path='d.msh/a', base='d.msh/a.ic3', suffix='.ic3', others=['d.ic3/a']),
         dict(path='d/.msh.msh', base='d/.msh.h5', suffix='.h5', others=['d/.h5.h5'])]
    C = [dict(tool='cfdwrite_ic3v2', kind='v2', src='mesh.ic3'), dict(tool='cfdwrite_ic3v3', kind='v2', src='in/mesh.ic3'), dict(tool='cfdwrite_vtk', kind='msh', src='in/m.v3.msh', outdir='out'), dict(tool='cfdwrite_ic3v2', kind='v3', src='in/m.v3.ic3', outdir='out'),
         dict(tool='cfdwrite_ic3v3', kind='msh', src='sq.msh', extra=['--extrude', '1']), dict(tool='cfdwrite_ic3v2', kind='v3', src='in/mesh.ic3', outdir='in'),
         dict(tool='cfdwrite_ic3v3', kind='v3', src='in/mesh', fmt='IC3', outdir='in'), dict(tool='cfdwrite_vtk', kind='msh', src='in.msh/m.msh.msh')]
    D = [dict(what=k, base=b, overwrite=o) for k in ('mesh', 'list', 'data') for b, o in (('d.h5', False), ('f/d.1.hdf', False), ('d.h5', True))]
    D += [dict(what='list', base='d.h5', xdmf=True), dict(what='list', base='f.g/d', xdmf=True), dict(what='list', base='d.h5', xdmf=True, overwrite=True)]
    if T:
        C += [dict(tool=t, kind=k, src=f'in/m.{"ic3" if k[0] == "v" else k}', outdir=o, extra=x) for t in TOOLS for k in (('msh',) if 'vtk' in t else ('v2', 'v3', 'msh')) for o in (None, 'in', 'out')
              for x in (([], ['--scale', '2', '2', '2']) if k != 'msh' else (['--extrude', '2'],))]
    o = dict(max_replay=6)
    return [('name', name, N, o), ('convert', convert, C, o), ('dump', dump, D, o), ('pack', pack, [{}], o),
            ('run', run, [dict(path=p, n=k) for p, k in (('mesh.ic3', 9), ('a.b/m.x.ic3', 99), ('noext', 100), ('m.h5', 130), ('m(1).h5', 260), ('mesh.ic3', 1003))]
             + [dict(path='d.h5', n=120, what='mesh'), dict(path='dumped.h5', n=70, what='pack'), dict(path='o/m.ic3', n=110, what='cfdwrite_ic3v3'), dict(path='o/m.ic3', n=12, what='cfdwrite_ic3v2'),
                dict(path='o/m.vtu', n=101, what='cfdwrite_vtk')], o)]
