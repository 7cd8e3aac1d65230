"""C23: maps of probe lines show the requested variable against axis and time or frequency."""
from checks.c19 import DEPS, Probe
from checks.c22 import power

META = dict(
    bounds="time and frequency maps of variables read from files or computed (sound speed, Mach number, entropy, invariants, velocity), over each axis or over another variable, "
           "2 to 4 times (time maps), 6 or 8 times (frequency maps), 2 or 3 points of symbolic values, coordinates and times; two maps after each other in either order; several numbers "
           "of levels and color maps, given or not; verbose or not; given files of up to 1250 times or 130 points (four symbolic values in time maps, none in frequency maps)",
    outside="the pixels drawn by matplotlib for the values it is given",
    assumptions=["matplotlib draws what it is asked to (what is given to it is recorded, in the model and on the real library)", "values are exact numbers, pressure and density "
                 "positive", "Fourier transforms are modelled exactly (6 and 8 samples)"],
    must_reach=["map: one map is saved", "map: variable as in the data", "map: horizontal axis as in the data", "map: vertical axis are the times", "map: files unchanged",
                "freq: spectrum of the variable", "freq: vertical axis are the frequencies", "twice: variable as in the data", "direct: data unchanged", "many: variable as in the data", "many: spectrum of the variable"],
)
CMAPS = ['turbo', 'viridis', 'jet']


def files(w, vs, axis, nt, npt, dt=None, free=None):
    names = []
    for v in vs:
        names += [n for n in closure(v) if n not in DEPS and n not in names]
    p = Probe(w, names, names, nt, npt, 0, dt, free)
    p.dt = dt
    if axis in 'XYZ':
        p.xs = w.reals(axis, npt, -10, 10) if free is None else [0.1 * j - 1.0 for j in range(npt)]
        for a, b in zip(p.xs, p.xs[1:]):
            w.assume(a < b)
        w.put_text(w.path(f'probe.{axis}'), [[0, 0, npt] + p.xs])
    for f in w.listdir():
        w.protect(w.path(f))
    p.names = w.listdir()
    return p


def closure(v):
    out = [v]
    for d in DEPS.get(v, []):
        out += [x for x in closure(d) if x not in out]
    return out


def horizontal(w, p, axis, x):
    if axis in 'XYZ':
        return w.close(x, p.xs)
    rows = p.files[axis]
    return w.And(len(x) == p.npt, *[w.close(x[j] * p.nt, sum(r[j] for r in rows)) for j in range(p.npt)])


def shown(w, p, var, axis, kind, levels, cmap):
    """the map saved for a variable"""
    f = w.path(f'probe.{var}.{kind}.png')
    axes = w.figure(f)
    ok = axes is not None and len(axes) == 1 and len(axes[0]['maps']) == 1 and axes[0]['maps'][0][0] in ('contourf', 'pcolormesh') and len(axes[0]['maps'][0][1]) in (3, 4)
    w.check(ok, "one map is saved")
    if not ok:
        return
    m, args, kw = axes[0]['maps'][0]
    x, y, z = [w.plain(a) for a in args[:3]]
    w.check(axes[0]['xlabel'] == axis and axes[0]['ylabel'] == ('time' if kind == 'time' else 'frequency'), "axes are named")
    if m == 'contourf':
        lv = kw.get('levels', args[3] if len(args) > 3 else None)
        w.check(lv == levels, "levels as requested")
    cm = kw.get('cmap')
    w.check(cm is not None and getattr(cm, 'N', None) == levels and same_colors(cm, cmap, levels), "color map as requested")
    w.check(horizontal(w, p, axis, x), "horizontal axis as in the data")
    if kind == 'time':
        w.check(w.close(y, p.times), "vertical axis are the times")
        w.check(len(z) == p.nt and all(len(r) == p.npt for r in z), "variable as in the data")
        if len(z) != p.nt or any(len(r) != p.npt for r in z):
            return
        if var in p.files:
            w.check(w.close(z, p.files[var]), "variable as in the data")
        else:
            bad = None
            for i in range(p.nt):
                for j in range(p.npt):
                    ok = p.formula(var, z[i][j], i, j)
                    if p.free is None or (i, j) in p.free:
                        w.check(ok, "variable as in the data")
                    elif not ok:
                        bad = (i, j)
            w.check(bad is None, "variable as in the data")
        return
    n = len(z)
    w.check(n >= 2 and len(y) == n and all(len(r) == p.npt for r in z), "spectrum of the variable")
    if n < 2 or len(y) != n or any(len(r) != p.npt for r in z):
        return
    if p.free is not None:  # given numbers
        import numpy

        w.check(w.And(*[w.close(y[k] * (p.dt * p.nt), k + 1, 1e-9, 1e-9) for k in range(n)]), "vertical axis are the frequencies")
        ref = numpy.abs(numpy.exp(-2j * numpy.pi * numpy.outer(range(1, n + 1), range(p.nt)) / p.nt) @ numpy.array(p.files[var]))
        w.check(n == max(p.nt // 200, 3) - 1 and bool(numpy.allclose(z, ref, 1e-8, 1e-8 * p.nt)), "spectrum of the variable")
        return
    for k in range(n):
        w.check(w.close(y[k] * (p.dt * p.nt), k + 1, 1e-9, 1e-9), "vertical axis are the frequencies")
        for j in range(p.npt):
            s = [r[j] for r in p.files[var]]
            w.check(w.And(z[k][j] >= 0, w.polyclose(z[k][j] * z[k][j], power(w, s, k + 1), 1e-6)), "spectrum of the variable")


def same_colors(cm, name, n):
    import matplotlib

    ref = matplotlib.colormaps[name].resampled(n)
    return all(max(abs(a - b) for a, b in zip(cm(i), ref(i))) < 1e-9 for i in range(n))


def command(w, var, axis, kind, levels, cmap, *opts):
    w.mod('cfdtools._cli').ic3probe_plotline([w.path('probe'), '--data', var, '--axis', axis, '--map', kind, '--cmap', cmap, '--cmaplevels', str(levels), *opts])


def map_(w, var, axis, nt, npt):
    w.record_plots()
    p = files(w, [var] + ([axis] if axis not in 'XYZ' else []), axis, nt, npt)
    levels, cmap = w.pick('levels', [30, 7]), w.pick('cmap', CMAPS)
    command(w, var, axis, 'time', levels, cmap, *w.pick('verbose', [[], ['-v', '--check']]))
    shown(w, p, var, axis, 'time', levels, cmap)
    unchanged(w, p, [f'probe.{var}.time.png'])


def defaults(w, options, nt, npt):
    """omitted options mean pressure over X and time with 30 levels"""
    w.record_plots()
    o = dict(options)
    var, axis, kind = o.get('--data', 'P'), o.get('--axis', 'X'), o.get('--map', 'time')
    p = files(w, [var], axis, nt, npt, w.real('dt', 0.01, 10) if kind == 'freq' else None)
    argv = [x for k, v in options for x in (k, v)]
    argv.insert(w.pick('at', [0, len(argv)]), w.path('probe'))
    w.mod('cfdtools._cli').ic3probe_plotline(argv)
    shown(w, p, var, axis, kind, int(o.get('--cmaplevels', 30)), o.get('--cmap', 'turbo'))
    unchanged(w, p, [f'probe.{var}.{kind}.png'])


def unchanged(w, p, figs):
    w.check(w.And(*[w.intact(w.path(f)) for f in p.names]), "files unchanged")
    w.check(sorted(w.listdir()) == sorted(p.names + figs), "files unchanged")


def freq(w, var, axis, nt, npt):
    w.record_plots()
    p = files(w, [var], axis, nt, npt, w.real('dt', 0.01, 10))
    w.capture_log()  # a message which cannot be formatted fails
    command(w, var, axis, 'freq', 5, 'turbo', *w.pick('verbose', [[], ['-v', '--check']]))
    shown(w, p, var, axis, 'freq', 5, 'turbo')
    unchanged(w, p, [f'probe.{var}.freq.png'])


def twice(w, one, two, nt, npt, levels=(6, 6)):
    """two maps in the same session, in either order"""
    w.record_plots()
    vs = sorted({one[0], two[0]})
    p = files(w, vs, 'X', nt, npt, w.real('dt', 0.01, 10) if 'freq' in one + two else None)
    maps = [[*one, levels[0]], [*two, levels[1]]]
    for v, k, n in w.pick('order', [maps, maps[::-1]]):
        command(w, v, 'X', k, n, 'viridis')
    for v, k, n in maps:
        shown(w, p, v, 'X', k, n, 'viridis')
    unchanged(w, p, [f'probe.{v}.{k}.png' for v, k in (one, two)])


def direct(w, kind, nt, npt):
    """the drawing functions do not alter the data they are given"""
    w.record_plots()
    p = files(w, ['P', 'RHO'], 'X', nt, npt)
    d = w.mod('cfdtools.probes.data').phydata('probe')
    for v in ('P', 'RHO', 'X'):
        d.check_data(v, prefix=w.path('probe'))
    a = {k: w.plain(v) for k, v in d.alldata.items()}
    P = w.mod('cfdtools.probes.plot')
    f = P.plot_timemap if kind == 'time' else P.plot_freqmap
    o = dict(prefix=w.path('probe'), cmap='jet', nlevels=4, verbose=False, check=False)
    for v, ax in (('P', 'X'), ('P', 'RHO'), ('RHO', 'X')):
        f(d, datalist=v, axis=ax, **o)
        shown(w, p, v, ax, kind, 4, 'jet') if kind == 'time' else None
        w.check(sorted(d.alldata) == sorted(a) and w.And(*[w.same(d.alldata[k], a[k]) for k in a]), "data unchanged")


def many(w, var, axis, nt, npt, kind='time'):
    """probes of many times and points, some of the values being symbolic (time maps)"""
    w.record_plots()
    free = {(0, 0), (nt // 2, npt - 1), (nt - 1, 0), (nt - 1, npt - 1)} if kind == 'time' else set()
    p = files(w, [var] + ([axis] if axis not in 'XYZ' else []), axis, nt, npt, 0.25 if kind == 'freq' else None, free)
    command(w, var, axis, kind, 30, 'turbo')
    shown(w, p, var, axis, kind, 30, 'turbo')
    unchanged(w, p, [f'probe.{var}.{kind}.png'])


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=4, budget=200 if not T else 1500)
    maps = [dict(var=v, axis='X', nt=2, npt=2) for v in ('P', 'RHO', 'U-X', 'Asound', 'S', 'U', 'Mach', 'INVX+', 'INVX-')]
    maps += [dict(var='RHO', axis=a, nt=n, npt=m) for a, n, m in (('Y', 3, 2), ('Z', 2, 3), ('X', 4, 3), ('P', 3, 2), ('P', 2, 3))]
    if T:
        maps += [dict(var=v, axis=a, nt=n, npt=m) for v in ('P', 'U-Y', 'Mach') for a in 'XYZ' for n in (2, 3, 5) for m in (2, 4)]
    fr = [dict(var='P', axis='X', nt=6, npt=2), dict(var='RHO', axis='Y', nt=8, npt=2), dict(var='U-X', axis='Z', nt=6, npt=3)]
    df = [dict(options=x, nt=2 if ['--map', 'freq'] not in x else 6, npt=2) for x in ([], [['--data', 'RHO']], [['--axis', 'Z']], [['--map', 'freq']], [['--cmap', 'jet']], [['--cmaplevels', '9']])]
    return [('map', map_, maps, o), ('defaults', defaults, df, o), ('freq', freq, fr, o),
            ('twice', twice, [dict(one=['P', 'time'], two=['RHO', 'time'], nt=2, npt=2), dict(one=['P', 'freq'], two=['P', 'time'], nt=6, npt=2),
                              dict(one=['P', 'freq'], two=['RHO', 'freq'], nt=6, npt=2),
                              dict(one=['P', 'time'], two=['RHO', 'time'], nt=2, npt=2, levels=(7, 12)), dict(one=['P', 'freq'], two=['P', 'time'], nt=6, npt=2, levels=(20, 5))], o),
            ('direct', direct, [dict(kind=k, nt=n, npt=2) for k, n in (('time', 2), ('time', 3), ('freq', 6))], o),
            ('many', many, [dict(var=v, axis=a, nt=n, npt=m) for v, a, n, m in (('P', 'X', 300, 12), ('Mach', 'Y', 130, 10), ('RHO', 'P', 120, 9), ('S', 'Z', 20, 130), ('U', 'X', 1100, 2), ('P', 'Z', 2501, 2))]
             + [dict(var=v, axis='X', nt=n, npt=m, kind='freq') for v, n, m in (('P', 599, 3), ('RHO', 1024, 5), ('U-Y', 1250, 12), ('P', 60, 130))], o)]
