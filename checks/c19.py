"""C19: probe quantities follow their definitions."""
META = dict(
    bounds="every subset of the files a quantity can be made from (8 for the Mach number), 2 times and 2 points (quick; 3 thorough) of symbolic values, the times being in any order or equal; requests of one "
           "or of any two quantities in any order, coordinate files of one line or of one line per time; files of up to 1100 times or 130 points, four values being symbolic",
    outside="data files of a single time (read as coordinates), files that cannot be read, times that differ between the files of one probe",
    assumptions=["values are exact numbers, pressure and density positive; the logarithm of a product of positive numbers is the sum of the logarithms; numpy's text reader "
                 "is modelled (replays use the real one)"],
    must_reach=["read from its file", "formula of the definition", "missing data are refused", "times are those of the samples", "coordinates are taken once", "many: formula of the definition", "times are those of the first data"],
)
DEPS = {'Asound': ['P', 'RHO'], 'S': ['P', 'RHO'], 'U': ['U-X', 'U-Y', 'U-Z'], 'Mach': ['U', 'Asound'], 'INVX+': ['U-X', 'Asound'], 'INVX-': ['U-X', 'Asound']}
POSITIVE = {'P', 'RHO', 'Asound'}


def closure(v):
    out = [v]
    for d in DEPS.get(v, []):
        out += [x for x in closure(d) if x not in out]
    return out


def given(name, k, lo, hi):
    """a number between the bounds, different for each k"""
    return lo + (hi - lo) * (((k + 1) * 2654435761 + 7919 * sum(map(ord, name))) % 4294967291) / 4294967291.0


class Probe:
    def __init__(self, w, names, present, nt, npt, t0, dt=None, free=None, ordered=True):
        """free: indices (time, point) of the symbolic values, all of them by default; ordered: increasing times"""
        self.w, self.nt, self.npt, self.files = w, nt, npt, {}
        self.known = {}
        self.free = free
        self.times = [w.real(f'time{k}', 0, 100) if free is None else 1.5 + 0.25 * k for k in range(nt)]
        if dt is not None:
            self.times = [self.times[0] + k * dt for k in range(nt)]
        for a, b in zip(self.times, self.times[1:] if dt is None and free is None and ordered else []):
            w.assume(a < b)
        for n in names:
            if n in present:
                lo, hi = (0.5, 10) if n in POSITIVE else (-10, 10)
                v = [[w.real(f'{n}[{i},{j}]', lo, hi) if free is None or (i, j) in free else given(n, i * npt + j, lo, hi) for j in range(npt)] for i in range(nt)]
                self.files[n] = v
                w.put_text(w.path(f'probe.{n}'), [[i + t0, t, npt] + row for i, (t, row) in enumerate(zip(self.times, v))])

    def available(self, n):
        return n in self.files or (n in DEPS and all(self.available(d) for d in DEPS[n]))

    def value(self, n, got):
        """check the values got for n against those of what it depends on"""
        w = self.w
        if n in self.files:
            w.check(w.close(got, self.files[n]), "read from its file")
            self.known[n] = got
            return
        w.check(len(got) == self.nt and all(len(r) == self.npt for r in got), "one value per sample")
        if not (len(got) == self.nt and all(len(r) == self.npt for r in got)):
            return
        bad = None
        for i in range(self.nt):
            for j in range(self.npt):
                ok = self.formula(n, got[i][j], i, j)
                if self.free is None or (i, j) in self.free:
                    w.check(ok, "formula of the definition")
                elif not ok:
                    bad = (i, j)
        w.check(bad is None, "formula of the definition")
        self.known[n] = got

    def at(self, n, i, j):
        """value of a quantity: the file, or the definition"""
        if n in self.files:
            return self.files[n][i][j]
        if n in self.known:  # computed by the code and checked
            return self.known[n][i][j]
        a = lambda d: self.at(d, i, j)  # noqa: E731
        if n == 'U':
            return self.root(a('U-X') * a('U-X') + a('U-Y') * a('U-Y') + a('U-Z') * a('U-Z'))
        if n == 'Asound':
            return self.root(1.4 * a('P') / a('RHO'))
        raise KeyError(n)

    def eq(self, a, b):
        return self.w.Or(a == b, self.w.close(a, b))

    def root(self, x):
        return self.w.np.sqrt(x)

    def formula(self, n, v, i, j):
        w = self.w
        a = lambda d: self.at(d, i, j)  # noqa: E731
        if n == 'U':
            s = a('U-X') * a('U-X') + a('U-Y') * a('U-Y') + a('U-Z') * a('U-Z')
            return w.And(v >= 0, self.eq(v * v, s))
        if n == 'Asound':
            return w.And(v >= 0, self.eq(v * v * a('RHO'), 1.4 * a('P')))
        if n == 'Mach':
            return self.eq(v * a('Asound'), a('U'))
        if n in ('INVX+', 'INVX-'):
            return self.eq(v, 5 * a('Asound') + a('U-X') if n == 'INVX+' else 5 * a('Asound') - a('U-X'))
        lp, lr = w.np.log(a('P')), w.np.log(a('RHO'))
        return abs(v - 2.5 * (lp - 1.4 * lr)) <= 1e-9 * (1 + abs(lp) + abs(lr))


def quantity(w, var, nt, npt, missing=None, again=None, verbose=False):
    D = w.mod('cfdtools.probes.data')
    names = closure(var)
    if again:
        names += [n for n in closure(again) if n not in names]
    if missing is None:
        present = [n for n in names if n not in DEPS]
        mode = w.pick('files', ['basic'] + [n for n in names if n in DEPS])
        if mode != 'basic':
            present.append(mode)
    else:
        present = [n for n in names if w.pick(f'file {n}', [1, 0])]
    p = Probe(w, names, present, nt, npt, 5, ordered=again is not None)
    d = D.phydata('probe', verbose=verbose)
    for n in [var] + ([again, var] if again else []):
        res, err = w.raises(lambda: d.check_data(n, prefix=w.path('probe')))
        if not p.available(n):
            w.check(isinstance(err, NameError), "missing data are refused")
            w.check(n not in d.alldata, "missing data are refused")
            continue
        w.check(err is None, "available data are accepted")
        if err is not None:
            return
        w.check(bool(res), "available data are accepted")
        for m in list(p.files) + [k for k in ('U', 'Asound', 'S', 'Mach', 'INVX+', 'INVX-') if k not in p.files]:
            if m in d.alldata:
                p.value(m, w.plain(d.alldata[m]))
        w.check('time' in d.alldata and w.close(d.alldata['time'], p.times), "times are those of the samples")
    # every known quantity is one that can be known
    w.check(all(k == 'time' or p.available(k) for k in d.alldata), "nothing else is made up")


def coordinate(w, axis, lines, nt, npt, first, exact=False):
    """coordinates and data in any order"""
    D = w.mod('cfdtools.probes.data')
    p = Probe(w, ['P'], ['P'], nt, npt, w.pick('it', [0, 7]), ordered=False)
    xs = w.reals('x', npt, -10, 10) if not exact else [given(axis, j, -1, 1) if j else 0.1 for j in range(npt)]
    n = nt if lines == 'all' else 1
    w.put_text(w.path(f'probe.{axis}'), [[i, p.times[i] + 1, npt] + xs for i in range(n)])
    d = D.phydata('probe', w.pick('verbose', [False, True]))
    for v in ([axis, 'P', axis] if first else ['P', axis, 'P']):
        w.check(bool(d.check_data(v, prefix=w.path('probe'))), "available data are accepted")
    w.check(w.same(d.alldata[axis], xs) if exact else w.close(d.alldata[axis], xs), "coordinates are taken once")
    p.value('P', w.plain(d.alldata['P']))
    w.check(w.close(d.alldata['time'], p.times), "times are those of the samples")


def many(w, var, nt, npt, mode='basic'):
    """probes of many times and points, some of the values being symbolic"""
    D = w.mod('cfdtools.probes.data')
    names = closure(var)
    present = [n for n in names if n not in DEPS or n == mode]
    p = Probe(w, names, present, nt, npt, 0, free={(0, 0), (nt // 2, npt - 1), (nt - 1, 0), (nt - 1, npt - 1)})
    d = D.phydata('probe')
    w.check(bool(d.check_data(var, prefix=w.path('probe'))), "available data are accepted")
    for m in list(p.files) + [k for k in ('U', 'Asound', 'S', 'Mach', 'INVX+', 'INVX-') if k not in p.files]:
        if m in d.alldata:
            p.value(m, w.plain(d.alldata[m]))
    w.check(w.same(d.alldata['time'], p.times), "times are those of the samples")


def times(w, var, order, npt=1):
    """files whose times differ: those kept are the ones of the first data read, the coordinates having none"""
    D = w.mod('cfdtools.probes.data')
    names = [n for n in closure(var) if n not in DEPS]
    ts = {}
    for k, n in enumerate(names + ['X']):
        ts[n] = w.reals(f't{n}', 2, 10 * k, 10 * k + 9)
        w.put_text(w.path(f'probe.{n}'), [[i, t, npt] + [1.5 if n == 'X' else w.real(f'{n}{i}{j}', 0.5, 10) for j in range(npt)] for i, t in enumerate(ts[n])])
    d = D.phydata('probe')
    for n in order:
        d.check_data(n, prefix=w.path('probe'))
    first = [n for n in order if n != 'X'][0]
    first = first if first in names else names[0]
    w.check(w.same(d.alldata['time'], ts[first]), "times are those of the first data")
    w.check(w.same(d.alldata['X'], [1.5] * npt) if 'X' in order else 'X' not in d.alldata, "times are those of the first data")


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=40, budget=200 if not T else 1500)
    k = 3 if T else 2
    return [('quantity', quantity, [dict(var=v, nt=k, npt=2) for v in ('P', 'Asound', 'S', 'U', 'Mach', 'INVX+', 'INVX-')]
             + [dict(var=v, nt=2, npt=1, missing=True) for v in ('P', 'Asound', 'S', 'U', 'Mach', 'INVX+', 'INVX-')]
             + [dict(var=a, again=b, nt=2, npt=1) for a in list(DEPS) + ['U-X', 'P'] for b in DEPS if a != b]
             + [dict(var=v, nt=2, npt=2, verbose=True) for v in ('P', 'Mach', 'S', 'INVX-')], o),
            ('coordinate', coordinate, [dict(axis=a, lines=n, nt=2, npt=k, first=f) for a in 'XYZ' for n in ('one', 'all') for f in (0, 1)]
             + [dict(axis=a, lines=n, nt=10, npt=5, first=f, exact=True) for a, n, f in (('X', 'all', 0), ('Y', 'all', 1), ('Z', 'one', 0))], o),
            ('many', many, [dict(var=v, nt=n, npt=m) for v, n, m in (('P', 300, 30), ('Asound', 1100, 3), ('S', 40, 120), ('Mach', 260, 12), ('INVX+', 40, 70), ('INVX-', 130, 20), ('U', 30, 130))]
             + [dict(var='Mach', nt=130, npt=10, mode='U')], o),
            ('times', times, [dict(var='Asound', order=o_) for o_ in (['P', 'RHO'], ['RHO', 'P'], ['X', 'RHO', 'Asound'], ['Asound', 'X'], ['RHO', 'X', 'S'])], o)]
