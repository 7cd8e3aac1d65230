"""C22: spectra of sampled signals match the discrete Fourier transform."""
import math
from fractions import Fraction

META = dict(
    bounds="2 variables of 2, 3, 4, 6 or 8 (12 thorough) selected samples out of at most 12 (any first and last sample, also counted from the end), symbolic samples, first time and time "
           "step, or two symbolic steps in turn (the frequencies are those of the average step); filters with and without time; spectrograms of windows of 5 or 7 samples (9 thorough) over 5 to 12 samples; given signals of up to 2500 samples (real, complex or integer) with symbolic or given times",
    outside="symbolic samples in selections of other lengths (the exact factors of the transform are needed), the warning given when the step varies",
    assumptions=["numpy's Fourier transforms are modelled exactly (lengths 2, 3, 4, 6, 8, 12) or with the floating-point factors (windows of spectrograms); replays use the real ones"],
    must_reach=["modulus of the transform", "frequencies of the sampling step", "one value per frequency", "source data unchanged", "windows at their time", "window spectrum", "long: modulus of the transform", "long: window spectrum"],
)


def signal(w, n, names):
    D = w.mod('cfdtools.data')
    t0 = w.real('t0', -10, 10)
    if w.cfg.get('uneven'):  # the sampling step is the average one
        a, b = w.reals('dt', 2, 0.5, 2)
        d = [a if i % 3 == 0 else b for i in range(n - 1)]
        ts = [t0]
        for x in d:
            ts.append(ts[-1] + x)
        dt = (ts[-1] - t0) / (n - 1)
    else:
        dt = w.real('dt', 0.01, 10)
        ts = [t0 + i * dt for i in range(n)]
    t = w.array(ts, float)
    ds = D.DataSet(Trep='timeevol')
    vals = {v: w.reals(v, n, -10, 10) for v in names}
    order = ['time'] + names if w.cfg.get('timefirst', True) else names + ['time']
    for v in order:
        ds.add_data(v, t if v == 'time' else w.array(vals[v], float))
    return D, ds, t0, dt, w.plain(t), vals


def cosine(w, k, n):
    """exact cosine of 2 pi k / n for n in 1, 2, 3, 4, 6, 8, 12"""
    d = 360 * (k % n) // n
    if d % 90 == 45:
        return (1 if d in (45, 315) else -1) * w.root(2) * Fraction(1, 2) if w.symbolic else math.cos(math.radians(d))
    if d % 180 in (30, 150):
        return (1 if d in (30, 330) else -1) * w.root(3) * Fraction(1, 2) if w.symbolic else math.cos(math.radians(d))
    return {0: Fraction(1), 60: Fraction(1, 2), 90: Fraction(0), 120: Fraction(-1, 2), 180: Fraction(-1), 240: Fraction(-1, 2), 270: Fraction(0), 300: Fraction(1, 2)}[d]


def power(w, x, k):
    """squared modulus of the transform: sum of x_a x_b cos(2 pi k (a - b) / n)"""
    n = len(x)
    r = 0
    for a in range(n):
        for b in range(n):
            c = cosine(w, k * (a - b), n)
            if not (isinstance(c, Fraction) and c == 0):
                r = r + x[a] * x[b] * (c if w.symbolic else float(c))
    return r


def unchanged(w, ds, t, vals, names):
    w.check(sorted(ds.keys()) == sorted(['time'] + names), "source data unchanged")
    w.check(w.And(w.same(ds['time'], t), *[w.same(ds[v], vals[v]) for v in names]), "source data unchanged")


def spectrum(w, n, imin, imax, filt=None, timefirst=True, uneven=False, names=None):
    names = list(w.cfg.get('names', ['U', 'V']))
    D, ds, t0, dt, t, vals = signal(w, n, names)
    sel = list(range(n))[imin:imax]
    m = len(sel)
    if uneven:
        dt = (t[sel[-1]] - t[sel[0]]) / (m - 1)
    given = None if filt is None else list(filt)
    kw = {} if imin is None and imax is None else dict(imin=imin, imax=imax)
    for attempt in range(2):
        sp = ds.dataSet_spectrum(given, **kw) if given is not None else ds.dataSet_spectrum(**kw)
        want = [v for v in (filt or names) if v != 'time']
        w.check(sorted(sp.keys()) == sorted(['freq'] + want) and sp.Trep == 'spectrum', "variables of the spectrum")
        w.check(given is None or given == list(filt), "source data unchanged")
        unchanged(w, ds, t, vals, names)
        if sorted(sp.keys()) != sorted(['freq'] + want):
            return
        f = w.plain(sp['freq'])
        w.check(len(f) == m, "one value per frequency")
        if len(f) != m:
            return
        for k in range(m):
            kk = k if k < (m + 1) // 2 else k - m
            w.check(w.close(f[k] * (m * dt), kk, 1e-9, 1e-9), "frequencies of the sampling step")
        for v in want:
            y = w.plain(sp[v])
            w.check(len(y) == m, "one value per frequency")
            if len(y) != m:
                return
            x = [vals[v][i] for i in sel]
            for k in range(m):
                w.check(w.And(y[k] >= 0, w.polyclose(y[k] * y[k], power(w, x, k), 1e-6)), "modulus of the transform")


def spectrogram(w, n, window, filt=None, timefirst=True, uneven=False, names=None):
    names = list(w.cfg.get('names', ['U', 'V']))
    D, ds, t0, dt, t, vals = signal(w, n, names)
    given = None if filt is None else list(filt)
    sg = ds.dataSet_spectrogram(given, window=window)
    want = [v for v in (filt or names) if v != 'time']
    h = window // 2
    L = 2 * h + 1
    nit = (n - 1) // h - 1
    w.check(sorted(sg.keys()) == sorted(['freq', 'time'] + want) and sg.Trep == 'spectrogram', "variables of the spectrogram")
    w.check(given is None or given == list(filt), "source data unchanged")
    unchanged(w, ds, t, vals, names)
    f = w.plain(sg['freq'])
    w.check(len(f) == h - 1, "one value per frequency")
    if len(f) != h - 1:
        return
    for k, v in enumerate(f):
        w.check(w.close(v * (L * dt), k + 2, 1e-9, 1e-9), "frequencies of the sampling step")
    w.check(w.close(sg['time'], [t[h * (i + 1)] for i in range(nit)]), "windows at their time")
    np = w.np
    hann = np.hanning(L)
    for v in want:
        y = w.plain(sg[v])
        w.check(len(y) == nit and all(len(r) == h - 1 for r in y), "one value per frequency")
        if not (len(y) == nit and all(len(r) == h - 1 for r in y)):
            return
        for i in range(nit):
            x = w.array([vals[v][h * i + j] for j in range(L)], float) * hann
            ref = w.plain(np.log(np.abs(np.fft.rfft(x))))[2:]
            w.check(w.And(*[w.Or(a == b, abs(a - b) <= 1e-6) for a, b in zip(y[i], ref)]), "window spectrum")


def long(w, n, imin=None, imax=None, window=None, gram=False, filt=None, step=None, kind=None, names=None):
    """signals of many given samples"""
    D = w.mod('cfdtools.data')
    names = list(w.cfg.get('names', ['U', 'V']))
    t0, dt = (w.real('t0', -10, 10), w.real('dt', 0.01, 10)) if step is None else (2.5, step)
    ts = [t0 + i * dt for i in range(n)]
    vals = {v: [given(v, i) for i in range(n)] for v in names}
    if kind == 'complex':
        vals = {v: [complex(a, given(v, 3 * i + 1) / 3) for i, a in enumerate(x)] for v, x in vals.items()}
    elif kind == 'int':
        vals = {v: [int(20 * a) for a in x] for v, x in vals.items()}
    ds = D.DataSet(Trep='timeevol')
    for v in ['time'] + names:
        ds.add_data(v, w.array(ts, float) if v == 'time' else w.array(vals[v], {'complex': complex, 'int': int}.get(kind, float)))
    t = w.plain(ds['time'])
    want = [v for v in (filt or names) if v != 'time']
    if gram:
        out = ds.dataSet_spectrogram(filt, window=window) if window else ds.dataSet_spectrogram(filt)
        h = (window or n // 100) // 2
        m, nit = 2 * h + 1, (n - 1) // h - 1
    else:
        out = ds.dataSet_spectrum(filt, imin=imin, imax=imax)
        sel = list(range(n))[imin:imax]
        m = len(sel)
    unchanged(w, ds, t, vals, names)
    w.check(sorted(out.keys()) == sorted(['freq'] + ['time'] * gram + want), "variables of the spectrum")
    fr = w.plain(out['freq'])
    ks = list(range(2, m // 2 + 1)) if gram else [k if k < (m + 1) // 2 else k - m for k in range(m)]
    w.check(len(fr) == len(ks), "one value per frequency")
    if len(fr) != len(ks) or sorted(out.keys()) != sorted(['freq'] + ['time'] * gram + want):
        return
    pick = range(len(ks)) if step is not None else sorted({0, 1, 2, len(ks) // 2 - 1, len(ks) // 2, len(ks) // 2 + 1, len(ks) - 1})
    w.check(w.And(*[w.close(fr[k] * (m * dt), ks[k], 1e-9, 1e-9) for k in pick]), "frequencies of the sampling step")
    import numpy

    mat = numpy.exp(-2j * numpy.pi * (numpy.outer(ks, range(m)) % m) / m)
    if gram:
        w.check(w.close(out['time'], [t[h * (i + 1)] for i in range(nit)]), "windows at their time")
        hann = 0.5 - 0.5 * numpy.cos(2 * numpy.pi * numpy.arange(m) / (m - 1))
    for v in want:
        got = w.plain(out[v])
        if gram:
            ok = len(got) == nit and all(len(r) == len(ks) for r in got)
        else:
            ok = len(got) == m
        w.check(ok, "one value per frequency")
        if not ok:
            return
        if gram:
            bad = [i for i in range(nit) if not numpy.allclose(got[i], numpy.log(numpy.abs(mat @ (hann * vals[v][h * i:h * i + m]))), 1e-7, 1e-7)]
            w.check(bad == [], "window spectrum")
        else:
            ref = numpy.abs(mat @ numpy.array([vals[v][i] for i in sel]))
            w.check(bool(numpy.allclose(got, ref, 1e-8, 1e-8 * m)), "modulus of the transform")


def given(name, i):
    """samples: waves, drift and jumps"""
    return 3 * math.sin(0.37 * i + ord(name[0])) + 0.004 * i + ((i * 7919 + ord(name[0])) % 104729) / 104729.0 * (2 if name == 'U' else -1)


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=30, budget=200 if not T else 1500)
    sel = [(n, None, None) for n in (2, 3, 4, 6, 8) + ((12,) if T else ())] + [(5, 1, None), (5, 0, 4), (5, 1, 4), (6, 2, 5), (6, -4, None), (7, 1, -2), (7, 0, 4), (5, None, 3), (4, 2, None), (9, 0, -1)]
    odd = ['t', 'time_avg', 'e', 'Time', 'im', 'freq0', 'tim']
    return [('spectrum', spectrum, [dict(n=4, imin=None, imax=None, names=odd)] + [dict(n=n, imin=a, imax=b) for n, a, b in sel]
             + [dict(n=4, imin=None, imax=None, filt=f, timefirst=g) for f in (['U'], ['time', 'V'], ['V', 'time', 'U'], ['V', 'U']) for g in (True, False)]
             + [dict(n=n, imin=a, imax=b, uneven=True) for n, a, b in ((2, None, None), (3, None, None), (4, 1, None), (5, 1, 4), (6, None, None))], o),
            ('spectrogram', spectrogram, [dict(n=6, window=5, names=odd)] + [dict(n=n, window=k) for k in ((4, 5, 6, 7) if not T else (4, 5, 6, 7, 8, 9)) for n in range(2 * (k // 2) + 1, 13)]
             + [dict(n=9, window=5, filt=f, timefirst=g) for f in (['U'], ['time', 'V']) for g in (True, False)]
             + [dict(n=n, window=5, uneven=True) for n in (5, 8)], o),
            ('long', long, [dict(n=1200), dict(n=300, imin=17, imax=-30), dict(n=1500, imin=100, imax=1301, step=0.013), dict(n=2049, step=1e-4, filt=['V']),
                            dict(n=1300, gram=True), dict(n=1590, gram=True, step=0.01), dict(n=900, gram=True, window=101), dict(n=2500, gram=True, step=0.002), dict(n=3000, gram=True, window=256, step=0.5, filt=['time', 'U']),
                            dict(n=64, step=0.1, kind='complex'), dict(n=75, step=0.1, imin=2, kind='complex'), dict(n=64, step=0.1, kind='int'), dict(n=75, step=0.1, imin=2, kind='int'), dict(n=120, gram=True, window=20, kind='int', step=0.1)], o)]
