"""C18: weights of the spectral bases are exact on polynomials."""
META = dict(
    bounds="both bases, orders 1 to 14 (quick; 18 thorough), every evaluation point in [-1, 1] (in [-2, 2] up to order 4), every monomial of degree below the order (the equalities are linear in the polynomial); "
           "one point, an array of two points or of up to 1100 points (three of them symbolic); several bases alive at the same time, used in any order",
    outside="orders above 14 (18), points further outside the element",
    assumptions=["the floating-point values of Gauss points, Vandermonde matrix and its inverse are those numpy and scipy compute, what the code does with the "
                 "point is evaluated over exact numbers: equalities are asked with a tolerance of 1e-9 (1e-7 for derivatives)"],
    must_reach=["value of the polynomial", "derivative of the polynomial", "weights sum to one", "derivative weights sum to zero", "Gauss points"],
)


def dot(a, b):
    r = a[0] * b[0]
    for p, q in zip(a[1:], b[1:]):
        r = r + p * q
    return r


def mono(k, x):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def exact(w, b, order, x, wi, wd):
    roots = w.plain(b._roots)
    w.check(len(roots) == order and all(-1 < r < 1 for r in roots) and len(set(roots)) == order, "Gauss points")
    w.check(len(wi) == order and len(wd) == order, "one weight per point")
    if len(roots) != order or len(wi) != order or len(wd) != order:
        return
    # a basis of the polynomials: the equalities are linear in the polynomial
    for k in range(order):
        v = [r ** k for r in roots]
        w.check(w.polyclose(dot(wi, v), mono(k, x), 1e-9), "value of the polynomial")
        w.check(w.polyclose(dot(wd, v), k * mono(k - 1, x) if k else 0, 1e-7), "derivative of the polynomial")
    w.check(w.polyclose(sum(wi), 1, 1e-9), "weights sum to one")
    w.check(w.polyclose(sum(wd), 0, 1e-7), "derivative weights sum to zero")


def matrices(w, b, series, order):
    """matrix of the values of the basis at its points and its inverse, read after the weights"""
    roots, v, i = w.plain(b._roots), w.plain(b.vdm), w.plain(b.invvdm)
    for k, r in enumerate(roots):
        if series == 'polynomial':
            want = [r ** d for d in range(order)]
        else:
            want = [1.0, r][:order]
            for d in range(1, order - 1):
                want.append(((2 * d + 1) * r * want[d] - d * want[d - 1]) / (d + 1))
        w.check(all(abs(v[d][k] - want[d]) < 1e-9 for d in range(order)), "values of the basis at the points")
    prod = [[sum(v[p][k] * i[k][q] for k in range(order)) for q in range(order)] for p in range(order)]
    w.check(all(abs(prod[p][q] - (p == q)) < 1e-7 for p in range(order) for q in range(order)), "inverse of the values of the basis")


def weights(w, series, order, shape=None, r=1):
    P = w.mod('cfdtools.utils.polybase')
    b = P.poly1d(order, series=series)
    if shape is None:
        x = w.real('x', -r, r)
        exact(w, b, order, x, w.plain(b.interp_weights(x)), w.plain(b.diff_weights(x)))
    else:
        x = w.realarray('x', (shape,), -1, 1)
        wd = w.plain(b.diff_weights(x))
        wi = w.plain(b.interp_weights(x))
        xs = w.plain(x)
        for k in range(shape):
            exact(w, b, order, xs[k], [r[k] for r in wi], [r[k] for r in wd])
    matrices(w, b, series, order)


def many(w, series, order, n):
    """many points, three of them symbolic"""
    P = w.mod('cfdtools.utils.polybase')
    b = P.poly1d(order, series=series)
    xs = [-1 + 2 * ((k * 7919 + 1) % 104729) / 104729.0 for k in range(n)]
    free = sorted({0, n // 2, n - 1})
    for k in free:
        xs[k] = w.real(f'x{k}', -1, 1)
    x = w.array(xs, float)
    wi, wd = w.plain(b.interp_weights(x)), w.plain(b.diff_weights(x))
    w.check(len(wi) == order and len(wd) == order and all(len(r) == n for r in wi + wd), "one weight per point")
    if len(wi) != order or len(wd) != order or not all(len(r) == n for r in wi + wd):
        return
    roots = w.plain(b._roots)
    bad = None
    for k in range(n):
        if k in free:
            exact(w, b, order, xs[k], [r[k] for r in wi], [r[k] for r in wd])
            continue
        for d in range(order):
            v = [r ** d for r in roots]
            if abs(dot([r[k] for r in wi], v) - xs[k] ** d) > 1e-9 or abs(dot([r[k] for r in wd], v) - (d * xs[k] ** (d - 1) if d else 0)) > 1e-7:
                bad = k
    w.check(bad is None, "value of the polynomial")


def several(w, s1, s2, o1, o2):
    """bases do not disturb each other"""
    P = w.mod('cfdtools.utils.polybase')
    x = w.real('x', -1, 1)
    b1 = P.poly1d(o1, series=s1)
    first = w.pick('first', [0, 1])
    if first:
        d1 = w.plain(b1.diff_weights(x))
    b2 = P.poly1d(o2, series=s2)
    i2, d2 = w.plain(b2.value_weights(x)), w.plain(b2.gradv_weights(x))
    y = w.real('y', -1, 1)
    b1.interp_weights(y)
    i1 = w.plain(b1.value_weights(x))
    if not first:
        d1 = w.plain(b1.gradv_weights(x))
    exact(w, b1, o1, x, i1, d1)
    exact(w, b2, o2, x, i2, d2)
    matrices(w, b2, s2, o2)
    matrices(w, b1, s1, o1)


def scenarios(tier):
    T = tier == 'thorough'
    n = 18 if T else 14
    o = dict(max_replay=20, budget=150 if not T else 1200)
    return [('weights', weights, [dict(series=s, order=k) for s in ('legendre', 'polynomial') for k in range(1, n + 1)]
             + [dict(series=s, order=k, shape=2) for s in ('legendre', 'polynomial') for k in (1, 2, 3)]
             + [dict(series=s, order=k, r=2) for s in ('legendre', 'polynomial') for k in (2, 3, 4)], o),
            ('several', several, [dict(s1=a, s2=b, o1=p, o2=q) for a, b, p, q in (('legendre', 'legendre', 2, 3), ('legendre', 'polynomial', 3, 3), ('polynomial', 'legendre', 3, 2))], o),
            ('many', many, [dict(series=q, order=k, n=n) for q in ('legendre', 'polynomial') for k, n in ((2, 1100), (5, 150), (9, 40))], o)]
