from engine.runner import H
from harness.common import *
from harness.common2 import *

NM = ('wavelength', 'nm')


def build(cx, kind, ts=None):
    """-> (evaluate function, own type/unit, lower, upper)"""
    D = cx.D
    if kind == 'constant':
        c = D.Constant(cx.real('c', -5, 5), valid_range=(100.0, 2000.0), spectrum_type='wavelength', unit='nm')
        return c.evaluate, NM, 100.0, 2000.0
    if kind in ('table', 'table3', 'extrap', 'extrap2'):
        n = 3 if kind == 'table3' else 2
        ts = ts or cx.reals('t', n, 300, 900)
        for i in range(n - 1):
            cx.assume(ts[i] < ts[i + 1])
        t = D.Interpolation(cx.arr([[u, v] for u, v in zip(ts, cx.reals('y', n, -5, 5))]), spectrum_type='wavelength',
                            unit='nm')
        if kind.startswith('table'):
            return t.evaluate, NM, ts[0], ts[-1]
        if kind == 'extrap':
            e = D.Extrapolation(t, D.Spectrum(2000.0, unit='nm'), spline_order=1)
            return e.evaluate, NM, ts[0], 2000.0
        e = D.Extrapolation(t, D.Spectrum(cx.np.array([100.0, 2000.0]), unit='nm'), spline_order=2)
        return e.evaluate, NM, 100.0, 2000.0
    if kind in MODELS:
        d = own_tu(kind)
        a, b = (0.2, 2.0) if d == UM else (0.5, 6.0)
        m = cls(cx, kind)(cx.np.array(COEF[kind]), (a, b), *d)
        return m.evaluate, d, a, b
    if kind == 'Fano':
        m = cls(cx, kind)(cx.np.array([2.0, 3.0, 0.1]), (0.5, 6.0), *EV)
        return m.evaluate, EV, 0.5, 6.0
    # whole materials
    what, f = kind.split('/')
    if what == 'fixed_n':
        m = D.Material(fixed_n=cx.pyfloat('n', -5, 5), spectrum_type='wavelength', unit='nm')
        d, a, b = NM, 100.0, 2000.0
    elif what == 'fixed_nk':
        m = D.Material(fixed_nk=1.5 + 0.2j, spectrum_type='wavelength', unit='nm')
        d, a, b = NM, 100.0, 2000.0
    elif what == 'fixed_eps':
        m = D.Material(fixed_eps=-4.0 + 0.3j, spectrum_type='wavelength', unit='nm')
        d, a, b = NM, 100.0, 2000.0
    elif what == 'fixed_eps_r':
        m = D.Material(fixed_eps_r=cx.pyfloat('e', -5, 5), spectrum_type='wavelength', unit='nm')
        d, a, b = NM, 100.0, 2000.0
    elif what in ('tabulated_n', 'tabulated_nk', 'tabulated_eps'):
        t = ts or cx.reals('t', 2, 300, 900)
        cx.assume(t[0] < t[1])
        k = 2 if what == 'tabulated_n' else 3
        tab = cx.arr([[u] + cx.reals('y%d' % i, k - 1, -5, 5) for i, u in enumerate(t)])
        m = D.Material(spectrum_type='wavelength', unit='nm', **{what: tab})
        d, a, b = NM, t[0], t[1]
    elif what == 'single':
        x = cx.real('t', 300, 900)
        m = D.Material(spectrum_type='wavelength', unit='nm', tabulated_nk=cx.arr([[x, 1.5, 0.1]]))
        d, a, b = NM, x, x
    else:
        d = own_tu(what)
        a, b = (0.2, 2.0) if d == UM else (0.5, 6.0)
        m = D.Material(model_kw=dict(name=what, spectrum_type=d[0], unit=d[1], valid_range=cx.np.array([a, b]),
                                     parameters=cx.np.array(COEF[what])), spectrum_type=d[0], unit=d[1])
    g = m.get_nk_data if f == 'nk' else m.get_permittivity
    return g, d, a, b


def many(cx, kind, n, q=None):
    """long arrays: two arbitrary points among fixed ones"""
    ev, d, a, b = build(cx, kind, [500.0, 600.0] if kind.startswith('extrap') else [399.0, 801.0])
    D = cx.D
    l1, l2 = {NM: (400.0, 800.0), UM: (0.4, 0.8), EV: (1.6, 3.0)}[d]
    if kind == 'extrap':
        l1 = 500.0
    sym = cx.reals('x', 2, l1, l2)
    xs, pos = filled(cx, sym, n, l1, l2)
    if q is not None:
        xs = [phys(x, d, q) for x in xs]
    whole = cx.ok('array', ev, D.Spectrum(cx.arr(xs), *(q or d)))
    cx.check(tuple(cx.np.shape(whole)) == (n,), 'one value per point')
    w = cx.flat(whole)
    for i in pos + [1, n // 2, n - 2]:
        s = cx.ok('scalar', ev, D.Spectrum(xs[i], *(q or d)))
        cx.check_close(w[i], cx.flat(s)[0], 'array value equals scalar value [%d]' % i)


def points(cx, kind, n, q=None):
    ev, d, a, b = build(cx, kind)
    D = cx.D
    if q is None:
        q = d
        xs = cx.reals('x', n)
        for x in xs:
            cx.assume(x >= a)
            cx.assume(x <= b)
    else:
        xs = cx.reals('x', n, *rng_of(q, 1e-7, 2e-5))
        for x in xs:
            p = phys(x, q, d)
            cx.assume(p >= a + band(a, q, d))
            cx.assume(p <= b - band(b, q, d))
    whole = cx.ok('array', ev, D.Spectrum(cx.arr(xs), *q))
    cx.check(tuple(cx.np.shape(whole)) == (n,), 'one value per point')
    w = cx.flat(whole)
    for i, x in enumerate(xs):
        s = cx.ok('scalar', ev, D.Spectrum(x, *q))
        o = cx.ok('one element', ev, D.Spectrum(cx.arr([x]), *q))
        cx.check(int(cx.np.size(s)) == 1, 'scalar query gives one value')
        cx.check(tuple(cx.np.shape(o)) == (1,), 'one-element query gives one value')
        cx.check_close(w[i], cx.flat(s)[0], 'array value equals scalar value [%d]' % i)
        cx.check_close(w[i], cx.flat(o)[0], 'array value equals one-element value [%d]' % i)


def across(cx, order, at):
    """a tabulated point and one beyond the table in one query of extrapolated data"""
    D = cx.D
    y = cx.reals('y', 3, -5, 5)
    t = D.Interpolation(cx.arr([[500.0, y[0]], [540.0, y[1]], [600.0, y[2]]]), spectrum_type='wavelength', unit='nm')
    e = cx.ok('extrapolate', D.Extrapolation, t, D.Spectrum(900.0, *NM), spline_order=order)
    xs = [540.0]
    xs.insert(at, cx.real('o', 601, 900))
    w = cx.flat(cx.ok('array', e.evaluate, D.Spectrum(cx.arr(xs), *NM)))
    cx.check(len(w) == 2, 'one value per point')
    for i, x in enumerate(xs):
        s = cx.ok('scalar', e.evaluate, D.Spectrum(x, *NM))
        cx.check_close(w[i], cx.flat(s)[0], 'array value equals scalar value [%d]' % i)


def shaped(cx, kind, shape):
    """arrays of more than one dimension keep their shape"""
    ev, d, a, b = build(cx, kind)
    D = cx.D
    n = shape[0] * shape[1]
    xs = cx.reals('x', n)
    for x in xs:
        cx.assume(x >= a)
        cx.assume(x <= b)
    arr = cx.arr([xs[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])])
    whole = cx.ok('array', ev, D.Spectrum(arr, *d))
    cx.check(tuple(cx.np.shape(whole)) == tuple(shape), 'shape of the query')
    w = cx.flat(whole)
    for i, x in enumerate(xs):
        s = cx.ok('scalar', ev, D.Spectrum(x, *d))
        cx.check_close(w[i], cx.flat(s)[0], 'array value equals scalar value [%d]' % i)


KINDS = ['constant', 'table', 'table3', 'extrap', 'extrap2', 'Fano'] + MODELS
MAT = [a + '/' + f for a in ['fixed_n', 'fixed_nk', 'fixed_eps', 'fixed_eps_r', 'tabulated_n', 'tabulated_nk',
                             'tabulated_eps', 'single', 'Sellmeier', 'Cauchy', 'Drude', 'TaucLorentz']
       for f in ('nk', 'eps')]
HARNESSES = [
    H(points, [dict(kind=k, n=2) for k in KINDS + MAT] + [dict(kind=k, n=3) for k in ('constant', 'table', 'Drude')]
      + [dict(kind=k, n=2, q=q) for k in ('table', 'Sellmeier', 'Drude', 'tabulated_nk/nk')
         for q in (('frequency', 'hz'), ('wavelength', 'm'))],
      thorough=[dict(kind=k, n=n) for k in KINDS + MAT for n in (2, 3)]
      + [dict(kind=k, n=2, q=q) for k in ('table', 'Sellmeier', 'Drude', 'tabulated_nk/nk', 'extrap')
         for q in TU],
      bounds='arrays of 2 (3) arbitrary points, every data kind and material definition, arbitrary order of points'),
    H(many, [dict(kind=k, n=70) for k in KINDS + MAT if k not in ('extrap', 'extrap2', 'table3', 'single/nk', 'single/eps')]
      + [dict(kind='table', n=200)],
      bounds='arrays of 70 (one table: 200) points, without extrapolated data, two of them arbitrary'),
    H(across, [dict(order=o, at=a) for o in (1, 2, 3) for a in (0, 1)], bounds='three arbitrary table values, arbitrary point beyond the table'),
    H(shaped, [dict(kind=k, shape=(1, 2)) for k in KINDS + MAT] + [dict(kind=k, shape=(2, 1)) for k in KINDS + MAT]
      + [dict(kind=k, shape=(2, 2)) for k in ('constant', 'table', 'fixed_n/nk', 'fixed_eps/nk', 'Drude', 'tabulated_n/eps')],
      bounds='two-dimensional arrays of 2 (4) arbitrary points'),
]
