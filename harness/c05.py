from engine.runner import H
from harness.common import *
from harness.common2 import *

# wavelengths 100 nm .. 10 um, tables/limits and queries alike
LO, HI = 1e-7, 1e-5


def verdict(cx, ev, xs, q, a, b, d):
    v, e = cx.attempt(ev)
    ps = [phys(x, q, d) for x in xs]
    ba, bb = band(a, q, d), band(b, q, d)
    inside = cx.both(*[cx.both(p >= a + ba, p <= b - bb) for p in ps])
    outside = cx.either(*[cx.either(p < a - ba, p > b + bb) for p in ps])
    if e is None:
        cx.check(cx.not_(outside), 'no value outside the valid range')
        cx.check(len(cx.flat(v)) == len(xs), 'one value per point')
    elif isinstance(e, ValueError):
        cx.check(cx.not_(inside), 'every point of the valid range is accepted')
    else:
        cx.check(False, 'only ValueError', note='%s: %s' % (type(e).__name__, e))


def query(cx, q, n):
    xs = cx.reals('x', max(n, 1), *rng_of(q, LO, HI))
    return xs, cx.D.Spectrum(cx.arr(xs) if n else xs[0], *q)


def long_query(cx, q, n):
    """one arbitrary point somewhere in a long array of points between 0.9 and 1.1 um"""
    x = cx.real('x', *rng_of(q, LO, HI))
    xs, _ = filled(cx, [], n, *rng_of(q, 0.9e-6, 1.1e-6))
    xs[cx.choice('at', [0, n // 3, n - 1])] = x
    return xs, cx.D.Spectrum(cx.arr(xs), *q)


def long_array(cx, kind, d, q, n=33):
    D = cx.D
    lo, hi = rng_of(d, LO, HI)
    m1, m2 = rng_of(d, 0.8e-6, 1.2e-6)
    a, b = cx.real('a', lo, m1), cx.real('b', m2, hi)
    if kind == 'constant':
        o = D.Constant(1.5, valid_range=(a, b), spectrum_type=d[0], unit=d[1])
    elif kind == 'table':
        o = D.Interpolation(cx.arr([[a, 1.5], [b, 2.5]]), spectrum_type=d[0], unit=d[1])
    elif kind == 'material':
        m = D.Material(tabulated_nk=cx.arr([[a, 1.5, 0.1], [b, 2.0, 0.2]]), spectrum_type=d[0], unit=d[1])
    else:
        o = cls(cx, kind)(cx.np.array(COEF[kind]), (a, b), d[0], d[1])
    xs, s = long_query(cx, q, n)
    verdict(cx, (lambda: m.get_nk_data(s)) if kind == 'material' else (lambda: o.evaluate(s)), xs, q, a, b, d)


def limits(cx, d):
    lo, hi = rng_of(d, LO, HI)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a < b)
    return a, b


def constant(cx, d, q, n, rev=False):
    a, b = limits(cx, d)
    c = cx.D.Constant(cx.real('c', -5, 5), valid_range=(b, a) if rev else (a, b), spectrum_type=d[0], unit=d[1])
    xs, s = query(cx, q, n)
    verdict(cx, lambda: c.evaluate(s), xs, q, a, b, d)


def scale(cx, what, d, lo, hi):
    """ranges of any size: gamma rays, radio waves, one limit close to zero"""
    lo, hi = rng_of(d, lo, hi)
    a, b, x = cx.real('a', lo, hi), cx.real('b', lo, hi), cx.real('x', lo, hi)
    cx.assume(a < b)
    if what == 'constant':
        o = cx.D.Constant(1.5, valid_range=(a, b), spectrum_type=d[0], unit=d[1])
    else:
        o = cx.D.Interpolation(cx.arr([[a, 1.5], [b, 2.5]]), spectrum_type=d[0], unit=d[1])
    verdict(cx, lambda: o.evaluate(cx.D.Spectrum(x, *d)), [x], d, a, b, d)


def negative(cx, what, d, q, at):
    """negative points lie outside every range, alone and next to points inside"""
    D = cx.D
    lo, hi = rng_of(d, LO, HI)
    if what == 'constant':
        o = D.Constant(1.5, valid_range=(lo, hi), spectrum_type=d[0], unit=d[1])
    elif what == 'table':
        o = D.Interpolation(cx.np.array([[lo, 1.5], [hi, 2.5]]), spectrum_type=d[0], unit=d[1])
    else:
        m = D.Material(tabulated_nk=cx.np.array([[lo, 1.5, 0.1], [hi, 2.0, 0.2]]), spectrum_type=d[0], unit=d[1])
    l, h = rng_of(q, LO, HI)
    x = cx.real('x', -h, -l)
    i1, i2 = rng_of(q, 0.9e-6, 1.1e-6)
    xs = {None: x, 0: cx.arr([x, i1, i2]), 1: cx.arr([i1, x, i2]), 2: cx.arr([i1, i2, x])}[at]
    s = D.Spectrum(xs, *q)
    cx.raises('negative point refused', ValueError, (lambda: m.get_nk_data(s)) if what == 'material' else (lambda: o.evaluate(s)))


def table(cx, d, q, n, rows=2):
    lo, hi = rng_of(d, LO, HI)
    ts = cx.reals('t', rows, lo, hi)
    for i in range(rows):
        for j in range(i):
            cx.assume(ts[i] != ts[j])
    ys = cx.reals('y', rows, -5, 5)
    t = cx.D.Interpolation(cx.arr([[u, v] for u, v in zip(ts, ys)]), spectrum_type=d[0], unit=d[1])
    xs, s = query(cx, q, n)
    v, e = cx.attempt(t.evaluate, s)
    ps = [phys(x, q, d) for x in xs]

    def sl(t_):
        return band(t_, q, d)
    inside = cx.both(*[cx.both(cx.either(*[p >= u + sl(u) for u in ts]), cx.either(*[p <= u - sl(u) for u in ts]))
                       for p in ps])
    outside = cx.either(*[cx.either(cx.both(*[p < u - sl(u) for u in ts]), cx.both(*[p > u + sl(u) for u in ts]))
                          for p in ps])
    if e is None:
        cx.check(cx.not_(outside), 'no value outside the table')
        cx.check(len(cx.flat(v)) == len(xs), 'one value per point')
    elif isinstance(e, ValueError):
        cx.check(cx.not_(inside), 'every point between tabulated points is accepted')
    else:
        cx.check(False, 'only ValueError', note='%s: %s' % (type(e).__name__, e))


def model(cx, name, q, n):
    d = own_tu(name)
    lo, hi = (0.2, 2.0) if d == UM else (0.5, 6.0)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a < b)
    m = cls(cx, name)(cx.np.array(COEF[name]), (a, b), d[0], d[1])
    xs, s = query(cx, q, n)
    verdict(cx, lambda: m.evaluate(s), xs, q, a, b, d)


def material(cx, kind, q):
    """through a whole material: both parts limit it"""
    D = cx.D
    d = ('wavelength', 'nm')
    lo, hi = rng_of(d, LO, HI)
    xs, s = query(cx, q, 2)
    if kind == 'single':       # one row: a constant valid at one point only
        a = cx.real('a', lo, hi)
        m = D.Material(tabulated_nk=cx.arr([[a, 1.5, 0.1]]), spectrum_type='wavelength', unit='nm')
        verdict(cx, lambda: m.get_nk_data(s), xs, q, a, a, d)
        return
    a, b = limits(cx, d)
    m = D.Material(tabulated_nk=cx.arr([[a, 1.5, 0.1], [b, 2.0, 0.2]]), spectrum_type='wavelength', unit='nm')
    f = m.get_nk_data if kind == 'nk' else m.get_permittivity
    verdict(cx, lambda: f(s), xs, q, a, b, d)
    f2 = (lambda: m.get_nk_data(s.values, *q)) if kind == 'nk' else (lambda: m.get_permittivity(s.values, *q))
    verdict(cx, f2, xs, q, a, b, d)


PAIRS = [(a, b) for a in TU for b in TU]
HARNESSES = [
    H(constant, [dict(d=d, q=q, n=2) for d, q in PAIRS] + [dict(d=d, q=d, n=n) for d in TU for n in (0, 1, 3)]
      + [dict(d=d, q=d, n=0, rev=True) for d in TU],
      thorough=[dict(d=d, q=q, n=n) for d, q in PAIRS for n in (0, 1, 2, 3, 4)]
      + [dict(d=d, q=q, n=2, rev=True) for d, q in PAIRS],
      bounds='arbitrary limits and points 100 nm..10 um, all 81 unit pairs, scalars and arrays to 3 (4)'),
    H(scale, [dict(what=w, d=d, lo=lo, hi=hi) for w in ('constant', 'table') for d, lo, hi in (
        (TU[0], 1e-15, 1e-11), (TU[0], 1.0, 1e5), (TU[5], 1e-2, 1e6), (TU[6], 1e-13, 1e-9), (TU[6], 1.0, 1e4), (TU[3], 1e-13, 1e-10), (TU[8], 1.0, 1e4))],
      bounds='arbitrary limits and points for wavelengths 1e-15 m .. 1e6 m'),
    H(negative, [dict(what=w, d=d, q=q, at=at) for w in ('constant', 'table', 'material') for d, q, at in (
        (TU[3], TU[3], None), (TU[3], TU[3], 1), (TU[5], TU[5], 0), (TU[6], TU[3], 2), (TU[3], TU[6], 1), (TU[2], TU[5], None))],
      thorough=[dict(what=w, d=d, q=q, at=at) for w in ('constant', 'table', 'material') for d in TU for q in TU for at in (None, 0, 1, 2)],
      bounds='one arbitrary negative point, alone or at any place of an array'),
    H(table, [dict(d=d, q=q, n=1) for d, q in PAIRS] + [dict(d=d, q=d, n=2) for d in TU]
      + [dict(d=d, q=d, n=0, rows=3) for d in TU[3:7]],
      thorough=[dict(d=d, q=q, n=n) for d, q in PAIRS for n in (0, 1, 2)]
      + [dict(d=d, q=q, n=1, rows=3) for d, q in PAIRS],
      bounds='tables of 2-3 arbitrary rows in any order, all unit pairs'),
    H(model, [dict(name=m, q=q, n=n) for m in MODELS for q in (own_tu(m), ('wavelength', 'nm'), ('frequency', 'hz'))
              for n in (0, 2)],
      thorough=[dict(name=m, q=q, n=n) for m in MODELS for q in TU for n in (0, 1, 2)],
      bounds='12 models with representative coefficients, arbitrary limits; '
             'query in the own unit, nm, Hz (thorough: every unit)'),
    H(long_array, [dict(kind=k, d=TU[3], q=TU[3], n=150) for k in ('constant',)] + [dict(kind=k, d=d, q=q) for k in ('constant', 'table', 'material') for d, q in ((TU[3], TU[3]), (TU[3], TU[6]), (TU[5], TU[2]))]
      + [dict(kind='Cauchy', d=UM, q=q) for q in (UM, TU[5])] + [dict(kind='Drude', d=EV, q=q) for q in (EV, TU[3])],
      bounds='one arbitrary point at three positions of an array of 33 or 150'),
    H(material, [dict(kind=k, q=q) for k in ('nk', 'eps', 'single') for q in (TU[3], TU[2], TU[5], TU[6])],
      bounds='2-row and 1-row materials, queries as Spectrum and as plain values'),
]
