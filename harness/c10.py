from engine.runner import H
from harness.common import *
from harness.common2 import *

# tables and queries: wavelengths 100 nm .. 10 um
LO, HI = 1e-7, 1e-5


def perms(n):
    import itertools
    return list(itertools.permutations(range(n)))


def make(cx, tu, rows, cols, order=None):
    lo, hi = rng_of(tu, LO, HI)
    ts = cx.reals('t', rows, lo, hi)
    for i in range(rows - 1):
        cx.assume(ts[i + 1] - ts[i] >= (hi - lo) * 1e-6)
    ys = [cx.reals('y%d_' % c, rows, -5, 5) for c in range(cols)]
    idx = order if order is not None else range(rows)
    tab = cx.arr([[ts[i]] + [y[i] for y in ys] for i in idx])
    return ts, ys, tab


def line(cx, ts, y, p, got, label, rel=1e-9):
    """got is the straight line between the neighbours of p"""
    sc = 10.0
    for i in range(len(ts) - 1):
        inside = cx.both(p >= ts[i], p <= ts[i + 1])
        if bool(inside):
            h = ts[i + 1] - ts[i]
            want = y[i] + (y[i + 1] - y[i]) * (p - ts[i]) / h
            cx.check_close(got, want, label, rel=rel, scale=sc)
            return


def interpolation(cx, tu, rows, order=None, shape=0):
    ts, ys, tab = make(cx, tu, rows, 1, order)
    t = cx.ok('table', cx.D.Interpolation, tab, spectrum_type=tu[0], unit=tu[1])
    n = max(shape, 1)
    qs = cx.reals('q', n)
    for q in qs:
        cx.assume(q >= ts[0])
        cx.assume(q <= ts[-1])
    got = cx.flat(cx.ok('evaluate', t.evaluate, cx.D.Spectrum(cx.arr(qs) if shape else qs[0], *tu)))
    cx.check(len(got) == n, 'number of values')
    for g, q in zip(got, qs):
        line(cx, ts, ys[0], q, g, 'straight line between neighbours')
    # tabulated points
    got = cx.flat(cx.ok('evaluate', t.evaluate, cx.D.Spectrum(cx.arr(ts), *tu)))
    for g, y in zip(got, ys[0]):
        cx.check_close(g, y, 'tabulated value at a tabulated point', scale=10.0)


def unit_of_query(cx, tu, q):
    """asking in another unit: the same line at the converted point"""
    ts, ys, tab = make(cx, tu, 2, 1)
    t = cx.ok('table', cx.D.Interpolation, tab, spectrum_type=tu[0], unit=tu[1])
    x = cx.real('q', *rng_of(q, LO, HI))
    p = phys(x, q, tu)
    cx.assume(cx.both(p >= ts[0] + band(ts[0], q, tu), p <= ts[1] - band(ts[1], q, tu)))
    s = cx.D.Spectrum(cx.arr([x]), *q)
    got = cx.flat(cx.ok('evaluate', t.evaluate, s))[0]
    pc = cx.flat(s.convert_to(*tu))[0]           # conversion itself: C01
    h = ts[1] - ts[0]
    # slope times conversion error: |dy/dt| * band
    want = ys[0][0] + (ys[0][1] - ys[0][0]) * (pc - ts[0]) / h
    cx.check_close(got, want, 'straight line in the unit of the table', scale=10.0)


def whole_numbers(cx, what, tu=('wavelength', 'nm')):
    """a table of integers"""
    cols = 1 if what == 'tabulated_n' else 2
    ts = [cx.int('t%d' % i, 1, 10000) for i in range(2)]
    cx.assume(ts[0] < ts[1])
    ys = [[cx.int('y%d_%d' % (c, i), -5, 5) for i in range(2)] for c in range(cols)]
    tab = cx.arr([[ts[i]] + [y[i] for y in ys] for i in range(2)])
    m = cx.ok('material', cx.D.Material, spectrum_type=tu[0], unit=tu[1], **{what: tab})
    q = cx.real('q')
    cx.assume(cx.both(q >= ts[0], q <= ts[-1]))
    ev = m.get_permittivity if what == 'tabulated_eps' else m.get_nk_data
    g = cx.flat(cx.ok('evaluate', ev, cx.D.Spectrum(q, *tu)))[0]
    line(cx, [t * 1.0 for t in ts], [y * 1.0 for y in ys[0]], q, cx.np.real(g), 'real column')
    if cols == 2:
        line(cx, [t * 1.0 for t in ts], [y * 1.0 for y in ys[1]], q, cx.np.imag(g), 'imaginary column')


def material(cx, what, rows, order=None, f='own'):
    cols = 1 if what == 'tabulated_n' else 2
    tu = ('wavelength', 'nm')
    ts, ys, tab = make(cx, tu, rows, cols, order)
    m = cx.ok('material', cx.D.Material, spectrum_type='wavelength', unit='nm', **{what: tab})
    q = cx.real('q')
    cx.assume(cx.both(q >= ts[0], q <= ts[-1]))
    ev = m.get_permittivity if what == 'tabulated_eps' else m.get_nk_data
    g = cx.flat(cx.ok('evaluate', ev, cx.D.Spectrum(q, *tu)))[0]
    line(cx, ts, ys[0], q, cx.np.real(g), 'real column')
    if cols == 2:
        line(cx, ts, ys[1], q, cx.np.imag(g), 'imaginary column')
    else:
        cx.check_close(cx.np.imag(g), 0.0, 'imaginary part')


def long_table(cx, what, tu, rows, shuffle):
    """many rows, four of them with arbitrary values, an arbitrary query next to them"""
    lo, hi = rng_of(tu, LO, HI)
    ts = [lo + (hi - lo) * (i + 1.0) / (rows + 1) for i in range(rows)]
    k = cx.choice('at', [0, rows // 2, rows - 4])
    cols = 2 if what in ('tabulated_nk', 'tabulated_eps') else 1
    ys = [[1.0 + ((7 * i + c) % 11) / 10.0 for i in range(rows)] for c in range(cols)]
    for c in range(cols):
        for j, v in enumerate(cx.reals('y%d_' % c, 4, -5, 5)):
            ys[c][k + j] = v
    data = [[t] + [y[i] for y in ys] for i, t in enumerate(ts)]
    if shuffle:
        data = [data[(i * 29) % rows] for i in range(rows)]
    q = cx.real('q', ts[k], ts[k + 3])
    D = cx.D
    if what == 'table':
        t = cx.ok('table', D.Interpolation, cx.arr(data), spectrum_type=tu[0], unit=tu[1])
        g = cx.flat(cx.ok('evaluate', t.evaluate, D.Spectrum(q, *tu)))[0]
    else:
        m = cx.ok('material', D.Material, spectrum_type=tu[0], unit=tu[1], **{what: cx.arr(data)})
        ev = m.get_permittivity if what == 'tabulated_eps' else m.get_nk_data
        g = cx.flat(cx.ok('evaluate', ev, D.Spectrum(q, *tu)))[0]
    w = slice(k, k + 4)
    line(cx, ts[w], ys[0][w], q, cx.np.real(g), 'real column')
    if cols == 2:
        line(cx, ts[w], ys[1][w], q, cx.np.imag(g), 'imaginary column')


def order_used(cx, what, k):
    """interp_order k: every column is the spline of that order through its own data"""
    import scipy.interpolate
    tu = ('wavelength', 'nm')
    xs = [400.0, 470.0, 560.0, 700.0, 800.0]
    cols = 1 if what == 'tabulated_n' else 2
    ys = [cx.reals('y%d_' % c, 5, -5, 5) for c in range(cols)]
    tab = cx.arr([[x] + [y[i] for y in ys] for i, x in enumerate(xs)])
    m = cx.ok('material', cx.D.Material, spectrum_type='wavelength', unit='nm', interp_order=k, **{what: tab})
    q = cx.real('q', 400, 800)
    ev = m.get_permittivity if what == 'tabulated_eps' else m.get_nk_data
    g = cx.flat(cx.ok('evaluate', ev, cx.D.Spectrum(cx.arr([q]), *tu)))[0]
    if cx.sym:
        from engine import stubs
        I = stubs.interp1d
    else:
        I = scipy.interpolate.interp1d
    parts = [cx.np.real(g), cx.np.imag(g)]
    for c in range(cols):
        want = cx.flat(I(cx.arr(xs), cx.arr(ys[c]), kind=k)(cx.arr([q])))[0]
        cx.check_close(parts[c], want, 'column %d has the requested order' % c, rel=1e-7, scale=100.0)
    t = cx.ok('table', cx.D.Interpolation, cx.arr([[x, ys[0][i]] for i, x in enumerate(xs)]),
              spectrum_type='wavelength', unit='nm', interp_order=k)
    g = cx.flat(cx.ok('evaluate', t.evaluate, cx.D.Spectrum(cx.arr([q]), *tu)))[0]
    want = cx.flat(I(cx.arr(xs), cx.arr(ys[0]), kind=k)(cx.arr([q])))[0]
    cx.check_close(g, want, 'Interpolation has the requested order', rel=1e-7, scale=100.0)


FILES = {'n+k': ('n', 'k'), 'k+n': ('k', 'n'), 'nk': ('nk',), 'eps': ('eps',), 'eps_r+eps_k': ('eps_r', 'eps_k'), 'eps_k+eps_r': ('eps_k', 'eps_r'),
         'n_alpha': ('n_alpha',)}


def order_source(cx, what, k):
    """interp_order k for absorption tables and for tables read from files: each part is the spline of that
    order through the values it has at its own rows"""
    import os
    import scipy.interpolate
    D = cx.D
    tu = ('wavelength', 'nm')
    xs = [400.0, 470.0, 560.0, 700.0, 800.0]
    big = 1e6 if what in ('direct', 'n_alpha') else 5      # absorption coefficients in 1/cm
    ys = [cx.reals('y0_', 5, -5, 5), cx.reals('y1_', 5, -big, big)]
    kw = dict(spectrum_type='wavelength', unit='nm', interp_order=k)
    if what == 'direct':
        m = cx.ok('material', D.Material, tabulated_n_alpha=cx.arr([[x, ys[0][i], ys[1][i]] for i, x in enumerate(xs)]), **kw)
    else:
        text = 'DATA:\n'
        if what == 'txt':
            text = '# SPECTRUMTYPE: wavelength\n# UNIT: nm\n'
            for i, x in enumerate(xs):
                text += '\t'.join(str(v) for v in (x, ys[0][i], ys[1][i])) + '\n'
        else:
            for t in FILES[what]:
                text += '  - type: tabulated %s\n    SpectrumType: wavelength\n    Unit: nm\n    data: |\n' % t
                cols = {'n': (0,), 'k': (1,), 'eps_r': (0,), 'eps_k': (1,)}.get(t, (0, 1))
                for i, x in enumerate(xs):
                    text += '        ' + ' '.join(str(v) for v in [x] + [ys[c][i] for c in cols]) + '\n'
        p = os.path.join(cx.tmp(), 'm.txt' if what == 'txt' else 'm.yml')
        with open(p, 'w', encoding='utf8') as f:
            f.write(text)
        m = cx.ok('load', D.Material, file_path=p, **kw)
    if cx.sym:
        from engine import stubs
        I = stubs.interp1d
    else:
        I = scipy.interpolate.interp1d
    q = cx.real('q', 400, 800)
    ev = m.get_permittivity if what.startswith('eps') else m.get_nk_data
    at = cx.flat(cx.ok('evaluate', ev, D.Spectrum(cx.np.array(xs), *tu)))
    g = cx.flat(cx.ok('evaluate', ev, D.Spectrum(cx.arr([q]), *tu)))[0]
    for c, f in enumerate((cx.np.real, cx.np.imag)):
        col = [f(v) for v in at]
        if c == 0 or 'alpha' not in what and what != 'direct':
            for i in range(5):
                cx.check_close(col[i], ys[c][i], 'row %d as tabulated' % i, rel=1e-9, scale=10.0)
        want = cx.flat(I(cx.arr(xs), cx.arr(col), kind=k)(cx.arr([q])))[0]
        cx.check_close(f(g), want, 'part %d has the requested order' % c, rel=1e-7, scale=100.0)


def too_few(cx, what, k, rows):
    """an order the table is too short for is refused, not replaced by another one"""
    lo, hi = 4e2, 8e2
    ts = cx.reals('t', rows, lo, hi)
    for i in range(rows - 1):
        cx.assume(ts[i] < ts[i + 1])
    ys = cx.reals('y', rows, -5, 5)
    if what == 'table':
        r, e = cx.attempt(cx.D.Interpolation, cx.arr([[t, y] for t, y in zip(ts, ys)]), spectrum_type='wavelength', unit='nm', interp_order=k)
    else:
        r, e = cx.attempt(cx.D.Material, spectrum_type='wavelength', unit='nm', interp_order=k,
                          **{what: cx.arr([[t, y] + ([y] if what != 'tabulated_n' else []) for t, y in zip(ts, ys)])})
    cx.check(isinstance(e, ValueError), 'refused')


ASSUMPTIONS = ['splines of order >= 2 are an uninterpreted function of (order, table, point) through the table; '
               'the piecewise linear kinds are exact']
P3, P4 = perms(3), perms(4)
HARNESSES = [
    H(whole_numbers, [dict(what=w, tu=tu) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps')
                      for tu in (('wavelength', 'nm'), ('frequency', 'hz'), ('wavelength', 'um'))],
      bounds='integer tables of two rows'),
    H(interpolation, [dict(tu=tu, rows=3, shape=s) for tu in TU for s in (0, 2)]
      + [dict(tu=TU[3], rows=3, order=p) for p in P3] + [dict(tu=EV, rows=3, order=p, shape=1) for p in P3]
      + [dict(tu=TU[3], rows=4, order=p) for p in P4[1::3]],
      thorough=[dict(tu=tu, rows=r, shape=s) for tu in TU for s in (0, 1, 2) for r in (2, 3, 4, 5)]
      + [dict(tu=tu, rows=4, order=p, shape=1) for p in P4 for tu in (TU[3], TU[5], TU[6])],
      bounds='tables of 2-4 (5) arbitrary rows in every row order, arbitrary query points'),
    H(unit_of_query, [dict(tu=a, q=b) for a in TU for b in TU if a != b], bounds='all 72 pairs of different units'),
    H(material, [dict(what=w, rows=3, order=p) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps')
                 for p in (P3[0], P3[3], P3[5])],
      thorough=[dict(what=w, rows=4, order=p) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps') for p in P4],
      bounds='every table kind of Material, 3 (4) rows'),
    H(long_table, [dict(what=w, tu=tu, rows=r, shuffle=s) for w in ('table', 'tabulated_n', 'tabulated_nk', 'tabulated_eps')
                   for tu, r, s in ((TU[3], 60, False), (EV, 107, True))],
      bounds='tables of 60 and 107 rows, four neighbouring rows and the query arbitrary'),
    H(order_source, [dict(what=w, k=k) for w in ['direct', 'txt'] + list(FILES) for k in (2, 3)],
      thorough=[dict(what=w, k=1) for w in ['direct', 'txt'] + list(FILES)],
      bounds='5 fixed points, arbitrary values, order 2-3 (1), read from text or YAML or given with absorption coefficients'),
    H(too_few, [dict(what=w, k=k, rows=r) for w in ('table', 'tabulated_n', 'tabulated_nk', 'tabulated_eps') for k, r in ((2, 2), (3, 2), (3, 3))],
      bounds='2-3 arbitrary rows, orders 2-3'),
    H(order_used, [dict(what=w, k=k) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps') for k in (1, 2, 3)],
      bounds='5 fixed points, arbitrary values, order 1-3'),
]
