from engine.runner import H
from harness.common import *
from harness.common2 import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
LO, HI = 3e-7, 9e-7       # table
OLO, OHI = 1e-7, 4e-6     # limits and queries


def table(cx, tu, rows, name='t'):
    lo, hi = rng_of(tu, LO, HI)
    ts = cx.reals(name, rows, lo, hi)
    for i in range(rows - 1):
        cx.assume(ts[i + 1] >= ts[i] * 1.01)
    return ts


def limits(cx, lt, tu, n, ts):
    """n limits in lt outside the table; -> values, lower, upper (in tu)"""
    xs = cx.reals('l', n, *rng_of(lt, OLO, OHI))
    L, U = ts[0], ts[-1]
    for x in xs:
        p = phys(x, lt, tu)
        w = 4 * band(p, lt, tu)
        side = bool(p < ts[0])
        if side:
            cx.assume(p < ts[0] * 0.99)
            cx.assume(p < L)
            L = p
        else:
            cx.assume(p > ts[-1] * 1.01)
            cx.assume(p > U)
            U = p
    return xs, L, U


def extend(cx, tu, lt, rows, n, order, kind='table'):
    D = cx.D
    ts = table(cx, tu, rows)
    ys = cx.reals('y', rows, -5, 5)
    base = D.Interpolation(cx.arr([[a, b] for a, b in zip(ts, ys)]), spectrum_type=tu[0], unit=tu[1])
    xs, L, U = limits(cx, lt, tu, n, ts)
    lim = D.Spectrum(cx.arr(xs) if n == 2 or order == 3 else xs[0], *lt)
    e = cx.ok('extrapolate', D.Extrapolation, base, lim, spline_order=order)
    x = cx.real('x', *rng_of(tu, OLO / 2, OHI * 2))
    arr = cx.choice('arr', [False, True])
    v, ex = cx.attempt(e.evaluate, D.Spectrum(cx.arr([x]) if arr else x, *tu))
    sl, su = band(L, lt, tu) * 2, band(U, lt, tu) * 2
    if ex is None:
        cx.check(cx.both(x >= L - sl, x <= U + su), 'nothing beyond the requested limits')
        v = cx.flat(v)
        cx.check(len(v) == 1, 'one value')
        if bool(cx.both(x >= ts[0], x <= ts[-1])):
            want = cx.flat(base.evaluate(D.Spectrum(x, *tu)))[0]
            cx.check_close(v[0], want, 'in-range values unchanged', rel=1e-12, scale=1.0)
    elif isinstance(ex, ValueError):
        cx.check(cx.either(x < L + sl, x > U - su), 'whole requested range usable')
    else:
        cx.check(False, 'only ValueError', note=repr(ex))


def ask(cx, m, tu, ts):
    """queries before the change: nothing of them may stick"""
    D = cx.D
    cx.ok('range before', m.get_maximum_valid_range)
    cx.ok('nk before', m.get_nk_data, D.Spectrum(ts[0], *tu))
    cx.ok('permittivity before', m.get_permittivity, D.Spectrum(cx.arr(ts), *tu))


def mixed(cx, side, order, via, at):
    """points of the table and beyond in one array, in any order"""
    D = cx.D
    y = cx.reals('y', 3, -5, 5)
    t = cx.arr([[500.0, y[0]], [540.0, y[1]], [600.0, y[2]]])
    l = 900.0 if side == 'high' else 300.0
    lim = D.Spectrum(l, *NM)
    base = D.Interpolation(t, spectrum_type='wavelength', unit='nm')
    if via == 'data':
        f = cx.ok('extrapolate', D.Extrapolation, base, lim, spline_order=order).evaluate
    else:
        m = D.Material(tabulated_n=t, spectrum_type='wavelength', unit='nm')
        cx.ok('extrapolate', m.extrapolate, lim, spline_order=order)
        f = m.get_nk_data
    x, z = 580.0, 540.0
    o = cx.real('o', 601, 900) if side == 'high' else cx.real('o', 300, 499)
    xs = [x, z]
    xs.insert(at, o)
    v = cx.flat(cx.ok('evaluate', f, D.Spectrum(cx.arr(xs), *NM)))
    cx.check(len(v) == 3, 'one value per point')
    for i, q in enumerate(xs):
        if i != at:
            w = cx.flat(base.evaluate(D.Spectrum(q, *NM)))[0]
            cx.check_close(cx.np.real(v[i]), w, 'in-range values unchanged', rel=1e-12, scale=1.0)


def line(cx, side, arr):
    """order 1: two points are continued along their line"""
    D = cx.D
    ys = cx.reals('y', 2, -5, 5)
    base = D.Interpolation(cx.arr([[500.0, ys[0]], [600.0, ys[1]]]), spectrum_type='wavelength', unit='nm')
    l = cx.real('l', 610, 2000) if side == 'high' else cx.real('l', 100, 490)
    e = cx.ok('extrapolate', D.Extrapolation, base, D.Spectrum(l, *NM), spline_order=1)
    x = cx.real('x', 600, 2000) if side == 'high' else cx.real('x', 100, 500)
    cx.assume(x <= l if side == 'high' else x >= l)
    v = cx.flat(cx.ok('evaluate', e.evaluate, D.Spectrum(cx.arr([x]) if arr else x, *NM)))
    w = ys[0] + (ys[1] - ys[0]) * (x - 500.0) / 100.0
    cx.check_close(v[0], w, 'a line is continued', rel=1e-6, scale=1000.0)


def mat_line(cx, what, side):
    """order 1: both parts of a material continue along their lines"""
    D = cx.D
    y, z = cx.reals('y', 2, -5, 5), cx.reals('z', 2, -5, 5)
    m = D.Material(spectrum_type='wavelength', unit='nm',
                   **{what: cx.arr([[500.0, y[0], z[0]], [600.0, y[1], z[1]]])})
    l = cx.real('l', 610, 2000) if side == 'high' else cx.real('l', 100, 490)
    cx.ok('extrapolate', m.extrapolate, D.Spectrum(l, *NM), spline_order=1)
    x = cx.real('x', 600, 2000) if side == 'high' else cx.real('x', 100, 500)
    cx.assume(x <= l if side == 'high' else x >= l)
    f = m.get_permittivity if what.endswith('eps') else m.get_nk_data
    v = cx.flat(cx.ok('evaluate', f, D.Spectrum(x, *NM)))[0]
    for nm, g, q in (('real', cx.np.real(v), y), ('imaginary', cx.np.imag(v), z)):
        w = q[0] + (q[1] - q[0]) * (x - 500.0) / 100.0
        cx.check_close(g, w, 'a line is continued, %s part' % nm, rel=1e-6, scale=1000.0)


def same_parts(cx, what, order, n, tu=NM):
    """equal columns stay equal: both parts are continued with the requested order"""
    D = cx.D
    lo, hi = rng_of(tu, 500e-9, 600e-9)
    u = hi - lo
    y = cx.reals('y', 3, -5, 5)
    t = [cx.real('t0', lo - 0.2 * u, lo), lo + 0.5 * u, cx.real('t2', hi, hi + 0.2 * u)]
    k = 2
    if order > 3:       # keep the sampled points apart without case distinctions
        t, y, k = [lo, hi], y[:2], 1
    m = D.Material(spectrum_type=tu[0], unit=tu[1], interp_order=k,
                   **{what: cx.arr([[a, b, b] for a, b in zip(t, y)])})
    base = D.Interpolation(cx.arr([[a, b] for a, b in zip(t, y)]), spectrum_type=tu[0], unit=tu[1], interp_order=k)
    top = hi + 3.0 * u
    lim = D.Spectrum(cx.np.array([lo - 2.0 * u, top]) if n == 2 else top, *tu)
    cx.ok('extrapolate', m.extrapolate, lim, spline_order=order)
    e = cx.ok('extrapolate', D.Extrapolation, base, lim, spline_order=order)
    x = cx.real('x', hi + 0.3 * u, top)
    f = m.get_permittivity if what.endswith('eps') else m.get_nk_data
    v = cx.flat(cx.ok('evaluate', f, D.Spectrum(x, *tu)))[0]
    w = cx.flat(cx.ok('evaluate', e.evaluate, D.Spectrum(x, *tu)))[0]
    cx.check_close(cx.np.real(v), w, 'real part as the extrapolated column', scale=1.0)
    cx.check_close(cx.np.imag(v), w, 'imaginary part as the extrapolated column', scale=1.0)


def limited(cx, what, which):
    """a constant part with a range of its own keeps value and range"""
    D = cx.D
    m = D.Material(spectrum_type='wavelength', unit='nm', **{{'nk': 'fixed_n', 'eps': 'fixed_eps_r'}[what]: 1.5})
    a, b, c = cx.real('a', 100, 480), cx.real('b', 620, 2000), cx.real('c', -5, 5)
    tab, con = ('real', 'imag') if which == 'imag' else ('imag', 'real')
    m.data[tab] = D.Interpolation(cx.np.array([[500.0, 1.5], [600.0, 2.5]]), spectrum_type='wavelength', unit='nm')
    m.data[con] = D.Constant(c, valid_range=(a, b), spectrum_type='wavelength', unit='nm')
    cx.ok('extrapolate', m.extrapolate, D.Spectrum(cx.np.array([300.0, 900.0]), *NM), spline_order=2)
    f = m.get_permittivity if what == 'eps' else m.get_nk_data
    x = cx.real('x', 310, 890)
    v, e = cx.attempt(f, D.Spectrum(x, *NM))
    inside = cx.both(x >= a, x <= b)
    if e is None:
        cx.check(inside, 'the constant part keeps its range')
        g = cx.flat(v)[0]
        cx.check_close(cx.np.imag(g) if which == 'imag' else cx.np.real(g), c, 'the constant part keeps its value', scale=1.0)
    else:
        cx.check(cx.both(isinstance(e, ValueError), cx.not_(inside)), 'evaluable where both parts are known', note=repr(e))


def one_row(cx, what):
    """a table with one row is a constant: extrapolating changes nothing"""
    D = cx.D
    t, y, z = cx.real('t', 400, 800), cx.real('y', -5, 5), cx.real('z', -5, 5)
    m = D.Material(spectrum_type='wavelength', unit='nm', **{what: cx.arr([[t, y] if what == 'tabulated_n' else [t, y, z]])})
    l = cx.real('l', 100, 4000)
    cx.assume(l != t)
    v, e = cx.attempt(m.extrapolate, D.Spectrum(l, *NM))
    cx.check(e is None or isinstance(e, ValueError), 'nothing to do or refused', note=repr(e))
    cx.raises('still defined at its own point only', ValueError, m.get_nk_data, D.Spectrum(l, *NM))
    g = cx.flat(cx.ok('evaluate', m.get_permittivity if what == 'tabulated_eps' else m.get_nk_data, D.Spectrum(t, *NM)))[0]
    cx.check_close(cx.np.real(g), y, 'same value', scale=1.0)


def remove_ranges(cx, what):
    """without absorption only the real part limits the range"""
    D = cx.D
    a, b = cx.real('a', 400, 900), cx.real('b', 400, 900)
    c, d = cx.real('c', 400, 900), cx.real('d', 400, 900)
    cx.assume(a < b)
    cx.assume(c < d)
    name = {'nk': 'fixed_n', 'eps': 'fixed_eps_r'}[what]
    m = D.Material(spectrum_type='wavelength', unit='nm', **{name: 1.5})
    m.data['real'] = D.Interpolation(cx.arr([[a, 1.5], [b, 2.5]]), spectrum_type='wavelength', unit='nm')
    m.data['imag'] = D.Interpolation(cx.arr([[c, 0.5], [d, 0.25]]), spectrum_type='wavelength', unit='nm')
    xb = cx.real('x', 300, 1000)
    sb = D.Spectrum(xb, *NM)
    cx.attempt(m.get_maximum_valid_range)
    cx.attempt(m.get_permittivity if what == 'eps' else m.get_nk_data, sb)
    cx.ok('remove_absorption', m.remove_absorption)
    x = xb
    f = m.get_permittivity if what == 'eps' else m.get_nk_data
    v, e = cx.attempt(f, sb)
    inside = cx.both(x >= a, x <= b)
    if e is None:
        cx.check(inside, 'the range of the real part still counts')
        v = cx.flat(v)[0]
        cx.check(cx.np.imag(v) == 0.0, 'no absorption left')
        cx.check_close(cx.np.real(v), 1.5 + (x - a) / (b - a), 'real part unchanged')
    else:
        cx.check(isinstance(e, ValueError), 'only ValueError')
        cx.check(cx.not_(inside), 'the whole range of the real part can be used')


def refuse_inside(cx, tu, lt, n, via):
    """a limit inside the range is refused"""
    D = cx.D
    ts = table(cx, tu, 2)
    data = cx.arr([[ts[0], 1.5], [ts[1], 2.5]])
    xs = cx.reals('l', n, *rng_of(lt, OLO, OHI))
    p = phys(xs[0], lt, tu)
    w = band(ts[1], lt, tu)
    cx.assume(cx.both(p >= ts[0] + w, p <= ts[1] - w))
    lim = D.Spectrum(cx.arr(xs) if n > 1 else xs[0], *lt)
    if via == 'data':
        base = D.Interpolation(data, spectrum_type=tu[0], unit=tu[1])
        cx.raises('limit inside the range is refused', ValueError, D.Extrapolation, base, lim)
    else:
        m = D.Material(tabulated_n=data, spectrum_type=tu[0], unit=tu[1])
        cx.raises('limit inside the range is refused', ValueError, m.extrapolate, lim)
        g = cx.flat(cx.ok('still usable', m.get_nk_data, D.Spectrum(ts[0], *tu)))[0]
        cx.check_close(cx.np.real(g), 1.5, 'still the same data')


def too_many(cx, tu):
    D = cx.D
    base = D.Interpolation(cx.np.array([[500.0, 1.5], [600.0, 2.5]]), spectrum_type='wavelength', unit='nm')
    xs = cx.reals('l', 3, 700, 4000)
    cx.raises('at most two limits', ValueError, D.Extrapolation, base, D.Spectrum(cx.arr(xs), *NM))


def material(cx, what, order, n, lt):
    """all parts of a material"""
    D = cx.D
    tu = NM
    ts = table(cx, tu, 2)
    y, z = cx.reals('y', 2, -5, 5), cx.reals('z', 2, -5, 5)
    two = what in ('tabulated_nk', 'tabulated_eps', 'imag_n', 'imag_eps')
    rows = [[ts[i], y[i], z[i]][:3 if two else 2] for i in (0, 1)]
    key = what if what != 'partial' else 'tabulated_n'
    if what in ('imag_n', 'imag_eps'):      # constant real part, tabulated imaginary part
        y = [1.5, 1.5]
        m = D.Material(spectrum_type='wavelength', unit='nm', **{'fixed_n' if what == 'imag_n' else 'fixed_eps_r': 1.5})
        m.data['imag'] = D.Interpolation(cx.arr([[r[0], r[2]] for r in rows]), spectrum_type='wavelength', unit='nm')
    else:
        m = D.Material(spectrum_type='wavelength', unit='nm', **{key: cx.arr(rows)})
    if what == 'partial':       # k on its own constant, limited range
        m.data['imag'] = D.Constant(0.25, valid_range=(1.0, 1e5), spectrum_type='wavelength', unit='nm')
    ask(cx, m, tu, ts)
    xs, L, U = limits(cx, lt, tu, n, ts)
    cx.ok('extrapolate', m.extrapolate, D.Spectrum(cx.arr(xs) if n == 2 else xs[0], *lt), spline_order=order)
    f = m.get_permittivity if what.endswith('_eps') else m.get_nk_data
    # inside the old range
    g = cx.flat(cx.ok('old range', f, D.Spectrum(cx.arr(ts), *tu)))
    for i in (0, 1):
        cx.check_close(cx.np.real(g[i]), y[i], 'real part unchanged', rel=1e-12, scale=1.0)
        want = z[i] if two else 0.25 if what == 'partial' else 0.0
        cx.check_close(cx.np.imag(g[i]), want, 'imaginary part unchanged', rel=1e-12, scale=1.0)
    # the new range
    x = cx.real('x', *rng_of(tu, OLO / 2, OHI * 2))
    v, ex = cx.attempt(f, D.Spectrum(x, *tu))
    sl, su = band(L, lt, tu) * 2, band(U, lt, tu) * 2
    if ex is None:
        cx.check(cx.both(x >= L - sl, x <= U + su), 'nothing beyond the requested limits')
        if what in ('imag_n', 'imag_eps'):
            cx.check_close(cx.np.real(cx.flat(v)[0]), 1.5, 'constant part untouched')
        elif not two:
            cx.check_close(cx.np.imag(cx.flat(v)[0]), 0.25 if what == 'partial' else 0.0, 'constant part untouched')
    elif isinstance(ex, ValueError):
        cx.check(cx.either(x < L + sl, x > U - su), 'whole requested range usable')
    else:
        cx.check(False, 'only ValueError', note=repr(ex))
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check_close(r[0], L, 'reported lower limit', rel=2 * REL, abs_=1e-9)
    cx.check_close(r[1], U, 'reported upper limit', rel=2 * REL, abs_=1e-9)


def fixed(cx, what):
    """constants are untouched by extrapolate"""
    D = cx.D
    m = D.Material(spectrum_type='wavelength', unit='nm', **{what: 1.5 + 0.2j if what in ('fixed_nk', 'fixed_eps') else 1.5})
    a = cx.flat(m.get_nk_data(D.Spectrum(500.0, *NM)))[0]
    l = cx.real('l', 100, 4000)
    cx.ok('extrapolate', m.extrapolate, D.Spectrum(l, *NM))
    x = cx.real('x', 1, 10000)
    cx.check_close(cx.flat(cx.ok('evaluate', m.get_nk_data, D.Spectrum(x, *NM)))[0], a, 'unchanged')


def of_model(cx, rev, n, via):
    """a model (its range may be given as upper, lower) is extended like a table"""
    D = cx.D
    a, b = cx.real('a', 0.4, 0.8), cx.real('b', 0.4, 0.8)
    cx.assume(a * 1.01 < b)
    c = cx.reals('c', 2, 0.5, 2.0)
    rng = cx.arr([b, a] if rev else [a, b])
    xs, L, U = limits(cx, UM, UM, n, [a, b])
    lim = D.Spectrum(cx.arr(xs) if n == 2 else xs[0], *UM)
    if via == 'data':
        base = D.Cauchy(cx.arr([c[0], c[1], 2.0]), rng, *UM)
        e = cx.ok('extrapolate', D.Extrapolation, base, lim, spline_order=2)
        f = e.evaluate
    else:
        e = D.Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=rng,
                                     parameters=cx.arr([c[0], c[1], 2.0])))
        cx.ok('extrapolate', e.extrapolate, lim, spline_order=2)
        f = e.get_nk_data
    x = cx.real('x', 0.05, 8.0)
    v, ex = cx.attempt(f, D.Spectrum(x, *UM))
    if ex is None:
        cx.check(cx.both(x >= L, x <= U), 'nothing beyond the requested limits')
        if bool(cx.both(x >= a, x <= b)):
            cx.check_close(cx.np.real(cx.flat(v)[0]), c[0] + c[1] * x * x, 'in-range values unchanged', scale=1.0)
    else:
        cx.check(isinstance(ex, ValueError) and bool(cx.either(x < L, x > U)), 'whole requested range usable', note=repr(ex))


def refused_unchanged(cx, what, n):
    """a request refused for one part leaves the other part as it was"""
    D = cx.D
    m = D.Material(spectrum_type='wavelength', unit='nm', **{{'nk': 'fixed_n', 'eps': 'fixed_eps_r'}[what]: 1.5})
    a = cx.real('a', 610, 1500)
    m.data['real'] = D.Interpolation(cx.np.array([[500.0, 1.5], [600.0, 2.5]]), spectrum_type='wavelength', unit='nm')
    m.data['imag'] = D.Interpolation(cx.arr([[500.0, 0.5], [a, 0.25]]), spectrum_type='wavelength', unit='nm')
    l = cx.real('l', 605, 1500)
    cx.assume(l < a)
    v, e = cx.attempt(m.extrapolate, D.Spectrum(cx.arr([400.0, l]) if n == 2 else l, *NM))
    cx.check(e is None or isinstance(e, ValueError), 'accepted or refused', note=repr(e))
    if e is not None:
        r = cx.flat(m.get_maximum_valid_range())
        cx.check_close(r, [500.0, 600.0], 'range unchanged')
        cx.raises('still out of range', ValueError, m.get_nk_data, D.Spectrum(l, *NM))


def twice(cx, first):
    """extrapolating again extends again"""
    D = cx.D
    ts = [500.0, 600.0]
    y = cx.reals('y', 2, -5, 5)
    m = D.Material(spectrum_type='wavelength', unit='nm', tabulated_n=cx.arr([[500.0, y[0]], [600.0, y[1]]]))
    l1, l2 = cx.real('l1', 610, 2000), cx.real('l2', 100, 490)
    if first == 'low':
        l1, l2 = l2, l1
    ask(cx, m, NM, ts)
    cx.ok('first', m.extrapolate, D.Spectrum(l1, *NM), spline_order=2)
    ask(cx, m, NM, ts)
    cx.ok('second', m.extrapolate, D.Spectrum(l2, *NM), spline_order=2)
    L, U = (l1, l2) if first == 'low' else (l2, l1)
    x = cx.real('x', 50, 4000)
    v, ex = cx.attempt(m.get_nk_data, D.Spectrum(x, *NM))
    if ex is None:
        cx.check(cx.both(x >= L, x <= U), 'nothing beyond the limits')
        if bool(cx.both(x >= 500.0, x <= 600.0)):
            w = y[0] + (y[1] - y[0]) * (x - 500.0) / 100.0
            cx.check_close(cx.np.real(cx.flat(v)[0]), w, 'in-range values unchanged', scale=1.0)
    else:
        cx.check(isinstance(ex, ValueError) and bool(cx.either(x < L, x > U)), 'whole range usable')


def remove(cx, what, before):
    D = cx.D
    y, z = cx.reals('y', 2, 0.1, 5), cx.reals('z', 2, -5, 5)
    if what in ('fixed_nk', 'fixed_eps'):
        m = D.Material(spectrum_type='wavelength', unit='nm', **{what: y[0] + 1j * z[0]})
    else:
        m = D.Material(spectrum_type='wavelength', unit='nm',
                       **{what: cx.arr([[500.0, y[0], z[0]], [600.0, y[1], z[1]]])})
    f = m.get_permittivity if what.endswith('eps') else m.get_nk_data
    x = cx.real('x', 500, 600)
    one = D.Spectrum(x, *NM)
    if before:
        cx.ok('query first', m.get_nk_data, one)
        cx.ok('query first', m.get_permittivity, one)
    a = cx.flat(f(one if before else D.Spectrum(x, *NM)))[0]
    re = cx.np.real(a)
    cx.ok('remove_absorption', m.remove_absorption)
    g = cx.flat(cx.ok('evaluate', f, D.Spectrum(cx.arr([x, x]), *NM)))
    g += cx.flat(cx.ok('evaluate', f, one))
    for v in g:
        cx.check_close(cx.np.real(v), re, 'real part unchanged', scale=1.0)
        cx.check(cx.np.imag(v) == 0.0, 'no absorption left')
    nk = cx.flat(m.get_nk_data(D.Spectrum(x, *NM)))[0]
    if what.endswith('nk'):
        cx.check(cx.np.imag(nk) == 0.0, 'k is zero')


def complex_refused(cx, name):
    D = cx.D
    m = D.Material(model_kw=dict(name=name, spectrum_type='energy', unit='ev', valid_range=cx.np.array([0.5, 6.0]),
                                 parameters=cx.np.array(COEF[name])), spectrum_type='energy', unit='ev')
    l = cx.real('l', 6.5, 20)
    cx.raises('refused', NotImplementedError, m.extrapolate, D.Spectrum(l, *EV))
    g = m.get_permittivity(D.Spectrum(1.0, *EV))
    cx.raises('range unchanged', ValueError, m.get_permittivity, D.Spectrum(l, *EV))


ASSUMPTIONS = ['splrep/splev: spline of order 1 exact, higher orders uninterpreted; '
               'the 1000-point sampling of the base data is abstracted to 4 monotone points with exact ends']
HARNESSES = [
    H(extend, [dict(tu=tu, lt=tu, rows=2, n=n, order=2) for tu in (NM, EV, HZ) for n in (1, 2)]
      + [dict(tu=NM, lt=lt, rows=2, n=1, order=2) for lt in TU if lt != NM]
      + [dict(tu=EV, lt=lt, rows=2, n=1, order=3) for lt in (NM, HZ)],
      thorough=[dict(tu=tu, lt=lt, rows=2, n=n, order=k) for tu in TU for lt in TU for n in (1, 2) for k in (2, 3)]
      + [dict(tu=tu, lt=tu, rows=3, n=2, order=k) for tu in TU for k in (2, 3)],
      bounds='tables of 2 (3) arbitrary rows, 1-2 arbitrary limits, spline order 2-3'),
    H(mixed, [dict(side=s, order=k, via=v, at=i) for s, k, v, i in (('low', 1, 'data', 0), ('high', 1, 'data', 2), ('high', 2, 'material', 1),
                                                                    ('low', 3, 'material', 2), ('high', 3, 'data', 0))],
      thorough=[dict(side=s, order=k, via=v, at=i) for s in ('low', 'high') for k in (1, 2, 3) for v in ('data', 'material') for i in (0, 1, 2)],
      opts={'sample_cap': 2}, bounds='3-row tables with arbitrary values; two points inside and an arbitrary one beyond in one query'),
    H(line, [dict(side=s, arr=a) for s in ('low', 'high') for a in (False, True)],
      bounds='2-row tables with arbitrary values at 500/600 nm, spline order 1'),
    H(mat_line, [dict(what=w, side=s) for w in ('tabulated_nk', 'tabulated_eps') for s in ('low', 'high')],
      opts={'sample_cap': 2}, bounds='2-row tables with arbitrary values, spline order 1'),
    H(same_parts, [dict(what=w, order=k, n=n) for w in ('tabulated_nk', 'tabulated_eps') for k, n in ((1, 1), (2, 2), (3, 1))]
      + [dict(what=w, order=k, n=1, tu=tu) for w, tu, k in (('tabulated_nk', TU[0], 2), ('tabulated_eps', EV, 3), ('tabulated_nk', HZ, 1),
                                                            ('tabulated_eps', TU[2], 2))],
      bounds='3-row tables with arbitrary values, spline order 1-3'),
    H(same_parts, [dict(what=w, order=k, n=1, tu=tu) for w, k, tu in (('tabulated_nk', 5, NM), ('tabulated_eps', 4, NM), ('tabulated_nk', 4, TU[0]),
                                                                     ('tabulated_nk', 5, EV))],
      opts={'sample_cap': 6}, bounds='spline order 4-5'),
    H(limited, [dict(what=w, which=p) for w in ('nk', 'eps') for p in ('real', 'imag')], bounds='arbitrary range and value of the constant part'),
    H(one_row, [dict(what=w) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps')], bounds='one arbitrary row'),
    H(remove_ranges, [dict(what='nk'), dict(what='eps')], bounds='arbitrary ranges of both parts'),
    H(refuse_inside, [dict(tu=tu, lt=lt, n=n, via=v) for tu, lt in ((NM, NM), (NM, EV), (HZ, NM)) for n in (1, 2)
                      for v in ('data', 'material')],
      thorough=[dict(tu=tu, lt=lt, n=n, via=v) for tu in TU for lt in TU for n in (1, 2) for v in ('data', 'material')],
      bounds='arbitrary limits inside the range'),
    H(too_many, [dict(tu=NM)]),
    H(material, [dict(what=w, order=k, n=n, lt=lt) for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps', 'partial', 'imag_n', 'imag_eps')
                 for k, n, lt in ((3, 1, NM), (2, 2, NM), (2, 1, EV))],
      bounds='2-row tables of every kind, 1-2 limits'),
    H(fixed, [dict(what=w) for w in ('fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps')]),
    H(of_model, [dict(rev=r, n=n, via=v) for r in (0, 1) for n in (1, 2) for v in ('data', 'material')], opts={'sample_cap': 4},
      bounds='a Cauchy model with arbitrary coefficients and range, in either order'),
    H(refused_unchanged, [dict(what=w, n=n) for w in ('nk', 'eps') for n in (1, 2)], bounds='arbitrary limits inside the range of one part only'),
    H(twice, [dict(first='low'), dict(first='high')], opts={'sample_cap': 4}, bounds='two extrapolations in a row'),
    H(remove, [dict(what=w, before=b) for w in ('fixed_nk', 'fixed_eps', 'tabulated_nk', 'tabulated_eps')
               for b in (False, True)], bounds='arbitrary values'),
    H(complex_refused, [dict(name=n) for n in E_MODELS]),
]
