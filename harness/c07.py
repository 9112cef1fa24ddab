from math import pi
from engine.runner import H
from harness.common import *
from harness.common2 import *


def points(cx, q, shape, lo=0.05, hi=20.0):
    n = 2 if shape == 'int' else max(shape, 1)
    if shape == 'int':
        xs = [cx.int('x%d' % i, 1, int(hi)) for i in range(n)]
    elif q == EV:
        xs = cx.reals('x', n, lo, hi)
    else:
        xs = cx.reals('x', n, *rng_of(q, HC_E / hi * 1.01, HC_E / lo * 0.99))
    s = cx.D.Spectrum(cx.arr(xs) if shape else xs[0], *q)
    return s, [e * 1.0 for e in cx.flat(s.convert_to('energy', 'ev'))]


def ev(cx, name, p, s, via):
    r = (0.05, 20.0)
    if via == 'class':
        m = cx.ok('construct', cls(cx, name), cx.arr(p), r, 'energy', 'ev')
        return cx.flat(cx.ok('evaluate', m.evaluate, s))
    kw = dict(name=name, spectrum_type='energy', unit='ev', valid_range=cx.np.array(r), parameters=cx.arr(p))
    m = cx.ok('construct', cx.D.Material, model_kw=kw, spectrum_type='energy', unit='ev')
    return cx.flat(cx.ok('evaluate', m.get_permittivity, s))


def compare(cx, got, want):
    cx.check(len(got) == len(want), 'number of values')
    for g, (re, im) in zip(got, want):
        cx.check_close(cx.np.real(g), re, 'real part', scale=1.0)
        cx.check_close(cx.np.imag(g), im, 'imaginary part', scale=1.0)


def drude(cx, q, shape, via='class'):
    wp, g = cx.real('wp', -20, 20), cx.real('g', -5, 5)
    s, es = points(cx, q, shape)
    got = ev(cx, 'Drude', [wp, g], s, via)
    want = []
    for e in es:
        den = e * e * (e * e + g * g)
        want.append((1.0 - wp * wp * e * e / den, wp * wp * g * e / den))
    compare(cx, got, want)


def drude_lorentz(cx, q, shape, via='class'):
    wp, f, w0, g = cx.real('wp', -20, 20), cx.real('f', -5, 5), cx.real('w0', -20, 20), cx.real('g', -5, 5)
    cx.assume(cx.either(g >= 0.001, g <= -0.001))
    s, es = points(cx, q, shape)
    got = ev(cx, 'DrudeLorentz', [wp, f, w0, g], s, via)
    want = []
    for e in es:
        x = w0 * w0 - e * e
        den = x * x + g * g * e * e
        want.append((1.0 + f * wp * wp * x / den, f * wp * wp * g * e / den))
    compare(cx, got, want)


def tauc_lorentz(cx, q, shape, over, via='class', part='both'):
    """Jellison-Modine; over: 4 E0^2 > C^2 always, over=True also needs C^2 > 2 E0^2"""
    A, E0, C, Eg, inf = (cx.real('A', 0.1, 200), cx.real('E0', 0.5, 10), cx.real('C', 0.1, 10),
                         cx.real('Eg', 0.1, 8), cx.real('inf', 0, 5))
    cx.assume(4 * E0 * E0 - C * C >= 0.01)
    if over:
        cx.assume(C * C > 2 * E0 * E0)
    s, es = points(cx, q, shape)
    got = ev(cx, 'TaucLorentz', [A, E0, C, Eg, inf], s, via)
    cx.check(len(got) == len(es), 'number of values')
    for g, e in zip(got, es):
        im = cx.np.imag(g)
        if part in ('both', 'imag'):
            den = (e * e - E0 * E0) * (e * e - E0 * E0) + C * C * e * e
            full = A * E0 * C * (e - Eg) * (e - Eg) / den / e
            cx.check(cx.implies(e <= Eg, im == 0.0), 'no absorption below the gap')
            cx.check(im >= 0.0, 'imaginary part not negative')
            if bool(e > Eg):
                cx.check_close(im, full, 'imaginary part', scale=1.0)
        if part in ('both', 'real'):
            cx.check_close(cx.np.real(g), tl_real(cx, A, E0, C, Eg, inf, e), 'real part', rel=1e-8, scale=100.0)


def tl_real(cx, A, E0, C, Eg, inf, E):
    aln = (Eg * Eg - E0 * E0) * E * E + Eg * Eg * C * C - E0 * E0 * (E0 * E0 + 3 * Eg * Eg)
    aat = (E * E - E0 * E0) * (E0 * E0 + Eg * Eg) + Eg * Eg * C * C
    al = cx.sqrt(4 * E0 * E0 - C * C)
    g2 = E0 * E0 - C * C / 2
    z4 = (E * E - g2) * (E * E - g2) + al * al * C * C / 4
    log = lambda x: cx.fn('log', x)
    at = lambda x: cx.fn('arctan', x)
    r = inf + A * C * aln / (2 * pi * z4 * al * E0) * log(
        (E0 * E0 + Eg * Eg + al * Eg) / (E0 * E0 + Eg * Eg - al * Eg))
    r = r - A * aat / (pi * z4 * E0) * (pi - at((2 * Eg + al) / C) + at((al - 2 * Eg) / C))
    # 2 A E0 / (pi z4 al) Eg (E^2-g2) (pi + 2 atan(2 (g2-Eg^2)/(al C))), written with the sum of two arctans
    r = r + 4 * A * E0 / (pi * z4 * al) * Eg * (E * E - g2) * (at((al + 2 * Eg) / C) + at((al - 2 * Eg) / C))
    if bool(E != Eg):
        d = abs(E - Eg)
        r = r - A * E0 * C / (pi * z4) * (E * E + Eg * Eg) / E * log(d / (E + Eg))
        s = cx.sqrt((E0 * E0 - Eg * Eg) * (E0 * E0 - Eg * Eg) + Eg * Eg * C * C)
        r = r + 2 * A * E0 * C * Eg / (pi * z4) * log(d * (E + Eg) / s)
    else:       # the logarithms of |E-Eg| cancel
        s = cx.sqrt((E0 * E0 - Eg * Eg) * (E0 * E0 - Eg * Eg) + Eg * Eg * C * C)
        r = r - A * E0 * C / (pi * z4) * (2 * Eg) * log(1.0 / (E + Eg))
        r = r + 2 * A * E0 * C * Eg / (pi * z4) * log((E + Eg) / s)
    return r


def fano(cx, q, shape):
    qf, er, gm = cx.real('q', -20, 20), cx.real('er', 0.1, 10), cx.real('gm', -5, 5)
    cx.assume(cx.either(gm >= 0.01, gm <= -0.01))
    s, es = points(cx, q, shape)
    m = cx.ok('construct', cls(cx, 'Fano'), cx.arr([qf, er, gm]), (0.05, 20.0), 'energy', 'ev')
    got = cx.flat(cx.ok('evaluate', m.evaluate, s))
    cx.check(len(got) == len(es), 'number of values')
    for g, e in zip(got, es):
        x = 2.0 * (e - er) / gm
        cx.check_close(g, (x + qf) * (x + qf) / ((1.0 + qf * qf) * (1.0 + x * x)), 'cross section', scale=1.0)


def passive(cx, name):
    """Im eps >= 0 for non-negative parameters"""
    s, es = points(cx, EV, 1)
    if name == 'Drude':
        p = [cx.real('wp', 0, 20), cx.real('g', 0, 5)]
    else:
        p = [cx.real('wp', 0, 20), cx.real('f', 0, 5), cx.real('w0', 0, 20), cx.real('g', 0.001, 5)]
    for g in ev(cx, name, p, s, 'class'):
        cx.check(cx.np.imag(g) >= 0.0, 'imaginary part not negative')
    r, e = cx.attempt(lambda: ev(cx, name, p, s, 'material'))
    m = cx.D.Material(model_kw=dict(name=name, spectrum_type='energy', unit='ev', valid_range=cx.np.array((0.05, 20.)),
                                    parameters=cx.arr(p)), spectrum_type='energy', unit='ev')
    nk = cx.flat(m.get_nk_data(s))
    for g in nk:
        cx.check(cx.both(cx.np.imag(g) >= 0.0, cx.np.real(g) >= 0.0), 'n, k not negative')


ASSUMPTIONS = ['Tauc-Lorentz: log and arctan are uninterpreted functions (equal arguments, equal values); '
               '4 E0^2 - C^2 >= 0.01 (underdamped), C > 0; energies 0.05..20 eV']
QS = (EV, ('wavelength', 'nm'), ('frequency', 'hz'))
std = [dict(q=EV, shape=0), dict(q=EV, shape=2), dict(q=EV, shape='int'), dict(q=EV, shape=1, via='material'),
       dict(q=EV, shape=0, via='material')] + [dict(q=q, shape=1) for q in QS[1:]]
stdT = [dict(q=q, shape=n, via=v) for q in TU for n in (0, 1, 2) for v in ('class', 'material')] + [dict(q=EV, shape='int')]
HARNESSES = [
    H(drude, std, stdT, bounds='wp -20..20, gamma -5..5, arrays to 2'),
    H(drude_lorentz, std, stdT, bounds='wp,w0 -20..20, f -5..5, |gamma| 0.001..5, arrays to 2'),
    H(tauc_lorentz, [dict(q=EV, shape=n, over=False, part=p) for n in (0, 1) for p in ('real', 'imag')]
      + [dict(q=EV, shape=1, over=True, part=p) for p in ('real', 'imag')]
      + [dict(q=EV, shape=0, over=False, part='imag', via='material'),
         dict(q=EV, shape=2, over=False, part='imag'), dict(q=EV, shape='int', over=False, part='imag'), dict(q=EV, shape=2, over=False, part='imag', via='material'),
         dict(q=('wavelength', 'nm'), shape=1, over=False, part='imag')],
      [dict(q=EV, shape=n, over=o, part=p, via=v) for n in (0, 1, 2) for o in (False, True)
       for p in ('real', 'imag') for v in ('class', 'material')],
      bounds='A 0.1..200, E0 0.5..10, C 0.1..10, Eg 0.1..8 including E = Eg and C > sqrt(2) E0'),
    H(fano, [dict(q=EV, shape=0), dict(q=EV, shape='int'), dict(q=EV, shape=2), dict(q=QS[1], shape=1)], bounds='q -20..20, width -5..5'),
    H(passive, [dict(name='Drude'), dict(name='DrudeLorentz')], bounds='non-negative parameters'),
]
