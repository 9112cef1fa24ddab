from engine.runner import H
from harness.common import *
from harness.common2 import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')


def M(cx, name):
    return getattr(cx.mod('dispersion.material'), name)


def spectrum(cx, tu, n):
    lo, hi = rng_of(tu, 4e-7, 8e-7)
    xs = [lo + (hi - lo) * (i + 1) / (n + 1) for i in range(n)]
    if n == 0:
        return cx.D.Spectrum((lo + hi) / 2, *tu), 1
    return cx.D.Spectrum(cx.np.array(xs), *tu), n


def pair(cx, kind, n, lo=-20.0, hi=20.0, ilo=0.0, ihi=20.0):
    """two materials and their permittivities at the n spectral points"""
    D = cx.D
    if kind == 'real':
        a, b = cx.pyfloat('a', lo, hi), cx.pyfloat('b', lo, hi)
        return D.Material(fixed_eps_r=a), D.Material(fixed_eps_r=b), [a + 0j] * n, [b + 0j] * n
    if kind == 'complex':
        a = cx.real('a', lo, hi) + 1j * cx.real('ai', ilo, ihi)
        b = cx.real('b', lo, hi) + 1j * cx.real('bi', ilo, ihi)
        return D.Material(fixed_eps=a), D.Material(fixed_eps=b), [a] * n, [b] * n
    if kind == 'half':          # first constituent concrete
        a = 2.25 + 0.5j
        b = cx.real('b', lo, hi) + 1j * cx.real('bi', ilo, ihi)
        return D.Material(fixed_eps=a), D.Material(fixed_eps=b), [a] * n, [b] * n
    if kind == 'other':
        b = -9.0 + 1.5j
        a = cx.real('a', lo, hi) + 1j * cx.real('ai', ilo, ihi)
        return D.Material(fixed_eps=a), D.Material(fixed_eps=b), [a] * n, [b] * n
    if kind == 'index':         # given as refractive index
        a = cx.real('a', 0.1, 5) + 0j
        b = cx.real('b', 0.1, 5) + 0j
        return D.Material(fixed_nk=a), D.Material(fixed_nk=b), [a * a] * n, [b * b] * n
    raise KeyError(kind)


def tables(cx, tu, n):
    """constituents whose permittivity differs from point to point"""
    D = cx.D
    lo, hi = rng_of(tu, 4e-7, 8e-7)
    xs = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    e = []
    for nm in 'ab':
        e.append([cx.real('%s%d' % (nm, i), 1, 20) + 0j for i in range(n)])
    ms = [D.Material(tabulated_eps=cx.arr([[x, cx.np.real(v), 0.0] for x, v in zip(xs, es)]), spectrum_type=tu[0], unit=tu[1])
          for es in e]
    return D.Spectrum(cx.np.array(xs), *tu), ms[0], ms[1], e[0], e[1]


def fraction(cx, frac):
    if frac == 'sym':
        return cx.pyfloat('f', 0.0, 1.0)
    if frac == 'inner':
        return cx.pyfloat('f', 0.01, 0.99)
    return frac


def values(cx, m, s, n):
    v = cx.flat(cx.ok('permittivity', m.get_permittivity, s))
    cx.check(len(v) == n, 'one value per spectral point')
    return v


def simple(cx, kind, tu, n, frac):
    s, n = spectrum(cx, tu, n)
    m1, m2, e1, e2 = pair(cx, kind, n, ilo=-20.0)
    f = fraction(cx, frac)
    m = cx.ok('mixture', M(cx, 'Simple'), s, m1, m2, f)
    cx.check(m.data['name'] == 'eps', 'quantity')
    v = values(cx, m, s, n)
    for i in range(n):
        cx.check_close(v[i], (1 - f) * e1[i] + f * e2[i], 'weighted mean', scale=1.0)


def eq_mul(cx, v, den, num, label, scale):
    """v * den == num"""
    cx.check_close(v * den, num, label, rel=1e-9, scale=scale)


def garnett(cx, kind, tu, n, frac):
    s, n = spectrum(cx, tu, n)
    m1, m2, e1, e2 = pair(cx, kind, n)
    f = fraction(cx, frac)
    m, e = cx.attempt(M(cx, 'MaxwellGarnett'), s, m1, m2, f)
    down = [(2 + f) * a + (1 - f) * b for a, b in zip(e1, e2)]
    up = [2 * (1 - f) * a + (1 + 2 * f) * b for a, b in zip(e1, e2)]
    d2 = cx.np.real(down[0]) ** 2 + cx.np.imag(down[0]) ** 2
    if e is not None:
        cx.check(isinstance(e, ValueError), 'ValueError', note=repr(e))
        cx.check(d2 <= 1.0e-9, 'refused only near the singularity')
        return
    cx.check(d2 >= 0.5e-12, 'a singular mixture is refused')
    v = values(cx, m, s, n)
    for i in range(n):
        eq_mul(cx, v[i], down[i], e1[i] * up[i], 'Maxwell-Garnett formula', 1.0)
    if frac == 0.0:
        cx.check_close(v, e1, 'no inclusions: host', scale=1.0)
    if frac == 1.0:
        cx.check_close(v, e2, 'all inclusions: inclusion', rel=1e-6, scale=1.0)


def bruggeman(cx, kind, tu, n, frac, lo=-20.0, gain=False):
    s, n = spectrum(cx, tu, n)
    m1, m2, e1, e2 = pair(cx, kind, n, lo=lo, ilo=-20.0 if gain else 0.0)
    f = fraction(cx, frac)
    m = cx.ok('mixture', M(cx, 'Bruggeman'), s, m1, m2, f)
    v = values(cx, m, s, n)
    for i in range(n):
        brug(cx, v[i], e1[i], e2[i], f)


def brug(cx, E, a, b, f):
    p = 0.5 * (f * (a - 2 * b) + (1 - f) * (b - 2 * a))
    q = -0.5 * a * b
    cx.check_close(E * E + p * E, -1.0 * q, 'root of the Bruggeman equation', rel=1e-9, scale=1e3)
    other = -1.0 * p - E
    eps = 1e-9
    cx.check(cx.either(cx.np.imag(E) >= -eps, cx.np.imag(other) < eps), 'the root with non-negative imaginary part')


def between(cx, tu, frac, rule):
    """lossless constituents: every rule stays between them"""
    s, n = spectrum(cx, tu, 1)
    m1, m2, e1, e2 = pair(cx, 'real', 1, lo=0.1)
    f = fraction(cx, frac)
    m = cx.ok('mixture', M(cx, rule), s, m1, m2, f)
    v = values(cx, m, s, 1)[0]
    a, b = cx.np.real(e1[0]), cx.np.real(e2[0])
    lo, hi = (a, b) if bool(a <= b) else (b, a)
    re = cx.np.real(v)
    cx.check_close(cx.np.imag(v), 0.0, 'no absorption', abs_=1e-9)
    cx.check(cx.both(re >= lo - 1e-9 * lo, re <= hi + 1e-9 * hi), 'between the constituents')


def pointwise(cx, tu, n, rule, frac):
    """constituents that differ from point to point, arbitrary order of the spectrum"""
    s, m1, m2, e1, e2 = tables(cx, tu, n)
    f = fraction(cx, frac)
    m = cx.ok('mixture', M(cx, rule), s, m1, m2, f)
    v = values(cx, m, s, n)
    for i in range(n):
        a, b = e1[i], e2[i]
        if rule == 'Simple':
            cx.check_close(v[i], (1 - f) * a + f * b, 'weighted mean', scale=1.0)
        elif rule == 'MaxwellGarnett':
            eq_mul(cx, v[i], (2 + f) * a + (1 - f) * b, a * (2 * (1 - f) * a + (1 + 2 * f) * b), 'Maxwell-Garnett formula', 1.0)
        else:
            brug(cx, v[i], a, b, f)


def outside(cx, rule, how):
    s, n = spectrum(cx, NM, 1)
    m1, m2, e1, e2 = pair(cx, 'real', 1, lo=1.0)
    f = cx.pyfloat('f', -10, 11)
    cx.assume(cx.either(f < 0.0, f > 1.0))
    cx.raises('a fraction outside [0, 1] is refused', ValueError, M(cx, rule), s, m1, m2, f)


def singular(cx, n):
    """exactly singular Maxwell-Garnett mixtures"""
    s, n = spectrum(cx, NM, n)
    f = cx.pyfloat('f', 0.01, 0.9)
    a = cx.pyfloat('a', 0.5, 5.0)
    b = -1.0 * (2 + f) * a / (1 - f)
    D = cx.D
    if not cx.sym:
        b = float(b)
    m1, m2 = D.Material(fixed_eps_r=a), D.Material(fixed_eps_r=b)
    cx.raises('a singular mixture is refused', ValueError, M(cx, 'MaxwellGarnett'), s, m1, m2, f)


def one_point(cx, n, at):
    """a mixture that is singular at one of several points"""
    f = cx.pyfloat('f', 0.01, 0.9)
    a = cx.reals('a', n, 0.5, 5.0)
    b = [-1.0 * (2 + f) * a[i] / (1 - f) if i == at else 2.0 for i in range(n)]
    if not cx.sym:
        b = [float(v) for v in b]
    xs = [400.0 + 100.0 * i for i in range(n)]
    m1, m2 = [cx.D.Material(tabulated_eps=cx.arr([[x, v, 0.0] for x, v in zip(xs, e)]), spectrum_type='wavelength', unit='nm')
              for e in (a, b)]
    s = cx.D.Spectrum(cx.np.array(xs), *NM)
    cx.raises('a mixture singular at one point is refused', ValueError, M(cx, 'MaxwellGarnett'), s, m1, m2, f)


def ranges(cx, rule, tu):
    """the mixture exists on the given spectrum only"""
    D = cx.D
    lo, hi = rng_of(tu, 4e-7, 8e-7)
    a, b = cx.real('x', lo, hi), cx.real('y', lo, hi)
    cx.assume(a * 1.001 < b)
    s = D.Spectrum(cx.arr([a, b]), *tu)
    m = cx.ok('mixture', M(cx, rule), s, D.Material(fixed_eps=2.0 + 0.5j), D.Material(fixed_eps=3.0 + 1j), 0.25)
    r = cx.flat(m.get_maximum_valid_range())
    p, q = phys(a, tu, ('wavelength', 'm')), phys(b, tu, ('wavelength', 'm'))
    if not is_wl(tu):
        p, q = q, p
    cx.check_close(r, [p, q], 'range of the spectrum in metres')
    cx.ok('evaluate in the middle', m.get_nk_data, D.Spectrum((a + b) / 2, *tu))


RULES = ['Simple', 'MaxwellGarnett', 'Bruggeman']
FR = [0.0, 0.25, 0.5, 0.9, 1.0]
HARNESSES = [
    H(simple, [dict(kind=k, tu=NM, n=1, frac='sym') for k in ('real', 'complex', 'index')]
      + [dict(kind='complex', tu=tu, n=n, frac='sym') for tu in TU for n in (0, 2)],
      bounds='arbitrary complex permittivities |eps| <= 20 and fraction, 1-2 points (scalar too), all units'),
    H(garnett, [dict(kind='real', tu=NM, n=1, frac='sym')]
      + [dict(kind=k, tu=NM, n=1, frac=f) for k in ('complex',) for f in FR]
      + [dict(kind=k, tu=tu, n=n, frac=0.25) for k in ('half', 'other') for tu in (NM, EV) for n in (0, 2)]
      + [dict(kind='half', tu=NM, n=1, frac='sym')],
      thorough=[dict(kind=k, tu=tu, n=n, frac=f) for k in ('real', 'half', 'other', 'complex', 'index') for tu in TU
                for n in (0, 1, 2) for f in FR] + [dict(kind=k, tu=NM, n=1, frac='sym') for k in ('real', 'half', 'other')],
      bounds='arbitrary complex permittivities at fractions 0, 0.25, 0.5, 0.9, 1; arbitrary fraction for real or half-fixed ones'),
    H(bruggeman, [dict(kind='real', tu=NM, n=1, frac=f) for f in FR + ['sym']]
      + [dict(kind=k, tu=NM, n=1, frac=f) for k in ('half', 'other') for f in (0.25, 0.9)]
      + [dict(kind='half', tu=tu, n=n, frac=0.25, lo=0.5) for tu in (NM, EV) for n in (0, 2)]
      + [dict(kind='half', tu=NM, n=1, frac=0.25, gain=True)],
      bounds='real permittivities with arbitrary fraction; one arbitrary complex constituent at fixed fractions'),
    H(between, [dict(tu=NM, frac=f, rule=r) for r in RULES for f in FR], bounds='lossless positive constituents'),
    H(pointwise, [dict(tu=tu, n=n, rule=r, frac=0.25) for tu in (NM, EV) for n in (2, 3) for r in RULES],
      bounds='2-3 points with arbitrary positive permittivities each'),
    H(outside, [dict(rule=r, how=0) for r in RULES], bounds='any fraction outside [0, 1]'),
    H(singular, [dict(n=n) for n in (0, 1, 2)], bounds='all exactly singular real mixtures'),
    H(one_point, [dict(n=n, at=i) for n in (2, 3) for i in range(n)], bounds='2-3 points, one exactly singular'),
    H(ranges, [dict(rule=r, tu=tu) for r in RULES for tu in TU], bounds='arbitrary two-point spectra in every unit'),
]
