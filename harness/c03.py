from engine.runner import H
from harness.common import *

ASSUMPTIONS = ['inputs of this property are IEEE-754 doubles, decided bit-precisely']


def identity(cx, tu, spell, n):
    xs = [cx.fp('x%d' % i, *RANGE[tu]) for i in range(max(n, 1))]
    s = cx.ok('construct', cx.D.Spectrum, xs[0] if n == 0 else cx.arr(xs), tu[0], spell)
    got = cx.flat(cx.ok('convert', s.convert_to, tu[0], spell))
    cx.check(len(got) == len(xs), 'number of values')
    for i, (g, x) in enumerate(zip(got, xs)):
        cx.check(g == x, 'identity conversion is exact [%d]' % i)
    cx.ok('convert in place', s.convert_to, tu[0], spell, in_place=True)
    for i, (g, x) in enumerate(zip(cx.flat(s.values), xs)):
        cx.check(g == x, 'identity conversion in place is exact [%d]' % i)


def identity_after(cx, a, b):
    """the same after an in-place conversion: the new values are the own values"""
    x = cx.fp('x', *RANGE[a])
    s = cx.ok('construct', cx.D.Spectrum, cx.arr([x]), *a)
    cx.ok('in place', s.convert_to, b[0], b[1], in_place=True)
    v = cx.flat(s.values)[0]
    got = cx.flat(cx.ok('convert', s.convert_to, *b))[0]
    same = got == v
    cx.check(cx.either(same, cx.both(got != got, v != v)), 'identity conversion is exact after an in-place conversion')


def endpoints_table(cx, tu, n):
    D = cx.D
    lo, hi = RANGE[tu]
    a, b = cx.fp('a', lo, hi), cx.fp('b', lo, hi)
    cx.assume(a < b)
    t = cx.arr([[a, 1.5], [b, 2.5]])
    d = cx.ok('table', D.Interpolation, t, spectrum_type=tu[0], unit=tu[1])
    q = cx.choice('end', [0, 1, 2])
    v = [a, b][q] if q < 2 else None
    arg = cx.arr([b, a]) if v is None else (v if n == 0 else cx.arr([v]))
    cx.ok('own end points accepted', d.valid_range.contains, D.Spectrum(arg, *tu))


def endpoints_model(cx, name):
    D = cx.D
    ri = name not in ('Drude', 'DrudeLorentz', 'TaucLorentz')
    tu = ('wavelength', 'um') if ri else ('energy', 'ev')
    lo, hi = (0.05, 50.0)
    a, b = cx.fp('a', lo, hi), cx.fp('b', lo, hi)
    cx.assume(a < b)
    par = {'Sellmeier': [0.1, 0.2, 0.01], 'Herzberger': [1.5, 0, 0, 0, 0, 0], 'Drude': [8.0, 0.1],
           'DrudeLorentz': [8., .5, 3., .1], 'TaucLorentz': [20., 3., 2., 1., 1.]}[name]
    m = cx.ok('model', getattr(cx.mod('dispersion.spectral_data'), name), cx.np.array(par), (a, b), *tu)
    q = cx.choice('end', [0, 1])
    v = (a, b)[q]
    if cx.choice('array', [False, True]):
        v = cx.arr([v])
    cx.ok('own end points accepted', m.valid_range.contains, D.Spectrum(v, *tu))


SPELL = {'m': 'm meter Metre', 'cm': 'cm centimeter', 'um': 'um Micrometer', 'nm': 'nm nanometre', 'a': 'a angstrom',
         'hz': 'hz Hertz', 'ev': 'ev eV electronvolt', '1/s': '1/s rad/s', '1/cm': '1/cm'}
HARNESSES = [
    H(identity, [dict(tu=tu, spell=sp, n=n) for tu in TU for sp in SPELL[tu[1]].split() for n in (0, 2)],
      thorough=[dict(tu=tu, spell=sp, n=n) for tu in TU for sp in SPELL[tu[1]].split() for n in (0, 1, 3, 5)],
      bounds='all doubles for wavelengths 0.01 nm .. 10 cm, every type/unit, scalar and array (2; thorough 5)'),
    H(identity_after, [dict(a=a, b=b) for a in (TU[3], TU[5], TU[6]) for b in TU],
      thorough=[dict(a=a, b=b) for a in TU for b in TU], bounds='one value, in-place conversion first'),
    H(endpoints_table, [dict(tu=tu, n=n) for tu in TU for n in (0, 1)], bounds='2-row tables, all doubles'),
    H(endpoints_model, [dict(name=x) for x in ('Sellmeier', 'Herzberger', 'Drude', 'DrudeLorentz', 'TaucLorentz')],
      bounds='arbitrary valid range of doubles'),
]
