from engine.runner import H
from harness.common import *
from harness.common2 import *

GOOD = {'wavelength': ('um', 'micrometer', 'micrometre'), 'energy': ('ev', 'electronvolt')}
TYPES = ('wavelength', 'frequency', 'energy', 'angularfrequency', 'wavenumber')


def unit_string(cx, name, typ, n):
    d = own_tu(name)
    u = cx.string('unit', n)
    a, b = (0.2, 2.0) if d == UM else (0.5, 6.0)
    m, e = cx.attempt(cls(cx, name), cx.np.array(COEF[name]), (a, b), typ, u)
    low = cx.smeth(u, 'lower')
    good = typ == d[0] and bool(cx.either(*[cx.streq(low, g) for g in GOOD[typ]]))
    if not good:
        cx.check(isinstance(e, ValueError), 'refused with ValueError', note=repr(e))
        return
    cx.check(e is None, 'accepted', note=repr(e))
    if e is not None:
        return
    ref = cls(cx, name)(cx.np.array(COEF[name]), (a, b), *d)
    x = 1.0
    got = cx.ok('evaluate', m.evaluate, cx.D.Spectrum(x, *d))
    cx.check_close(got, ref.evaluate(cx.D.Spectrum(x, *d)), 'same value as with the standard spelling')
    arr = cx.ok('evaluate array', m.evaluate, cx.D.Spectrum(cx.np.array([x, x]), *d))
    cx.check(len(cx.flat(arr)) == 2, 'two values')
    cx.raises('range respected', ValueError, m.evaluate, cx.D.Spectrum(25.0, *d))


def type_string(cx, name, n):
    """the type in any letter case; nothing else"""
    d = own_tu(name)
    t = cx.string('type', n)
    a, b = (0.2, 2.0) if d == UM else (0.5, 6.0)
    m, e = cx.attempt(cls(cx, name), cx.np.array(COEF[name]), (a, b), t, d[1])
    good = bool(cx.streq(cx.smeth(t, 'lower'), d[0]))
    if not good:
        cx.check(isinstance(e, ValueError), 'refused with ValueError', note=repr(e))
        return
    cx.check(e is None, 'accepted', note=repr(e))
    if e is None:
        cx.ok('evaluate', m.evaluate, cx.D.Spectrum(1.0, *d))


def material(cx, name, tu, rng=None):
    """the same through Material(model_kw=...)"""
    d = own_tu(name)
    a, b = rng or ((0.2, 2.0) if d == UM else (0.5, 6.0))
    kw = dict(name=name, spectrum_type=tu[0], unit=tu[1], valid_range=cx.np.array([a, b]),
              parameters=cx.np.array(COEF[name]))
    m, e = cx.attempt(cx.D.Material, model_kw=kw, spectrum_type='wavelength', unit='nm')
    if tu == d:
        cx.check(e is None, 'accepted', note=repr(e))
        x = cx.real('x', *((0.3, 1.9) if rng else (a, b)))
        cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(x, *d))
    else:
        cx.check(isinstance(e, ValueError), 'refused with ValueError', note=repr(e))


def any_range(cx, name, tu):
    """whatever the range, the unit decides"""
    d = own_tu(name)
    k = cx.choice('decade', [-12, -8, -4, 0, 6, 13])
    a, b = cx.real('a', 10.0 ** k, 10.0 ** (k + 4)), cx.real('b', 10.0 ** k, 10.0 ** (k + 4))
    m, e = cx.attempt(cls(cx, name), cx.np.array(COEF[name]), (a, b), *tu)
    if tu == d:
        cx.check(e is None, 'accepted', note=repr(e))
    else:
        cx.check(isinstance(e, ValueError), 'refused with ValueError', note=repr(e))


def default_unit(cx, name):
    """the constructor's own default (wavelength in m) fits no model"""
    cx.raises('default refused', ValueError, cls(cx, name), cx.np.array(COEF[name]), (0.2, 2.0))
    cx.raises('default unit refused', ValueError, cls(cx, name), cx.np.array(COEF[name]), (0.2, 2.0), own_tu(name)[0])


LEN = (1, 2, 3, 4, 5, 8, 10, 12)
HARNESSES = [
    H(unit_string, [dict(name=m, typ=t, n=n) for m in MODELS for t in ('wavelength', 'energy') for n in (2, 10, 12)]
      + [dict(name=m, typ=t, n=n) for m in ('Sellmeier', 'Drude') for t in TYPES for n in LEN],
      thorough=[dict(name=m, typ=t, n=n) for m in MODELS for t in TYPES for n in range(0, 14)],
      bounds='every printable-ASCII unit string of 1..12 (13) characters, every type and model class'),
    H(type_string, [dict(name=m, n=n) for m in MODELS for n in (6, 10)] +
      [dict(name=m, n=n) for m in ('Sellmeier', 'Drude') for n in (0, 1, 9, 16)],
      bounds='every printable-ASCII type string of length 6, 10 (own type lengths) and 0, 1, 9, 16'),
    H(material, [dict(name=m, tu=tu) for m in MODELS for tu in TU]
      + [dict(name=m, tu=tu, rng=r) for m in MODELS for tu in TU for r in ((0.0, float('inf')), (2.0, 0.2))],
      bounds='every model with every type/unit, usual, unlimited and reversed ranges'),
    H(any_range, [dict(name=m, tu=tu) for m in ('Sellmeier', 'Cauchy', 'Gases', 'Exotic', 'Drude', 'TaucLorentz') for tu in TU]
      + [dict(name=m, tu=tu) for m in MODELS for tu in (TU[0], TU[3])
         if m not in ('Sellmeier', 'Cauchy', 'Gases', 'Exotic', 'Drude', 'TaucLorentz')],
      thorough=[dict(name=m, tu=tu) for m in MODELS for tu in TU], bounds='arbitrary ranges from 1e-12 to 1e17'),
    H(default_unit, [dict(name=m) for m in MODELS]),
]
