from engine.runner import H
from harness.common import *

SPELL = {'m': ('meter', 'metre', 'm'), 'cm': ('centimeter', 'centimetre', 'cm'),
         'um': ('micrometer', 'micrometre', 'um'), 'nm': ('nanometer', 'nanometre', 'nm'),
         'a': ('a', 'angstrom'), 'hz': ('hertz', 'hz'), 'ev': ('electronvolt', 'ev'),
         '1/s': ('1/s', 'rad/s'), '1/cm': ('1/cm',)}
TYPES = ('wavelength', 'frequency', 'energy', 'angularfrequency', 'wavenumber')
UNITS = {t: tuple(u for tt, u in TU if tt == t) for t in TYPES}


def one_of(cx, s, words):
    return cx.either(*[cx.streq(s, w) for w in words]) if words else False


def all_spell(t):
    return [w for u in UNITS[t] for w in SPELL[u]]


def unit_string(cx, t, n, case='lower'):
    unit = cx.string('unit', n)
    low = cx.smeth(unit, 'lower')
    valid = one_of(cx, low, [w for w in all_spell(t) if len(w) == n])
    typ = t if case == 'lower' else t.upper() if case == 'upper' else t.capitalize()
    s, e = cx.attempt(cx.D.Spectrum, 2.0, typ, unit)
    cx.check(e is None or isinstance(e, ValueError), 'refused with ValueError')
    if e is None:
        cx.check(valid, 'constructor accepts documented units only')
        cx.check(cx.streq(s.spectrum_type, t), 'canonical type')
        for u in UNITS[t]:
            ws = [w for w in SPELL[u] if len(w) == n]
            if ws:
                cx.check(cx.implies(one_of(cx, low, ws), cx.streq(s.unit, u)), 'canonical unit')
    else:
        cx.check(cx.not_(valid), 'constructor accepts every documented unit')


def convert_string(cx, t, n):
    unit = cx.string('unit', n)
    low = cx.smeth(unit, 'lower')
    valid = one_of(cx, low, [w for w in all_spell(t) if len(w) == n])
    s = cx.D.Spectrum(5e-7)
    got, e = cx.attempt(s.convert_to, t.capitalize(), unit)
    cx.check(e is None or isinstance(e, ValueError), 'refused with ValueError')
    if e is None:
        cx.check(valid, 'convert_to accepts documented units only')
        for u in UNITS[t]:
            ws = [w for w in SPELL[u] if len(w) == n]
            if ws:
                want = phys(5e-7, ('wavelength', 'm'), (t, u))
                ok = abs(got - want) <= 1e-9 * want + ABS[(t, u)]
                cx.check(cx.implies(one_of(cx, low, ws), ok), 'spelling gives the unit it names')
    else:
        cx.check(cx.not_(valid), 'convert_to accepts every documented unit')


def type_string(cx, n, conv):
    typ = cx.string('type', n)
    low = cx.smeth(typ, 'lower')
    unit = cx.choice('unit', [u for _, u in TU])
    valid = one_of(cx, low, [t for t in TYPES if len(t) == n and unit in UNITS[t]])
    if conv:
        s, e = cx.attempt(cx.D.Spectrum(5e-7).convert_to, typ, unit)
    else:
        s, e = cx.attempt(cx.D.Spectrum, 2.0, typ, unit)
    cx.check(e is None or isinstance(e, ValueError), 'refused with ValueError')
    if e is None:
        cx.check(valid, 'documented types only')
        if not conv:
            cx.check(cx.streq(s.spectrum_type, low), 'canonical type')
    else:
        cx.check(cx.not_(valid), 'every documented type')


def values(cx, kind, unit='nm'):
    if kind == 'int':
        v, ok = cx.int('v', -10 ** 6, 10 ** 6), False
    elif kind == 'float':
        v, ok = cx.pyfloat('v', 1e-3, 1e6), True
    elif kind == 'npfloat':
        v, ok = cx.real('v', 1e-3, 1e6), True
    elif kind == 'list':
        v, ok = cx.reals('v', 2, 1e-3, 1e6), True
    elif kind == 'tuple':
        v, ok = tuple(cx.reals('v', 2, 1e-3, 1e6)), True
    elif kind == 'ints':
        v, ok = [cx.int('v', 1, 10 ** 6), cx.int('w', 1, 10 ** 6)], True
    elif kind == 'array':
        v, ok = cx.arr(cx.reals('v', 2, 1e-3, 1e6)), True
    else:
        v, ok = {'none': None, 'str': cx.string('s', 2), 'complex': 1 + 2j, 'dict': {}, 'bool': True,
                 'set': {1.0}, 'npint': cx.np.int64(3), 'strings': ['ab', 'c'], 'strarray': cx.np.array(['ab', 'c']),
                 'mixed': [None, 1.5], 'complexes': [1.0 + 2.0j], 'numeral': ['1.5']}[kind], False
    s, e = cx.attempt(cx.D.Spectrum, v, 'wavelength', unit)
    if ok:
        cx.check(e is None, 'numbers and arrays of numbers are accepted')
        if e is None:
            cx.check_close(s.values, v, 'values kept', rel=0)
    else:
        cx.check(isinstance(e, ValueError), 'other values are refused with ValueError')


HARNESSES = [
    H(unit_string, [dict(t=t, n=n) for t in TYPES for n in range(13)] +
      [dict(t=t, n=n, case=c) for t in TYPES for n in (2, 3, 4) for c in ('upper', 'cap')],
      thorough=[dict(t=t, n=n, case=c) for t in TYPES for n in range(17) for c in ('lower', 'upper', 'cap')],
      bounds='unit: every printable ASCII string up to length 12 (16)'),
    H(convert_string, [dict(t=t, n=n) for t in TYPES for n in range(13)],
      thorough=[dict(t=t, n=n) for t in TYPES for n in range(17)],
      bounds='unit: every printable ASCII string up to length 12 (16)'),
    H(type_string, [dict(n=n, conv=c) for n in range(17) for c in (False, True)],
      bounds='type: every printable ASCII string up to length 16, all 9 units'),
    H(values, [dict(kind=k) for k in ('int', 'float', 'npfloat', 'list', 'tuple', 'array', 'none', 'str', 'complex',
                                      'dict', 'bool', 'set', 'npint', 'ints')]
      + [dict(kind=k, unit=u) for k in ('strings', 'strarray', 'mixed', 'complexes', 'numeral') for u in ('nm', 'm')],
      bounds='arbitrary numbers'),
]
