import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

LO, HI = 2e-7, 4e-6


def part(cx, name, tu, kind):
    """-> spectral data, lower, upper in tu"""
    D = cx.D
    if kind == 'fixed':
        return D.Constant(0.5), None, None
    lo, hi = rng_of(tu, LO, HI)
    a, b = cx.real(name + 'a', lo, hi), cx.real(name + 'b', lo, hi)
    cx.assume(a < b)
    if kind == 'const':
        return D.Constant(0.5, valid_range=(a, b), spectrum_type=tu[0], unit=tu[1]), a, b
    if kind == 'table':
        return D.Interpolation(cx.arr([[a, 1.5], [b, 2.5]]), spectrum_type=tu[0], unit=tu[1]), a, b
    return cls(cx, kind)(cx.np.array(COEF[kind]), (a, b), *tu), a, b


def overlap(cx, rk, rt, ik, it, dt, op):
    """separate real and imaginary data in different units"""
    D = cx.D
    real, ra, rb = part(cx, 'r', rt, rk)
    imag, ia, ib = part(cx, 'i', it, ik)
    m = D.Material(fixed_n=1.5, spectrum_type=dt[0], unit=dt[1])
    if op == 'nk':          # the answer before the data is replaced must not stick
        m.get_maximum_valid_range()
        m.data['real'] = real
        m.get_maximum_valid_range()
    m.data['real'], m.data['imag'] = real, imag
    lows, highs = [], []
    for a, b, tu in ((ra, rb, rt), (ia, ib, it)):
        if a is None:
            continue
        p, q = phys(a, tu, dt), phys(b, tu, dt)
        if is_wl(tu) != is_wl(dt):
            p, q = q, p
        lows.append(p)
        highs.append(q)
    L, U = lows[0], highs[0]
    for p in lows[1:]:
        L = p if bool(p > L) else L
    for q in highs[1:]:
        U = q if bool(q < U) else U
    slack = 4 * (REL * U + ABS[dt])
    cx.assume(L + slack < U)
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check(len(r) == 2, 'two values')
    for j, (tu, x) in enumerate(((dt, L), (dt, U))):
        cx.check_close(r[j], x, ('lower', 'upper')[j] + ' end of the overlap', rel=2 * REL, abs_=ABS[dt])
    cx.check(r[0] <= r[1], 'lower end first')
    x = cx.real('x', *rng_of(dt, LO / 2, HI * 2))
    f = m.get_nk_data if op == 'nk' else m.get_permittivity
    v, e = cx.attempt(f, D.Spectrum(x, *dt))
    # rounding in the units of the parts
    s = slack
    for tu in (rt, it):
        if tu != dt:
            s = s + 4 * REL * x + 4 * abs(ABS[tu]) * x / rng_of(tu, LO / 2, HI * 2)[0]
    if e is None:
        cx.check(cx.both(x >= r[0] - s, x <= r[1] + s), 'nothing beyond the reported range')
    elif isinstance(e, ValueError):
        cx.check(cx.either(x < r[0] + s, x > r[1] - s), 'whole reported range usable')
    else:
        cx.check(False, 'only ValueError', note=repr(e))


def complex_model(cx, name, dt):
    a, b = cx.real('a', 0.5, 6), cx.real('b', 0.5, 6)
    cx.assume(a < b)
    m = cx.D.Material(model_kw=dict(name=name, spectrum_type='energy', unit='ev', valid_range=cx.arr([a, b]),
                                    parameters=cx.np.array(COEF[name])), spectrum_type='energy', unit='ev')
    m.defaults['spectrum_type'], m.defaults['unit'] = dt
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    p, q = phys(a, EV, dt), phys(b, EV, dt)
    if is_wl(dt):
        p, q = q, p
    cx.check_close(r[0], p, 'lower end', abs_=ABS[dt])
    cx.check_close(r[1], q, 'upper end', abs_=ABS[dt])
    cx.check(r[0] <= r[1], 'lower end first')


def own_unit(cx, tu, what):
    """bit for bit the limits of the table in its own unit; sampling stays inside"""
    lo, hi = rng_of(tu, LO, HI)
    a, b = cx.fp('a', lo, hi), cx.fp('b', lo, hi)
    cx.assume(a < b)
    cols = 1 if what == 'tabulated_n' else 2
    t = cx.arr([[a, 1.5, 0.1][:cols + 1], [b, 2.5, 0.2][:cols + 1]])
    m = cx.D.Material(spectrum_type=tu[0], unit=tu[1], **{what: t})
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check(r[0] == a, 'lower end is exactly the first tabulated point')
    cx.check(r[1] == b, 'upper end is exactly the last tabulated point')


def sample(cx, tu, kind):
    D = cx.D
    if kind in ('fixed_n', 'fixed_eps'):
        m = D.Material(spectrum_type=tu[0], unit=tu[1], **{kind: 1.5 if kind == 'fixed_n' else 2.0 + 1j})
        s = cx.ok('sample', m.get_sample_spectrum)
        cx.ok('evaluate', m.get_nk_data, s)
        r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
        cx.check(cx.both(r[0] == 0.0, r[1] == float('inf')), 'a constant has no limits')
        return
    if kind in MODELS:
        tu = own_tu(kind)
        lo, hi = (0.2, 2.0) if tu == UM else (0.5, 6.0)
    else:
        lo, hi = rng_of(tu, LO, HI)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a * (1 + 1e-6) < b)
    if kind in MODELS:
        m = D.Material(model_kw=dict(name=kind, spectrum_type=tu[0], unit=tu[1], valid_range=cx.arr([a, b]),
                                     parameters=cx.np.array(COEF[kind])), spectrum_type=tu[0], unit=tu[1])
    else:
        m = D.Material(spectrum_type=tu[0], unit=tu[1], **{kind: cx.arr([[a, 1.5, 0.1], [b, 2.5, 0.2]])})
    s = cx.ok('sample', m.get_sample_spectrum)
    v = s.convert_to(*tu)
    cx.check_close(cx.np.min(v), a, 'samples start at the lower end', abs_=ABS[tu])
    cx.check_close(cx.np.max(v), b, 'samples reach the upper end', abs_=ABS[tu])
    if not (kind in MODELS and cx.sym):      # the models are covered by C05 inside their range
        g = cx.ok('every sample can be evaluated', m.get_nk_data, s)
        cx.check(int(cx.np.size(g)) == int(cx.np.size(s.values)), 'one value per sample')


def open_end(cx, name, dt, end):
    """a model valid from / up to some energy: every sample lies in the range"""
    D = cx.D
    a = cx.real('a', 0.05, 50)
    rng = [0.0, a] if end == 'upper' else [a, float('inf')]
    m = D.Material(fixed_n=1.5, spectrum_type=dt[0], unit=dt[1])
    if name == 'Constant':
        m.data['real'] = D.Constant(1.5, valid_range=cx.arr(rng), spectrum_type='energy', unit='ev')
    else:
        m.data['name'], m.data['complex'] = 'eps', getattr(D, name)(cx.np.array(COEF[name]), cx.arr(rng), 'energy', 'ev')
    s = cx.ok('sample', m.get_sample_spectrum)
    if name == 'Constant' and dt == EV:      # in another unit the end is rounded
        g = cx.ok('every sample can be evaluated', m.get_nk_data, s)
        cx.check(int(cx.np.size(g)) == int(cx.np.size(s.values)), 'one value per sample')
    v = s.convert_to('energy', 'ev')
    lo, hi = cx.np.min(v), cx.np.max(v)
    cx.check_close(hi if end == 'upper' else lo, a, 'samples reach the given end',
                   rel=2 * REL, abs_=2 * ABS[EV] + 2 * a * ABS[dt] / phys(a, EV, dt))
    cx.check(lo > 0, 'positive samples')
    cx.check(lo < hi, 'more than one sample')


def suggest(cx, tu, kind):
    """the spectrum suggested by one data set"""
    D = cx.D
    if kind in MODELS:
        tu = own_tu(kind)
        lo, hi = (0.2, 2.0) if tu == UM else (0.5, 6.0)
    else:
        lo, hi = rng_of(tu, LO, HI)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a * (1 + 1e-6) < b)
    if kind in MODELS:
        d = getattr(D, kind)(cx.np.array(COEF[kind]), cx.arr([a, b]), *tu)
    elif kind == 'constant':
        d = D.Constant(1.5, valid_range=(a, b), spectrum_type=tu[0], unit=tu[1])
    elif kind == 'reversed':
        d = D.Constant(1.5, valid_range=(b, a), spectrum_type=tu[0], unit=tu[1])
    else:
        d = D.Interpolation(cx.arr([[a, 1.5], [b, 2.5]]), spectrum_type=tu[0], unit=tu[1])
    s = cx.ok('suggest', d.suggest_spectrum)
    v = s.convert_to(*tu)
    cx.check_close(cx.np.min(v), a, 'suggestion starts at the lower end', abs_=ABS[tu])
    cx.check_close(cx.np.max(v), b, 'suggestion reaches the upper end', abs_=ABS[tu])
    if not (kind in MODELS and cx.sym):
        g = cx.ok('every suggested point can be evaluated', d.evaluate, s)
        cx.check(int(cx.np.size(g)) == int(cx.np.size(s.values)), 'one value per point')


def from_file(cx, rt, it):
    """n and k data sets of one file in different types/units"""
    D = cx.D
    bounds = {}
    p = os.path.join(cx.tmp(), 'm.yml')
    with open(p, 'w', encoding='utf8') as f:
        f.write('DATA:\n')
        for nm, tu in (('n', rt), ('k', it)):
            lo, hi = rng_of(tu, LO, HI)
            a, b = cx.real(nm + 'a', lo, hi), cx.real(nm + 'b', lo, hi)
            cx.assume(a < b)
            bounds[nm] = (a, b)
            f.write('  - type: tabulated %s\n    SpectrumType: %s\n    Unit: %s\n    data: |\n' % ((nm,) + tu))
            f.write('        %s 1.5\n        %s 2.5\n' % (str(a), str(b)))
    m = cx.ok('load', D.Material, file_path=p, spectrum_type='wavelength', unit='nm')
    dt = (m.defaults['spectrum_type'], m.defaults['unit'])
    cx.check(dt in TU, 'default type and unit')
    L = U = None
    for nm, tu in (('n', rt), ('k', it)):
        a, b = [phys(v, tu, dt) for v in bounds[nm]]
        if is_wl(tu) != is_wl(dt):
            a, b = b, a
        L = a if L is None or bool(a > L) else L
        U = b if U is None or bool(b < U) else U
    cx.assume(L < U * (1 - 1e-6))
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check_close(r[0], L, 'lower end of the overlap', rel=2 * REL, abs_=ABS[dt])
    cx.check_close(r[1], U, 'upper end of the overlap', rel=2 * REL, abs_=ABS[dt])


NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
MIX = [NM, HZ, EV, UM]
HARNESSES = [
    H(overlap, [dict(rk='table', rt=a, ik='table', it=b, dt=c, op='nk') for a in MIX[:3] for b in MIX[:3] for c in MIX[:3]]
      + [dict(rk=k, rt=UM, ik=j, it=b, dt=c, op='eps') for k in ('const', 'table') for j in ('const', 'fixed')
         for b in (UM, EV) for c in (UM, HZ)]
      + [dict(rk='Cauchy', rt=UM, ik='table', it=NM, dt=c, op='nk') for c in (UM, NM, HZ)],
      thorough=[dict(rk='table', rt=a, ik='table', it=b, dt=c, op='nk') for a in TU for b in TU for c in TU]
      + [dict(rk='const', rt=a, ik='fixed', it=a, dt=c, op='eps') for a in TU for c in TU],
      bounds='arbitrary limits of both parts; units nm/Hz/eV/um for the parts and the default (thorough: all)'),
    H(complex_model, [dict(name=n, dt=tu) for n in E_MODELS for tu in TU], bounds='arbitrary limits, default in any unit'),
    H(own_unit, [dict(tu=tu, what=w) for tu in TU for w in ('tabulated_n', 'tabulated_nk', 'tabulated_eps')],
      bounds='all doubles (bit-precise)'),
    H(sample, [dict(tu=tu, kind=k) for tu in TU for k in ('tabulated_nk', 'tabulated_eps')]
      + [dict(tu=NM, kind=k) for k in MODELS] + [dict(tu=tu, kind=k) for tu in (NM, HZ) for k in ('fixed_n', 'fixed_eps')],
      bounds='sampling grid abstracted to 4 monotone points with exact ends'),
    H(open_end, [dict(name=n, dt=dt, end=e) for n in ('Constant', 'Drude') for dt in TU for e in ('upper', 'lower')],
      bounds='arbitrary given end between 0.05 and 50 eV, default in any unit; samples abstracted to 4 monotone points'),
    H(suggest, [dict(tu=tu, kind=k) for tu in TU for k in ('table', 'constant')] + [dict(tu=NM, kind='reversed')]
      + [dict(tu=NM, kind=k) for k in MODELS], bounds='sampling grid abstracted to 4 monotone points with exact ends'),
    H(from_file, [dict(rt=a, it=b) for a in (NM, HZ, EV) for b in (NM, UM, EV)],
      thorough=[dict(rt=a, it=b) for a in TU for b in TU], bounds='two data sets of a YAML file in different units'),
]
