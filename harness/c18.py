import os
from engine.runner import H
from harness.common import *
from harness.common2 import *
from harness.c17 import rows_of, evaluate, COLS, FIELDS, TEXT, table as text_table, large as text_large, twice as text_twice, \
    mixture as text_mixture, meta as text_meta, empty as text_empty, comment as text_comment, base

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
SPECS = ['n_absolute', 'wavelength_vacuum', 'film_thickness', 'substrate', 'temperature', 'pressure',
         'deposition_temperature', 'direction']


def rtrip(cx, m, tu=NM, **kw):
    p = os.path.join(cx.tmp(), 'f.yml')
    w = cx.D.Writer(p, m)
    cx.ok('write', w.write_file, **kw)
    return cx.ok('read', cx.D.Material, file_path=p, spectrum_type=tu[0], unit=tu[1])


def table(cx, **kw):
    text_table(cx, ext='yml', **kw)


def large(cx, **kw):
    text_large(cx, ext='yml', **kw)


def meta(cx, **kw):
    text_meta(cx, ext='yml', **kw)


def empty(cx):
    text_empty(cx, ext='yml')


def comment(cx, **kw):
    text_comment(cx, ext='yml', **kw)


def mixture(cx):
    text_mixture(cx, ext='yml')


def grids(cx, nt, kt, nn, nk, name, order, equal=False, ends=False):
    """real and imaginary part tabulated on their own grids and units"""
    D = cx.D
    parts = {}
    for p, tu, rows in (('n', nt, nn), ('k', kt, nk)):
        lo, hi = (0.5, 3.0) if equal else rng_of(tu, 2e-7, 4e-6)
        ts = cx.reals(p + 't', rows, lo, hi)
        if ends and p == 'k':       # same first and last point
            ts = [parts['n'][0][0]] + ts[1:-1] + [parts['n'][0][-1]]
        for i in range(rows - 1):
            cx.assume(ts[i] < ts[i + 1])
        if equal and p == 'k':      # the same numbers, whatever the unit
            ts = parts['n'][0]
        ys = cx.reals(p + 'y', rows, -5, 5)
        parts[p] = (ts, ys)
    m = D.Material(**{{'nk': 'fixed_n', 'eps': 'fixed_eps_r'}[name]: 1.5})
    m.defaults['spectrum_type'], m.defaults['unit'] = nt
    for p, key, tu in (('n', 'real', nt), ('k', 'imag', kt)):
        ts, ys = parts[p]
        rows = [[a, b] for a, b in zip(ts, ys)]
        if order:
            rows = rows[::-1]
        m.data[key] = D.Interpolation(cx.arr(rows), spectrum_type=tu[0], unit=tu[1])
    m2 = rtrip(cx, m)
    cx.check(m2.data['name'] == name, 'same quantity')
    for p, key, tu in (('n', 'real', nt), ('k', 'imag', kt)):
        ts, ys = parts[p]
        g = cx.flat(cx.ok('evaluate', m2.data[key].evaluate, D.Spectrum(cx.arr(ts), *tu)))
        cx.check_close(g, ys, 'tabulated %s' % p, rel=1e-8)
    if equal and nt != kt:
        return
    r = cx.flat(m.get_maximum_valid_range())
    m2.defaults['spectrum_type'], m2.defaults['unit'] = nt
    cx.check_close(cx.flat(m2.get_maximum_valid_range()), r, 'same range', rel=1e-8)


def model(cx, name, n, imag, rii, mt=None, zero=False):
    D = cx.D
    tu = own_tu(name)
    lo, hi = (0.2, 2.0) if tu == UM else (0.5, 6.0)
    base = list(COEF[name])
    if n is not None and n > len(base):
        base = base + (base[1:] * n)[:n - len(base)]
    base = base[:n] if n is not None else base
    cs = [c if c == 0.0 else cx.real('c%d' % i, *sorted((c * 0.99, c * 1.01))) for i, c in enumerate(base)]
    if zero:        # a coefficient of exactly zero is a coefficient
        cs[-2 if zero == 'pair' else -1] = 0.0
        if zero == 'all':
            cs = [0.0] * len(cs)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a < b)
    m = cx.ok('material', D.Material, model_kw=dict(name=name, spectrum_type=tu[0], unit=tu[1], valid_range=cx.arr([a, b]),
                                                    parameters=cx.arr(cs)))
    if imag:
        k = cx.reals('k', 2, 0, 5)
        it = mt or UM
        ilo, ihi = rng_of(it, 1e-7, 3e-6)
        m.data['imag'] = D.Interpolation(cx.arr([[ilo, k[0]], [ihi, k[1]]]), spectrum_type=it[0], unit=it[1])
    m.meta_data['Name'] = 'nm'
    m2 = rtrip(cx, m, tu if rii else NM, use_rii_aliases=True) if rii else rtrip(cx, m)
    cx.check(m2.data['name'] == m.data['name'], 'same quantity')
    part = 'complex' if name in E_MODELS else 'real'
    cx.check(type(m2.data[part]).__name__ == name, 'same model')
    cx.check(m2.meta_data['Name'] == 'nm', 'metadata')
    if not imag:
        cx.check((m2.defaults['spectrum_type'], m2.defaults['unit']) == tu, 'same type and unit')
    if hasattr(m2.data[part], 'model_parameters'):
        p1, p2 = cx.flat(m.data[part].model_parameters), cx.flat(m2.data[part].model_parameters)
        cx.check(len(p2) == len(cs), 'number of coefficients')
        cx.check_close(p2, cs, 'same coefficients', rel=1e-8)
        cx.check_close(p1, cs, 'the written material keeps its coefficients', rel=0)
    r = cx.flat(m2.data[part].valid_range.convert_to(*tu))
    cx.check_close(r, [a, b], 'same range', rel=1e-8)
    if imag:
        g = cx.flat(m2.data['imag'].evaluate(D.Spectrum(cx.np.array([ilo, ihi]), *it)))
        cx.check_close(g, k, 'tabulated k', rel=1e-8)
    x = cx.real('x', lo, hi)
    v, e = cx.attempt(m.data[part].evaluate, D.Spectrum(x, *tu))
    v2, e2 = cx.attempt(m2.data[part].evaluate, D.Spectrum(x, *tu))
    cx.check((e is None) == (e2 is None), 'evaluable at the same points')
    if e is None and e2 is None and not any(cx.isbad(z) for z in cx.flat(v)):
        cx.check_close(v2, v, 'same values', rel=1e-8, scale=1e-3)


VALUES = {'n_absolute': False, 'wavelength_vacuum': True, 'film_thickness': 0, 'substrate': '', 'temperature': 0.0,
          'pressure': 'value of pressure', 'deposition_temperature': -1.5, 'direction': 'o: e'}


def specs(cx, first):
    """the specification block survives for every subset of its documented keys"""
    m = base(cx)
    sp = {}
    for i, k in enumerate(SPECS):
        on = first[i] if i < len(first) else cx.bool('on_' + k)
        if on:
            sp[k] = VALUES[k]
    m.meta_data['Specification'] = dict(sp)
    m2 = rtrip(cx, m)
    cx.check(dict(m2.meta_data['Specification']) == sp, 'specification')
    cx.check(m.meta_data['Specification'] == sp, 'the written material keeps its specification')


OWN = ['thickness', 'temp', 'direction2', 'Substrate']


def own_specs(cx, n):
    """the specification block keeps keys of the user's own next to documented ones"""
    m = base(cx)
    v = cx.string('v', n)
    sp = {}
    for k in (OWN[0], 'temperature', OWN[1], 'n_absolute', OWN[2], OWN[3]):
        if cx.bool('on_' + k):
            sp[k] = v if k == OWN[0] else VALUES.get(k, 'value of ' + k)
    m.meta_data['Specification'] = dict(sp)
    m2 = rtrip(cx, m)
    got = m2.meta_data['Specification']
    cx.check(set(got) == set(sp), 'specification keys')
    for k in sp:
        cx.check(cx.streq(got[k], sp[k]) if k == OWN[0] else got[k] == sp[k], 'specification %s' % k)


def own_key(cx, n, first):
    """metadata under a key of the user's own is stored under that key"""
    import yaml
    m = base(cx)
    v = cx.string('v', n)
    a = cx.string('a', 2, ((97, 122),))
    md = dict(m.meta_data, Author=a)
    m.meta_data = dict([('Doping', v)] + list(md.items())) if first else dict(list(md.items()) + [('Doping', v)])
    p = os.path.join(cx.tmp(), 'f.yml')
    cx.ok('write', lambda: cx.D.Writer(p, m).write_file())
    with open(p, encoding='utf-8') as f:
        got = yaml.safe_load(f)
    cx.check(cx.streq(got.get('Doping'), v), 'value of a key of the user')
    cx.check(cx.streq(got.get('AUTHOR'), a), 'value of a documented key')


def rii_table(cx, kind, rows):
    """refractiveindex.info key names: micrometres are implied"""
    D = cx.D
    ts, ys, tab = rows_of(cx, UM, rows, COLS[kind])
    m = D.Material(spectrum_type='wavelength', unit='um', **{'tabulated_' + kind: cx.arr(tab)})
    m2 = rtrip(cx, m, UM, use_rii_aliases=True)
    cx.check(m2.data['name'] == m.data['name'], 'same quantity')
    g = cx.ok('evaluate', evaluate, cx, kind, m2, D.Spectrum(cx.arr(ts), *UM))
    for i in range(rows):
        cx.check_close(cx.np.real(g[i]), ys[0][i], 'real part of row %d' % i, rel=1e-8)
        cx.check_close(cx.np.imag(g[i]), ys[1][i] if COLS[kind] == 2 else 0.0, 'imaginary part of row %d' % i, rel=1e-8)


NC = {'Sellmeier': 17, 'Sellmeier2': 17, 'Polynomial': 17, 'RefractiveIndexInfo': 17, 'Cauchy': 11, 'Gases': 11,
      'Exotic': None, 'Retro': None, 'Herzberger': None, 'Drude': None, 'DrudeLorentz': None, 'TaucLorentz': None}
MIX = [NM, HZ, EV]
ZERO = [('Herzberger', 'last'), ('Herzberger', 'all'), ('Exotic', 'last'), ('Cauchy', 'last'), ('Cauchy', 'pair'), ('Polynomial', 'last'),
        ('Retro', 'last'), ('Sellmeier', 'last'), ('Sellmeier2', 'pair'), ('Gases', 'pair')]
HARNESSES = [
    H(table, [dict(kind=k, tu=tu, rows=2) for k in COLS for tu in TU]
      + [dict(kind=k, tu=EV, rows=3, order=(1, 2, 0)) for k in COLS]
      + [dict(kind=k, tu=tu, rows=1) for k in COLS for tu in (NM, EV)],
      thorough=[dict(kind=k, tu=tu, rows=r) for k in COLS for tu in TU for r in (1, 2, 3, 4)]
      + [dict(kind=k, tu=tu, rows=3, order=o) for k in COLS for tu in TU for o in ((1, 2, 0), (2, 1, 0), (0, 2, 1))],
      bounds='1-3 (4) rows of arbitrary numbers, every type/unit'),
    H(large, [dict(kind=k, rows=r) for k, r in (('n', 400), ('nk', 400), ('eps', 400), ('nk', 1200))],
      bounds='400 and 1200 rows, 3 of them with arbitrary numbers'),
    H(grids, [dict(nt=a, kt=b, nn=n, nk=k, name=w, order=o) for a in MIX for b in MIX for n, k, o in ((2, 3, 0), (2, 2, 1))
              for w in ('nk', 'eps')]
      + [dict(nt=a, kt=b, nn=2, nk=2, name='nk', order=0, equal=True) for a, b in (
          (UM, UM), (UM, ('wavelength', 'nm')), (UM, ('wavelength', 'cm')), (EV, UM), (EV, ('angularfrequency', '1/s')), (HZ, EV),
          (('wavelength', 'm'), ('wavelength', 'a')), (('angularfrequency', '1/s'), ('wavenumber', '1/cm')))]
      + [dict(nt=a, kt=a, nn=3, nk=3, name=w, order=o, ends=True) for a in MIX for w, o in (('nk', 0), ('eps', 1))],
      thorough=[dict(nt=a, kt=b, nn=2, nk=2, name=w, order=0, equal=True) for a in TU for b in TU for w in ('nk', 'eps')]
      + [dict(nt=a, kt=b, nn=n, nk=k, name=w, order=o) for a in TU for b in TU
                for n, k, o in ((2, 3, 0), (2, 2, 1)) for w in ('nk', 'eps')],
      bounds='separate real and imaginary tables, 2-3 arbitrary rows each, in equal and different units'),
    H(model, [dict(name=n, n=None, imag=i, rii=r) for n in MODELS for i in (0, 1) for r in (0, 1)
              if not (n in E_MODELS and (i or r))]
      + [dict(name=n, n=k, imag=0, rii=0) for n, k in NC.items() if k]
      + [dict(name='Cauchy', n=None, imag=1, rii=0, mt=tu) for tu in MIX]
      + [dict(name=n, n=None, imag=0, rii=0, zero=z) for n, z in ZERO],
      bounds='every model, coefficients within 1 % of a typical set (up to 17), arbitrary range and point'),
    H(rii_table, [dict(kind=k, rows=2) for k in COLS], bounds='2 arbitrary rows'),
    H(specs, [dict(first=(a, b)) for a in (0, 1) for b in (0, 1)], bounds='all 256 subsets of the documented keys',
      opts={'slice_s': 10}),
    H(own_specs, [dict(n=2)], bounds='all subsets of 4 own and 2 documented keys, one value of 2 arbitrary characters',
      opts={'slice_s': 10}),
    H(meta, [dict(field=f, n=3) for f in FIELDS], thorough=[dict(field=f, n=n) for f in FIELDS for n in (1, 2, 4, 6)],
      bounds='one field with up to 3 (6) arbitrary characters (string fidelity of PyYAML is a contract)'),
    H(own_key, [dict(n=2, first=f) for f in (0, 1)], bounds='one more key of the user, anywhere'),
    H(empty, [{}], bounds='all subsets of the fields'),
    H(comment, [dict(lens=l) for l in ((3,), (2, 2), (1, 0, 2))], bounds='comments of up to 3 lines'),
    H(mixture, [{}], bounds='an effective medium with arbitrary permittivity'),
]
