import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
TEXT = ((33, 126), (0xC0, 0xFF), (0x391, 0x3C9))
KEYS = {'Name': ['NAME', 'Name', 'name'], 'FullName': ['FULLNAME', 'FullName'], 'Author': ['AUTHOR', 'author'],
        'Reference': ['REFERENCES', 'Reference', 'REFERENCE'], 'Comment': ['COMMENTS', 'Comment', 'comments']}
FORMULAS = {1: 'Sellmeier', 2: 'Sellmeier2', 3: 'Polynomial', 4: 'RefractiveIndexInfo', 5: 'Cauchy', 6: 'Gases',
            7: 'Herzberger', 8: 'Retro', 9: 'Exotic'}


def put(cx, ext, text):
    p = os.path.join(cx.tmp(), 'f.' + ext)
    with open(p, 'w', encoding='utf8') as f:
        f.write(text)
    return p


SEP = {'txt': ' ', 'csv': ',', 'nk': '\t'}


def body(cx, ext, rows):
    return ''.join(SEP[ext].join(str(v) for v in r) + '\n' for r in rows)


def header_key(cx, ext, field, spell, pre, n):
    """'# KEY: value' sets exactly that field"""
    c = ';' if ext == 'nk' else '#'
    v = cx.string('v', n, alphabet=TEXT)
    p = put(cx, ext, c + pre + spell + ':' + pre + v + '\n' + c + ' UNIT: um\n' + body(cx, ext, [[0.4, 1.5], [0.5, 1.6]]))
    m = cx.ok('read', cx.D.Material, file_path=p)
    for k in KEYS:
        cx.check(cx.streq(m.meta_data[k], v if k == field else ''), 'field %s' % k)
    cx.check(m.meta_data['MetaComment'] == '', 'no comment')
    cx.check((m.defaults['spectrum_type'], m.defaults['unit']) == UM, 'unit')


def header_unknown(cx, ext, n, colon):
    """other header lines are comment text"""
    c = ';' if ext == 'nk' else '#'
    s = cx.string('k', n, alphabet=TEXT)
    for i in range(n):
        cx.assume(cx.not_(cx.streq(s[i], ':')))
    line = ' ' + s + (': 5' if colon else '')
    known = ['name', 'unit', 'yields', 'author', 'comment']
    low = cx.smeth(s, 'lower')
    for k in known:
        if len(k) <= n and colon:
            cx.assume(cx.not_(cx.streq(low[:len(k)], k)))
    p = put(cx, ext, c + line + '\n' + c + ' NAME: x\n' + body(cx, ext, [[400.0, 1.5], [500.0, 1.6]]))
    m = cx.ok('read', cx.D.Material, file_path=p)
    cx.check(cx.streq(m.meta_data['MetaComment'], line), 'comment text')
    cx.check(m.meta_data['Name'] == 'x', 'name')
    for k in KEYS:
        if k != 'Name':
            cx.check(m.meta_data[k] == '', 'field %s' % k)


def text_table(cx, ext, cols, dtype, tu, dflt):
    """columns, data type, type and unit of a text table"""
    D = cx.D
    own = tu if tu is not None else dflt
    lo, hi = rng_of(own, 2e-7, 2e-6)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a < b)
    ys = [[cx.real('y%d%d' % (i, j), -5, 5) for j in range(cols - 1)] for i in range(2)]
    c = ';' if ext == 'nk' else '#'
    head = ''
    if tu is not None:
        head += '%s SPECTRUMTYPE: %s\n%s unit: %s\n' % (c, tu[0], c, tu[1])
    if dtype is not None:
        head += '%s DataType: tabulated %s\n' % (c, dtype)
    p = put(cx, ext, head + body(cx, ext, [[a] + ys[0], [b] + ys[1]]))
    m = cx.ok('read', D.Material, file_path=p, spectrum_type=dflt[0], unit=dflt[1])
    kind = dtype or {2: 'n', 3: 'nk'}[cols]
    cx.check(m.data['name'] == ('eps' if kind.startswith('eps') else 'nk'), 'quantity')
    cx.check((m.defaults['spectrum_type'], m.defaults['unit']) == own, 'type and unit')
    f = m.get_permittivity if kind.startswith('eps') else m.get_nk_data
    g = cx.flat(cx.ok('evaluate', f, D.Spectrum(cx.arr([a, b]), *own)))
    for i in range(2):
        re, im = {'n': (ys[i][0], 0.0), 'k': (0.0, ys[i][0]), 'eps_r': (ys[i][0], 0.0), 'eps_k': (0.0, ys[i][0])}.get(kind) or (ys[i][0], ys[i][1])
        cx.check_close(cx.np.real(g[i]), re, 'real part', scale=1e-3)
        cx.check_close(cx.np.imag(g[i]), im, 'imaginary part', scale=1e-3)
    r = cx.flat(m.get_maximum_valid_range())
    cx.check_close(r, [a, b], 'range', rel=1e-12)


def yaml_meta(cx, style):
    """top-level keys in any letter case; SPECS; comment lines"""
    vals = {k: 'v' + k for k in KEYS}
    lines = ['# first', '#second: x']
    order = cx.choice('order', [0, 1, 2])
    ks = list(KEYS)
    ks = ks[order:] + ks[:order]
    for k in ks:
        sp = cx.choice('s' + k, KEYS[k])
        if style == 'lower':
            sp = sp.lower()
        lines.append('%s: %s' % (sp, vals[k]))
    data = 'DATA' if style != 'lower' else 'data'
    specs = 'SPECS' if style != 'lower' else 'specs'
    lines += ['%s:' % specs, '    temperature: 25 C', '    n_absolute: true',
              '%s:' % data, '  - type: tabulated n', '    data: |', '        0.4 1.5', '        0.5 1.75']
    p = put(cx, 'yml', '\n'.join(lines) + '\n')
    m = cx.ok('read', cx.D.Material, file_path=p, spectrum_type='wavelength', unit='um')
    for k in KEYS:
        cx.check(m.meta_data[k] == vals[k], 'field %s' % k)
    cx.check(dict(m.meta_data['Specification']) == {'temperature': '25 C', 'n_absolute': True}, 'specification')
    cx.check(m.meta_data['MetaComment'] == ' first\nsecond: x', 'comment')
    g = cx.flat(m.get_nk_data(cx.D.Spectrum(cx.np.array([0.4, 0.5]), *UM)))
    cx.check_close(g, [1.5, 1.75], 'table')


RANGE_KEYS = ['wavelength_range', 'range', 'spectra_range', 'validRange', 'Range']


def coefs(cx, name, n=None):
    base = list(COEF[name])
    if n is not None:
        base = (base + (base[1:] * n))[:n]
    return [c if c == 0.0 else cx.real('c%d' % i, *sorted((c * 0.99, c * 1.01))) for i, c in enumerate(base)]


def model_text(cx, typ, name, cs, a, b, rkey, ckey, units, style):
    tkey = {'rii': 'type', 'own': 'DataType'}[style]
    s = '  - %s: %s\n    %s: %s %s\n    %s: %s\n' % (tkey, typ, rkey, str(a), str(b), ckey, ' '.join(str(c) for c in cs))
    if units in (1, 'type'):
        s += '    SpectrumType: %s\n' % own_tu(name)[0]
    if units in (1, 'unit'):
        s += '    Unit: %s\n' % own_tu(name)[1]
    return s


def formula(cx, num, n, rkey, units, k, style):
    """'formula N' and 'model Name' with coefficients and range in file order"""
    D = cx.D
    name = FORMULAS.get(num, num)
    tu = own_tu(name)
    lo, hi = (0.2, 2.0) if tu == UM else (0.5, 6.0)
    a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
    cx.assume(a < b)
    cs = coefs(cx, name, n)
    typ = 'formula %d' % num if isinstance(num, int) else 'model ' + num
    ckey = 'coefficients' if style == 'rii' else 'Parameters'
    text = 'DATA:\n' + model_text(cx, typ, name, cs, a, b, rkey, ckey, units, style)
    kt = EV
    if k:
        ks = cx.reals('k', 2, 0, 5)
        ktext = '  - type: tabulated k\n    SpectrumType: energy\n    Unit: ev\n    data: |\n        0.3 %s\n        9.0 %s\n' \
            % (str(ks[0]), str(ks[1]))
        text = text + ktext if k == 'after' else 'DATA:\n' + ktext + text[len('DATA:\n'):]
    p = put(cx, 'yml', text)
    dflt = {0: tu, 1: NM, 'unit': (tu[0], 'nm'), 'type': (NM[0], tu[1])}[units]
    if units == 'type' and tu == UM:
        dflt = (EV[0], tu[1])
    m = cx.ok('read', D.Material, file_path=p, spectrum_type=dflt[0], unit=dflt[1])
    part = 'complex' if name in E_MODELS else 'real'
    cx.check(m.data['name'] == ('eps' if name in E_MODELS else 'nk'), 'quantity')
    cx.check(type(m.data[part]).__name__ == name, 'model class')
    ref = cls(cx, name)(cx.arr(cs), (a, b), *tu)
    x = cx.real('x', lo, hi)
    v, e = cx.attempt(ref.evaluate, D.Spectrum(x, *tu))
    v2, e2 = cx.attempt(m.data[part].evaluate, D.Spectrum(x, *tu))
    cx.check((e is None) == (e2 is None), 'valid range of the file')
    if e is None and e2 is None and not any(cx.isbad(z) for z in cx.flat(v)):
        cx.check_close(v2, v, 'coefficients of the file', rel=1e-9, scale=1e-3)
    if k:
        g = cx.flat(cx.ok('evaluate k', m.data['imag'].evaluate, D.Spectrum(cx.np.array([0.3, 9.0]), *EV)))
        cx.check_close(g, ks, 'k table')


def datasets(cx, first, second, t1, t2, dflt):
    """n and k data sets in either order; each with its own type and unit or the caller's"""
    D = cx.D
    out = {}
    text = 'DATA:\n'
    for i, (what, tu) in enumerate(((first, t1), (second, t2))):
        if what is None:
            continue
        own = tu if tu is not None else dflt
        lo, hi = rng_of(own, 2e-7, 2e-6)
        a, b = cx.real('a%d' % i, lo, hi), cx.real('b%d' % i, lo, hi)
        cx.assume(a < b)
        cols = 2 if what in ('nk', 'eps') else 1
        ys = [[cx.real('y%d%d%d' % (i, r, j), -5, 5) for j in range(cols)] for r in range(2)]
        text += '  - type: tabulated %s\n' % what
        if tu is not None:
            text += '    SpectrumType: %s\n    Unit: %s\n' % tu
        text += '    data: |\n' + ''.join('        %s\n' % ' '.join(str(v) for v in [t] + y) for t, y in zip((a, b), ys))
        out[what] = (own, a, b, ys)
    p = put(cx, 'yml', text)
    m = cx.ok('read', D.Material, file_path=p, spectrum_type=dflt[0], unit=dflt[1])
    cx.check(m.data['name'] == ('eps' if any(w.startswith('eps') for w in out) else 'nk'), 'quantity')
    seen = set()
    for what, (own, a, b, ys) in out.items():
        cols = {'n': ['real'], 'k': ['imag'], 'eps_r': ['real'], 'eps_k': ['imag']}.get(what, ['real', 'imag'])
        for j, part in enumerate(cols):
            seen.add(part)
            g = cx.flat(cx.ok('evaluate', m.data[part].evaluate, D.Spectrum(cx.arr([a, b]), *own)))
            cx.check_close(g, [ys[0][j], ys[1][j]], 'data set %s' % what, scale=1e-3)
    for part in {'real', 'imag'} - seen:
        g = cx.flat(m.data[part].evaluate(D.Spectrum(cx.np.array([500.0]), *NM)))
        cx.check_close(g, [0.0], 'a part that is not given is zero')


def extension(cx, n):
    ext = cx.string('e', n, alphabet=((97, 122), (65, 90), (48, 57)))
    for k in ('txt', 'csv', 'nk', 'yml'):
        if len(k) == n:
            cx.assume(cx.not_(cx.streq(ext, k)))
    p = os.path.join(cx.tmp(), 'f.' + ext)
    with open(p, 'w') as f:
        f.write('400 1.5\n500 1.6\n')
    cx.raises('unsupported extensions are refused', ValueError, cx.D.Material, file_path=p)
    m = cx.D.Material(tabulated_nk=cx.np.array([[400.0, 1.5, 0.1], [500.0, 1.6, 0.2]]))
    v, e = cx.attempt(lambda: cx.D.Writer(p + 'x' * 3, m).write_file())
    cx.check(isinstance(e, ValueError), 'unsupported extensions are refused for writing', note=repr(e))


def bad_type(cx, n, yml):
    """data types other than tabulated, formula and model are refused"""
    s = cx.string('t', n, alphabet=((97, 122),))
    for k in ('formula', 'model', 'tabulated'):
        if n >= len(k):
            cx.assume(cx.not_(cx.streq(s[:len(k)], k)))
    if yml:
        text = 'DATA:\n  - type: %s n\n    data: |\n        0.4 1.5\n        0.5 1.6\n    coefficients: 1 2\n    range: 1 2\n' % s
    else:
        text = '# DATATYPE: %s n\n400 1.5\n500 1.6\n' % s
    p = put(cx, 'yml' if yml else 'txt', text)
    cx.raises('unsupported data types are refused', (ValueError, KeyError), cx.D.Material, file_path=p)


def bad_model(cx, kind):
    s = {'number': lambda: 'formula ' + cx.choice('n', ['0', '10', '11', '99', '-1']),
         'name': lambda: 'model ' + cx.string('n', 5, alphabet=((97, 122),)),
         'word': lambda: 'formula ' + cx.string('n', 3, alphabet=((97, 122),))}[kind]()
    p = put(cx, 'yml', 'DATA:\n  - type: %s\n    range: 0.2 2.0\n    coefficients: 1.5 0.01 -2\n    SpectrumType: wavelength\n'
            '    Unit: um\n' % s)
    m, e = cx.attempt(cx.D.Material, file_path=p)
    cx.check(e is not None, 'unknown models are refused')


def caller_unit(cx, num):
    """a formula that states no unit uses the caller's: one it does not accept is refused"""
    name = FORMULAS[num]
    p = put(cx, 'yml', 'DATA:\n' + model_text(cx, 'formula %d' % num, name, coefs(cx, name), 0.3, 0.9, 'range', 'coefficients', 0, 'rii'))
    tu = cx.choice('tu', TU)
    m, e = cx.attempt(cx.D.Material, file_path=p, spectrum_type=tu[0], unit=tu[1])
    if tu == UM:
        cx.check(e is None, 'the caller states the unit of the formula', note=repr(e))
    else:
        cx.check(isinstance(e, ValueError), 'the caller states another unit', note=repr(e))


def yaml_other(cx, key):
    """other top-level keys of a YAML file change no field"""
    text = 'NAME: nm\nSPECS:\n    temperature: 25 C\nDATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.5 1.75\n'
    extra = '%s: other\n' % key
    p = put(cx, 'yml', extra + text if cx.bool('before') else text + extra)
    m = cx.ok('read', cx.D.Material, file_path=p, spectrum_type='wavelength', unit='um')
    for k in KEYS:
        cx.check(m.meta_data[k] == ('nm' if k == 'Name' else ''), 'field %s' % k)
    cx.check(m.meta_data['Specification'] == {'temperature': '25 C'}, 'specification')
    g = cx.flat(m.get_nk_data(cx.D.Spectrum(cx.np.array([0.4, 0.5]), *UM)))
    cx.check_close(g, [1.5, 1.75], 'table')


ALLTU = [None] + TU
HARNESSES = [
    H(header_key, [dict(ext=e, field=f, spell=s, pre=' ', n=n) for f in KEYS for s in KEYS[f]
                   for e, n in (('txt', 3), ('csv', 2), ('nk', 2))]
      + [dict(ext='txt', field=f, spell=KEYS[f][0], pre=q, n=2) for f in KEYS for q in ('', '  ')],
      thorough=[dict(ext=e, field=f, spell=s, pre=q, n=n) for f in KEYS for s in KEYS[f] for q in ('', ' ')
                for e in SEP for n in (1, 4, 5)],
      bounds='every documented key and letter case, values of up to 3 (5) arbitrary characters'),
    H(header_unknown, [dict(ext=e, n=n, colon=c) for e in SEP for n in (2, 4) for c in (False, True)],
      thorough=[dict(ext=e, n=n, colon=c) for e in SEP for n in (1, 2, 3, 4, 5, 7) for c in (False, True)],
      opts={'max_paths': 20000}, bounds='unknown keys of up to 4 (7) arbitrary characters'),
    H(text_table, [dict(ext=e, cols=c, dtype=d, tu=tu, dflt=NM) for e in SEP for c, d in ((2, None), (3, None), (2, 'k'))
                   for tu in (None, EV, UM)]
      + [dict(ext='txt', cols=c, dtype=d, tu=tu, dflt=HZ) for c, d in ((2, None), (2, 'n'), (3, 'nk'), (3, 'eps'), (2, 'eps_r'), (2, 'eps_k'))
         for tu in (None, EV)],
      thorough=[dict(ext=e, cols=c, dtype=d, tu=tu, dflt=q) for e in SEP for c, d in (
          (2, None), (3, None), (2, 'k'), (2, 'n'), (3, 'nk'), (3, 'eps')) for tu in ALLTU for q in (NM, EV)],
      bounds='2 arbitrary rows; stated or default type, unit and quantity'),
    H(yaml_meta, [dict(style=s) for s in ('as is', 'lower')], bounds='all spellings of the keys, three orders'),
    H(formula, [dict(num=i, n=None, rkey='wavelength_range', units=u, k=None, style='rii') for i in FORMULAS for u in (0, 1)]
      + [dict(num=n, n=None, rkey='ValidRange' if False else 'validRange', units=1, k=None, style='own') for n in MODELS]
      + [dict(num=n, n=None, rkey='wavelength_range', units=1, k=None, style='rii') for n in MODELS]
      + [dict(num=i, n=None, rkey='range', units=u, k=None, style='rii') for i in (1, 4, 9) for u in ('unit', 'type')]
      + [dict(num=5, n=None, rkey=r, units=0, k=None, style='rii') for r in RANGE_KEYS]
      + [dict(num=i, n=None, rkey='range', units=1, k=k, style='rii') for i in (1, 5) for k in ('before', 'after')]
      + [dict(num=i, n=n, rkey='wavelength_range', units=0, k=None, style='rii') for i, n in ((1, 17), (2, 17), (3, 17), (5, 11))],
      bounds='formula 1-9 and every model name, arbitrary range, coefficients within 1 % of a typical set, up to 17'),
    H(datasets, [dict(first=a, second=b, t1=t, t2=u, dflt=d) for a, b in (('n', 'k'), ('k', 'n'), ('eps_r', 'eps_k'))
                 for t, u in ((None, None), (EV, HZ), (NM, EV), (EV, None), (None, NM)) for d in (UM, HZ)]
      + [dict(first=a, second=None, t1=t, t2=None, dflt=UM) for a in ('n', 'k', 'nk', 'eps', 'eps_r', 'eps_k') for t in (None, EV)]
      + [dict(first='eps_k', second='eps_r', t1=t, t2=u, dflt=UM) for t, u in ((None, None), (EV, HZ))],
      thorough=[dict(first=a, second=b, t1=t, t2=u, dflt=d) for a, b in (('n', 'k'), ('k', 'n'), ('eps_r', 'eps_k'))
                for t in ALLTU for u in ALLTU for d in (UM, HZ)],
      bounds='one or two tabulated data sets with arbitrary numbers in every order'),
    H(caller_unit, [dict(num=i) for i in FORMULAS], bounds='formula 1-9 with every default of the caller'),
    H(yaml_other, [dict(key=k) for k in ('SPECIAL', 'Doping', 'DATASET', 'x')], bounds='a key of another meaning before or after'),
    H(extension, [dict(n=n) for n in (1, 2, 3, 4)], bounds='extensions of up to 4 arbitrary letters/digits'),
    H(bad_type, [dict(n=n, yml=y) for n in (3, 5, 7) for y in (0, 1)], bounds='data type words of 3, 5, 7 arbitrary letters'),
    H(bad_model, [dict(kind=k) for k in ('number', 'name', 'word')], bounds='formula numbers beyond 1-9, arbitrary names'),
]
