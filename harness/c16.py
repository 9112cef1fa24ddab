import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
LO, HI = 5e-7, 1e-6


def material(cx, kind, memo=None):
    """a material that covers 0.2 .. 2 um; memo: inputs shared by several equal materials"""
    D, np = cx.D, cx.np
    memo = {} if memo is None else memo

    def v(name, lo=0.5, hi=5.0):
        if name not in memo:
            memo[name] = cx.real(name, lo, hi)
        return memo[name]
    if kind in ('nk', 'eps', 'n_alpha', 'n'):
        tu = {'nk': EV, 'eps': NM, 'n_alpha': UM, 'n': HZ}[kind]
        lo, hi = rng_of(tu, 2e-7, 2e-6)
        mid = (lo + hi) / 2
        rows = [[mid, v('b'), 0.1], [lo, v('a'), 0.2], [hi, 1.5, 0.3]]
        if kind in ('nk', 'n'):
            rows = [rows[2], rows[0], rows[1]]      # descending
        t = cx.arr(rows)
        if kind == 'n':
            t = t[:, [0, 1]]
        memo['tab'] = cx.flat(t)
        return D.Material(spectrum_type=tu[0], unit=tu[1], **{'tabulated_' + kind: t}), t
    if kind == 'ext':
        t = cx.arr([[v('t0', 0.25, 0.4), 1.25], [v('t1', 1.1, 1.3), 1.5]])
        memo['tab'] = cx.flat(t)
        m = D.Material(tabulated_n=t, spectrum_type='wavelength', unit='um')
        m.extrapolate(D.Spectrum(np.array([2e-7, 2e-6])), spline_order=1)
        return m, t
    if kind == 'plain':
        return D.Material(fixed_nk=1.25 + 0.5j), None
    if kind == 'fixed':
        return D.Material(fixed_nk=v('a') + 1j * v('b')), None
    if kind in N_MODELS:
        return D.Material(model_kw=dict(name=kind, spectrum_type='wavelength', unit='um',
                                        valid_range=np.array([0.2, 2.0]), parameters=np.array(COEF[kind]))), None
    return D.Material(model_kw=dict(name=kind, spectrum_type='energy', unit='ev',
                                    valid_range=np.array([0.5, 6.5]), parameters=np.array(COEF[kind]))), None


def snap(cx, s):
    return (cx.flat(s.values), s.spectrum_type, s.unit, cx.flat(s.standard_rep), cx.np.shape(s.values))


def same(cx, a, b, label):
    cx.check(len(a) == len(b), label + ' (number)')
    for x, y in zip(a, b):
        cx.check(x == y, label)


def same_spec(cx, a, b, label='the spectrum'):
    same(cx, a[0], b[0], label + ' keeps its values')
    cx.check((a[1], a[2], a[4]) == (b[1], b[2], b[4]), label + ' keeps type, unit and shape')
    same(cx, a[3], b[3], label + ' keeps its physical points')


def point(cx, tu, n):
    lo, hi = rng_of(tu, LO, HI)
    xs = cx.reals('x', n, lo, hi)
    for i in range(n - 1):
        cx.assume(xs[i] < xs[i + 1])
    return xs


OPS = ['nk', 'eps', 'nk_raw', 'eps_raw', 'range', 'sample', 'convert', 'contains', 'label', 'limits', 'dict', 'write',
       'simple', 'garnett', 'bruggeman', 'parts']


def do(cx, op, m, s, other, tu, tag=''):
    """one public query; -> flat list of its values (None: no comparable answer)"""
    D = cx.D
    if op == 'nk':
        return cx.flat(m.get_nk_data(s))
    if op == 'eps':
        return cx.flat(m.get_permittivity(s))
    if op == 'nk_raw':
        return cx.flat(m.get_nk_data(s.values, s.spectrum_type, s.unit))
    if op == 'eps_raw':
        return cx.flat(m.get_permittivity(s.values, spectrum_type=s.spectrum_type, unit=s.unit))
    if op == 'range':
        return cx.flat(m.get_maximum_valid_range())
    if op == 'sample':
        return cx.flat(m.get_sample_spectrum().values)
    if op == 'convert':
        return cx.flat(s.convert_to('energy', 'ev')) + cx.flat(s.convert_to('wavelength', 'um'))
    if op == 'contains':
        return [bool(D.Spectrum(cx.np.array([1e-7, 5e-6])).contains(s))]
    if op == 'label':
        s.get_type_unit_string()
        return None
    if op == 'limits':        # s as the limits of an extrapolation
        lo, hi = rng_of(tu, HI * 1.2, HI * 1.3)
        t = D.Material(tabulated_n=cx.np.array([[HI * 1.1, 1.5], [HI * 1.2, 2.5]]), spectrum_type='wavelength', unit='m')
        t.extrapolate(s, spline_order=1)
        return cx.flat(t.get_nk_data(s))
    if op == 'dict':
        m.prepare_file_dict()
        return None
    if op == 'write':
        D.Writer(os.path.join(cx.tmp(), 'f.yml'), m).write_file()
        return None
    if op == 'parts':
        d = m.data
        if d['complex'] is not None:
            return cx.flat(d['complex'].evaluate(s))
        return cx.flat(d['real'].evaluate(s)) + cx.flat(d['imag'].evaluate(s))
    M = cx.mod('dispersion.material')
    c = {'simple': M.Simple, 'garnett': M.MaxwellGarnett, 'bruggeman': M.Bruggeman}[op]
    return cx.flat(c(s, m, other, 0.25).get_permittivity(s))


WRITABLE = ('nk', 'eps', 'n', 'n_alpha', 'Cauchy', 'Drude')


def one(cx, kind, op, tu, n):
    """one query: spectrum, material, other material and input table unchanged"""
    D = cx.D
    memo = {}
    m, t = material(cx, kind, memo)
    other = D.Material(fixed_nk=1.5 + 0.5j if op in ('garnett', 'bruggeman') else
                       cx.real('o', 0.5, 3.0) + 1j * cx.real('p', 0.1, 3.0))
    xs = point(cx, tu, n)
    given = cx.arr(xs) if n > 1 else xs[0]
    s = D.Spectrum(given, *tu)
    tab = memo.get('tab')
    ref = D.Spectrum(cx.np.array([0.6, 0.8]), *UM)
    first = cx.flat(m.get_nk_data(ref)) + cx.flat(m.get_maximum_valid_range()) + cx.flat(other.get_permittivity(ref))
    a = snap(cx, s)
    cx.ok('query', do, cx, op, m, s, other, tu)
    same_spec(cx, snap(cx, s), a)
    same(cx, cx.flat(given), xs, 'the array given by the user')
    if tab is not None:
        same(cx, cx.flat(t), tab, 'the table given by the user')
    again = cx.flat(m.get_nk_data(ref)) + cx.flat(m.get_maximum_valid_range()) + cx.flat(other.get_permittivity(ref))
    same(cx, again, first, 'the materials answer as before')


def history(cx, kind, first, length, tu):
    """any interleaving of queries answers like a fresh object"""
    D = cx.D
    memo = {}
    m, t = material(cx, kind, memo)
    other = D.Material(fixed_nk=1.5 + 0.5j)
    xs = point(cx, tu, 2)
    s = D.Spectrum(cx.arr(xs), *tu)
    a = snap(cx, s)
    menu = ['nk', 'eps', 'range', 'convert', 'parts', 'sample', 'simple']
    want = {}
    for op in menu:          # the answers of fresh objects
        m2, _ = material(cx, kind, memo)
        want[op] = do(cx, op, m2, D.Spectrum(cx.arr(xs), *tu), other, tu)
    seq = list(first) + [cx.choice('op%d' % i, menu) for i in range(length - len(first))]
    for op in seq:
        got = cx.ok('query', do, cx, op, m, s, other, tu)
        same(cx, got, want[op], 'same answer as a fresh object')
    same_spec(cx, snap(cx, s), a)


def same_number(cx, kind, ta, tb, form, fa, fb):
    """the same number asked in two units (or forms) one after the other: both answers are those of a fresh object"""
    D = cx.D
    v = [cx.real('v%d' % i, 0.5, 5.0) for i in range(4)]

    def fresh():
        if kind == 'fixed':
            return D.Material(fixed_nk=v[0] + 1j * v[1])
        t = cx.arr([[1e-10, v[0], v[1]], [1.0, v[2], v[3]]])
        return D.Material(spectrum_type='wavelength', unit='m', **{'tabulated_' + kind: t})
    xs = [cx.real('x', 2, 9), cx.real('y', 2, 9)]

    def ask(m, f, tu, form):
        q = {'scalar': lambda: xs[0], 'one': lambda: cx.arr(xs[:1]), 'two': lambda: cx.arr(xs), 'back': lambda: cx.arr(xs[::-1])}[form]()
        return cx.flat(getattr(m, f)(D.Spectrum(q, *tu)))
    m = fresh()
    last = form[1] if isinstance(form, tuple) else form
    form = form[0] if isinstance(form, tuple) else form
    cx.ok('first query', ask, m, fa, ta, form)
    got = cx.ok('second query', ask, m, fb, tb, last)
    want = cx.ok('fresh', ask, fresh(), fb, tb, last)
    same(cx, got, want, 'same answer as a fresh object')


def copies(cx, how, tu):
    """in-place work on one object does not reach the caller's data"""
    D = cx.D
    lo, hi = rng_of(tu, LO, HI)
    xs = cx.reals('x', 2, lo, hi)
    cx.assume(xs[0] < xs[1])
    given = cx.arr(xs)
    s = D.Spectrum(given, *tu)
    if how == 'convert':
        for d in (EV, UM, tu):
            s.convert_to(d[0], d[1], in_place=True)
    elif how == 'result':
        s.convert_to(*tu)
        r = s.convert_to(*EV)
        w = cx.flat(r)
        r *= 2.0
        same(cx, cx.flat(s.values), xs, 'a changed result does not change the spectrum')
        same(cx, cx.flat(s.convert_to(*EV)), w, 'nor its next conversion')
        r = s.convert_to(*tu)
        r *= 2.0
        s.convert_to(EV[0], EV[1], in_place=True)
        s.values *= 1.0
        same(cx, cx.flat(s.values), w, 'nor the conversion in place')
    elif how == 'own':
        r = s.convert_to(*tu)
        r *= 2.0
        same(cx, cx.flat(s.values), xs, 'a changed result does not change the spectrum')
    elif how == 'nk':
        m = D.Material(tabulated_nk=cx.np.array([[4e-7, 1.5, 0.1], [1.1e-6, 2.0, 0.2]]), spectrum_type='wavelength',
                       unit='m')
        r = m.get_nk_data(s)
        w = cx.flat(r)
        r *= 2.0
        same(cx, cx.flat(m.get_nk_data(s)), w, 'a changed result does not change the material')
        r = m.get_maximum_valid_range()
        w = cx.flat(r)
        r *= 2.0
        same(cx, cx.flat(m.get_maximum_valid_range()), w, 'a changed result does not change the material')
        r = m.get_permittivity(s)
        w = cx.flat(r)
        r *= 2.0
        same(cx, cx.flat(m.get_permittivity(s)), w, 'a changed result does not change the material')
    same(cx, cx.flat(given), xs, 'the array given by the user')


def table_kept(cx, kind, op):
    """operations that are meant to change the material leave the user's table alone"""
    D = cx.D
    memo = {}
    m, t = material(cx, kind, memo)
    tab = memo['tab']
    lim = D.Spectrum(cx.arr([cx.real('l', 1e-7, 1.9e-7), cx.real('u', 2.1e-6, 4e-6)]))
    a = snap(cx, lim)
    if op == 'extrapolate':
        cx.ok('extrapolate', m.extrapolate, lim, spline_order=1)
    elif op == 'remove':
        cx.ok('remove', m.remove_absorption)
    else:
        for ext in ('txt', 'yml'):
            cx.ok('write', D.Writer(os.path.join(cx.tmp(), 'f.' + ext), m).write_file)
    m.get_nk_data(D.Spectrum(cx.np.array([6e-7, 8e-7])))
    same(cx, cx.flat(t), tab, 'the table given by the user')
    same_spec(cx, snap(cx, lim), a)


KINDS = ['plain', 'nk', 'eps', 'n_alpha', 'n', 'fixed', 'Cauchy', 'Sellmeier', 'Drude', 'DrudeLorentz', 'TaucLorentz']


def fit(kind, op):
    if op in ('garnett', 'bruggeman'):
        return kind == 'plain'
    return not (op == 'write' and kind not in WRITABLE) and not (op == 'dict' and kind == 'ext')


HARNESSES = [
    H(one, [dict(kind=k, op=o, tu=tu, n=n) for k in ('nk', 'Cauchy', 'Drude', 'plain') for o in OPS if fit(k, o)
            for tu, n in ((EV, 2), (NM, 1))]
      + [dict(kind=k, op=o, tu=tu, n=2) for k in KINDS for o in ('nk', 'eps', 'range', 'simple')
         for tu in (HZ,)],
      thorough=[dict(kind=k, op=o, tu=tu, n=n) for k in KINDS for o in OPS if fit(k, o) for tu in TU for n in (1, 2)],
      bounds='every public query on tables, models, constants and extrapolated data; 1 or 2 arbitrary points'),
    H(one, [dict(kind='ext', op=o, tu=UM, n=n) for o in ('nk', 'eps', 'range', 'convert', 'parts') for n in (1, 2)],
      name='extrapolated', opts={'sample_cap': 2},
      bounds='queries on an extrapolated table (grid abstracted to 2 points)'),
    H(history, [dict(kind=k, first=(f,), length=2, tu=EV) for k in ('nk', 'Drude') for f in ('nk', 'eps', 'convert',
                                                                                             'range', 'simple')],
      thorough=[dict(kind=k, first=(f, g), length=3, tu=tu) for k in ('nk', 'n', 'eps', 'Cauchy', 'Drude') for tu in (EV, NM)
                for f in ('nk', 'eps', 'convert', 'range', 'simple') for g in ('nk', 'eps', 'convert', 'parts', 'sample')],
      bounds='all sequences of 2 (thorough 3) queries out of 7 kinds on shared objects'),
    H(same_number, [dict(kind=k, ta=a, tb=b, form=f, fa=fa, fb=fa) for k in ('nk', 'eps') for a, b in ((NM, UM), (EV, ('wavenumber', '1/cm')))
                    for f in ('scalar', 'one', 'two') for fa in ('get_nk_data', 'get_permittivity') if not (k == 'eps' and a == EV and fa == 'get_nk_data')]
      + [dict(kind=k, ta=NM, tb=NM, form=f, fa=fa, fb=fa) for k in ('nk', 'fixed') for f in (('two', 'back'), ('scalar', 'one'), ('one', 'scalar'), ('two', 'one'))
         for fa in ('get_nk_data', 'get_permittivity')],
      thorough=[dict(kind=k, ta=a, tb=b, form=f, fa=fa, fb=fb) for k in ('nk', 'eps', 'fixed') for a, b in ((NM, UM), (UM, NM), (EV, NM), (EV, ('wavenumber', '1/cm')), (NM, NM))
                for f in ('scalar', 'one', 'two', ('two', 'back'), ('scalar', 'one'), ('one', 'scalar'), ('two', 'one'), ('one', 'two'))
                for fa in ('get_nk_data', 'get_permittivity') for fb in ('get_nk_data', 'get_permittivity')
                if not (k == 'eps' and a == EV and 'get_nk_data' in (fa, fb))],
      bounds='pairs of queries with equal arbitrary numbers in different units, forms and orders'),
    H(copies, [dict(how=h, tu=tu) for h in ('convert', 'result', 'own', 'nk') for tu in TU],
      bounds='caller-side changes of results and in-place conversions'),
    H(table_kept, [dict(kind=k, op=o) for k in ('nk', 'eps', 'n_alpha', 'n') for o in ('extrapolate', 'remove', 'write')],
      bounds='arbitrary table values'),
]
