from engine.runner import H
from harness.common import *
from harness.common2 import *

KEYS = ['file_path', 'fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps', 'tabulated_nk', 'tabulated_n_alpha',
        'tabulated_n', 'tabulated_eps', 'model_kw']
COLS = {'tabulated_nk': 3, 'tabulated_n_alpha': 3, 'tabulated_n': 2, 'tabulated_eps': 3}
# name of the stored quantity and the parts that carry the definition
STORED = {'fixed_n': ('nk', 'real'), 'fixed_nk': ('nk', 'both'), 'fixed_eps_r': ('eps', 'real'),
          'fixed_eps': ('eps', 'both'), 'tabulated_nk': ('nk', 'both'), 'tabulated_n_alpha': ('nk', 'both'),
          'tabulated_n': ('nk', 'real'), 'tabulated_eps': ('eps', 'both'), 'file_path': ('nk', 'both')}


def good(cx, key, sfx=''):
    np = cx.np
    if key == 'file_path':
        import os
        p = os.path.join(cx.tmp(), 'f.txt')
        with open(p, 'w') as f:
            f.write('# NAME: x\n400.0\t1.5\t0.1\n500.0\t1.6\t0.2\n')
        return p
    if key in ('fixed_n', 'fixed_eps_r'):
        return cx.pyfloat('v' + sfx, -5, 5)
    if key in ('fixed_nk', 'fixed_eps'):
        return cx.real('v' + sfx, -5, 5) + 1j * cx.real('w' + sfx, -5, 5)
    if key == 'model_kw':
        return dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.2, 2.0]),
                    parameters=np.array([1.5, 0.01, -2.0]))
    return cx.arr([[400.0] + cx.reals('a' + sfx, COLS[key] - 1, -5, 5),
                   [500.0] + cx.reals('b' + sfx, COLS[key] - 1, -5, 5)])


def subsets(cx, start, none):
    """exactly one definition; absent ones may also be passed as None"""
    kw = {}
    for i, k in enumerate(KEYS):
        on = start[i] if i < len(start) else cx.bool('on_' + k)
        if on:
            kw[k] = good(cx, k, k)
        elif none:
            kw[k] = None
    n = sum(v is not None for v in kw.values())
    m, e = cx.attempt(cx.D.Material, **kw)
    if n == 1:
        cx.check(e is None, 'one definition is accepted', note=repr(e))
    else:
        cx.check(isinstance(e, ValueError), 'no or several definitions are refused with ValueError', note=repr(e))


def stored(cx, key, tu):
    v = good(cx, key)
    kw = {key: v}
    if tu is not None:
        kw.update(spectrum_type=tu[0], unit=tu[1])
    m = cx.ok('material', cx.D.Material, **kw)
    want = ('wavelength', 'nanometer') if tu is None else tu
    if key == 'model_kw':
        want = ('wavelength', 'um')
        cx.check(m.data['name'] == 'nk', 'quantity')
    else:
        cx.check(m.data['name'] == STORED[key][0], 'quantity')
    cx.check((m.defaults['spectrum_type'], m.defaults['unit']) == want, 'default type and unit')
    cx.check(m.data['complex'] is None, 'parts are separate')
    D = cx.D
    if key == 'model_kw':
        g = cx.flat(m.get_nk_data(D.Spectrum(1.0, *UM)))[0]
        cx.check_close(g, 1.51 + 0j, 'value')
        return
    x, q = 400.0, (want[0], 'nm' if tu is None else want[1])
    if tu is not None and not key.startswith('tabulated') and key != 'file_path':
        x, q = 400.0, ('wavelength', 'nm')
    f = m.get_permittivity if STORED[key][0] == 'eps' else m.get_nk_data
    g = cx.flat(cx.ok('evaluate', f, D.Spectrum(x, *q)))[0]
    if key.startswith('tabulated'):
        row = cx.flat(v)[1:COLS[key]]
        cx.check_close(cx.np.real(g), row[0], 'real part', scale=1.0)
        if key in ('tabulated_nk', 'tabulated_eps'):
            cx.check_close(cx.np.imag(g), row[1], 'imaginary part', scale=1.0)
        elif key == 'tabulated_n':
            cx.check_close(cx.np.imag(g), 0.0, 'imaginary part')
    elif key != 'file_path':
        cx.check_close(cx.np.real(g), cx.np.real(v), 'real part', scale=1.0)
        cx.check_close(cx.np.imag(g), cx.np.imag(v), 'imaginary part', scale=1.0)
    else:
        cx.check_close(g, 1.5 + 0.1j, 'value')


WRONG = ['int', 'str', 'list', 'float', 'complex', 'dict', 'tuple', 'array', 'npint', 'set', 'bytes']


def wrong_type(cx, key):
    ok = {'fixed_n': {'float'}, 'fixed_eps_r': {'float'}, 'fixed_nk': {'complex'}, 'fixed_eps': {'complex'},
          'file_path': {'str'}, 'model_kw': {'dict'}, 'spectrum_type': {'str'}, 'unit': {'str'},
          'interp_order': {'int'}}.get(key, {'array'})
    kind = cx.choice('kind', [w for w in WRONG if w not in ok])
    np = cx.np
    v = {'int': lambda: cx.int('v', -3, 3), 'str': lambda: cx.string('v', 2), 'list': lambda: [[1.0, 2.0, 3.0]],
         'float': lambda: cx.pyfloat('v', -3, 3), 'complex': lambda: cx.real('v', -3, 3) + 1j * cx.real('w', -3, 3),
         'dict': lambda: {'a': 1}, 'tuple': lambda: (1.0, 2.0), 'array': lambda: cx.arr(cx.reals('v', 2, -3, 3)),
         'npint': lambda: cx.int('v', -3, 3, py=False), 'set': lambda: {1.0}, 'bytes': lambda: b'x'}[kind]()
    kw = {key: v}
    if key not in KEYS:
        kw['tabulated_nk'] = cx.np.array([[400.0, 1.5, 0.1], [500.0, 1.6, 0.2]])
    m, e = cx.attempt(cx.D.Material, **kw)
    cx.check(isinstance(e, TypeError), 'wrong type is refused with TypeError', note='%s %r' % (kind, e))


def shape(cx, key, dims):
    n = 1
    for d in dims:
        n *= d
    vs = cx.reals('v', n, 1, 5)
    if len(dims) == 2:        # a usable table needs distinct spectral values
        first = [vs[i * dims[1]] for i in range(dims[0])]
        for i in range(dims[0]):
            for j in range(i):
                cx.assume(first[i] != first[j])
    v = cx.arr(vs).reshape(dims)
    m, e = cx.attempt(cx.D.Material, **{key: v})
    if len(dims) == 2 and dims[1] == COLS[key]:
        cx.check(e is None, 'right shape is accepted', note=repr(e))
    else:
        cx.check(isinstance(e, ValueError), 'wrong shape is refused with ValueError', note=repr(e))


def names(cx, n):
    """model_kw with an unknown model name is refused"""
    s = cx.string('name', n, alphabet=((65, 90), (97, 122), (48, 57)))
    known = ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo', 'Cauchy', 'Gases', 'Herzberger', 'Retro',
             'Exotic', 'Drude', 'DrudeLorentz', 'TaucLorentz']
    for k in known:
        cx.assume(cx.not_(cx.streq(s, k)))
    kw = dict(name=s, spectrum_type='wavelength', unit='um', valid_range=cx.np.array([0.2, 2.0]),
              parameters=cx.np.array([1.5, 0.01, -2.0]))
    m, e = cx.attempt(cx.D.Material, model_kw=kw)
    cx.check(e is not None, 'unknown model is refused')


SHAPES = [(2,), (3,), (6,), (2, 2, 3), (1, 3, 3)] + [(r, c) for r in (1, 2, 3, 4) for c in (1, 2, 3, 4, 5)]
SQ = [d for d in SHAPES if not (len(d) == 2 and d[0] > 1)] + [(2, c) for c in (1, 2, 3, 4, 5)] + [(3, 2), (3, 3)]
HARNESSES = [
    H(subsets, [dict(start=(a, b, c), none=n) for a in (0, 1) for b in (0, 1) for c in (0, 1) for n in (False, True)],
      bounds='all 1024 subsets of the ten definitions, absent ones omitted or None', opts={'slice_s': 10}),
    H(stored, [dict(key=k, tu=tu) for k in KEYS for tu in (None, ('energy', 'ev'), ('wavelength', 'um'))
               if not (k == 'file_path' and tu)],
      thorough=[dict(key=k, tu=tu) for k in KEYS for tu in [None] + TU],
      bounds='every definition with default, eV and um spectra (thorough: all)'),
    H(wrong_type, [dict(key=k) for k in KEYS + ['spectrum_type', 'unit', 'interp_order']],
      bounds='every argument with every other kind of value'),
    H(shape, [dict(key=k, dims=d) for k in COLS for d in SQ], thorough=[dict(key=k, dims=d) for k in COLS for d in SHAPES],
      bounds='tables of 1-4 rows and 1-5 columns, 1-d and 3-d arrays, arbitrary numbers'),
    H(names, [dict(n=n) for n in (3, 5)], bounds='model names of 3 and 5 arbitrary letters/digits'),
]
