from engine.runner import H
from harness.common import *
from harness.common2 import *

NM = ('wavelength', 'nm')


def make(cx, what):
    """-> material, spectrum, [(name, re, im)] own values at the points (None: not prescribed)"""
    D = cx.D
    x = [500.0, 500.0, 600.0]
    tu = NM
    if what == 'fixed_n':
        n = cx.pyfloat('a', -5, 5)
        m, own = dict(fixed_n=n), ('nk', [(n, 0.0)] * 3)
    elif what == 'fixed_nk':
        a, b = cx.real('a', -5, 5), cx.real('b', -5, 5)
        m, own = dict(fixed_nk=a + 1j * b), ('nk', [(a, b)] * 3)
    elif what == 'fixed_eps_r':
        a = cx.pyfloat('a', -25, 25)
        m, own = dict(fixed_eps_r=a), ('eps', [(a, 0.0)] * 3)
    elif what == 'fixed_eps':
        a, b = cx.real('a', -25, 25), cx.real('b', -25, 25)
        m, own = dict(fixed_eps=a + 1j * b), ('eps', [(a, b)] * 3)
    elif what == 'tabulated_n':
        y = cx.reals('y', 2, -5, 5)
        m, own = dict(tabulated_n=cx.arr([[500.0, y[0]], [600.0, y[1]]])), ('nk', [(y[0], 0.0)] * 2 + [(y[1], 0.0)])
    elif what in ('tabulated_nk', 'tabulated_eps'):
        y, z = cx.reals('y', 2, -25, 25), cx.reals('z', 2, -25, 25)
        t = cx.arr([[500.0, y[0], z[0]], [600.0, y[1], z[1]]])
        m, own = {what: t}, (what[10:], [(y[0], z[0])] * 2 + [(y[1], z[1])])
    elif what == 'single':
        y, z = cx.real('y', -5, 5), cx.real('z', -5, 5)
        x = [500.0, 500.0, 500.0]
        m, own = dict(tabulated_nk=cx.arr([[500.0, y, z]])), ('nk', [(y, z)] * 3)
    elif what == 'Cauchy':
        a, b = cx.real('a', -5, 5), cx.real('b', -5, 5)
        tu, x = UM, [0.5, 0.5, 1.0]
        m = dict(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um',
                               valid_range=cx.np.array([0.2, 2.0]), parameters=cx.arr([a, b, 2.0])))
        own = ('nk', [(a + b * 0.25, 0.0)] * 2 + [(a + b, 0.0)])
    elif what == 'Sellmeier':
        a = cx.real('a', -0.9, 5)
        tu, x = UM, [0.5, 0.5, 1.0]
        m = dict(model_kw=dict(name='Sellmeier', spectrum_type='wavelength', unit='um',
                               valid_range=cx.np.array([0.2, 2.0]), parameters=cx.arr([a])))
        r = cx.sqrt(1.0 + a)
        own = ('nk', [(r, 0.0)] * 3)
    elif what == 'Drude':
        wp, g = cx.real('wp', 0, 20), cx.real('g', 0, 5)
        tu, x = EV, [1.0, 1.0, 2.0]
        m = dict(model_kw=dict(name='Drude', spectrum_type='energy', unit='ev',
                               valid_range=cx.np.array([0.2, 5.0]), parameters=cx.arr([wp, g])))
        own = ('eps', [(1.0 - wp * wp / (e * e + g * g), wp * wp * g / e / (e * e + g * g)) for e in x])
    elif what == 'DrudeLorentz':
        f = cx.real('f', 0, 5)
        tu, x = EV, [1.0, 1.0, 2.0]
        m = dict(model_kw=dict(name='DrudeLorentz', spectrum_type='energy', unit='ev',
                               valid_range=cx.np.array([0.2, 5.0]), parameters=cx.arr([2.0, f, 3.0, 1.0])))
        own = ('eps', [(1.0 + f * 4.0 * (9 - e * e) / ((9 - e * e) ** 2 + e * e),
                        f * 4.0 * e / ((9 - e * e) ** 2 + e * e)) for e in x])
    mat = cx.ok('material', D.Material, spectrum_type=tu[0], unit=tu[1], **m)
    return mat, tu, x, own


def square(cx, what, i, arr, how='spectrum'):
    mat, tu, x, (name, vals) = make(cx, what)
    D = cx.D
    pts = [x[1], x[2]] if arr else x[i]
    pts = cx.np.array(pts) if arr else pts
    ids = (1, 2) if arr else (i,)
    if how == 'spectrum':
        nk = cx.ok('nk', mat.get_nk_data, D.Spectrum(pts, *tu))
        ep = cx.ok('eps', mat.get_permittivity, D.Spectrum(pts, *tu))
    else:
        nk = cx.ok('nk', mat.get_nk_data, pts, spectrum_type=tu[0], unit=tu[1])
        ep = cx.ok('eps', mat.get_permittivity, pts, spectrum_type=tu[0], unit=tu[1])
    nk, ep = cx.flat(nk), cx.flat(ep)
    cx.check(len(nk) == len(ids) and len(ep) == len(ids), 'number of values')
    for j, g, e in zip(ids, nk, ep):
        n, k = cx.np.real(g), cx.np.imag(g)
        er, ei = cx.np.real(e), cx.np.imag(e)
        re, im = vals[j]
        if name == 'nk':
            cx.check_close(n, re, 'n as given', scale=1.0)
            cx.check_close(k, im, 'k as given', scale=1.0)
        else:
            cx.check_close(er, re, 'Re eps as given', scale=1.0)
            cx.check_close(ei, im, 'Im eps as given', scale=1.0)
            cx.check(n >= 0.0, 'root with non-negative real part')
            cx.check(cx.implies(ei >= 0.0, k >= 0.0), 'k not negative for Im eps >= 0')
            cx.check(cx.implies(ei < 0.0, k <= 0.0), 'gain stays gain')
        cx.check_close(er, n * n - k * k, 'Re eps = n^2 - k^2', scale=10.0)
        cx.check_close(ei, 2.0 * n * k, 'Im eps = 2 n k', scale=10.0)


WHAT = ['fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps', 'tabulated_n', 'tabulated_nk', 'tabulated_eps', 'single',
        'Cauchy', 'Sellmeier', 'Drude', 'DrudeLorentz']


def after(cx, what, op):
    """the identity survives remove_absorption / extrapolate"""
    D = cx.D
    y, z = cx.reals('y', 2, -5, 5), cx.reals('z', 2, -5, 5)
    m = cx.ok('material', D.Material, spectrum_type='wavelength', unit='nm',
              **{what: cx.arr([[500.0, y[0], z[0]], [600.0, y[1], z[1]]])})
    x = 500.0
    if op == 'remove':
        cx.ok('remove', m.remove_absorption)
    else:
        cx.ok('extrapolate', m.extrapolate, D.Spectrum(900.0, unit='nm'), spline_order=1)
        x = 500.0 if op == 'extrap' else 700.0
    g = cx.flat(cx.ok('nk', m.get_nk_data, D.Spectrum(x, *NM)))[0]
    e = cx.flat(cx.ok('eps', m.get_permittivity, D.Spectrum(x, *NM)))[0]
    n, k = cx.np.real(g), cx.np.imag(g)
    cx.check_close(cx.np.real(e), n * n - k * k, 'Re eps = n^2 - k^2', scale=10.0)
    cx.check_close(cx.np.imag(e), 2.0 * n * k, 'Im eps = 2 n k', scale=10.0)


HARNESSES = [
    H(square, [dict(what=w, i=2, arr=False) for w in WHAT] + [dict(what=w, i=0, arr=True) for w in WHAT]
      + [dict(what=w, i=1, arr=a, how='values') for w in WHAT for a in (False, True)],
      bounds='every way to define a material, arbitrary complex values (|n|,|k| <= 5, |eps| <= 25), '
             'scalar and array of 2'),
    H(after, [dict(what=w, op=o) for w in ('tabulated_nk', 'tabulated_eps') for o in ('remove', 'extrap', 'extrap_out')],
      bounds='after remove_absorption/extrapolate'),
]
