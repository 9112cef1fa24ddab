from engine.runner import H
from harness.common import *
from harness.common2 import *

CB = 10.0


def nonzero(cx, den, eps=1e-4):
    cx.assume(cx.either(den >= eps, den <= -eps))


def spec(cx, name, c, w):
    """(value, squared): formulas 1-9 of refractiveindex.info, c[0] is C1"""
    n = len(c)
    w2 = w * w
    if name in ('Sellmeier', 'Sellmeier2'):
        r = 1.0 + c[0]
        for i in range(1, n - 1, 2):
            den = w2 - (c[i + 1] * c[i + 1] if name == 'Sellmeier' else c[i + 1])
            nonzero(cx, den)
            r = r + c[i] * w2 / den
        return r, True
    if name in ('Polynomial', 'Cauchy'):
        r = c[0]
        for i in range(1, n - 1, 2):
            r = r + c[i] * w ** c[i + 1]
        return r, name == 'Polynomial'
    if name == 'RefractiveIndexInfo':
        r = c[0]
        for i in (1, 5):
            if n > i:
                den = w2 - c[i + 2] ** c[i + 3]
                nonzero(cx, den)
                r = r + c[i] * w ** c[i + 1] / den
        for i in range(9, n - 1, 2):
            r = r + c[i] * w ** c[i + 1]
        return r, True
    if name == 'Gases':
        r = 1.0 + c[0]
        for i in range(1, n - 1, 2):
            den = c[i + 1] - 1.0 / w2
            nonzero(cx, den)
            r = r + c[i] / den
        return r, False
    if name == 'Herzberger':
        d = w2 - 0.028
        nonzero(cx, d)
        return c[0] + c[1] / d + c[2] / (d * d) + c[3] * w2 + c[4] * w2 * w2 + c[5] * w2 * w2 * w2, False
    if name == 'Retro':
        nonzero(cx, w2 - c[2])
        r = c[0] + c[1] * w2 / (w2 - c[2]) + c[3] * w2
        nonzero(cx, 1.0 - r)
        return (1.0 + 2.0 * r) / (1.0 - r), True
    if name == 'Exotic':
        nonzero(cx, w2 - c[2])
        d = (w - c[4]) * (w - c[4]) + c[5]
        nonzero(cx, d)
        return c[0] + c[1] / (w2 - c[2]) + c[3] * (w - c[4]) / d, True
    raise KeyError(name)


def is_exp(name, i):
    if name in ('Polynomial', 'Cauchy'):
        return i > 0 and i % 2 == 0
    if name == 'RefractiveIndexInfo':
        return i in (2, 4, 6, 8) or (i >= 10 and i % 2 == 0)
    return False


def coefs(cx, name, n, exps):
    c = []
    k = 0
    for i in range(n):
        if is_exp(name, i) and exps is not None:
            c.append(float(exps[k % len(exps)]))
            k += 1
        elif name == 'RefractiveIndexInfo' and i in (3, 7):
            c.append(cx.real('c%d' % i, -CB if exps is not None else 0.01, CB))     # base of a real power
            if exps is not None:
                nonzero(cx, c[-1], 0.01)
        else:
            c.append(cx.real('c%d' % i, -CB, CB))
    return c


def formula(cx, name, n, q, shape, exps=None, via='class'):
    D = cx.D
    c = coefs(cx, name, n, exps)
    lo, hi = (0.1, 20.0)
    whole = shape in ('int', 'intlist')         # integer wavelengths and coefficients
    np_ = 1 if whole else max(shape, 1)
    if whole:
        xs = [cx.int('w%d' % i, 1, 20) for i in range(np_)]
        if shape == 'int':
            c = [int(v) if is_exp(name, i) else cx.int('k%d' % i, 1 if name == 'RefractiveIndexInfo' and i in (3, 7) else -10, 10)
                 for i, v in enumerate(c)]
    elif q == UM:
        xs = cx.reals('w', np_, lo, hi)
    else:
        xs = cx.reals('w', np_, *rng_of(q, lo * 1e-6 * 1.01, hi * 1e-6 * 0.99))
    s = D.Spectrum(xs if shape == 'intlist' else cx.arr(xs) if shape else xs[0], *q)
    ws = cx.flat(s.convert_to('wavelength', 'um'))      # conversion itself: C01
    want = []
    for w in ws:
        r, sq = spec(cx, name, [v * 1.0 for v in c], w * 1.0)
        if sq:
            cx.assume(r >= 1e-3)
        want.append((r, sq))
    p = cx.arr(c)
    if via == 'class':
        m = cx.ok('construct', cls(cx, name), p, (lo, hi), 'wavelength', 'um')
        got = cx.ok('evaluate', m.evaluate, s)
    else:
        kw = dict(name=name, spectrum_type='wavelength', unit='um', valid_range=cx.np.array([lo, hi]), parameters=p)
        mat = cx.ok('construct', D.Material, model_kw=kw, spectrum_type='wavelength', unit='um')
        v = cx.ok('evaluate', mat.get_nk_data, s)
        got = cx.np.real(v)
        cx.check_close(cx.np.imag(v), [0.0] * len(ws), 'no absorption')
    got = cx.flat(got)
    cx.check(len(got) == len(ws), 'number of values')
    for g, (r, sq) in zip(got, want):
        if sq:
            cx.check(g >= 0.0, 'non-negative root')
            cx.check_close(g * g, r, 'n squared')
        else:
            cx.check_close(g, r, 'n', scale=1.0)


def cases(thorough):
    out = []
    P = [(2.0, -2.0, 4.0, -4.0, 1.0, -1.0, 3.0, 6.0)]
    R4 = [(0.0, 2.0, 2.0, 2.0, 2.0, -2.0, 4.0, -4.0), (2.0, 1.0, 0.0, 1.0, -2.0, 4.0, 1.0, 3.0)]
    for name in N_MODELS:
        counts = {'Sellmeier': (1, 3, 5, 7, 17), 'Sellmeier2': (1, 3, 5, 7, 17), 'Polynomial': (1, 3, 9, 17),
                  'Cauchy': (1, 3, 7, 11, 17), 'Gases': (1, 3, 7, 11, 17), 'RefractiveIndexInfo': (1, 5, 9, 13, 17),
                  'Herzberger': (6,), 'Retro': (4,), 'Exotic': (6,)}[name]
        if thorough:
            counts = {'Sellmeier': range(1, 18, 2), 'Sellmeier2': range(1, 18, 2), 'Polynomial': range(1, 18, 2),
                      'Cauchy': range(1, 18, 2), 'Gases': range(1, 18, 2),
                      'RefractiveIndexInfo': (1, 5, 9, 11, 13, 15, 17)}.get(name, counts)
        for n in counts:
            for ex in {'Polynomial': P, 'Cauchy': P, 'RefractiveIndexInfo': R4}.get(name, [None]):
                out.append(dict(name=name, n=n, q=UM, shape=0, exps=ex))
                out.append(dict(name=name, n=n, q=UM, shape=2 if n < 12 and name != 'Retro' else 1, exps=ex))
            if name in ('Polynomial', 'Cauchy', 'RefractiveIndexInfo') and n > 1:
                out.append(dict(name=name, n=n, q=UM, shape=0, exps=None))
                out.append(dict(name=name, n=n, q=UM, shape=1, exps=None))
        n = {'Herzberger': 6, 'Retro': 4, 'Exotic': 6, 'RefractiveIndexInfo': 9}.get(name, 3)
        ex = {'Polynomial': P[0], 'Cauchy': P[0], 'RefractiveIndexInfo': R4[0]}.get(name)
        for q in [tu for tu in TU if tu != UM] if thorough else (('wavelength', 'nm'), ('frequency', 'hz'), EV):
            out.append(dict(name=name, n=n, q=q, shape=1, exps=ex))
            out.append(dict(name=name, n=n, q=q, shape=0, exps=ex))
        out.append(dict(name=name, n=n, q=UM, shape=1, exps=ex, via='material'))
        out.append(dict(name=name, n=n, q=UM, shape=0, exps=ex, via='material'))
        out += [dict(name=name, n=n, q=UM, shape=sh, exps=ex) for sh in ('int', 'intlist')]
        if name == 'RefractiveIndexInfo':
            out.append(dict(name=name, n=n, q=UM, shape='int', exps=(0.0, -2.0, -1.0, -1.0)))
    return out


ASSUMPTIONS = ['coefficients in [-10, 10], wavelengths 0.1..20 um, denominators at least 1e-3 away from zero, '
               'n^2 >= 1e-3; non-integer powers are an uninterpreted function (same base and exponent, same value)']
HARNESSES = [H(formula, cases(False), thorough=cases(True),
               bounds='1..17 coefficients, real exponents uninterpreted plus concrete exponents -4..6, '
                      'scalar and array of 1-2, integer arrays and lists')]
