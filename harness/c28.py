import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

NM = ('wavelength', 'nm')
FIELDS = ['Reference', 'Comment', 'Name', 'FullName', 'Author', 'Alias', 'MetaComment']


def material(cx, kind, tag):
    """(material, quantity); numbers are arbitrary and do not matter for equality"""
    D, np = cx.D, cx.np
    kw = dict(spectrum_type='wavelength', unit='nm')
    if kind == 'nk':
        y = cx.reals('y' + tag, 4, 0.5, 5)
        return D.Material(tabulated_nk=cx.arr([[400.0, y[0], y[1]], [500.0, y[2], y[3]]]), **kw), 'nk'
    if kind == 'n':
        y = cx.reals('y' + tag, 2, 0.5, 5)
        return D.Material(tabulated_n=cx.arr([[400.0, y[0]], [500.0, y[1]]]), **kw), 'nk'
    if kind == 'fixed':
        return D.Material(fixed_n=cx.pyfloat('y' + tag, 0.5, 5), **kw), 'nk'
    if kind == 'fixed_eps':
        return D.Material(fixed_eps_r=cx.pyfloat('y' + tag, 0.5, 5), **kw), 'eps'
    if kind == 'eps':
        y = cx.reals('y' + tag, 4, 0.5, 5)
        return D.Material(tabulated_eps=cx.arr([[400.0, y[0], y[1]], [500.0, y[2], y[3]]]), **kw), 'eps'
    if kind == 'Cauchy':
        return D.Material(model_kw=dict(name='Cauchy', spectrum_type='wavelength', unit='um', valid_range=np.array([0.2, 2.0]),
                                        parameters=cx.arr([cx.real('y' + tag, 0.5, 5), 0.1, 2.0]))), 'nk'
    if kind == 'Drude':
        return D.Material(model_kw=dict(name='Drude', spectrum_type='energy', unit='ev', valid_range=np.array([0.2, 5.0]),
                                        parameters=cx.arr([cx.real('y' + tag, 0.5, 5), 0.1])),
                          spectrum_type='energy', unit='ev'), 'eps'
    if kind in ('txt', 'csv', 'yml', 'yml_eps'):
        ext = kind.split('_')[0]
        p = os.path.join(cx.tmp(), 'f%s.%s' % (tag, ext))
        y = cx.reals('y' + tag, 2, 0.5, 5)
        sep = ',' if ext == 'csv' else ' '
        rows = [str(a) + sep + str(b) for a, b in ((400.0, y[0]), (500.0, y[1]))]
        if ext == 'yml':
            text = 'DATA:\n  - type: tabulated %s\n    data: |\n' % ('eps_r' if kind == 'yml_eps' else 'n')
            text += ''.join('        %s\n' % r for r in rows)
        else:
            text = '\n'.join(rows) + '\n'
        with open(p, 'w') as f:
            f.write(text)
        return D.Material(file_path=p, **kw), 'eps' if kind == 'yml_eps' else 'nk'
    if kind in ('Simple', 'MaxwellGarnett', 'Bruggeman'):
        a, b = D.Material(fixed_n=1.5, **kw), D.Material(fixed_n=2.5, **kw)
        return getattr(cx.mod('dispersion.material'), kind)(D.Spectrum(np.array([400.0, 500.0]), *NM), a, b, cx.pyfloat('y' + tag, 0, 1)), 'eps'
    raise KeyError(kind)


def iff(cx, a, b):
    return cx.both(cx.implies(a, b), cx.implies(b, a))


def strings(cx, name, n):
    k = cx.choice('len_' + name, list(range(n + 1)))
    return cx.string(name, k) if k else ''


def equal(cx, a, b, fields, n, spec=False):
    m1, q1 = cx.ok('first material', material, cx, a, '1')
    m2, q2 = cx.ok('second material', material, cx, b, '2')
    want = q1 == q2
    for f in fields:
        s1, s2 = strings(cx, 's1' + f, n), strings(cx, 's2' + f, n)
        m1.meta_data[f], m2.meta_data[f] = s1, s2
        want = cx.both(want, len(s1) == len(s2) and cx.streq(s1, s2))
    if spec:
        t1, t2 = cx.bool('spec1'), cx.bool('spec2')
        v1, v2 = cx.string('v1', 1), cx.string('v2', 1)
        if t1:
            m1.meta_data['Specification'] = {'substrate': v1}
        if t2:
            m2.meta_data['Specification'] = {'substrate': v2}
        if t1 and t2:
            want = cx.both(want, cx.streq(v1, v2))
        elif t1 or t2:
            want = False
    r = cx.ok('first == second', lambda: m1 == m2)
    s = cx.ok('second == first', lambda: m2 == m1)
    u = cx.ok('first != second', lambda: m1 != m2)
    for x in (r, s, u):
        cx.check(isinstance(x, bool) or x is True or x is False, 'a truth value')
    cx.check(iff(cx, r, want), 'equal exactly for equal metadata and quantity')
    cx.check(iff(cx, s, want), 'equal exactly for equal metadata and quantity, other way round')
    cx.check(bool(r) != bool(u), '!= is the opposite of ==')


def own_key(cx, a, b, n):
    """metadata with a key of the user's own on one or both sides"""
    m1, q1 = material(cx, a, '1')
    m2, q2 = material(cx, b, '2')
    h1, h2 = cx.bool('has1'), cx.bool('has2')
    v1, v2 = cx.string('v1', n), cx.string('v2', n)
    if h1:
        m1.meta_data['Doping'] = v1
    if h2:
        m2.meta_data['Doping'] = v2
    r = cx.ok('first == second', lambda: m1 == m2)
    s = cx.ok('second == first', lambda: m2 == m1)
    want = q1 == q2
    if h1 and h2:
        want = cx.both(want, cx.streq(v1, v2))
    elif h1 or h2:
        want = False
    cx.check(iff(cx, r, want), 'own keys count')
    cx.check(iff(cx, s, want), 'own keys count, other way round')


def other(cx, a):
    m, q = material(cx, a, '1')
    for x in (None, 1, 1.5, 'nk', [], {}, m.meta_data, m.data):
        cx.check(cx.ok('== other object', lambda: m == x) is False, 'unequal to objects of other types')
        cx.check(cx.ok('other object ==', lambda: x == m) is False, 'unequal to objects of other types')
        cx.check(cx.ok('!= other object', lambda: m != x) is True, 'unequal to objects of other types')
    cx.check(cx.ok('itself', lambda: m == m) is True, 'equal to itself')


KINDS = ['nk', 'n', 'fixed', 'fixed_eps', 'eps', 'Cauchy', 'Drude', 'txt', 'csv', 'yml', 'yml_eps']
HARNESSES = [
    H(equal, [dict(a=a, b=b, fields=('Name',), n=1) for a in KINDS for b in KINDS]
      + [dict(a=a, b=b, fields=(f,), n=2) for a, b in (('nk', 'nk'), ('txt', 'n'), ('yml', 'csv')) for f in FIELDS]
      + [dict(a=a, b=b, fields=('Name',), n=1) for a, b in (('Simple', 'eps'), ('eps', 'MaxwellGarnett'), ('Simple', 'Drude'), ('Simple', 'nk'),
                                                           ('fixed_eps', 'Simple'), ('Simple', 'MaxwellGarnett'), ('txt', 'Simple'))]
      + [dict(a='nk', b='yml', fields=('Author', 'Comment'), n=1, spec=True)],
      thorough=[dict(a=a, b=b, fields=(f,), n=3) for a in KINDS for b in KINDS for f in FIELDS]
      + [dict(a=a, b=b, fields=f, n=2, spec=True) for a, b in (('nk', 'yml'), ('yml', 'Cauchy'), ('eps', 'Drude'))
         for f in (('Author', 'Comment'), ('Name', 'FullName'), ('Reference', 'Alias'))],
      bounds='strings of up to 2 (3) arbitrary characters, all pairs of 11 kinds of material'),
    H(own_key, [dict(a=a, b=b, n=1) for a in ('nk', 'txt', 'yml') for b in ('nk', 'txt', 'Drude')], bounds='values of one character'),
    H(other, [dict(a=a) for a in KINDS], bounds='objects of other types'),
]
