import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

NM = ('wavelength', 'nm')


def write(cx, ext, rows, sep, blank, lead=''):
    p = os.path.join(cx.tmp(), 'f.' + ext)
    lines = [sep.join(str(v) for v in r) for r in rows]
    if blank is not None:
        at, text = blank
        lines.insert(at, text)
    with open(p, 'w', encoding='utf8') as f:
        if ext == 'yml':
            kind = 'nk' if len(rows[0]) == 3 else 'n'
            f.write('DATA:\n  - type: tabulated %s\n    SpectrumType: wavelength\n    Unit: nm\n    data: |\n' % kind)
            for l in lines:
                f.write('        ' + l + '\n')
        else:
            f.write('# SPECTRUMTYPE: wavelength\n# UNIT: nm\n')
            for l in lines:
                f.write(l + '\n')
    return p


def rows(cx, ext, n, cols, sep=' ', blank=None, increasing=False):
    """rows in any order and with repeated spectral values"""
    D = cx.D
    ts = cx.reals('t', n, 100, 1000)
    ys = [cx.reals('y%d_' % j, n, -5, 5) for j in range(cols - 1)]
    if increasing:
        for i in range(n - 1):
            cx.assume(ts[i] < ts[i + 1])
    p = write(cx, ext, [[ts[i]] + [y[i] for y in ys] for i in range(n)], sep, blank)
    m = cx.ok('read', D.Material, file_path=p)
    cx.check(m.data['name'] == 'nk', 'quantity')
    used = n
    if blank is not None and ext == 'yml':
        used = blank[0]
    first = []          # first row of every distinct spectral value
    for i in range(used):
        if not any(bool(ts[j] == ts[i]) for j in first):
            first.append(i)
    L = U = ts[first[0]]
    for i in first[1:]:
        L = ts[i] if bool(ts[i] < L) else L
        U = ts[i] if bool(ts[i] > U) else U
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check_close(r, [L, U], 'range of the table', rel=1e-12)
    for i in first:
        g = cx.flat(cx.ok('evaluate', m.get_nk_data, D.Spectrum(ts[i], *NM)))[0]
        cx.check_close(cx.np.real(g), ys[0][i], 'first row of each spectral value counts', rel=1e-9, scale=1e-3)
        if cols == 3:
            cx.check_close(cx.np.imag(g), ys[1][i], 'first row of each spectral value counts', rel=1e-9, scale=1e-3)
    if n - used:
        return
    # nothing but the table: straight lines between neighbours
    if len(first) == 2 and cols == 2:
        x = cx.real('x', 100, 1000)
        i, j = first if bool(ts[first[0]] < ts[first[1]]) else first[::-1]
        cx.assume(cx.both(x > ts[i], x < ts[j]))
        g = cx.flat(m.get_nk_data(D.Spectrum(x, *NM)))[0]
        a, b = ys[0][i], ys[0][j]
        lo, hi = (a, b) if bool(a <= b) else (b, a)
        cx.check(cx.both(cx.np.real(g) >= lo - 1e-9, cx.np.real(g) <= hi + 1e-9), 'between the two rows')


def long(cx, ext, n, cols, key, sep=' '):
    """many rows in no order, every spectral value three times"""
    D = cx.D
    ts = [100.0 + 10.0 * ((i * key) % (n // 3)) for i in range(n)]
    ys = [[cx.real('y%d_%d' % (j, i), -5, 5) if i % 5 == 2 else 0.01 * i + j for i in range(n)] for j in range(cols - 1)]
    m = cx.ok('read', D.Material, file_path=write(cx, ext, [[ts[i]] + [y[i] for y in ys] for i in range(n)], sep, None))
    r = cx.flat(cx.ok('range', m.get_maximum_valid_range))
    cx.check_close(r, [min(ts), max(ts)], 'range of the table', rel=1e-12)
    first = {}
    for i in range(n):
        first.setdefault(ts[i], i)
    xs = sorted(first)
    g = cx.flat(cx.ok('evaluate', m.get_nk_data, D.Spectrum(cx.np.array(xs), *NM)))
    for v, x in zip(g, xs):
        cx.check_close(cx.np.real(v), ys[0][first[x]], 'first row of each spectral value counts', rel=1e-9, scale=1e-3)
        if cols == 3:
            cx.check_close(cx.np.imag(v), ys[1][first[x]], 'first row of each spectral value counts', rel=1e-9, scale=1e-3)


def digits(cx, ext, spell):
    """every usual spelling of a number means that number (read by numpy / float)"""
    D = cx.D
    p = os.path.join(cx.tmp(), 'f.' + ext)
    y = cx.real('y', -5, 5)
    with open(p, 'w', encoding='utf8') as f:
        sep = ',' if ext == 'csv' else ' '
        lines = [spell[0] + sep + str(y), spell[1] + sep + '2.5']
        if ext == 'yml':
            f.write('DATA:\n  - type: tabulated n\n    SpectrumType: wavelength\n    Unit: nm\n    data: |\n')
            lines = ['        ' + l for l in lines]
        else:
            f.write('# UNIT: nm\n')
        f.write('\n'.join(lines) + '\n')
    m = cx.ok('read', D.Material, file_path=p)
    g = cx.flat(m.get_nk_data(D.Spectrum(cx.np.array([float(s) for s in spell]), *NM)))
    cx.check_close(g, [y, 2.5], 'values')


EXT = [('txt', ' '), ('txt', '\t'), ('txt', '   '), ('csv', ','), ('yml', ' '), ('yml', '   '), ('yml', '\t'), ('yml', ' \t ')]
BLANKS = ['', '   ']
HARNESSES = [
    H(rows, [dict(ext=e, n=n, cols=c, sep=s) for e, s in EXT for n in (1, 2, 3) for c in (2, 3)]
      + [dict(ext=e, n=4, cols=2, sep=s) for e, s in (('txt', ' '), ('csv', ','), ('yml', ' '))],
      thorough=[dict(ext=e, n=n, cols=c, sep=s) for e, s in EXT for n in (1, 2, 3, 4) for c in (2, 3)]
      + [dict(ext=e, n=5, cols=2, sep=s) for e, s in (('txt', ' '), ('yml', ' '))],
      opts={'max_paths': 20000},
      bounds='up to 4 (5) rows in every order, with every pattern of repeated spectral values'),
    H(rows, [dict(ext=e, n=4, cols=c, sep=s, blank=(at, b), increasing=True) for e, s in EXT[:1] + EXT[3:5]
             for c in (2, 3) for at in (1, 2, 3, 4) for b in BLANKS if not (e == 'csv' and b)],
      name='blank', bounds='a blank line after any row'),
    H(long, [dict(ext=e, n=n, cols=c, key=k, sep=s) for e, s in (('txt', ' '), ('csv', ','), ('yml', ' '))
             for n, c, k in ((24, 2, 5), (60, 3, 7), (120, 2, 11))],
      bounds='24, 60 and 120 rows at fixed unordered, repeated points, a fifth of the values arbitrary'),
    H(digits, [dict(ext=e, spell=s) for e in ('txt', 'csv', 'yml') for s in (('400', '500'), ('4e2', '5.0E+02'),
                                                                            ('400.', '+500'), ('.5', '1e3'),
        ('4.000000000000000000e+02', '5.0000000000000000000000e+02'), ('0000000000000000000400.25', '500.000000000000000000000'))],
      bounds='usual number spellings'),
]
