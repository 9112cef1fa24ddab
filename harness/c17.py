import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
FIELDS = ['Reference', 'Comment', 'Name', 'FullName', 'Author']
TEXT = ((32, 126), (0xC0, 0xFF), (0x391, 0x3C9))
COLS = {'n': 1, 'nk': 2, 'eps': 2}


def rows_of(cx, tu, rows, cols, order=None):
    lo, hi = rng_of(tu, 1e-8, 1e-4)
    ts = cx.reals('t', rows, lo, hi)
    for i in range(rows - 1):
        cx.assume(ts[i] < ts[i + 1])
    ys = [cx.reals('y%d_' % j, rows, -100, 100) for j in range(cols)]
    table = [[ts[i]] + [y[i] for y in ys] for i in range(rows)]
    return ts, ys, [table[i] for i in (order or range(rows))]


def evaluate(cx, kind, m, s):
    return cx.flat(m.get_permittivity(s) if kind == 'eps' else m.get_nk_data(s))


def rtrip(cx, m, ext, **kw):
    p = os.path.join(cx.tmp(), 'f.' + ext)
    cx.ok('write', cx.D.Writer(p, m).write_file)
    return cx.ok('read', cx.D.Material, file_path=p, **kw)


def table(cx, kind, tu, rows, ext, order=None, other=NM):
    D = cx.D
    ts, ys, tab = rows_of(cx, tu, rows, COLS[kind], order)
    m = cx.ok('material', D.Material, spectrum_type=tu[0], unit=tu[1], **{'tabulated_' + kind: cx.arr(tab)})
    # what the caller asks for must not matter: the file says it
    m2 = rtrip(cx, m, ext, spectrum_type=other[0], unit=other[1])
    cx.check(m2.data['name'] == m.data['name'], 'same quantity')
    cx.check((m2.defaults['spectrum_type'], m2.defaults['unit']) == tu, 'same type and unit')
    r, r2 = cx.flat(m.get_maximum_valid_range()), cx.flat(m2.get_maximum_valid_range())
    cx.check_close(r2, r, 'same range', rel=1e-8)
    for which in (m2, m):
        g = cx.ok('evaluate at the table points', evaluate, cx, kind, which, D.Spectrum(cx.arr(ts), *tu))
        cx.check(len(g) == rows, 'number of values')
        for i in range(rows):
            cx.check_close(cx.np.real(g[i]), ys[0][i], 'real part of row %d' % i, rel=1e-8)
            cx.check_close(cx.np.imag(g[i]), ys[1][i] if COLS[kind] == 2 else 0.0, 'imaginary part of row %d' % i,
                           rel=1e-8)


def large(cx, kind, ext, rows):
    """long tables keep every row (spectral column concrete)"""
    D = cx.D
    ts = [300.0 + 0.1 * i for i in range(rows)]
    a, b = cx.real('a', -5, 5), cx.real('b', -5, 5)
    spot = [0, rows // 2, rows - 1]
    tab = [[t] + [1.0 + i * 1e-3, 2.0 - i * 1e-3][:COLS[kind]] for i, t in enumerate(ts)]
    for j in spot:
        tab[j][1] = a
        tab[j][-1] = b
    m = D.Material(spectrum_type='wavelength', unit='nm', **{'tabulated_' + kind: cx.arr(tab)})
    m2 = rtrip(cx, m, ext)
    probe = sorted(set(list(range(0, rows, 37)) + spot + [1, rows - 2]))
    s = D.Spectrum(cx.np.array([ts[i] for i in probe]), *NM)
    g = cx.ok('evaluate at the table points', evaluate, cx, kind, m2, s)
    for i, v in zip(probe, g):
        cx.check_close(cx.np.real(v), tab[i][1], 'row kept', rel=1e-8)
        if COLS[kind] == 2:
            cx.check_close(cx.np.imag(v), tab[i][2], 'row kept', rel=1e-8)


def base(cx, kind='nk'):
    t = [[400.0, 1.5, 0.25][:COLS[kind] + 1], [500.0, 1.75, 0.5][:COLS[kind] + 1]]
    return cx.D.Material(spectrum_type='wavelength', unit='nm', **{'tabulated_' + kind: cx.np.array(t)})


def meta(cx, field, n, ext):
    """one arbitrary single-line value (no leading blank), the others fixed"""
    m = base(cx)
    s = cx.string('s', n, alphabet=TEXT)
    cx.assume(cx.not_(cx.streq(s[0], ' ')))
    fixed = {'Reference': 'R. Author, J. Opt. 1:2 (2020)', 'Comment': 'c #1; x', 'Name': 'Nm', 'FullName': 'Full: name',
             'Author': 'A, B'}
    fixed[field] = s
    m.meta_data.update(fixed)
    m2 = rtrip(cx, m, ext)
    for f in FIELDS:
        cx.check(cx.streq(m2.meta_data[f], fixed[f]), 'metadata %s' % f)
        cx.check(cx.streq(m.meta_data[f], fixed[f]), 'the written material keeps its metadata')
    cx.check(m2.meta_data['MetaComment'] == '', 'no comment invented')
    g = cx.flat(m2.get_nk_data(cx.D.Spectrum(cx.np.array([400.0, 500.0]), *NM)))
    cx.check_close(g, [1.5 + 0.25j, 1.75 + 0.5j], 'table')


def empty(cx, ext):
    """any subset of the metadata fields empty"""
    m = base(cx)
    want = {}
    for f in FIELDS:
        want[f] = 'text ' + f if cx.bool('on_' + f) else ''
    m.meta_data.update(want)
    m.meta_data['MetaComment'] = mc = ' some\n comment' if cx.bool('mc') else ''
    m2 = rtrip(cx, m, ext)
    for f in FIELDS:
        cx.check(m2.meta_data[f] == want[f], 'metadata %s' % f)
    cx.check(m2.meta_data['MetaComment'] == mc, 'comment')
    cx.check(m.meta_data['MetaComment'] == mc, 'the written material keeps its comment')


def comment(cx, lens, ext):
    """a comment of arbitrary lines (too short to spell a header key)"""
    m = base(cx)
    lines = [cx.string('s%d' % i, n, alphabet=TEXT) if n else '' for i, n in enumerate(lens)]
    # blank trailing lines are not part of a comment
    mc = '\n'.join(lines)
    m.meta_data['MetaComment'] = mc
    m.meta_data['Name'] = 'x'
    m2 = rtrip(cx, m, ext)
    cx.check(cx.streq(m2.meta_data['MetaComment'], mc), 'comment')
    cx.check(m2.meta_data['Name'] == 'x', 'metadata Name')
    g = cx.flat(m2.get_nk_data(cx.D.Spectrum(cx.np.array([400.0, 500.0]), *NM)))
    cx.check_close(g, [1.5 + 0.25j, 1.75 + 0.5j], 'table')


def twice(cx, kind, ext1, ext2):
    """text -> material -> text"""
    D = cx.D
    ts, ys, tab = rows_of(cx, EV, 2, COLS[kind])
    m = D.Material(spectrum_type='energy', unit='ev', **{'tabulated_' + kind: cx.arr(tab)})
    m.meta_data['Name'] = 'n1'
    m.meta_data['MetaComment'] = ' c'
    m2 = rtrip(cx, rtrip(cx, m, ext1), ext2)
    cx.check(m2.meta_data['Name'] == 'n1' and m2.meta_data['MetaComment'] == ' c', 'metadata')
    cx.check((m2.defaults['spectrum_type'], m2.defaults['unit']) == EV, 'same type and unit')
    g = evaluate(cx, kind, m2, D.Spectrum(cx.arr(ts), *EV))
    for i in range(2):
        cx.check_close(cx.np.real(g[i]), ys[0][i], 'real part', rel=1e-8)
        cx.check_close(cx.np.imag(g[i]), ys[1][i] if COLS[kind] == 2 else 0.0, 'imaginary part', rel=1e-8)


def mixture(cx, ext):
    """effective media can be written too"""
    D = cx.D
    s = D.Spectrum(cx.np.array([4e-7, 5e-7]))
    a, b = cx.real('a', 1, 5), cx.real('b', 0, 5)
    M = cx.mod('dispersion.material')
    m = M.Simple(s, D.Material(fixed_eps=a + 1j * b), D.Material(fixed_eps=2.0 + 1j), 0.25)
    m2 = rtrip(cx, m, ext)
    cx.check(m2.data['name'] == 'eps', 'same quantity')
    g = evaluate(cx, 'eps', m2, s)
    cx.check_close(g, [0.75 * (a + 1j * b) + 0.25 * (2.0 + 1j)] * 2, 'values', rel=1e-8)


EXT = ['txt', 'csv', 'nk']
HARNESSES = [
    H(table, [dict(kind=k, tu=tu, rows=2, ext=e) for k in COLS for tu in TU for e in EXT]
      + [dict(kind=k, tu=EV, rows=3, ext=e, order=(1, 2, 0)) for k in COLS for e in EXT]
      + [dict(kind=k, tu=tu, rows=1, ext=e) for k in COLS for e, tu in zip(EXT, (NM, EV, HZ))],
      thorough=[dict(kind=k, tu=tu, rows=r, ext=e) for k in COLS for tu in TU for r in (1, 2, 3, 4) for e in EXT]
      + [dict(kind=k, tu=tu, rows=3, ext=e, order=o) for k in COLS for e in EXT for tu in TU
         for o in ((1, 2, 0), (2, 1, 0), (0, 2, 1))],
      bounds='1-3 (4) rows of arbitrary numbers in every type/unit, three text formats'),
    H(large, [dict(kind=k, ext=e, rows=400) for k, e in zip(COLS, EXT)] + [dict(kind='nk', ext='txt', rows=1200)],
      thorough=[dict(kind=k, ext=e, rows=r) for k in COLS for e in EXT for r in (400, 1200)],
      bounds='400 and 1200 rows, 3 of them with arbitrary numbers'),
    H(meta, [dict(field=f, n=n, ext=e) for f in FIELDS for n, e in ((3, 'txt'), (2, 'csv'), (2, 'nk'))],
      thorough=[dict(field=f, n=n, ext=e) for f in FIELDS for n in (1, 2, 4, 5) for e in EXT],
      bounds='one field with up to 3 (5) arbitrary characters (ASCII, Latin-1 letters, Greek)'),
    H(empty, [dict(ext=e) for e in EXT], bounds='all subsets of the fields'),
    H(comment, [dict(lens=l, ext=e) for l in ((3,), (2, 2)) for e in EXT],
      thorough=[dict(lens=l, ext=e) for l in ((4,), (2, 2), (1, 0, 2), (2, 1, 1)) for e in EXT],
      bounds='comments of up to 2 (3) lines of arbitrary characters'),
    H(twice, [dict(kind=k, ext1=a, ext2=b) for k in COLS for a in EXT for b in EXT],
      bounds='two writes in a row, all format pairs'),
    H(mixture, [dict(ext=e) for e in EXT], bounds='an effective medium with arbitrary permittivity'),
]
