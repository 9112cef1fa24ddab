import os
from engine.runner import H
from harness.common import *
from harness.common2 import *
from harness.cat import *

NM, HZ = ('wavelength', 'nm'), ('frequency', 'hz')
COLS = ['Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference', 'SpectrumType', 'Unit', 'SpectrumLowerBound',
        'SpectrumUpperBound', 'N_Reference', 'K_Reference', 'Path', 'Module']


def rows_of(cx, cat):
    df = cat.get_database()
    cx.check(set(df.columns) == set(COLS), 'columns')
    out = []
    for i in range(df.shape[0]):
        out.append({c: df[c].iloc[i] for c in df.columns})
    return out


def nan(x):
    try:
        return bool(x != x)
    except Exception:
        return False


def write_mat(cx, path, kind, tu, i, meta):
    """-> (lower, upper, tu, n(x), k(x)) of a data file with symbolic content"""
    lo, hi = rng_of(tu, 3e-7, 9e-7)
    a, b = cx.real('a%d' % i, lo, hi), cx.real('b%d' % i, lo, hi)
    cx.assume(a * 1.000001 < b)
    n, k = cx.real('n%d' % i, 0.1, 5), cx.real('k%d' % i, 0, 5)
    head = ''.join('# %s: %s\n' % (q.upper(), v) for q, v in meta.items())
    head += '# SPECTRUMTYPE: %s\n# UNIT: %s\n' % tu
    if kind == 'nk':
        text_file(path, [[a, n, k], [b, n, k]], head)
    elif kind == 'n':
        text_file(path, [[a, n], [b, n]], head)
        k = 0.0
    elif kind == 'csv':
        text_file(path, [[a, n, k], [b, n, k]], head, sep=',')
    elif kind == 'yml':
        with open(path, 'w', encoding='utf8') as f:
            for q, v in meta.items():
                f.write('%s: %s\n' % (q.upper(), v))
            f.write('DATA:\n  - type: tabulated nk\n    SpectrumType: %s\n    Unit: %s\n    data: |\n' % tu)
            f.write('        %s %s %s\n        %s %s %s\n' % tuple(str(v) for v in (a, n, k, b, n, k)))
    elif kind == 'eps':
        head += '# DATATYPE: tabulated eps\n'
        text_file(path, [[a, n * n - k * k, 2 * n * k], [b, n * n - k * k, 2 * n * k]], head)
    elif kind == 'parts':          # n and k on different ranges: the overlap is valid
        c, d = cx.real('c%d' % i, lo * 0.9, hi), cx.real('d%d' % i, lo, hi * 1.1)
        cx.assume(c * 1.000001 < d)
        cx.assume(a * 1.000001 < d)
        cx.assume(c * 1.000001 < b)
        with open(path, 'w', encoding='utf8') as f:
            for q, v in meta.items():
                f.write('%s: %s\n' % (q.upper(), v))
            f.write('DATA:\n')
            for w, p, q, v in (('n', a, b, n), ('k', c, d, k)):
                f.write('  - type: tabulated %s\n    SpectrumType: %s\n    Unit: %s\n    data: |\n' % ((w,) + tu))
                f.write('        %s %s\n        %s %s\n' % tuple(str(u) for u in (p, v, q, v)))
        a, b = (a if bool(a >= c) else c), (b if bool(b <= d) else d)
    elif kind == 'formula':
        with open(path, 'w', encoding='utf8') as f:
            for q, v in meta.items():
                f.write('%s: %s\n' % (q.upper(), v))
            f.write('DATA:\n  - type: formula 5\n    SpectrumType: wavelength\n    Unit: um\n    wavelength_range: %s %s\n'
                    '    coefficients: %s 0.0 2\n' % (str(a), str(b), str(n)))
        k = 0.0
    return a, b, tu, n, k


def check_row(cx, r, ref, rtu, a, b, tu, n, k, label=''):
    cx.check((r['SpectrumType'], r['Unit']) == tu, 'stated type and unit' + label)
    cx.check_close([r['SpectrumLowerBound'], r['SpectrumUpperBound']], [a, b], 'valid range' + label, rel=1e-9)
    x = phys(ref, rtu, tu)
    w = 0.0 if rtu == tu else 2 * band(x, rtu, tu)          # in its own unit the comparison is exact
    if nan(r['N_Reference']):
        cx.check(nan(r['K_Reference']), 'both or none' + label)
        cx.check(cx.either(x < a + w, x > b - w), 'NaN only outside the range' + label)
    else:
        cx.check(cx.both(x >= a - w, x <= b + w), 'a value only inside the range' + label)
        cx.check_close(r['N_Reference'], n, 'n at the reference point' + label, scale=1e-3)
        cx.check_close(r['K_Reference'], k, 'k at the reference point' + label, scale=1e-3)


META = {'Reference': 'Ref: x', 'Comment': 'Com, "q"', 'FullName': 'Full', 'Author': 'Auth'}
EXTS = {'eps': 'txt', 'parts': 'yml', 'nk': 'txt', 'n': 'txt', 'csv': 'csv', 'yml': 'yml', 'formula': 'yml'}


def user(cx, files, rtu, module='UserData'):
    """one row per readable data file"""
    base = cx.tmp()
    d = os.path.join(base, module)
    os.mkdir(d)
    want = {}
    for i, (kind, tu) in enumerate(files):
        fn = 'file %d.v1.%s' % (i, EXTS[kind])
        meta = {k: v + str(i) for k, v in META.items()} if i != 1 else {}
        if kind in ('formula', 'yml', 'parts'):
            meta = {k: v.replace(': ', ' ').replace('"', '') for k, v in meta.items()}
        want[fn] = (write_mat(cx, os.path.join(d, fn), kind, tu, i, meta), meta)
    with open(os.path.join(d, 'readme.md'), 'w') as f:
        f.write('not data')
    with open(os.path.join(d, 'x.dat'), 'w') as f:
        f.write('1 2 3')
    os.mkdir(os.path.join(d, 'sub.txt'))
    ref = cx.pyfloat('ref', *rng_of(rtu, 2e-7, 1.2e-6))
    conf = config(base, {module: True}, (ref,) + rtu)
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    rows = rows_of(cx, cat)
    cx.check(sorted(r['Path'] for r in rows) == sorted(want), 'every data file exactly once')
    for r in rows:
        if r['Path'] not in want:
            continue
        (a, b, tu, n, k), meta = want[r['Path']]
        cx.check(r['Name'] == os.path.splitext(r['Path'])[0], 'name')
        cx.check(r['Module'] == module, 'module')
        cx.check(r['Alias'] == '', 'no alias yet')
        for q in META:
            cx.check(r[q] == meta.get(q, ''), 'metadata %s' % q)
        check_row(cx, r, ref, rtu, a, b, tu, n, k)


def rii_tree(base, pages, index='catalog-nk.yml', data='data-nk', missing=()):
    """pages: [(shelf, book, fullname, page, relpath)]"""
    db = os.path.join(base, 'RefractiveIndexInfo', 'database')
    os.makedirs(os.path.join(db, data))
    lines = []
    shelf = book = None
    for s, b, full, p, rel in pages:
        if s != shelf:
            lines += ['- SHELF: %s' % s, '  name: "shelf %s"' % s, '  content:', '    - DIVIDER: "div"']
            shelf, book = s, None
        if b != book:
            lines += ['    - BOOK: %s' % b, '      name: "%s"' % full, '      content:', '        - DIVIDER: "d2"']
            book = b
        lines += ['        - PAGE: %s' % p, '          name: "page %s"' % p, '          data: "%s"' % rel]
    with open(os.path.join(db, index), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    out = {}
    for s, b, full, p, rel in pages:
        if p in missing:
            continue
        path = os.path.join(db, data, *rel.split('/'))
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        out[p] = path
    return out


def rii(cx, index, data, missing, rtu):
    base = cx.tmp()
    pages = [('main', 'Ag', 'Silver', 'P0', 'main/Ag/P0.yml'), ('main', 'Ag', 'Silver', 'P1', 'main/Ag/P1.yml'),
             ('main', 'SiO2', 'Silica', 'P2', 'main/SiO2/P2.yml'), ('glass', 'BK7', 'Glass', 'P3', 'glass/BK7/P3.yml')]
    paths = rii_tree(base, pages, index, data, missing)
    want = {}
    for i, (s, b, full, p, rel) in enumerate(pages):
        if p in missing:
            continue
        path = paths[p]
        kind = ('yml', 'formula', 'yml', 'formula')[i]
        if i in (0, 3):        # without stated unit: micrometres
            a, b2 = cx.real('a%d' % i, 0.3, 0.9), cx.real('b%d' % i, 0.3, 0.9)
            cx.assume(a * 1.000001 < b2)
            n, k = cx.real('n%d' % i, 0.1, 5), cx.real('k%d' % i, 0, 5)
            with open(path, 'w') as f:
                f.write('REFERENCES: ref%d\nCOMMENTS: com%d\n' % (i, i))
                if i == 0:
                    f.write('DATA:\n  - type: tabulated nk\n    data: |\n        %s %s %s\n        %s %s %s\n' % tuple(
                        str(v) for v in (a, n, k, b2, n, k)))
                else:
                    f.write('DATA:\n  - type: formula 5\n    wavelength_range: %s %s\n    coefficients: %s 0.0 2\n' % (
                        str(a), str(b2), str(n)))
                    k = 0.0
            want[p] = (a, b2, ('wavelength', 'micrometer'), n, k)
        else:
            want[p] = write_mat(cx, path, kind, UM if kind == 'formula' else EV, i,
                                {'Reference': 'ref%d' % i, 'Comment': 'com%d' % i})
            want[p] = want[p][:2] + (want[p][2],) + want[p][3:]
    ref = cx.pyfloat('ref', *rng_of(rtu, 2e-7, 1.2e-6))
    cat = cx.ok('rebuild', cx.D.Catalogue, config=config(base, {'RefractiveIndexInfo': True}, (ref,) + rtu), rebuild='All')
    rows = rows_of(cx, cat)
    cx.check(sorted(r['Author'] for r in rows) == sorted(want), 'every readable page exactly once')
    for r in rows:
        i = [q[3] for q in pages].index(r['Author'])
        s, b, full, p, rel = pages[i]
        cx.check((r['Name'], r['FullName']) == (b, full), 'names')
        cx.check(r['Path'].replace('\\', '/') == 'database/%s/%s' % (data, rel), 'path')
        cx.check(r['Module'] == 'RefractiveIndexInfo' and r['Alias'] == '', 'module and alias')
        cx.check((r['Reference'], r['Comment']) == ('ref%d' % i, 'com%d' % i), 'metadata')
        a, b2, tu, n, k = want[p]
        stated = (r['SpectrumType'], r['Unit'])
        cx.check(stated == tu, 'stated type and unit')
        own = UM if tu[1] == 'micrometer' else tu
        rr = dict(r)
        rr['SpectrumType'], rr['Unit'] = own
        check_row(cx, rr, ref, rtu, a, b2, own, n, k)
    # the material of a row is the file of that row
    for i, r in enumerate(rows):
        m = cx.ok('load', cat.get_material, i)
        p = r['Author']
        a, b2, tu, n, k = want[p]
        own = UM if tu[1] == 'micrometer' else tu
        x = (a + b2) / 2
        v = cx.flat(cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(x, *own)))[0]
        cx.check_close(v, n + 1j * k, 'the row describes its file', scale=1e-3)


MODS = ['UserData', 'Filmetrics', 'RefractiveIndexInfo']


def modules(cx, enabled, form):
    """rebuild selected modules of an existing catalogue"""
    base = cx.tmp()
    vals = {}
    for j, mod in enumerate(MODS[:2]):
        user_files(base, [1.25 + j, 1.5 + j], mod)
    with open(os.path.join(base, MODS[1], 'Mat1.csv'), 'w') as f:          # same name, same author
        f.write('400.0,1.75\n600.0,1.75\n')
    twin = [(MODS[1], 'Mat1.csv')]
    paths = rii_tree(base, [('main', 'Ag', 'Silver', p, 'P0.yml') for p in ('P0', 'P1')])     # one file on two pages
    with open(paths['P0'], 'w') as f:
        f.write('DATA:\n  - type: tabulated n\n    data: |\n        0.4 3.5\n        0.6 3.5\n')
    conf = config(base, {m: True for m in MODS})
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    rows = rows_of(cx, cat)
    cx.check(sorted((r['Module'], r['Path']) for r in rows) == sorted(
        [(m, 'Mat%d.txt' % i) for m in MODS[:2] for i in (0, 1)] + twin + [(MODS[2], 'database/data-nk/P0.yml')] * 2), 'all modules')
    for i in range(len(rows)):
        cat.register_alias(int(cat.get_database().index[i]), 'alias%d' % i)
    cx.ok('save', cat.save_to_file)
    old = {(r['Module'], r['Path'], r['Author']): r for r in rows_of(cx, cat)}
    # new content on disk
    y = cx.real('y', 1.0, 5.0)
    for mod in MODS[:2]:
        text_file(os.path.join(base, mod, 'Mat1.txt'), [[400.0, y, 0.0], [600.0, y, 0.0]])
        text_file(os.path.join(base, mod, 'Mat2.txt'), [[400.0, 2.25, 0.0], [600.0, 2.25, 0.0]])
    conf2 = config(base, {m: e for m, e in zip(MODS, enabled)})
    pick = [m for m in MODS if cx.bool('pick' + m)] if form != 'All' else [m for m, e in zip(MODS, enabled) if e]
    rebuild = {'list': pick, 'tuple': tuple(pick), 'set': set(pick), 'All': 'All'}[form]
    cat2, e = cx.attempt(cx.D.Catalogue, config=conf2, rebuild=rebuild)
    off = [m for m, x in zip(MODS, enabled) if not x]
    if any(m in off for m in pick):
        cx.check(isinstance(e, ValueError), 'a disabled module is refused with ValueError', note=repr(e))
        return
    cx.check(e is None, 'rebuild', note=repr(e))
    if e is not None:
        return
    got = rows_of(cx, cat2)
    want = []
    for mod, en in zip(MODS, enabled):
        if not en:
            continue
        if mod in pick and mod in MODS[:2]:
            want += [(mod, 'Mat%d.txt' % i) for i in range(3)] + (twin if mod == MODS[1] else [])
        else:
            want += [q[:2] for q in old if q[0] == mod]
    cx.check(sorted((r['Module'], r['Path']) for r in got) == sorted(want), 'rows of the enabled modules exactly once')
    for r in got:
        key = (r['Module'], r['Path'], r['Author'])
        cx.check(r['Module'] in pick or key in old, 'other modules keep their rows')
        if r['Module'] in pick:
            if r['Path'] == 'Mat1.txt':
                cx.check_close(r['N_Reference'], y, 'rebuilt rows show the file on disk')
        elif key in old:
            for c in COLS:
                if c in ('N_Reference', 'K_Reference', 'SpectrumLowerBound', 'SpectrumUpperBound'):
                    cx.check_close(r[c], old[key][c], 'other modules keep their rows')
                else:
                    cx.check(r[c] == old[key][c], 'other modules keep their rows')


REFS = [NM, EV]
HARNESSES = [
    H(user, [dict(files=((k, tu),), rtu=r) for k, tu in (('nk', NM), ('n', EV), ('csv', UM), ('yml', HZ), ('formula', UM), ('eps', NM), ('eps', EV),
                                                         ('parts', NM), ('parts', EV))
             for r in REFS]
      + [dict(files=(('nk', NM), ('csv', EV)), rtu=NM), dict(files=(('yml', UM), ('n', NM)), rtu=EV, module='Filmetrics')],
      thorough=[dict(files=((k, tu),), rtu=r, module=m) for k in ('nk', 'n', 'csv', 'yml') for tu in TU for r in TU
                for m in ('UserData', 'Filmetrics')]
      + [dict(files=(('nk', a), ('csv', b)), rtu=r) for a in (NM, EV, HZ) for b in (NM, EV, UM) for r in REFS],
      bounds='1-2 files of arbitrary numbers, every format, arbitrary reference point; other files and folders ignored'),
    H(rii, [dict(index=i, data=d, missing=m, rtu=r) for i, d, m, r in (
        ('catalog-nk.yml', 'data-nk', ('P0', 'P3'), NM), ('library.yml', 'data', ('P0', 'P2'), EV),
        ('catalog-nk.yml', 'data', ('P1', 'P2'), EV), ('library.yml', 'data-nk', ('P1', 'P2', 'P3'), NM),
        ('catalog-nk.yml', 'data-nk', ('P1', 'P2', 'P3'), UM), ('catalog-nk.yml', 'data-nk', ('P0', 'P1', 'P2'), UM))],
      thorough=[dict(index=i, data=d, missing=m, rtu=r) for i in ('catalog-nk.yml', 'library.yml') for d in ('data', 'data-nk')
                for m in (('P0', 'P3'), ('P0', 'P2'), ('P1', 'P2'), ('P1', 'P3'), ('P0', 'P1'), ('P3',)) for r in (NM, EV, UM)],
      bounds='shelves/books/pages with dividers, missing files, both layouts; arbitrary numbers', opts={'slice_s': 20}),
    H(modules, [dict(enabled=(a, b, c), form=f) for a in (True, False) for b in (True, False) for c in (True, False)
                for f in ('list', 'All')] + [dict(enabled=(True, True, False), form=f) for f in ('tuple', 'set')],
      bounds='all enable/rebuild combinations of three modules'),
]
