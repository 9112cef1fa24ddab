import os
from engine.runner import H
from harness.common import *
from harness.common2 import *
from harness.cat import *
from harness.c23 import COLS, rows_of, nan

NUM = ['SpectrumLowerBound', 'SpectrumUpperBound', 'N_Reference', 'K_Reference']
TRICKY = ['a,b', '"q"', "it's", 'NA', 'nan', 'None', 'null', '', ' lead', 'trail ', '\u00fcml\u00e4ut \u03b5', '1', '1.50', 'True', '#x',
          'a;b', 'tab\there', '\\', '-', '1e5', 'inf', 'l1\nl2']


def same_rows(cx, got, want, label):
    cx.check(len(got) == len(want), label + ' (number of rows)')
    for r, w in zip(got, want):
        for c in COLS:
            if c in NUM:
                if nan(w[c]):
                    cx.check(nan(r[c]), label + ' (missing value)')
                else:
                    cx.check_close(r[c], w[c], label + ' (number)', rel=1e-12)
            else:
                cx.check(cx.both(isinstance(r[c], str), cx.streq(r[c], w[c])), label + ' (text)')


def files(cx, base, count, sym=True, module='UserData'):
    d = os.path.join(base, module)
    os.mkdir(d)
    ns = []
    for i in range(count):
        lo, hi = (300.0, 900.0)
        if sym:
            a, b = cx.real('a%d' % i, lo, hi), cx.real('b%d' % i, lo, hi)
            cx.assume(a * 1.001 < b)
            n, k = cx.real('n%d' % i, 0.1, 5), cx.real('k%d' % i, 0, 5)
        else:
            a, b, n, k = 400.0 + i, 600.0 + i, 1.25 + i, 0.5 * i
        text_file(os.path.join(d, 'Mat%d.txt' % i), [[a, n, k], [b, n, k]], '# UNIT: nm\n# COMMENT: c%d\n' % i)
        ns.append((a, b, n, k))
    return ns


def sessions(cx, count, steps):
    """build, then sessions that register aliases and save"""
    base = cx.tmp()
    ns = files(cx, base, count)
    conf = config(base)
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    for s in range(steps):
        df = cat.get_database()
        row = cx.choice('row%d' % s, list(range(count)))
        alias = cx.string('alias%d' % s, cx.choice('len%d' % s, [1, 2]))
        old = rows_of(cx, cat)
        v, e = cx.attempt(cat.register_alias, int(df.index[row]), alias)
        used = [i for i, r in enumerate(old) if bool(cx.streq(r['Alias'], alias))]
        cx.check((e is None) == (used in ([], [row])), 'an alias in use is refused in every session', note=repr(e))
        before = rows_of(cx, cat)
        cx.ok('save', cat.save_to_file)
        same_rows(cx, rows_of(cx, cat), before, 'saving leaves the catalogue as it is')
        cat = cx.ok('open', cx.D.Catalogue, config=conf)
        same_rows(cx, rows_of(cx, cat), before, 'the reopened catalogue')
    rows = rows_of(cx, cat)
    for i, r in enumerate(rows):
        j = int(r['Path'][3:-4])
        cx.check_close([r['SpectrumLowerBound'], r['SpectrumUpperBound']], [ns[j][0], ns[j][1]], 'range of the file')
        if r['Alias'] != '':
            m = cx.ok('look up', cat.get_material, r['Alias'])
            x = (ns[j][0] + ns[j][1]) / 2
            v = cx.flat(cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(x, *NM)))[0]
            cx.check_close(v, ns[j][2] + 1j * ns[j][3], 'the alias gives the same material')


def strings(cx, column, edit):
    """any text in the text columns"""
    base = cx.tmp()
    files(cx, base, 2, sym=False)
    conf = config(base)
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    df = cat.get_database()
    s = cx.choice('text', TRICKY + [cx.string('any', 3)])
    if edit == 'reverse':
        df = df.iloc[::-1]
    df = df.copy()
    df[column] = [s, 'plain']
    if column in NUM:
        df[column] = [1.0, 2.0]
    cat.set_database(df)
    before = rows_of(cx, cat)
    cx.ok('save', cat.save_to_file)
    cat = cx.ok('open', cx.D.Catalogue, config=conf)
    same_rows(cx, rows_of(cx, cat), before, 'the reopened catalogue')
    if column == 'Alias' and not bool(cx.streq(s, '')):
        m = cx.ok('look up', cat.get_material, s)
        want = 1.25 + int(before[0]['Path'][3:-4])
        m2 = cx.flat(m.get_nk_data(cx.D.Spectrum(500.0, *NM)))[0]
        cx.check_close(m2, want + 0.5j * int(before[0]['Path'][3:-4]), 'the alias gives the same material')


def numbers(cx, order):
    """any numbers, also infinite ranges and missing reference values"""
    base = cx.tmp()
    files(cx, base, 3, sym=False)
    conf = config(base, file=cx.choice('file', ['catalogue.csv', 'other name.txt']))
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    df = cat.get_database().iloc[list(order)].copy()
    nanv = float('nan')
    for c in NUM:
        vals = []
        for i in range(3):
            if c in NUM[2:]:
                vals.append(nanv if i == 1 else cx.real(c + str(i), -1e3, 1e3))
            else:
                vals.append(cx.real(c + str(i), 0, 1e20) if i != 2 else (0.0 if 'Lower' in c else float('inf')))
        df[c] = vals
    df['Alias'] = ['x', '', 'y']
    cat.set_database(df)
    before = rows_of(cx, cat)
    cx.ok('save', cat.save_to_file)
    cat = cx.ok('open', cx.D.Catalogue, config=conf)
    same_rows(cx, rows_of(cx, cat), before, 'the reopened catalogue')
    cx.ok('save again', cat.save_to_file)
    cat = cx.ok('open', cx.D.Catalogue, config=conf)
    same_rows(cx, rows_of(cx, cat), before, 'the catalogue opened a third time')
    for i, al in ((0, 'x'), (2, 'y')):
        j = order[i]
        m = cx.ok('look up', cat.get_material, al)
        jj = int(before[i]['Path'][3:-4])
        cx.check_close(cx.flat(m.get_nk_data(cx.D.Spectrum(500.0, *NM)))[0], 1.25 + jj + 0.5j * jj, 'same material')


def alike(cx, column):
    """rows that differ in one column only (or not at all) stay separate rows"""
    base = cx.tmp()
    files(cx, base, 3, sym=False)
    conf = config(base)
    cat = cx.ok('rebuild', cx.D.Catalogue, config=conf, rebuild='All')
    df = cat.get_database().iloc[[0, 0, 1, 0]].copy()
    df.index = [0, 1, 2, 3]
    if column is not None:
        if column in NUM:
            df[column] = [cx.real('v%d' % i, 1, 5) for i in range(4)]
        else:
            # adjacent equal values, blanks, case and prefixes
            df[column] = cx.choice('texts', [['x', 'X', 'x', 'y'], ['', 'x', '', 'x '], ['x', 'xy', 'x', ''], ['b', 'a', 'c', 'a']])
    cat.set_database(df)
    before = rows_of(cx, cat)
    cx.ok('save', cat.save_to_file)
    cat = cx.ok('open', cx.D.Catalogue, config=conf)
    same_rows(cx, rows_of(cx, cat), before, 'the reopened catalogue')


TEXT = [c for c in COLS if c not in NUM + ['Path', 'Module', 'SpectrumType', 'Unit']]
HARNESSES = [
    H(sessions, [dict(count=2, steps=1), dict(count=2, steps=2)], thorough=[dict(count=2, steps=2), dict(count=3, steps=2), dict(count=2, steps=3)],
      bounds='catalogues of 2 (3) files with arbitrary numbers, up to 2 (3) sessions with arbitrary aliases of 1-2 characters'),
    H(strings, [dict(column=c, edit=e) for c in TEXT for e in ('as is', 'reverse')],
      bounds='text with separators, quotes, leading blanks, words that look like missing values, non-ASCII; arbitrary 3 characters'),
    H(alike, [dict(column=c) for c in [None] + COLS], bounds='four rows that agree in all columns, or in all but one'),
    H(numbers, [dict(order=o) for o in ((0, 1, 2), (2, 0, 1), (1, 2, 0))], bounds='arbitrary numbers, infinite ranges, missing values, rows in any order'),
]
ASSUMPTIONS = ['pandas.to_csv/read_csv keep text without line breaks (exercised concretely for the difficult strings listed)']
