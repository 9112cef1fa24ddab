import os
from engine.runner import H
from harness.common import *
from harness.cat import *

VALS = {'Mat0.txt': 1.25, 'Mat1.txt': 1.5, 'Mat2.txt': 1.75}


def setup(cx, perm, labels, twin=False, mods=False):
    cat, conf = catalogue(cx, tuple(VALS.values()))
    df = cat.get_database()
    paths = list(df['Path'])
    by = {p: i for i, p in enumerate(paths)}
    want = [sorted(VALS)[i] for i in perm]
    if twin:       # one file in two rows, as pages that share their data
        want[2] = want[0]
    df = df.iloc[[by[p] for p in want]]
    df.index = list(labels) if labels is not None else df.index
    if mods:       # the last row belongs to another module, which has other files of the same names
        base = conf['Path']
        user_files(base, [9.25, 9.5, 9.75], 'Filmetrics')
        p = want[2]
        text_file(os.path.join(base, 'Filmetrics', p), [[400.0, VALS[p], 0.0], [600.0, VALS[p], 0.0]])
        text_file(os.path.join(base, 'UserData', p), [[400.0, 8.5, 0.0], [600.0, 8.5, 0.0]])
        df = df.copy()
        df['Module'] = ['UserData', 'UserData', 'Filmetrics']
    cat.set_database(df.copy())
    return cat, want, list(cat.get_database().index)


def aliases(cat):
    return list(cat.get_database()['Alias'])


def others(cat):
    df = cat.get_database()
    return {c: [repr(v) for v in df[c]] for c in df.columns if c != 'Alias'}, list(df.index)


def check_all(cx, cat, want, oracle, before):
    got = aliases(cat)
    cx.check(len(got) == len(oracle), 'number of rows')
    for g, o in zip(got, oracle):
        cx.check(cx.streq(g, o), 'exactly the registered row carries the alias')
    cx.check(others(cat) == before, 'nothing but the alias column changes')
    for i, o in enumerate(oracle):
        for j in range(i):
            if o != '' and oracle[j] != '':
                cx.check(cx.not_(cx.streq(o, oracle[j])), 'an alias belongs to one row')


def lookup(cx, cat, want, oracle):
    for i, o in enumerate(oracle):
        if o != '':
            m = cx.ok('look up', cat.get_material, o)
            cx.check_close(index_of(cx, m), VALS[want[i]], 'the file of the row that carries the alias')


def history(cx, perm, labels, steps, n, by, r0=None, lens=None, twin=False, mods=False):
    """any sequence of registrations"""
    cat, want, idx = setup(cx, perm, labels, twin, mods)
    before = others(cat)
    oracle = [''] * 3
    for k in range(steps):
        r = r0 if k == 0 and r0 is not None else cx.choice('row%d' % k, [0, 1, 2])
        a = cx.string('a%d' % k, lens[k] if lens else n)
        row = int(idx[r])
        if by == 'frame':
            df = cat.get_database()
            row = df.iloc[[r]]
        v, e = cx.attempt(cat.register_alias, row, a)
        taken = any(i != r and oracle[i] != '' and bool(cx.streq(oracle[i], a)) for i in range(3))
        if taken:
            cx.check(isinstance(e, ValueError), 'an alias in use is refused with ValueError', note=repr(e))
        else:
            cx.check(e is None, 'a free alias is accepted', note=repr(e))
            oracle[r] = a
        check_all(cx, cat, want, oracle, before)
    lookup(cx, cat, want, oracle)
    cx.raises('rows without alias are not found by an empty one', ValueError, cat.get_material, '')
    q = cx.string('q', n)
    hit = [i for i in range(3) if oracle[i] != '' and bool(cx.streq(oracle[i], q))]
    m, e = cx.attempt(cat.get_material, q)
    if hit:
        cx.check(e is None, 'a registered alias is found', note=repr(e))
        if e is None:
            cx.check_close(index_of(cx, m), VALS[want[hit[0]]], 'the right material')
    else:
        cx.check(isinstance(e, ValueError), 'an unknown alias raises ValueError', note=repr(e))
    check_all(cx, cat, want, oracle, before)


def position(cx, perm, labels):
    """an integer is a row number"""
    cat, want, idx = setup(cx, perm, labels)
    for i in range(3):
        m = cx.ok('look up', cat.get_material, i)
        cx.check_close(index_of(cx, m), VALS[want[i]], 'row number')


def stated(cx, tu, by):
    """a file that states no type and unit is read with those of its row"""
    cat, conf = catalogue(cx, tuple(VALS.values()))
    df = cat.get_database().copy()
    i = list(df['Path']).index('Mat1.txt')
    lo, hi = rng_of(tu, 4e-7, 6e-7)
    y, z = cx.real('y', 0.5, 5), cx.real('z', 0, 5)
    text_file(os.path.join(conf['Path'], 'UserData', 'Mat1.txt'), [[lo, y, z], [hi, y, z]], head='')
    for c, v in (('SpectrumType', tu[0]), ('Unit', tu[1])):
        df[c] = [v if j == i else w for j, w in enumerate(df[c])]
    cat.set_database(df)
    a = cx.string('a', 2)
    cx.ok('register', cat.register_alias, int(df.index[i]), a)
    m = cx.ok('look up', cat.get_material, a if by == 'alias' else i)
    x = cx.real('x', lo, hi)
    v = cx.flat(cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(x, *tu)))[0]
    cx.check_close(cx.np.real(v), y, 'n of the file in the unit of the row', scale=1e-3)
    cx.check_close(cx.np.imag(v), z, 'k of the file in the unit of the row', scale=1e-3)
    cx.check((m.defaults['spectrum_type'], m.defaults['unit']) == tu, 'type and unit of the row')


def repeated(cx, labels):
    """row labels may repeat (concatenated tables): the alias still finds its row"""
    cat, want, idx = setup(cx, (2, 0, 1), labels)
    df = cat.get_database().copy()
    r = cx.choice('row', [0, 1, 2])
    a = cx.string('a', 2)
    df['Alias'] = [a if i == r else '' for i in range(3)]
    cat.set_database(df)
    m = cx.ok('look up', cat.get_material, a)
    cx.check_close(index_of(cx, m), VALS[want[r]], 'the file of the row that carries the alias')


def bad(cx, what):
    cat, want, idx = setup(cx, (0, 1, 2), None)
    before = others(cat)
    kind = cx.choice('kind', ['float', 'None', 'list', 'bytes', 'frame2', 'missing', 'tuple'])
    df = cat.get_database()
    v = {'float': lambda: cx.pyfloat('v', 0, 2), 'None': lambda: None, 'list': lambda: ['x'], 'bytes': lambda: b'x',
         'frame2': lambda: df.iloc[[0, 1]], 'missing': lambda: 17 if what == 'register' else 'missing',
         'tuple': lambda: (1,)}[kind]()
    if what == 'register':
        e = cx.raises('only a row can get an alias', ValueError, cat.register_alias, v, 'new')
        check_all(cx, cat, want, [''] * 3, before)
    else:
        cx.raises('only aliases and row numbers are looked up', ValueError, cat.get_material, v)


PERMS = [(0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)]
LABELS = [None, (0, 1, 2), (10, 5, 7), (2, 0, 1)]
HARNESSES = [
    H(history, [dict(perm=p, labels=l, steps=2, n=2, by=b) for p in PERMS[:2] for l in LABELS for b in ('label', 'frame')]
      + [dict(perm=PERMS[1], labels=None, steps=2, n=n, by='label', lens=l) for l, n in (((3, 1), 2), ((1, 3), 2), ((3, 2), 3), ((2, 3), 1))]
      + [dict(perm=PERMS[1], labels=(0, 1, 2), steps=2, n=1, by=b, twin=True) for b in ('label', 'frame')]
      + [dict(perm=PERMS[i], labels=(5, 1, 2), steps=2, n=1, by=b, mods=True) for i, b in ((0, 'label'), (1, 'frame'))]
      + [dict(perm=(1, 2, 0), labels=(7, 0, 3), steps=3, n=1, by='label', r0=r) for r in (0, 1, 2)],
      thorough=[dict(perm=p, labels=l, steps=3, n=n, by=b, r0=r) for p in PERMS for l in LABELS for n in (1, 2)
                for b in ('label', 'frame') for r in (0, 1, 2)],
      opts={'max_paths': 30000, 'slice_s': 10},
      bounds='3 rows in several orders and labellings, up to 3 registrations, aliases of 1-3 arbitrary characters (equal and different lengths)'),
    H(position, [dict(perm=p, labels=l) for p in PERMS for l in LABELS], bounds='every row number'),
    H(stated, [dict(tu=tu, by=b) for tu in TU for b in ('alias', 'row')], bounds='files without stated unit, arbitrary values'),
    H(repeated, [dict(labels=l) for l in ((0, 0, 1), (0, 1, 0), (3, 3, 3))], bounds='labels that repeat'),
    H(bad, [dict(what=w) for w in ('register', 'look up')], bounds='identifiers of other types'),
]
