import os
import types
import yaml
from engine.runner import H
from harness.cat import *


class NoMore(Exception):
    """the user typed everything he is going to type"""


def setup(cx):
    return cx.mod('dispersion.scripts.setup_dispersion')


def user_home(cx):
    h = os.path.join(cx.tmp(), 'home')
    os.makedirs(os.path.join(h, '.config', 'dispersion'))
    cx.setenv('HOME', h)
    return os.path.join(h, '.config', 'dispersion')


class Typist:
    """types arbitrary strings of up to n characters, at most `limit` of them"""

    def __init__(self, cx, limit, n, alphabet=((32, 126),)):
        self.cx, self.limit, self.n, self.given, self.alphabet = cx, limit, n, [], alphabet
        cx.answers(self)

    def __call__(self, prompt=''):
        i = len(self.given)
        if i >= self.limit:
            raise NoMore()
        k = self.cx.choice('length%d' % i, list(range(self.n + 1)))
        s = self.cx.string('typed%d' % i, k, self.alphabet) if k else ''
        self.given.append(s)
        return s


def ask(cx, limit, n):
    """any validator, any answers"""
    user_home(cx)
    t = Typist(cx, limit, n)
    verdict = {}
    seen = []

    def validator(s):
        i = len(t.given) - 1
        seen.append((i, s))
        if i not in verdict:
            verdict[i] = cx.bool('valid%d' % i)
        return verdict[i]
    v, e = cx.attempt(setup(cx).ask, 'question {}> ', 'DEF', validator)
    for i, s in seen:
        cx.check(cx.streq(s, t.given[i] if t.given[i] != '' else 'DEF'), 'the validator sees the answer or the default')
    if isinstance(e, NoMore):
        cx.check(len(t.given) == limit and not any(verdict.get(i) for i in range(limit)), 'asks again only after invalid answers')
        return
    cx.check(e is None, 'no error', note=repr(e))
    if e is None:
        last = len(t.given) - 1
        cx.check(verdict.get(last) is True, 'a valid answer is returned')
        cx.check(all(verdict.get(i) is False for i in range(last)), 'the first valid answer')
        cx.check(cx.streq(v, t.given[last] if t.given[last] != '' else 'DEF'), 'answer or default returned unchanged')


YES, NO = ('y', 'yes'), ('n', 'no')


def among(cx, s, words):
    return bool(cx.either(*[cx.streq(s, w) for w in words]))


def confirm(cx, limit, n):
    user_home(cx)
    t = Typist(cx, limit, n)
    v, e = cx.attempt(setup(cx).get_confirmation, 'sure? [y/n]> ')
    kinds = ['y' if among(cx, s, YES) else 'n' if among(cx, s, NO) else '?' for s in t.given]
    if isinstance(e, NoMore):
        cx.check(kinds == ['?'] * limit, 'asks again only after an unclear answer')
        return
    cx.check(e is None, 'no error', note=repr(e))
    if e is None:
        cx.check(all(k == '?' for k in kinds[:-1]), 'the first clear answer decides')
        cx.check(kinds[-1] == ('y' if v else 'n'), 'true exactly after yes, false exactly after no')
        cx.check(v is True or v is False, 'a truth value')


def ask_confirm(cx, limit, n, what):
    """value and confirmation together"""
    user_home(cx)
    S = setup(cx)
    if what == 'plain':
        t = Typist(cx, limit, n, ((97, 122), (47, 47)))
        verdict = {}

        def validator(s):
            i = len(t.given) - 1
            if i not in verdict:
                verdict[i] = cx.bool('valid%d' % i)
            return verdict[i]
        v, e = cx.attempt(S.ask_and_confirm, 'q {}> ', 'DEF', validator, 'name')
        first = [i for i in sorted(verdict) if verdict[i]]
    else:
        t = Typist(cx, limit, n, ((97, 122), (47, 47)))
        v, e = cx.attempt(S.get_root_dir, {'Path': '/default', 'File': 'x'})
        first = [i for i, s in enumerate(t.given) if s == '' or bool(cx.streq(s[0], '/'))]
    if isinstance(e, NoMore):
        if first:
            cx.check(all(not among(cx, s, YES + NO) for s in t.given[first[0] + 1:]), 'waits for a clear confirmation')
        return
    cx.check(e is None, 'no error', note=repr(e))
    if e is None:
        value, conf = v
        cx.check(len(first) > 0, 'a valid answer was given')
        i = first[0]
        default = 'DEF' if what == 'plain' else '/default'
        cx.check(cx.streq(value, t.given[i] if t.given[i] != '' else default), 'the answer is returned')
        cx.check(len(t.given) > i + 1, 'a confirmation was asked for')
        cx.check(all(not among(cx, s, YES + NO) for s in t.given[i + 1:-1]), 'the first clear confirmation decides')
        cx.check(among(cx, t.given[-1], YES if conf else NO), 'confirmed exactly after yes')


NAMES = [('', None), ('cat.csv', 'cat.csv'), ('my cat.txt', 'my cat.txt'), ('no/such.csv', False), ('x' * 300, False)]


def file_name(cx, limit):
    """catalogue names are names a file can have"""
    user_home(cx)
    given = []

    def typist(prompt=''):
        if len(given) >= limit:
            raise NoMore()
        given.append(cx.choice('name%d' % len(given), NAMES + [('y', 'y'), ('n', 'n')]))
        return given[-1][0]
    cx.answers(typist)
    v, e = cx.attempt(setup(cx).get_catalogue_name, {'Path': '/x', 'File': 'default.csv'})
    valid = [i for i, g in enumerate(given) if g[1] is not False]
    if isinstance(e, NoMore):
        cx.check(not valid or all(g[0] not in 'yn' or g[0] == '' for g in given[valid[0] + 1:]), 'asks on')
        return
    cx.check(e is None and bool(valid), 'no error', note=repr(e))
    if e is None and valid:
        i = valid[0]
        cx.check(v[0] == (given[i][0] or 'default.csv'), 'first valid name')
        cx.check(len(given) > i + 1 and given[-1][0] == ('y' if v[1] else 'n'), 'confirmed exactly after y')


def fake_git(cx, calls, layout):
    class Repo:
        @staticmethod
        def clone_from(url, to, *a, **k):
            calls.append((url, to))
            make_rii(to, layout)
            return Repo()
    m = types.ModuleType('git')
    m.Repo = Repo
    cx.override('git', m)


def make_rii(d, layout):
    if layout == 'nothing':
        return
    db = os.path.join(d, 'database')
    os.makedirs(os.path.join(db, 'data-nk'))
    if layout in ('library.yml', 'catalog-nk.yml'):
        with open(os.path.join(db, layout), 'w') as f:
            f.write('- SHELF: main\n  name: M\n  content:\n    - BOOK: Ag\n      name: Silver\n      content:\n'
                    '        - PAGE: P\n          name: p\n          data: p.yml\n')
        with open(os.path.join(db, 'data-nk', 'p.yml'), 'w') as f:
            f.write('DATA:\n  - type: tabulated n\n    data: |\n        0.4 3.5\n        0.8 3.5\n')


def examples(cx, d):
    """the example files of the user's module can be read"""
    names = sorted(os.listdir(d))
    cx.check(len([n for n in names if n.endswith('.txt')]) >= 1 and len([n for n in names if n.endswith('.yml')]) >= 1,
             'example files of both kinds')
    for n in names:
        m = cx.ok('example is readable', cx.D.Material, file_path=os.path.join(d, n))
        cx.ok('example is usable', m.get_nk_data, cx.D.Spectrum(500.0, spectrum_type='wavelength', unit='nm'))
        cx.check(m.meta_data['Author'] == 'The author of this data file', 'example metadata')


LAYOUTS = ['nothing', 'folder', 'library.yml', 'catalog-nk.yml']


def install(cx, mods, root_exists, limit=4, n=3):
    """exactly the confirmed modules whose data is there are enabled"""
    user_home(cx)
    base = cx.tmp() if root_exists else os.path.join(cx.tmp(), 'new', 'root')
    layout = cx.choice('layout', LAYOUTS)
    if 'RefractiveIndexInfo' in mods and layout != 'nothing':
        make_rii(os.path.join(base, 'RefractiveIndexInfo'), layout)
    cloned = cx.choice('cloned', LAYOUTS[2:]) if layout == 'nothing' else 'nothing'
    calls = []
    fake_git(cx, calls, cloned)
    conf = config(base, {m: cx.bool('old ' + m) for m in mods})
    t = Typist(cx, limit, n, ((97, 122),))
    S = setup(cx)
    got, e = cx.attempt(S.install_modules, conf)
    kinds = ['y' if among(cx, s, YES) else 'n' if among(cx, s, NO) else '?' for s in t.given]
    clear = [k for k in kinds if k != '?']
    if isinstance(e, NoMore):
        cx.check('RefractiveIndexInfo' in mods and kinds[-1] == '?' or len(clear) < 2, 'asks on')
        return
    cx.check(e is None, 'no error', note=repr(e))
    if e is not None:
        return
    cx.check(set(got['Modules']) == set(mods), 'same modules')
    if 'UserData' in mods:
        cx.check(got['Modules']['UserData'] is True, 'user data is always installed')
        examples(cx, os.path.join(base, 'UserData'))
    if 'RefractiveIndexInfo' in mods:
        on = got['Modules']['RefractiveIndexInfo']
        cx.check(len(clear) >= 1, 'installation was confirmed or declined')
        if clear[:1] == ['n']:
            want = False
            cx.check(calls == [] and len(clear) == 1, 'nothing is downloaded when declined')
        elif clear[1:] == ['y']:
            want = True
            cx.check([c[1] for c in calls] == [os.path.join(base, 'RefractiveIndexInfo')], 'downloaded once, into the module')
        else:
            cx.check(clear == ['y', 'n'] and calls == [], 'no download without confirmation')
            want = layout in ('library.yml', 'catalog-nk.yml')
        cx.check(on is want, 'enabled exactly when confirmed and present')
    else:
        cx.check(t.given == [] and calls == [], 'nothing to ask')
    for k in ('Path', 'File', 'Interactive', 'WarnMissingPackages', 'ReferenceSpectrum'):
        cx.check(got[k] == conf[k], 'rest of the configuration untouched')


def rebuild(cx, limit, n, exists):
    """the catalogue is overwritten only after an explicit y"""
    ud = user_home(cx)
    base = cx.tmp()
    user_files(base, [1.5, 1.75])
    conf = config(base)
    with open(os.path.join(ud, 'config.yaml'), 'w') as f:
        f.write(yaml.dump(conf))
    path = os.path.join(base, 'catalogue.csv')
    if exists:
        with open(path, 'w') as f:
            f.write('old')
    t = Typist(cx, limit, n)
    v, e = cx.attempt(cx.D.rebuild_catalogue)
    written = os.path.exists(path) and (not exists or open(path).read() != 'old')
    kinds = ['y' if among(cx, s, 'y') else 'n' if among(cx, s, 'n') else '?' for s in t.given]
    if isinstance(e, NoMore):
        cx.check(not written and kinds == ['?'] * limit, 'nothing happens before a clear answer')
        return
    cx.check(e is None, 'no error', note=repr(e))
    cx.check(all(k == '?' for k in kinds[:-1]) and kinds[-1:] != ['?'], 'the first clear answer decides')
    cx.check(written == (kinds[-1:] == ['y']), 'rebuilt exactly after y')
    if written and e is None:
        df = cx.D.Catalogue(config=conf).get_database()
        cx.check(sorted(df.Path) == ['Mat0.txt', 'Mat1.txt'], 'the new catalogue')


def maybe(cx, limit, n):
    ud = user_home(cx)
    base = cx.tmp()
    user_files(base, [1.5])
    conf = config(base)
    t = Typist(cx, limit, n)
    v, e = cx.attempt(setup(cx).maybe_rebuild_catalogue, conf)
    written = os.path.exists(os.path.join(base, 'catalogue.csv'))
    kinds = ['y' if among(cx, s, YES) else 'n' if among(cx, s, NO) else '?' for s in t.given]
    cx.check(e is None or isinstance(e, NoMore), 'no error', note=repr(e))
    cx.check(written == (kinds[-1:] == ['y']), 'rebuilt exactly after yes')
    if e is None:
        cx.check(kinds[-1:] != ['?'], 'a clear answer')


def whole(cx):
    """the setup script from the first question to the last"""
    ud = user_home(cx)
    scratch = cx.tmp()
    root = os.path.join(scratch, 'root')
    if cx.bool('root exists'):
        os.mkdir(root)
    calls = []
    fake_git(cx, calls, 'catalog-nk.yml')
    script = []
    # root directory
    want_root = None
    for i in range(2):
        a = cx.choice('root%d' % i, ['', 'rel/path', root])
        script.append(a)
        if a == 'rel/path':
            cx.assume(i == 0)
            continue
        c = cx.choice('root ok%d' % i, ['y', 'n'])
        script.append(c)
        if c == 'y':
            want_root = a or ud
            break
        cx.assume(i == 0)
    name = cx.choice('name', ['', 'cat2.csv'])
    bad = cx.bool('unclear')
    script += [name] + (['maybe', 'yes'] if bad else ['n', 'other.csv', 'no', name, 'y'])
    rii = cx.choice('rii', [['n'], ['y', 'y'], ['y', 'n']])
    script += rii
    rb = cx.choice('rebuild', ['y', 'n'])
    script += [rb]
    it = iter(script)

    def typist(prompt=''):
        try:
            return next(it)
        except StopIteration:
            raise NoMore()
    cx.answers(typist)
    cx.ok('setup', setup(cx).main)
    cx.check(list(it) == [], 'every answer was asked for')
    conf = cx.ok('configuration is stored', cx.mod('dispersion.config').read_config)
    cx.check(os.path.isfile(os.path.join(ud, 'config.yaml')), 'stored for the user')
    cx.check(conf['Path'] == want_root and conf['File'] == (name or 'catalogue.csv'), 'confirmed values are stored')
    cx.check(conf['Modules'] == {'UserData': True, 'RefractiveIndexInfo': rii == ['y', 'y']}, 'confirmed modules are stored')
    cx.check(len(calls) == (1 if rii == ['y', 'y'] else 0), 'downloads')
    path = os.path.join(want_root, name or 'catalogue.csv')
    cx.check(os.path.exists(path) == (rb == 'y'), 'catalogue built exactly after y')
    if rb == 'y':
        cat = cx.ok('catalogue opens', cx.D.Catalogue)
        mods = [m for m, on in conf['Modules'].items() if on]
        cx.check(sorted(set(cat.get_database().Module)) == sorted(mods), 'catalogue of the confirmed modules')


HARNESSES = [
    H(ask, [dict(limit=3, n=2)], thorough=[dict(limit=4, n=3)], bounds='up to 3 (4) answers of up to 2 (3) characters, any validator'),
    H(confirm, [dict(limit=3, n=3)], thorough=[dict(limit=4, n=4)], bounds='up to 3 (4) answers of up to 3 (4) printable characters'),
    H(ask_confirm, [dict(limit=4, n=1, what='plain'), dict(limit=3, n=3, what='root')],
      thorough=[dict(limit=4, n=2, what='plain'), dict(limit=4, n=3, what='root')], bounds='up to 4 answers'),
    H(file_name, [dict(limit=3)], thorough=[dict(limit=4)], bounds='names from a list of possible and impossible ones'),
    H(install, [dict(mods=m, root_exists=r, limit=3, n=1) for m in (('UserData', 'RefractiveIndexInfo'), ('RefractiveIndexInfo',), ('UserData',))
                for r in (True, False)] + [dict(mods=('RefractiveIndexInfo', 'UserData'), root_exists=False, limit=2, n=1)], thorough=[dict(mods=m, root_exists=r, limit=3, n=3) for m in (
                    ('UserData', 'RefractiveIndexInfo'), ('RefractiveIndexInfo', 'UserData'), ('RefractiveIndexInfo',), ('UserData',), ())
                    for r in (True, False)],
      bounds='up to 3 answers; data missing, partial or present in either layout; download replaced by a stand-in'),
    H(rebuild, [dict(limit=3, n=2, exists=x) for x in (True, False)], thorough=[dict(limit=4, n=3, exists=x) for x in (True, False)],
      bounds='up to 3 (4) answers of up to 2 (3) characters'),
    H(maybe, [dict(limit=2, n=3)], thorough=[dict(limit=3, n=3)], bounds='up to 2 (3) answers of up to 3 characters'),
    H(whole, bounds='one rejected answer at every stage'),
]
ASSUMPTIONS = ['cloning the database from the network is replaced by a stand-in that records the call and lays out the files']
