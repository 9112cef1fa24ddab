import os
import yaml
from engine.runner import H
from harness.cat import *

MISSING = object()


def pool(cx):
    """values of every kind a configuration file can hold"""
    return [('none', None), ('true', True), ('false', False), ('int', 1), ('zero', 0), ('float', cx.pyfloat('v', -1e3, 1e3)),
            ('str', cx.string('s', 3)), ('list', []), ('dict', {}), ('missing', MISSING)]


# which kinds are right for which field (path and file are special)
FIELDS = {'Interactive': ('true', 'false'), 'WarnMissingPackages': ('true', 'false'), 'Modules.UserData': ('true', 'false', 'missing'),
          'Modules.Filmetrics': ('true', 'false', 'missing'), 'Modules.RefractiveIndexInfo': ('true', 'false', 'missing'),
          'ReferenceSpectrum.Value': ('float',),
          'ReferenceSpectrum.SpectrumType': ('str',), 'ReferenceSpectrum.Unit': ('str',), 'Path': (), 'File': (),
          'Modules': ('dict',), 'ReferenceSpectrum': ()}
FILES = [('catalogue.csv', True), ('a', True), ('my file.txt', True), ('no/such/dir.csv', False), ('', False), ('.', False),
         ('x' * 300, False)]


def put(conf, field, value):
    keys = field.split('.')
    d = conf
    for k in keys[:-1]:
        if not isinstance(d, dict) or k not in d or not isinstance(d[k], dict):
            return False
        d = d[k]
    if value is MISSING:
        d.pop(keys[-1], None)
    else:
        d[keys[-1]] = value
    return True


def base_conf(cx):
    b = cx.tmp()
    os.mkdir(os.path.join(b, 'UserData'))
    os.mkdir(os.path.join(b, 'Filmetrics'))
    return b, config(b, {'UserData': True, 'Filmetrics': False, 'RefractiveIndexInfo': True})


def spoil(cx, base, conf, fields):
    """replaces the fields by arbitrary values -> is the configuration still right"""
    good = True
    vals = pool(cx)
    for f in sorted(fields, key=lambda f: f.count('.')):
        special = []
        if f == 'Path':
            with open(os.path.join(base, 'plain'), 'w') as h:
                h.write('x')
            special = [('dir', base, True), ('file', os.path.join(base, 'plain'), False),
                       ('nowhere', os.path.join(base, 'nowhere'), False), ('empty', '', False),
                       ('sub', os.path.join(base, 'UserData'), True)]
        if f == 'File':
            special = [(n, n, g) for n, g in FILES]
        opts = [(n, v, n in FIELDS[f]) for n, v in vals if not (special and n == 'str') and (f, n) != ('Modules', 'list')] + special   # no modules at all: either way
        n, v, g = cx.choice('kind ' + f, opts)
        if put(conf, f, v):
            good = good and g
    return good


def validate(cx, fields):
    base, conf = base_conf(cx)
    good = spoil(cx, base, conf, fields)
    v, e = cx.attempt(cx.mod('dispersion.config').validate_config, conf)
    cx.check((e is None) == good, 'accepted exactly when complete and well typed', note='%s' % (e,))


def catalogue_refuses(cx, fields):
    """a catalogue never works with a configuration that is not accepted"""
    base, conf = base_conf(cx)
    good = spoil(cx, base, conf, fields)
    cx.assume(not good)
    v, e = cx.attempt(cx.D.Catalogue, config=conf, rebuild='All')
    cx.check(e is not None, 'refused')


DEFAULT = {'File': 'catalogue.csv', 'Interactive': False, 'WarnMissingPackages': False,
           'Modules': {'UserData': True, 'RefractiveIndexInfo': True},
           'ReferenceSpectrum': {'Value': 632.8, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}


def where(cx, home, config_home):
    """user directory -> (home, directory of the user's configuration)"""
    h = os.path.join(cx.tmp(), home)
    os.mkdir(h)
    if config_home:
        os.mkdir(os.path.join(h, '.config'))
    cx.setenv('HOME', h)
    return h, os.path.join(h, '.config', 'dispersion')


def arbitrary(cx, tag):
    u = cx.bool('user' + tag)
    return {'Path': '/x/' + cx.string('path' + tag, 3), 'File': cx.string('file' + tag, 2),
            'Interactive': cx.bool('inter' + tag), 'WarnMissingPackages': False,
            'Modules': {'UserData': u, 'RefractiveIndexInfo': not u},
            'ReferenceSpectrum': {'Value': cx.choice('val' + tag, [1.5, 1e-7]), 'SpectrumType': 'energy',
                                  'Unit': cx.string('unit' + tag, 2)}}


def same(cx, got, want, label):
    cx.check(isinstance(got, dict) and set(got) == set(want), label + ' (keys)')
    for k, v in want.items():
        if isinstance(v, dict):
            same(cx, got[k], v, label)
        elif isinstance(v, str):
            cx.check(cx.both(isinstance(got[k], str), cx.streq(got[k], v)), label)
        else:
            cx.check(type(got[k]) is type(v) and got[k] == v, label)


def get(cx, home='home', config_home=True):
    """user's file, else the package's, else the defaults"""
    pkg = cx.package_copy()
    h, ud = where(cx, home, config_home)
    cfg = cx.mod('dispersion.config')
    for name, d in (('user', ud), ('package', pkg)):
        if cx.bool(name):
            if not os.path.isdir(d):
                os.makedirs(d)
            want = arbitrary(cx, name)
            with open(os.path.join(d, 'config.yaml'), 'w', encoding='utf8') as f:
                f.write(yaml.dump(want, allow_unicode=cx.bool('unicode')))
            break
    else:
        want = dict(DEFAULT, Path=ud)
    got = cx.ok('get_config', cx.D.get_config)
    same(cx, got, want, 'configuration')
    if 'Path' in want and want['Path'] == ud:
        cx.check(os.path.isdir(ud), 'default directory exists')
        cx.ok('defaults are accepted', cfg.validate_config, got)
        cx.ok('defaults make a catalogue', cx.D.Catalogue, config=dict(got, Modules={}), rebuild='All')


def both(cx):
    """the user's file wins over the package's"""
    pkg = cx.package_copy()
    h, ud = where(cx, 'h', True)
    os.mkdir(ud)
    confs = [arbitrary(cx, 'u'), dict(DEFAULT, Path='/pkg')]
    for d, c in ((ud, confs[0]), (pkg, confs[1])):
        with open(os.path.join(d, 'config.yaml'), 'w', encoding='utf8') as f:
            f.write(yaml.dump(c))
    same(cx, cx.ok('get_config', cx.D.get_config), confs[0], 'the user\'s configuration')


def folder(cx):
    """a folder of that name is no configuration file"""
    pkg = cx.package_copy()
    h, ud = where(cx, 'h', True)
    D = cx.D
    os.makedirs(os.path.join(ud, 'config.yaml'))
    want = dict(DEFAULT, Path=ud)
    if cx.bool('package'):
        want = arbitrary(cx, 'p')
        with open(os.path.join(pkg, 'config.yaml'), 'w', encoding='utf8') as f:
            f.write(yaml.dump(want))
    same(cx, cx.ok('get_config', D.get_config), want, 'configuration')


def small(cx):
    """the user's file is used whatever it holds"""
    pkg = cx.package_copy()
    h, ud = where(cx, 'h', True)
    D = cx.D        # imported before there is a file
    if not os.path.isdir(ud):
        os.mkdir(ud)
    conf = cx.choice('conf', [{'File': 'a'}, {'WarnMissingPackages': True}, {'Path': '/x', 'File': 'catalogue.csv'}])
    for d, c in ((ud, conf), (pkg, dict(DEFAULT, Path='/pkg'))):
        with open(os.path.join(d, 'config.yaml'), 'w', encoding='utf8') as f:
            f.write(yaml.dump(c))
    same(cx, cx.ok('get_config', D.get_config), conf, 'the user\'s configuration')


def broken(cx):
    """a user's file that is no YAML is not silently replaced by another configuration"""
    pkg = cx.package_copy()
    h, ud = where(cx, 'h', True)
    D = cx.D
    if not os.path.isdir(ud):
        os.mkdir(ud)
    with open(os.path.join(ud, 'config.yaml'), 'w', encoding='utf8') as f:
        f.write(cx.choice('text', ['File: [a, b\n', '{', 'File: "a\n', 'a: b\n  c: d\n e: f\n', 'Modules: {UserData: true\nFile: x\n']))
    if cx.bool('package'):
        with open(os.path.join(pkg, 'config.yaml'), 'w', encoding='utf8') as f:
            f.write(yaml.dump(dict(DEFAULT, Path='/pkg')))
    v, e = cx.attempt(D.get_config)
    cx.check(isinstance(e, Exception), 'reported')


def store(cx, target, times):
    """what write_config stored is what get_config returns"""
    pkg = cx.package_copy()
    h, ud = where(cx, 'h', True)
    os.mkdir(ud)
    old = dict(DEFAULT, Path='/old')
    cfg = cx.mod('dispersion.config')
    start = {'user': ud, 'package': pkg, 'explicit': None}[target]
    if start is not None:
        with open(os.path.join(start, 'config.yaml'), 'w', encoding='utf8') as f:
            f.write(yaml.dump(old))
    for i in range(times):
        conf = arbitrary(cx, str(i))
        if start is None:
            cx.ok('write', cfg.write_config, conf, dir_path=ud)
        else:
            cx.ok('write', cfg.write_config, conf)
        same(cx, cx.ok('get_config', cx.D.get_config), conf, 'stored configuration')
    where_ = [d for d in (ud, pkg) if os.path.isfile(os.path.join(d, 'config.yaml'))]
    cx.check(where_ == [start or ud], 'stored in one place')


SINGLE = [(f,) for f in FIELDS]
PAIRS = [(a, b) for i, a in enumerate(FIELDS) for b in list(FIELDS)[i + 1:]]
TRIPLES = [('Interactive', 'Modules.UserData', 'ReferenceSpectrum.Value'), ('Path', 'File', 'WarnMissingPackages'),
           ('ReferenceSpectrum.Value', 'ReferenceSpectrum.SpectrumType', 'ReferenceSpectrum.Unit'),
           ('Modules', 'Modules.UserData', 'Modules.Filmetrics')]
HARNESSES = [
    H(validate, [dict(fields=f) for f in SINGLE + PAIRS[::4]], thorough=[dict(fields=f) for f in SINGLE + PAIRS + TRIPLES],
      bounds='every field (thorough: every pair of fields; quick: a quarter of the pairs) replaced by a value of every kind, or removed'),
    H(catalogue_refuses, [dict(fields=f) for f in SINGLE], thorough=[dict(fields=f) for f in SINGLE + PAIRS],
      bounds='every field replaced by a value of every kind'),
    H(get, [dict(), dict(config_home=False), dict(home='a b'), dict(home='a #b'), dict(home='a: b'), dict(home="it's")],
      bounds='every presence combination of the two files; arbitrary strings of 2-3 characters in them'),
    H(both, bounds='both files present'),
    H(folder, [dict()], bounds="a folder named config.yaml"),
    H(small, bounds='a short file of the user'),
    H(broken, bounds='five files that are no YAML'),
    H(store, [dict(target=t, times=n) for t in ('user', 'package', 'explicit') for n in (1, 2)],
      bounds='one or two successive writes of arbitrary configurations'),
]
ASSUMPTIONS = ['PyYAML reads back the strings, numbers and flags it wrote',
               'file names: a fixed list of usable and unusable ones (the operating system decides)']
