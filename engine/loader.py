"""Loads /repo's current source for symbolic execution.

The source files are read from the working tree, their AST is rewritten so that
calls, comparisons and lookups go through the hooks below, and they are executed
as ordinary Python modules whose imports of numpy, scipy.interpolate, math,
pandas.read_csv and matplotlib resolve to the models in this package.
Modules are executed afresh for every explored path.
"""
import ast
import builtins
import os
import sys
import types
import numpy as np
from . import core, symnp, symstr, stubs
from .core import SymFloat, SymBool, SymComplex, SymFP, is_sym
from .symnp import SymArray, asarr

ROOT = os.environ.get('VERIF_SRC', '/repo/src')
PKG = 'dispersion'
_CODE = {}
_BYSRC = {}


class Rewrite(ast.NodeTransformer):
    SKIP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in self.SKIP:
                return node
            new = ast.Call(func=ast.Name('__vc__', ast.Load()), args=[f] + node.args, keywords=node.keywords)
        elif isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            new = ast.Call(func=ast.Name('__vm__', ast.Load()),
                           args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords)
        else:
            new = ast.Call(func=ast.Name('__vc__', ast.Load()), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0]).__name__
            if op in ('Eq', 'NotEq', 'In', 'NotIn'):
                new = ast.Call(func=ast.Name('__vcmp__', ast.Load()),
                               args=[ast.Constant(op), node.left, node.comparators[0]], keywords=[])
                return ast.copy_location(new, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            new = ast.Call(func=ast.Name('__vg__', ast.Load()), args=[node.value, node.slice], keywords=[])
            return ast.copy_location(new, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            new = ast.Call(func=ast.Name('__vmod__', ast.Load()), args=[node.left, node.right], keywords=[])
            return ast.copy_location(new, node)
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node


def code_for(path, canon=None):
    canon = canon or path
    if path not in _CODE:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        if src in _BYSRC:            # scratch copy of the package
            return _BYSRC[src]
        tree = Rewrite().visit(ast.parse(src, canon))
        ast.fix_missing_locations(tree)
        _CODE[path] = _CODE[canon] = compile(tree, canon, 'exec', dont_inherit=True)
        if src:
            _BYSRC[src] = _CODE[path]
    return _CODE[path]


# ------------------------------------------------------------------------ hooks
def to_float(x):
    t = type(x)
    if t is SymFloat:
        return SymFloat(x.t, False, True)
    if t is SymFP:
        return x
    if t is SymBool:
        return SymFloat(x.num().t, False, True)
    if t is SymArray:
        if x.a.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return to_float(x.a.reshape(-1)[0])
    if t is SymComplex:
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if t is str:
        v = core.untoken(x)
        if v is not None:
            return to_float(v)
        if symstr.has(x):
            if not bool(symstr.allch(lambda c: symstr.ch_in(c, '0123456789+-.eEinfatyINFATY_' + symstr.WS), x)):
                raise ValueError("could not convert string to float")
            return float(symstr.realize(x))
    return float(x)


def to_int(x):
    t = type(x)
    if t is SymFloat:
        if x.is_int:
            return SymFloat(x.t, True, True)
        return SymFloat(core.CUR.trunc(x.t), True, True)
    if t is SymArray:
        return to_int(x.a.reshape(-1)[0])
    if t is str:
        v = core.untoken(x)
        if v is not None:
            if type(v) is SymFloat and v.is_int:
                return SymFloat(v.t, True, True)
            raise ValueError("invalid literal for int() with base 10")
        if symstr.has(x):
            if not bool(symstr.allch(lambda c: symstr.ch_in(c, '0123456789+-_' + symstr.WS), x)):
                raise ValueError("invalid literal for int() with base 10")
            return int(symstr.realize(x))
    return int(x)


def vc(f, *a, **k):
    """a call f(*a, **k) in the code under test"""
    if isinstance(f, type):
        if f is float and len(a) == 1:
            return to_float(a[0])
        if f is int and len(a) == 1 and not k:
            return to_int(a[0])
        if f is type and len(a) == 1:
            x = a[0]
            return x.__class__ if is_sym(x) or type(x) is SymArray else type(x)
        if f is complex and any(is_sym(x) for x in a):
            if len(a) == 1:
                return symnp.cast_elem(a[0], 'c')
            return core.c_op('+', core.c_lift(a[0]), core.c_op('*', core.c_lift(a[1]), 1j))
        if f is map and a and a[0] in (float, int):
            g = a[0]
            return map(lambda x: vc(g, x), *a[1:])
        if f is bool and len(a) == 1:
            return bool(a[0])
        if f in (list, tuple, set, dict, range, enumerate, zip, str):
            return f(*a, **k)
        if issubclass(f, np.generic) and len(a) == 1:
            x = a[0]
            if is_sym(x):
                return symnp.cast_elem(x, symnp.kind_of(f), f)
            if type(x) is SymArray:
                return x.astype(f)
            if type(x) is str and core.untoken(x) is not None:
                return symnp.cast_elem(x, symnp.kind_of(f), f)
            return f(x)
        return f(*a, **k)
    if f is getattr and len(a) >= 2 and type(a[1]) is str and symstr.has(a[1]):
        for key in dir(a[0]):
            if len(key) == len(a[1]) and bool(symstr.eq(a[1], key)):
                return getattr(a[0], key)
        if len(a) > 2:
            return a[2]
        raise AttributeError(a[1])
    if f is hasattr and len(a) == 2 and type(a[1]) is str and symstr.has(a[1]):
        return any(len(key) == len(a[1]) and bool(symstr.eq(a[1], key)) for key in dir(a[0]))
    if f is os.path.isabs and len(a) == 1 and strlike(a[0]):
        return symstr.method(a[0], 'startswith', ('/',), {})
    if f is sum or f is max or f is min:
        return f(*[list(x) if isinstance(x, types.GeneratorType) else x for x in a], **k)
    return f(*a, **k)


_DICT_KEYED = {'get', 'pop', 'setdefault', '__getitem__', '__contains__'}


_FRAME = ('to_csv', 'round', 'astype')


def frame_sym(o):
    cols = [o] if o.ndim == 1 else [o.iloc[:, i] for i in range(o.shape[1])]
    return any(c.dtype == object and any(type(v) is SymFloat for v in c.values) for c in cols)


def frame_cells(o, f):
    """f on every number of a frame whose number columns hold symbolic cells (object columns in pandas' eyes)"""
    o = o.copy()
    g = lambda v: f(v) if type(v) is SymFloat or type(v) is float else v
    if o.ndim == 1:
        return o.map(g) if frame_sym(o) else o
    for i in range(o.shape[1]):
        c = o.iloc[:, i]
        if c.dtype == object and frame_sym(c):
            o.isetitem(i, type(c)([g(v) for v in c.values], index=c.index, dtype=object))
    return o


def frame_method(o, name, a, k):
    """methods that treat numbers in a way object cells do not get"""
    if name == 'to_csv':
        ff = k.pop('float_format', None)
        if ff is not None:
            one = (lambda v: ff(v)) if callable(ff) else (
                lambda v: ff.format(v) if '%' not in ff else symnp.fmt_number(ff, v))
            nan = k.get('na_rep', '')
            o = frame_cells(o, lambda v: nan if not is_sym(v) and v != v else one(v))
            if not frame_sym(o) and not any(c.dtype.kind == 'f' for c in ([o] if o.ndim == 1 else [o.iloc[:, i] for i in range(o.shape[1])])):
                return o.to_csv(*a, **k)
            return o.to_csv(*a, float_format=ff, **k)
        return o.to_csv(*a, **k)
    if name == 'round':
        d = a[0] if a else k.get('decimals', 0)
        if isinstance(d, dict):
            o = o.copy()
            for c, p in d.items():
                if c in o.columns:
                    o[c] = frame_cells(o[c], lambda v: core.r_round(v, p) if is_sym(v) else round(v, p) if v == v else v)
            return o
        return frame_cells(o.round(*a, **k), lambda v: core.r_round(v, d) if is_sym(v) else round(v, d) if v == v and abs(v) != float('inf') else v)
    want = a[0] if a else k.get('dtype')
    if isinstance(want, dict):
        o = o.copy()
        for c, t in want.items():
            o[c] = vm(o[c], 'astype', t)
        return o
    if o.ndim == 1 and want in (float, 'float', 'float64', np.float64, object, 'object'):
        return o.copy()
    return o.astype(*a, **k)


def vm(o, name, *a, **k):
    """a method call o.name(*a, **k) in the code under test"""
    t = type(o)
    if t is str:
        if symstr.has(o) or any(type(x) is str and symstr.has(x) for x in a) \
                or any(type(x) is tuple and any(symstr.has(y) for y in x) for x in a):
            return symstr.method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict) and name in _DICT_KEYED and a and type(a[0]) is str and symstr.has(a[0]):
        for key in list(o):
            if isinstance(key, str) and bool(symstr.eq(a[0], key)):
                return getattr(o, name)(key, *a[1:], **k)
        return getattr(o, name)(*a, **k)
    if name in _FRAME and t.__name__ in ('DataFrame', 'Series') and frame_sym(o):
        return frame_method(o, name, a, k)
    f = getattr(o, name)
    if isinstance(o, types.ModuleType):
        if o is os.path and name == 'isabs':
            return vc(f, *a, **k)
        if o.__name__ == 're' and any(type(x) is str and symstr.has(x) for x in a):
            return f(*[symstr.realize(x) if type(x) is str else x for x in a], **k)
    if isinstance(f, type):
        return vc(f, *a, **k)
    return f(*a, **k)


def strlike(x):
    return type(x) is str and symstr.has(x)


def elems(c):
    if isinstance(c, np.ndarray) and type(c) is not SymArray:
        return list(c.ravel())
    if type(c) is SymArray:
        return list(c.a.ravel())
    return list(c)


def has_symstr_elems(c):
    if isinstance(c, (list, tuple, set, frozenset, dict)) or hasattr(c, '__len__') and hasattr(c, '__iter__'):
        try:
            return any(type(e) is str and symstr.has(e) for e in c)
        except TypeError:
            return False
    return False


def vcmp(op, a, b):
    if op == 'Eq' or op == 'NotEq':
        sa, sb = strlike(a), strlike(b)
        if (sa and isinstance(b, str)) or (sb and isinstance(a, str)):
            r = symstr.eq(a, b)
            return r if op == 'Eq' else (core.b_not(r) if type(r) is SymBool else not r)
        # arrays of strings
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str) and not isinstance(x, str) and hasattr(x, '__len__') \
                    and (strlike(y) or has_symstr_elems(x)):
                if type(x).__module__.startswith('pandas') and not hasattr(x, '_ndarray') and hasattr(x, 'index') \
                        and not isinstance(x, list):
                    import pandas as pd
                    vals = [bool(symstr.eq(e, y)) if isinstance(e, str) else False for e in x]
                    s = pd.Series(vals, index=x.index) if isinstance(x, pd.Series) else np.array(vals)
                    return s if op == 'Eq' else ~s
                els = elems(x)
                r = np.array([bool(symstr.eq(e, y)) if isinstance(e, str) else False for e in els], dtype=bool)
                return r if op == 'Eq' else ~r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                (has_symstr_elems(a) or has_symstr_elems(b)):
            if type(a) is not type(b) or len(a) != len(b):
                return op != 'Eq'
            r = all(bool(vcmp('Eq', x, y)) for x, y in zip(a, b))
            return r if op == 'Eq' else not r
        if isinstance(a, dict) and isinstance(b, dict) and \
                (has_symstr_elems(a.values()) or has_symstr_elems(b.values())):
            r = set(a) == set(b) and all(bool(vcmp('Eq', a[k], b[k])) for k in a)
            return r if op == 'Eq' else not r
        return a == b if op == 'Eq' else a != b
    # membership
    neg = op == 'NotIn'
    if isinstance(b, str):
        if isinstance(a, str) and (symstr.has(a) or symstr.has(b)):
            r = symstr.contains(b, a)
        else:
            r = a in b
    elif isinstance(a, str) and (symstr.has(a) or has_symstr_elems(b)):
        r = core.b_or(*[symstr.eq(a, e) for e in elems(b) if isinstance(e, str)])
        r = r if type(r) is SymBool else bool(r)
    else:
        r = a in b
    if neg:
        return core.b_not(r) if type(r) is SymBool else not r
    return r


def vg(o, i):
    if type(i) is str and symstr.has(i) and isinstance(o, dict):
        for key in list(o):
            if isinstance(key, str) and bool(symstr.eq(i, key)):
                return o[key]
        raise KeyError(i)
    return o[i]


def vmod(a, b):
    if type(a) is str:
        args = b if isinstance(b, tuple) else (b,)
        if any(is_sym(x) for x in args):
            import re
            it = iter(args)
            out = []
            pos = 0
            for m in re.finditer(r'%(\(\w+\))?([#0\- +]*)(\d+)?(\.\d+)?([a-zA-Z%])', a):
                out.append(a[pos:m.start()])
                pos = m.end()
                if m.group(5) == '%':
                    out.append('%')
                    continue
                v = next(it)
                if is_sym(v):
                    if m.group(5) in 'srd' and m.group(4) is None:
                        out.append(str(v))
                    else:
                        out.append(format(v, (m.group(4) or '') + m.group(5)))
                else:
                    out.append(m.group(0) % v)
            out.append(a[pos:])
            return "".join(out)
    return a % b


# ---------------------------------------------------------------------- modules
class Loader:
    def __init__(self, inputs=None):
        self.mods = {}
        self.answers = inputs
        self.printed = []
        self.overrides = {}
        self.root = ROOT
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b['print'] = self.vprint
        b['input'] = self.vinput
        b['__vc__'] = vc
        b['__vm__'] = vm
        b['__vcmp__'] = vcmp
        b['__vg__'] = vg
        b['__vmod__'] = vmod
        self.builtins = b
        self._pd = None

    def vprint(self, *a, **k):
        self.printed.append(a)

    def vinput(self, prompt=''):
        if self.answers is None:
            raise EOFError("EOF when reading a line")
        return self.answers(prompt)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals.get('__package__') or ''
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
            m = self.load(full)
            if fromlist:
                self._from(m, full, fromlist)
                return m
            return m
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                self._from(m, name, fromlist)
                return m
            return self.mods[PKG]
        if name in self.overrides:
            return self.overrides[name]
        top = name.split('.')[0]
        if top == 'numpy':
            if fromlist and name != 'numpy':
                r = symnp.NP
                for p in name.split('.')[1:]:
                    r = getattr(r, p)
                return r
            return symnp.NP
        if name in ('math', 'cmath'):
            return stubs.MATH if name == 'math' else builtins.__import__(name)
        if top == 'scipy':
            if name == 'scipy.interpolate' and fromlist:
                return stubs.INTERP
            if name == 'scipy.constants' and fromlist:
                return stubs._sc
            if name in ('scipy', 'scipy.interpolate', 'scipy.constants'):
                return stubs.SCIPY
            m = builtins.__import__(name, globals, locals, fromlist, 0)
            return stubs.WrapMod(m) if fromlist else stubs.SCIPY
        if top == 'pandas' and name == 'pandas':
            if self._pd is None:
                self._pd = stubs.make_pandas()
            return self._pd
        if top == 'matplotlib' and 'matplotlib' in self.overrides:
            m = self.overrides['matplotlib']
            if fromlist and name != 'matplotlib':
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _from(self, m, name, fromlist):
        for f in fromlist:
            if f != '*' and not hasattr(m, f):
                try:
                    self.load(name + '.' + f)
                except ModuleNotFoundError:
                    pass

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path) and os.path.exists(os.path.join(path, '__init__.py')):
            file, package = os.path.join(path, '__init__.py'), name
        elif os.path.exists(path + '.py'):
            file, package = path + '.py', name.rpartition('.')[0]
        elif os.path.isdir(path):
            file, package = None, name
        else:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__package__ = package
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if file is not None:
            m.__file__ = file
            if package == name:
                m.__path__ = [path]
            try:
                exec(code_for(file, ROOT + file[len(self.root):]), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m


def is_rewritten(path):
    return path in _CODE
