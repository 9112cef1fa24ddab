"""Contracts of library code that is not executed symbolically (all listed in
the evidence of every check that uses them)."""
import builtins
import math
import numpy as np
import z3
import scipy
import scipy.interpolate as _si
import scipy.constants as _sc
from . import core, symnp
from .core import SymFloat, SymBool, is_sym, mkreal, b_or, b_and, b_not, r_sqrt, r_fn, r_arctan2
from .symnp import SymArray, asarr, cast_elem, fallback, has_sym

USED = set()


def arr0(f, q, kind='f'):
    """elementwise map that keeps 0-d results as arrays"""
    q = asarr(q)
    out = np.empty(q.a.shape, dtype=object)
    for i in np.ndindex(*q.a.shape):
        out[i] = f(q.a[i])
    return SymArray(out, kind)


class interp1d:
    """scipy.interpolate.interp1d: exact for piecewise linear/constant kinds; a
    spline of order >= 2 is an uninterpreted function of (order, table, point)
    that takes the tabulated values at the tabulated points"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan,
                 assume_sorted=False):
        USED.add('scipy.interpolate.interp1d')
        x, y = symnp.NP.array(x), symnp.NP.array(y)
        if x.a.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.a.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        if y.a.ndim != 1:
            raise core.PathLimit("interp1d with a multi-dimensional table")
        if len(x.a) != len(y.a):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        order = None
        if isinstance(kind, str):
            names = {'zero': 0, 'slinear': 1, 'quadratic': 2, 'cubic': 3}
            if kind in names:
                order = names[kind]
            elif kind not in ('linear', 'nearest', 'nearest-up', 'previous', 'next'):
                raise NotImplementedError("%s is unsupported: Use fitpack routines for other types." % kind)
        elif isinstance(kind, (int, np.integer)) and not is_sym(kind):
            order = int(kind)
        else:
            raise NotImplementedError("%s is unsupported" % (kind,))
        self.kind, self.order = kind, order
        if not assume_sorted:
            p = symnp.order_perm(list(x.a))
            x, y = x[p], y[p]
        self.x, self.y = x, y
        n = len(x.a)
        need = 1 if order is None else order + 1
        if kind == 'linear':
            need = 1
        if n < need:
            raise ValueError("x and y arrays must have at least %d entries" % need)
        if order is not None and order >= 1:
            for i in range(n - 1):
                if bool(x.a[i] == x.a[i + 1]):
                    raise ValueError("Expect x to not have duplicates")
        self.extrapolate = isinstance(fill_value, str) and fill_value == 'extrapolate'
        self.fill_value = fill_value
        self.bounds_error = (not self.extrapolate and isinstance(fill_value, float) and math.isnan(fill_value)) \
            if bounds_error is None else bounds_error

    def __call__(self, q):
        return arr0(self._one, q)

    def _one(self, q):
        xs, ys = list(self.x.a), list(self.y.a)
        n = len(xs)
        if not is_sym(q) and math.isnan(q):
            return np.float64('nan')
        if not self.extrapolate:
            lo, hi = bool(q < xs[0]), False
            if not lo:
                hi = bool(q > xs[-1])
            if (lo or hi) and self.bounds_error:
                raise ValueError("A value (%s) in x_new is %s the interpolation range's %s value (%s)." %
                                 (q, 'below' if lo else 'above', 'minimum' if lo else 'maximum',
                                  xs[0] if lo else xs[-1]))
            if lo or hi:
                fv = self.fill_value
                if isinstance(fv, (tuple, list)) and len(fv) == 2:
                    fv = fv[0] if lo else fv[1]
                return cast_elem(fv, 'f')
        if self.kind in ('nearest', 'nearest-up', 'previous', 'next') or self.order == 0:
            return self._step(q, xs, ys)
        if self.order is None or self.order == 1:
            if n == 1:
                return ys[0]
            i = 0
            while i < n - 2 and not bool(q <= xs[i + 1]):
                i += 1
            x0, x1, y0, y1 = xs[i], xs[i + 1], ys[i], ys[i + 1]
            with np.errstate(all='ignore'):
                slope = (y1 - y0) / (x1 - x0)
                return cast_elem(slope * (q - x0) + y0, 'f')
        name = 'spline%d_%d' % (self.order, n)
        v = core.CUR.fn(name, *[core.num_term(t) for t in xs + ys + [q]])
        for a, b in zip(xs, ys):
            core.CUR.pc.append(z3.Implies(core.num_term(q) == core.num_term(a), v == core.num_term(b)))
        core.CUR.model = None
        return mkreal(v)

    def _step(self, q, xs, ys):
        i = 0
        n = len(xs)
        if self.kind in ('previous', 'zero') or self.order == 0:
            while i < n - 1 and bool(q >= xs[i + 1]):
                i += 1
            return ys[i]
        if self.kind == 'next':
            while i < n - 1 and bool(q > xs[i]):
                i += 1
            return ys[i]
        while i < n - 1 and bool(q > (xs[i] + xs[i + 1]) / 2.0 if self.kind == 'nearest'
                                 else q >= (xs[i] + xs[i + 1]) / 2.0):
            i += 1
        return ys[i]


class Tck(tuple):
    pass


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    """scipy.interpolate.splrep: a spline through increasing points; its values
    are an uninterpreted function of (order, points, values, query); order 1 is
    the exact broken line, continued beyond its ends"""
    USED.add('scipy.interpolate.splrep/splev')
    x, y = symnp.NP.array(x), symnp.NP.array(y)
    if x.a.ndim != 1 or x.a.shape != y.a.shape:
        raise TypeError("Lengths of the first three arguments (x,y,w) must be equal")
    k = int(k)
    if not 1 <= k <= 5:
        raise TypeError("Given degree of the spline (k=%d) is not supported. (1<=k<=5)" % k)
    n = len(x.a)
    if n <= k:
        raise TypeError("m > k must hold")
    for i in range(n - 1):
        if not bool(x.a[i] < x.a[i + 1]):
            raise ValueError("Error on input data")
    if y.kind == 'c':
        raise TypeError("complex data")
    core.CUR.stats.note('splrep of order %d' % k)
    return Tck((x, y, k))


def splev(q, tck, der=0, ext=0):
    if not isinstance(tck, Tck):
        return fallback(_si.splev, 'scipy.interpolate.splev')(q, tck, der, ext)
    x, y, k = tck
    xs, ys = list(x.a), list(y.a)

    def one(v):
        if int(ext) != 0:
            lo, hi = bool(v < xs[0]), bool(v > xs[-1])
            if lo or hi:
                if int(ext) == 1:
                    return np.float64(0.0)
                if int(ext) == 2:
                    raise ValueError("Invalid input data")
                return ys[0] if lo else ys[-1]
        if not is_sym(v) and not math.isfinite(v):
            return np.float64('nan')
        if k == 1 and der == 0:          # piecewise linear, exact
            i, last = 0, len(xs) - 2
            while i < last:
                mid = (i + last) // 2
                if bool(v <= xs[mid + 1]):
                    last = mid
                else:
                    i = mid + 1
            return cast_elem(ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i]), 'f')
        t = core.CUR.fn('splev%d_%d_%d' % (k, len(xs), int(der)), *[core.num_term(e) for e in xs + ys + [v]])
        if der == 0:
            for a, b in zip(xs, ys):
                core.CUR.pc.append(z3.Implies(core.num_term(v) == core.num_term(a), t == core.num_term(b)))
            core.CUR.model = None
        return mkreal(t)
    return arr0(one, q)


class Mod:
    """module stand-in: given attributes first, then the real module"""

    def __init__(self, real, **over):
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            return getattr(self._real, name)
        r = getattr(self._real, name)
        return r


class WrapMod(Mod):
    """unmodelled functions concretise their symbolic arguments"""

    def __getattr__(self, name):
        r = getattr(self._real, name)
        if callable(r) and not isinstance(r, type):
            return fallback(r, self._real.__name__ + '.' + name)
        return r


INTERP = WrapMod(_si, interp1d=interp1d, splrep=splrep, splev=splev)
SCIPY = Mod(scipy, interpolate=INTERP, constants=_sc)


# ----------------------------------------------------------------------- math
class _Math:
    __name__ = 'math'

    def __getattr__(self, name):
        r = getattr(math, name)
        if not callable(r):
            return r

        def call(*a):
            if not any(is_sym(x) or type(x) is SymArray for x in a):
                return r(*a)
            return fallback(r, 'math.' + name)(*a)
        return call

    @staticmethod
    def _py(x):
        return SymFloat(x.t, False, True) if type(x) is SymFloat else (float(x) if not is_sym(x) else x)

    def sqrt(self, x):
        if not is_sym(x):
            return math.sqrt(x)
        if bool(x < 0):
            raise ValueError("math domain error")
        return self._py(r_sqrt(x))

    def pow(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return math.pow(a, b)
        return self._py(cast_elem(a, 'f') ** b)

    def log(self, x, base=None):
        if not is_sym(x):
            return math.log(x) if base is None else math.log(x, base)
        if bool(x <= 0):
            raise ValueError("math domain error")
        r = self._py(r_fn('log', x))
        return r if base is None else r / math.log(base)

    def exp(self, x):
        return math.exp(x) if not is_sym(x) else self._py(r_fn('exp', x))

    def atan(self, x):
        return math.atan(x) if not is_sym(x) else self._py(r_fn('arctan', x))

    def atan2(self, y, x):
        return math.atan2(y, x) if not is_sym(x) and not is_sym(y) else self._py(r_arctan2(y, x))

    def fabs(self, x):
        return abs(self._py(x))

    def isinf(self, x):
        return bool(symnp.s_isinf(x))

    def isnan(self, x):
        return bool(symnp.s_isnan(x))

    def isfinite(self, x):
        return not (self.isinf(x) or self.isnan(x))

    def isclose(self, a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not is_sym(a) and not is_sym(b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        for p in (a, b):
            if not is_sym(p) and not math.isfinite(p):
                return False
        d = abs(a - b)
        return bool(b_or(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol))

    def floor(self, x):
        return math.floor(x) if not is_sym(x) else int(x // 1)

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def fsum(self, xs):
        r = 0.0
        for x in xs:
            r = r + x
        return r

    def hypot(self, *xs):
        return self.sqrt(self.fsum([x * x for x in xs]))


MATH = _Math()


# --------------------------------------------------------------------- pandas
def make_pandas():
    import pandas as pd

    def read_csv(path, *a, **k):
        """pandas.read_csv: a numeric column whose text holds symbolic numbers
        is parsed cell by cell, everything else by pandas itself"""
        try:
            with open(path, encoding='utf-8') as f:
                txt = f.read()
        except TypeError:
            return pd.read_csv(path, *a, **k)
        if not any(ord(c) >= symnp.core.TOK0 for c in txt):
            return pd.read_csv(path, *a, **k)
        USED.add('pandas.read_csv')
        dt = dict(k.get('dtype') or {})
        num = [c for c, t in dt.items() if t not in (str, object)]
        k2 = dict(k)
        k2['dtype'] = {c: (object if c in num else t) for c, t in dt.items()}
        na = k2.pop('na_values', None)
        na = dict(na) if isinstance(na, dict) else {}
        k2['na_values'] = {c: v for c, v in na.items() if c not in num}
        if not k2['na_values']:
            k2.pop('na_values')
        df = pd.read_csv(path, *a, **k2)

        def cell(c):
            def f(v):
                if isinstance(v, float):
                    return v
                if v in (na.get(c) or []) or v == 'nan':
                    return float('nan')
                return symnp.parse_float(v)
            return f
        for c in num:
            if c in df.columns:
                df[c] = pd.Series([cell(c)(v) for v in df[c]], index=df.index, dtype=object)
        return df
    return Mod(pd, read_csv=read_csv)
