"""What a harness sees.  One harness text serves two executions:

SymCtx   the package is loaded by engine.loader, inputs are symbolic and every
         check is a solver query over all inputs that take the current path;
RealCtx  the unmodified package is imported and the harness runs on one concrete
         assignment of the inputs (replay of witnesses and counterexamples).
"""
import math
import os
import shutil
import sys
import tempfile
import numpy as np
from . import core

TMPROOT = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
_real_np = np


class Skip(BaseException):
    """replay input outside the harness' assumptions"""


class ReplayHang(BaseException):
    pass


class Base:
    sym = False

    def __init__(self):
        self._tmp = None
        self._n = 0

    # ------------------------------------------------------------- scratch
    def tmp(self):
        """a fresh scratch directory (removed at the end of the path)"""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vp_', dir=TMPROOT)
        self._n += 1
        d = os.path.join(self._tmp, 'd%d' % self._n)
        os.mkdir(d)
        return d

    def setenv(self, name, value):
        if not hasattr(self, '_env'):
            self._env = []
        self._env.append((name, os.environ.get(name)))
        os.environ[name] = value

    def package_copy(self):
        """runs the package from a scratch copy of its source, whose package
        directory can be written to; to be called before the package is used"""
        from . import loader
        root = self.tmp()
        shutil.copytree(os.path.join(loader.ROOT, 'dispersion'), os.path.join(root, 'dispersion'),
                        ignore=shutil.ignore_patterns('__pycache__', 'config.yaml'))
        self._use_root(root)
        return os.path.join(root, 'dispersion')

    def close_ctx(self):
        for name, old in reversed(getattr(self, '_env', [])):
            if old is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = old
        self._env = []
        if self._tmp is not None and os.path.basename(self._tmp).startswith('vp_'):
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # ------------------------------------------------------------ utilities
    def attempt(self, f, *a, **k):
        """-> (value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as exc:          # BaseExceptions steer the engine
            return None, exc

    def raises(self, label, exc_types, f, *a, **k):
        v, e = self.attempt(f, *a, **k)
        self.check(e is not None and isinstance(e, exc_types), label,
                   note='raised %s' % type(e).__name__ if e is not None else 'returned')
        return e

    def ok(self, label, f, *a, **k):
        """f must not raise; returns its value (the path ends if it raises)"""
        v, e = self.attempt(f, *a, **k)
        if e is not None:
            self.check(False, label, note='raised %s: %s' % (type(e).__name__, str(e)[:200]))
            raise core.PathAbort()
        self.check(True, label)
        return v

    def reals(self, name, n, lo=None, hi=None, **k):
        return [self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)]

    def flat(self, x):
        """list of scalars of a scalar/array/list"""
        if self.sym:
            from . import symnp
            if type(x) is symnp.SymArray:
                return list(x.a.ravel())
            if core.is_sym(x):
                return [x]
        if isinstance(x, np.ndarray):
            return list(x.ravel())
        if isinstance(x, (list, tuple)):
            out = []
            for e in x:
                out += self.flat(e)
            return out
        return [x]

    def is_scalar(self, x):
        return self.np.ndim(x) == 0

    def check_close(self, got, want, label, rel=1e-9, abs_=0.0, scale=None):
        """got == want within |got-want| <= abs_ + rel*max(|want|, scale)"""
        g, w = self.flat(got), self.flat(want)
        if len(g) != len(w):
            self.check(False, label + ' (number of values)', note='%d values, expected %d' % (len(g), len(w)))
            return
        for i, (a, b) in enumerate(zip(g, w)):
            self._check_close1(a, b, label if len(g) == 1 else '%s[%d]' % (label, i), rel, abs_, scale)


def parts(x):
    if type(x) is core.SymComplex:
        return x.re, x.im
    if isinstance(x, (complex, np.complexfloating)) and type(x) is not core.SymComplex:
        return np.float64(x.real), np.float64(x.imag)
    return x, None


# ======================================================================= sym
class SymCtx(Base):
    sym = True

    def __init__(self, run, seed=0):
        super().__init__()
        from . import loader, symnp
        self.run = run
        self.np = symnp.NP
        self.loader = loader.Loader()
        self.seed = seed
        self._D = None

    @property
    def D(self):
        if self._D is None:
            self._D = self.loader.load('dispersion')
        return self._D

    def mod(self, name):
        self.D
        return self.loader.load(name)

    def _input(self, name, value):
        # two inputs of one name would be one variable: every claim would be about fewer inputs
        if name in self.run.inputs:
            raise AssertionError('harness declares the input %r twice' % name)
        self.run.inputs[name] = value

    def override(self, name, obj):
        self.loader.overrides[name] = obj

    def _use_root(self, root):
        self.loader.root = root

    def answers(self, f):
        self.loader.answers = f

    def real(self, name, lo=None, hi=None, py=False, open_=False):
        import z3
        v = z3.Real(name)
        self._input(name, ('real', v))
        self.run.ranges[name] = (lo, hi)
        if lo is not None:
            self.run.assume(v > core.RV(lo) if open_ else v >= core.RV(lo))
        if hi is not None:
            self.run.assume(v < core.RV(hi) if open_ else v <= core.RV(hi))
        return core.SymFloat(v, False, py)

    def pyfloat(self, name, lo=None, hi=None, **k):
        return self.real(name, lo, hi, py=True, **k)

    def int(self, name, lo, hi, py=True):
        import z3
        v = z3.Int(name)
        self._input(name, ('int', v))
        self.run.ranges[name] = (lo, hi)
        self.run.assume(v >= lo)
        self.run.assume(v <= hi)
        return core.SymFloat(z3.ToReal(v), True, py)

    def fp(self, name, lo, hi):
        import z3
        v = z3.FP(name, core.FP)
        self.run.kind = 'fp'
        self._input(name, ('fp', v))
        self.run.ranges[name] = (lo, hi)
        self.run.assume(z3.fpGEQ(v, core.FPV(lo)))
        self.run.assume(z3.fpLEQ(v, core.FPV(hi)))
        return core.SymFP(v)

    def bool(self, name):
        import z3
        v = z3.Bool(name)
        self._input(name, ('bool', v))
        return self.run.branch(v)

    def choice(self, name, options):
        """one of the options, every one explored"""
        import z3
        options = list(options)
        v = z3.Int(name)
        self._input(name, ('int', v))
        self.run.ranges[name] = (0, len(options) - 1)
        self.run.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.run.branch(v == i):
                return options[i]
        return options[-1]

    def string(self, name, n, alphabet=((32, 126),)):
        """n arbitrary characters out of the code point ranges"""
        import z3
        from . import symstr
        out, terms = [], []
        for i in range(n):
            t = z3.Int('%s!c%d' % (name, i))
            self.run.assume(z3.Or([z3.And(t >= a, t <= b) for a, b in alphabet]))
            terms.append(t)
            out.append(symstr.new_char(t))
        self._input(name, ('str', terms))
        return "".join(out)

    def data(self, name, v):
        """a concrete input recorded for the replay"""
        self._input(name, ('data', v))
        return v

    def arr(self, xs):
        return self.np.array(xs)

    def assume(self, c):
        self.run.assume(c)

    def sqrt(self, x):
        return core.r_sqrt(x)

    def csqrt(self, x):
        return core.c_sqrt(x)

    def fn(self, name, x):
        return core.r_fn(name, x)

    def either(self, *cs):
        return core.b_or(*cs)

    def both(self, *cs):
        return core.b_and(*cs)

    def not_(self, c):
        return core.b_not(c)

    def implies(self, a, b):
        return core.b_or(core.b_not(a), b)

    def streq(self, a, b):
        from . import loader
        return loader.vcmp('Eq', a, b)

    def smeth(self, s, name, *a):
        """string method on a possibly symbolic string"""
        from . import loader
        return loader.vm(s, name, *a)

    def sin(self, a, b):
        from . import loader
        return loader.vcmp('In', a, b)

    def isbad(self, x):
        """NaN (or a complex value with a NaN part)"""
        return any((not core.is_sym(p)) and p is not None and math.isnan(p) for p in parts(x))

    def check(self, c, label, note=None):
        self.run.note_for = note
        return self.run.check(c, label)

    def _check_close1(self, a, b, label, rel, abs_, scale):
        if not core.is_num(a) or not core.is_num(b):
            self.check(False, label, note='not a number: %r' % (type(a),))
            return
        ar, ai = parts(a)
        br, bi = parts(b)
        if ai is None and bi is None:
            pairs = [(ar, br)]
        else:
            z = np.float64(0.0)
            pairs = [(ar, br), (ai if ai is not None else z, bi if bi is not None else z)]
        strong, weak, wider = [], [], []
        for x, y in pairs:
            fx = core.is_sym(x) or math.isfinite(x)
            fy = core.is_sym(y) or math.isfinite(y)
            if not fx or not fy:
                same = (not fx) and (not fy) and (x == y or (math.isnan(x) and math.isnan(y)))
                strong.append(np.bool_(same))
                weak.append(np.bool_(same))
                wider.append(np.bool_(same))
                continue
            d = abs(x - y)
            strong.append(x == y)
            m = abs(y)
            if len(pairs) == 2:
                m = abs(br) + abs(bi if bi is not None else 0.0)
            if scale is not None:
                m = m + abs(scale)
            with np.errstate(all='ignore'):
                weak.append(d <= abs_ + rel * m)
                wider.append(d <= 100.0 * abs_ + 100.0 * rel * m)
        S, W, X = core.b_and(*strong), core.b_and(*weak), core.b_and(*wider)
        self.run.wider = X
        self.run.check(S, label, weak=W)
        self.run.wider = None


# ====================================================================== real
class RealCtx(Base):
    sym = False

    def __init__(self, inputs, slack=1.0):
        super().__init__()
        self.inputs = inputs
        self.failed = []
        self.np = _real_np
        self.slack = slack
        self.checks = 0
        self._D = None
        self._saved = []

    @property
    def D(self):
        if self._D is None:
            import importlib
            for m in [m for m in sys.modules if m == 'dispersion' or m.startswith('dispersion.')]:
                del sys.modules[m]
            self._D = importlib.import_module('dispersion')
        return self._D

    def mod(self, name):
        import importlib
        self.D
        return importlib.import_module(name)

    def override(self, name, obj):
        self._saved.append((name, sys.modules.get(name)))
        sys.modules[name] = obj

    def _use_root(self, root):
        self._path = list(sys.path)
        sys.path.insert(0, root)
        self._D = None

    def answers(self, f):
        import builtins
        if not hasattr(self, '_inp'):
            self._inp = builtins.input
        builtins.input = f

    def close_ctx(self):
        super().close_ctx()
        if hasattr(self, '_inp'):
            import builtins
            builtins.input = self._inp
        if getattr(self, '_path', None):
            sys.path[:] = self._path
            for m in [m for m in sys.modules if m == 'dispersion' or m.startswith('dispersion.')]:
                del sys.modules[m]
            sys.path_importer_cache.clear()
        for name, old in reversed(self._saved):
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        self._saved = []

    def _get(self, name):
        if name not in self.inputs:
            raise Skip()
        v = self.inputs[name]
        return v

    def real(self, name, lo=None, hi=None, py=False, open_=False):
        v = float(self._get(name))
        if lo is not None and not (v > lo if open_ else v >= lo):
            v = float(lo) if not open_ and v > lo - abs(lo) * 1e-12 else self._skip()
        if hi is not None and not (v < hi if open_ else v <= hi):
            v = float(hi) if not open_ and v < hi + abs(hi) * 1e-12 else self._skip()
        return v if py else np.float64(v)

    def _skip(self):
        raise Skip()

    def pyfloat(self, name, lo=None, hi=None, **k):
        return self.real(name, lo, hi, py=True, **k)

    def int(self, name, lo, hi, py=True):
        v = int(self._get(name))
        if not lo <= v <= hi:
            raise Skip()
        return v if py else np.int64(v)

    def fp(self, name, lo, hi):
        v = float(self._get(name))
        if not lo <= v <= hi:
            raise Skip()
        return np.float64(v)

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        options = list(options)
        i = int(self._get(name))
        if not 0 <= i < len(options):
            raise Skip()
        return options[i]

    def string(self, name, n, alphabet=((32, 126),)):
        s = self._get(name)
        if len(s) != n:
            raise Skip()
        return s

    def data(self, name, v):
        return v

    def arr(self, xs):
        return np.array(xs)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def sqrt(self, x):
        with np.errstate(all='ignore'):
            return np.sqrt(x)

    def csqrt(self, x):
        with np.errstate(all='ignore'):
            return np.sqrt(np.complex128(x))

    def fn(self, name, x):
        with np.errstate(all='ignore'):
            return getattr(np, name)(x)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def streq(self, a, b):
        return a == b

    def smeth(self, s, name, *a):
        return getattr(s, name)(*a)

    def sin(self, a, b):
        return a in b

    def isbad(self, x):
        return bool(np.isnan(x))

    def check(self, c, label, note=None):
        self.checks += 1
        if not bool(c):
            self.failed.append((label, note))
            return False
        return True

    def _check_close1(self, a, b, label, rel, abs_, scale):
        self.checks += 1
        try:
            a, b = complex(a), complex(b)
        except (TypeError, ValueError):
            self.failed.append((label, 'not a number: %r' % (a,)))
            return
        if not (np.isfinite(a) and np.isfinite(b)):
            for x, y in ((a.real, b.real), (a.imag, b.imag)):
                if not (x == y or (math.isnan(x) and math.isnan(y))):
                    self.failed.append((label, 'got %r, expected %r' % (a, b)))
                    return
            return
        m = abs(b.real) + abs(b.imag)
        if scale is not None:
            m += abs(scale)
        tol = (abs_ + rel * m) * self.slack + 1e-13 * m
        if abs(a.real - b.real) > tol or abs(a.imag - b.imag) > tol:
            self.failed.append((label, 'got %r, expected %r (tolerance %.3g)' % (a, b, tol)))
