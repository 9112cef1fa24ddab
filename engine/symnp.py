"""numpy as seen by the code under test: arrays whose elements may be symbolic.

SymArray wraps an object ndarray (so views, slices and in-place writes alias
exactly as in numpy) plus a kind tag (b, i, f, c, O, U) that drives result types
and casting.  NP is the stand-in for the `numpy` module: functions that matter
are implemented over SymArray; any other function concretises its symbolic
arguments (recorded as a partial path) and calls numpy itself.
"""
import builtins
import functools
import io as _io
import math
import os
import numpy as np
import z3
from fractions import Fraction
from . import core
from .core import (SymFloat, SymBool, SymComplex, SymFP, is_sym, is_num, mkbool, mkreal, b_and, b_or,
                   b_not, r_op, c_op, c_sqrt, r_sqrt, r_round, r_fn, r_arctan2, r_min, r_max, ite,
                   c_lift, c_mk, PathLimit)

KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'U': 4, 'O': 5}
KDT = {'b': np.dtype(bool), 'i': np.dtype(np.int64), 'f': np.dtype(np.float64),
       'c': np.dtype(np.complex128), 'O': np.dtype(object), 'U': np.dtype('<U1')}
F32REL = Fraction(6, 10 ** 8)


def kind_of(dt):
    if dt is None:
        return None
    k = np.dtype(dt).kind
    return {'u': 'i', 'S': 'U'}.get(k, k)


def is32(dt):
    if dt is None:
        return False
    d = np.dtype(dt)
    return (d.kind == 'f' and d.itemsize < 8) or (d.kind == 'c' and d.itemsize < 16)


def elem_kind(x):
    t = type(x)
    if t is SymFloat:
        return 'i' if x.is_int else 'f'
    if t is SymBool:
        return 'b'
    if t is SymComplex:
        return 'c'
    if t is SymFP:
        return 'f'
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, str):
        return 'U'
    return 'O'


def cast_elem(x, kind, dt=None):
    """element x stored into an array of the given kind"""
    k = elem_kind(x)
    t = type(x)
    if kind == 'f':
        if k == 'U':
            v = core.untoken(x)
            return v if v is not None else np.float64(x)
        if k == 'c':
            x = x.real
            t = type(x)
        if t is SymFP:
            return x
        if t is SymBool:
            x = x.num()
            t = SymFloat
        if t is SymFloat:
            if dt is not None and is32(dt):
                return mkreal(core.CUR.rel_rounded(x.t, F32REL))
            return SymFloat(x.t, False, False)
        if k == 'O':
            return np.float64(x)
        v = np.float64(x)
        return np.float64(np.dtype(dt).type(v)) if dt is not None and is32(dt) else v
    if kind == 'i':
        if t is SymFloat:
            if x.is_int:
                return SymFloat(x.t, True, False)
            return SymFloat(core.CUR.trunc(x.t), True, False)
        if t is SymBool:
            return x.num()
        if t is SymFP:
            x = np.float64(float(x))
        if k == 'f':
            if not math.isfinite(x):
                if math.isnan(x):
                    raise ValueError("cannot convert float NaN to integer")
                raise OverflowError("cannot convert float infinity to integer")
        if k == 'c':
            raise TypeError("int() argument must be a string or a real number, not 'complex'")
        return int(x)
    if kind == 'c':
        if is_sym(x):
            c = c_lift(x)
            if t is not SymComplex:
                c = SymComplex(cast_elem(c.re, 'f'), c.im)
            return c
        return np.complex128(x)
    if kind == 'b':
        if t is SymBool:
            return x
        if is_sym(x):
            return mkbool(b_not(x == 0).t) if type(b_not(x == 0)) is SymBool else np.bool_(b_not(x == 0))
        return np.bool_(x)
    return x


def as_scalar(x, kind):
    """array element leaving an array (numpy scalar types)"""
    if kind == 'i' and isinstance(x, int) and not isinstance(x, bool) and not is_sym(x):
        return np.int64(x)
    return x


def has_sym(x):
    if is_sym(x):
        return True
    if type(x) is SymArray:
        return any(is_sym(e) for e in x.a.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def conc_scalar(x):
    t = type(x)
    if t is SymFloat:
        v = core.CUR.realize(x.t, 'symbolic number passed to an unmodelled operation')
        return (int(v) if x.is_int else float(v)) if x.py else (np.int64(v) if x.is_int else np.float64(v))
    if t is SymBool:
        return np.bool_(bool(x))
    if t is SymComplex:
        return np.complex128(complex(conc_scalar(x.re), conc_scalar(x.im)))
    if t is SymFP:
        return np.float64(float(x))
    return x


def conc(x):
    """concrete counterpart of any argument (records the concretisation)"""
    if is_sym(x):
        return conc_scalar(x)
    if type(x) is SymArray:
        return x.concrete()
    if isinstance(x, tuple):
        return tuple(conc(e) for e in x)
    if isinstance(x, list):
        return [conc(e) for e in x]
    if isinstance(x, dict):
        return {k: conc(v) for k, v in x.items()}
    return x


def lift(x):
    if isinstance(x, np.ndarray) and type(x) is not SymArray:
        return asarr(x)
    if type(x) is tuple:
        return tuple(lift(e) for e in x)
    if type(x) is list:
        return [lift(e) for e in x]
    return x


class SymArray:
    __slots__ = ('a', 'kind', 'f32')
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, a, kind, f32=None):
        self.a = a
        self.kind = kind
        self.f32 = f32

    @property
    def __class__(self):
        return np.ndarray

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return np.dtype(self.f32) if self.f32 else KDT[self.kind]

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.a.size

    @property
    def flags(self):
        return self.a.flags

    @property
    def base(self):
        return self.a.base

    @property
    def T(self):
        return SymArray(self.a.T, self.kind)

    @property
    def flat(self):
        return (as_scalar(e, self.kind) for e in self.a.flat)

    @property
    def real(self):
        if self.kind != 'c':
            return self
        return emap(lambda x: x.real, self, 'f')

    @property
    def imag(self):
        if self.kind != 'c':
            return emap(lambda x: np.float64(0), self, 'f')
        return emap(lambda x: x.imag, self, 'f')

    def concrete(self):
        if self.kind == 'O':
            out = np.empty(self.a.shape, dtype=object)
            for i, e in np.ndenumerate(self.a):
                out[i] = conc_scalar(e)
            return out
        vals = [conc_scalar(e) for e in self.a.flat]
        if self.kind == 'U':
            return np.array(vals, dtype=str).reshape(self.a.shape)
        return np.array(vals, dtype=self.dtype).reshape(self.a.shape)

    def __array__(self, dtype=None, copy=None):
        r = self.concrete()
        return r if dtype is None else r.astype(dtype)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        if self.a.size != 1:
            if self.a.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous."
                             " Use a.any() or a.all()")
        return bool(self.a.reshape(-1)[0])

    def __repr__(self):
        return "array(%s)" % array2string(self, separator=', ')

    def __str__(self):
        return array2string(self)

    def __format__(self, spec):
        if spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return str(self)

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __complex__(self):
        return complex(self._one())

    def __index__(self):
        if self.kind != 'i' or self.a.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._one())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return bool(reduce_any(cmpop('==', self, x)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        # unmodelled method: concretise and delegate
        if not hasattr(np.ndarray, name):
            raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)
        return getattr(self.concrete(), name)

    # ------------------------------------------------------------- indexing
    @staticmethod
    def _idx(idx, arr):
        if type(idx) is SymArray:
            if idx.kind == 'b':
                return np.array([bool(e) for e in idx.a.flat], dtype=bool).reshape(idx.a.shape)
            return np.array([int(e) for e in idx.a.flat], dtype=int).reshape(idx.a.shape)
        if type(idx) is SymFloat:
            return int(idx)
        if type(idx) is SymBool:
            return bool(idx)
        if isinstance(idx, tuple):
            return tuple(SymArray._idx(i, arr) for i in idx)
        if isinstance(idx, list):
            return [SymArray._idx(i, arr) for i in idx]
        return idx

    def __getitem__(self, idx):
        r = self.a[self._idx(idx, self)]
        if isinstance(r, np.ndarray):
            return SymArray(r, self.kind, self.f32)
        return as_scalar(r, self.kind)

    def __setitem__(self, idx, val):
        i = self._idx(idx, self)
        if not self.a.flags.writeable:
            raise ValueError("assignment destination is read-only")
        if type(val) is SymArray:
            v = val.a
        elif isinstance(val, (list, tuple, np.ndarray)):
            v = asarr(val).a
        else:
            self.a[i] = self._cast(val)
            return
        if self.kind != 'c' and any(elem_kind(e) == 'c' for e in v.flat):
            pass        # numpy warns (ComplexWarning) and keeps the real part
        c = np.empty(v.shape, dtype=object)
        for j, e in np.ndenumerate(v):
            c[j] = self._cast(e)
        self.a[i] = c

    def _cast(self, e):
        if self.kind in ('f', 'i') and elem_kind(e) == 'c' and not isinstance(e, np.generic) \
                and type(e) is not SymComplex:
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return cast_elem(e, self.kind, self.f32)

    # ------------------------------------------------------------ operators
    def _b(self, o, op):
        if not operand(o):
            return NotImplemented
        return binop(op, self, o)

    def _r(self, o, op):
        if not operand(o):
            return NotImplemented
        return binop(op, o, self)

    def _i(self, o, op):
        if not operand(o):
            return NotImplemented
        r = binop(op, self, o)
        rk = r.kind if type(r) is SymArray else elem_kind(r)
        if KORD[rk] > KORD[self.kind]:
            raise np._core._exceptions._UFuncOutputCastingError(
                np.add, 'same_kind', KDT[rk], KDT[self.kind], 0)
        ra = r.a if type(r) is SymArray else np.array(r, dtype=object)
        if ra.shape != self.a.shape:
            if np.broadcast_shapes(ra.shape, self.a.shape) != self.a.shape:
                raise ValueError("non-broadcastable output operand")
        if self.kind == rk and not self.f32:
            self.a[...] = ra
        else:
            self[...] = SymArray(ra, rk)
        return self

    def __add__(self, o): return self._b(o, '+')
    def __radd__(self, o): return self._r(o, '+')
    def __iadd__(self, o): return self._i(o, '+')
    def __sub__(self, o): return self._b(o, '-')
    def __rsub__(self, o): return self._r(o, '-')
    def __isub__(self, o): return self._i(o, '-')
    def __mul__(self, o): return self._b(o, '*')
    def __rmul__(self, o): return self._r(o, '*')
    def __imul__(self, o): return self._i(o, '*')
    def __truediv__(self, o): return self._b(o, '/')
    def __rtruediv__(self, o): return self._r(o, '/')
    def __itruediv__(self, o): return self._i(o, '/')
    def __pow__(self, o): return self._b(o, '**')
    def __rpow__(self, o): return self._r(o, '**')
    def __ipow__(self, o): return self._i(o, '**')
    def __floordiv__(self, o): return self._b(o, '//')
    def __rfloordiv__(self, o): return self._r(o, '//')
    def __mod__(self, o): return self._b(o, '%')
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)
    def __neg__(self): return emap(lambda x: -x, self, self.kind)
    def __pos__(self): return self.copy()
    def __abs__(self): return emap(s_abs, self, 'f' if self.kind == 'c' else self.kind)
    def __and__(self, o): return logic('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return logic('or', self, o)
    __ror__ = __or__
    def __xor__(self, o): return logic('xor', self, o)
    __rxor__ = __xor__

    def __iand__(self, o):
        self.a[...] = logic('and', self, o).a
        return self

    def __ior__(self, o):
        self.a[...] = logic('or', self, o).a
        return self

    def __invert__(self):
        if self.kind == 'b':
            return emap(b_not, self, 'b')
        return emap(lambda x: ~int(x), self, 'i')

    def __lt__(self, o): return cmpop('<', self, o)
    def __le__(self, o): return cmpop('<=', self, o)
    def __gt__(self, o): return cmpop('>', self, o)
    def __ge__(self, o): return cmpop('>=', self, o)

    def __eq__(self, o):
        if not operand(o) and not isinstance(o, str):
            return np.bool_(False)
        return cmpop('==', self, o)

    def __ne__(self, o):
        if not operand(o) and not isinstance(o, str):
            return np.bool_(True)
        return cmpop('!=', self, o)

    # -------------------------------------------------------------- methods
    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.kind, self.f32)

    def astype(self, dt, copy=True, **k):
        if dt is str or dt is object:
            if dt is object:
                return SymArray(self.a.copy(), 'O')
            return emap(str, self, 'U')
        kd = kind_of(dt)
        r = emap(lambda x: cast_elem(x, kd, dt), self, kd)
        if is32(dt):
            r.f32 = np.dtype(dt)
        return r

    def reshape(self, *s, order='C'):
        if len(s) == 1 and not isinstance(s[0], (int, np.integer)):
            s = s[0]
        return SymArray(self.a.reshape(s), self.kind, self.f32)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(), self.kind, self.f32)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(), self.kind, self.f32)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.kind, self.f32)

    def transpose(self, *axes):
        return SymArray(self.a.transpose(*axes), self.kind, self.f32)

    def swapaxes(self, i, j):
        return SymArray(self.a.swapaxes(i, j), self.kind, self.f32)

    def view(self, *a):
        return SymArray(self.a.view(), self.kind, self.f32)

    def tolist(self):
        def py(e):
            if type(e) is SymFloat:
                return SymFloat(e.t, e.is_int, True)
            return e.item() if isinstance(e, np.generic) else e
        if self.a.ndim == 0:
            return py(self.a.item())
        return [self[i].tolist() if self.a.ndim > 1 else py(self.a[i]) for i in range(len(self.a))]

    def item(self, *a):
        e = self.a.item(*a)
        if type(e) is SymFloat:
            return SymFloat(e.t, e.is_int, True)
        return e.item() if isinstance(e, np.generic) else e

    def fill(self, v):
        self.a[...] = self._cast(v)

    def conj(self):
        return emap(lambda x: x.conjugate() if elem_kind(x) == 'c' else x, self, self.kind)
    conjugate = conj

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def min(self, axis=None, **k): return NP.min(self, axis, **k)
    def max(self, axis=None, **k): return NP.max(self, axis, **k)
    def sum(self, axis=None, **k): return NP.sum(self, axis)
    def prod(self, axis=None, **k): return NP.prod(self, axis)
    def mean(self, axis=None, **k): return NP.mean(self, axis)
    def all(self, axis=None, **k): return NP.all(self, axis)
    def any(self, axis=None, **k): return NP.any(self, axis)
    def ptp(self, axis=None): return NP.max(self, axis) - NP.min(self, axis)
    def cumsum(self, axis=None): return NP.cumsum(self, axis)
    def argmin(self, axis=None): return NP.argmin(self, axis)
    def argmax(self, axis=None): return NP.argmax(self, axis)
    def argsort(self, axis=-1, **k): return NP.argsort(self, axis, **k)
    def nonzero(self): return NP.nonzero(self)
    def dot(self, o): return dot(self, o)
    def clip(self, lo=None, hi=None): return NP.clip(self, lo, hi)
    def take(self, idx, axis=None): return NP.take(self, idx, axis)
    def repeat(self, n, axis=None): return SymArray(self.a.repeat(n, axis), self.kind)
    def searchsorted(self, v, side='left'): return NP.searchsorted(self, v, side)

    def sort(self, axis=-1, **k):
        self.a[...] = NP.sort(self, axis).a

    def setflags(self, **k):
        self.a.setflags(**k)


SYMTYPES = (SymFloat, SymBool, SymComplex, SymFP)


def operand(o):
    return type(o) is SymArray or is_num(o) or isinstance(o, (np.ndarray, list, tuple))


def asarr(x, kind=None, copy=False):
    """anything array-like -> SymArray"""
    if type(x) is SymArray:
        if kind is not None and kind != x.kind:
            return x.astype(KDT[kind])
        return x.copy() if copy else x
    if isinstance(x, np.ndarray):
        k = {'u': 'i', 'S': 'U'}.get(x.dtype.kind, x.dtype.kind)
        a = np.empty(x.shape, dtype=object)
        flat = a.reshape(-1)
        src = x.reshape(-1)
        for i in range(flat.size):
            e = src[i]
            flat[i] = int(e) if k == 'i' else (str(e) if k == 'U' else e)
        r = SymArray(a, k if k in KDT else 'O')
        if kind is not None and kind != r.kind:
            r = r.astype(KDT[kind])
        return r
    if is_num(x) or isinstance(x, str) or x is None:
        a = np.empty((), dtype=object)
        k = elem_kind(x)
        a[()] = cast_elem(x, kind or k) if (kind or k) in 'bifc' else x
        return SymArray(a, kind or k)
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__') and not isinstance(x, dict):
        if hasattr(x, '__array__') and not isinstance(x, (list, tuple)):
            return asarr(np.asarray(x), kind)
        x = list(x)
        if not x:
            return SymArray(np.empty((0,), dtype=object), kind or 'f')
        subs = [asarr(e) for e in x]
        shapes = set(s.a.shape for s in subs)
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an "
                             "inhomogeneous shape after 1 dimensions.")
        k = kind or builtins.max((s.kind for s in subs), key=lambda q: KORD[q])
        sh = (len(subs),) + subs[0].a.shape
        a = np.empty(sh, dtype=object)
        for i, s in enumerate(subs):
            if s.a.ndim == 0:
                a[i] = s.a[()]
            else:
                a[i] = s.a
        out = SymArray(a, k)
        for i, e in np.ndenumerate(a):
            if k in 'bifc' and elem_kind(e) != k or type(e) is SymFloat and e.py:
                a[i] = cast_elem(e, k)
            elif k == 'U' and not isinstance(e, str):
                a[i] = str(e)
        return out
    a = np.empty((), dtype=object)
    a[()] = x
    return SymArray(a, 'O')


def emap(f, x, kind):
    if type(x) is not SymArray:
        return f(x)
    out = np.empty(x.a.shape, dtype=object)
    of, xf = out.reshape(-1), x.a.reshape(-1)
    for i in range(xf.size):
        of[i] = f(xf[i])
    if out.ndim == 0:
        return as_scalar(out[()], kind)
    return SymArray(out, kind)


def bmap(f, x, y, kind):
    """broadcast elementwise map of two operands"""
    xa = x if type(x) is SymArray else asarr(x)
    ya = y if type(y) is SymArray else asarr(y)
    A, B = np.broadcast_arrays(xa.a, ya.a)
    out = np.empty(A.shape, dtype=object)
    if out.ndim == 0:
        return as_scalar(f(A[()], B[()]), kind)
    of, af, bf = out.reshape(-1), A.reshape(-1), B.reshape(-1)
    for i in range(of.size):
        of[i] = f(af[i], bf[i])
    return SymArray(out, kind)


def k_of(x):
    if type(x) is SymArray:
        return x.kind
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        return asarr(x).kind
    return elem_kind(x)


def s_op(op, a, b, kind):
    """one element of a numpy binary operation"""
    if kind == 'f' or kind == 'c' or op == '/':
        if not is_sym(a) and not isinstance(a, np.generic):
            a = np.complex128(a) if isinstance(a, complex) else np.float64(a)
        elif type(a) is SymFloat and a.py:
            a = SymFloat(a.t, a.is_int, False)
        if not is_sym(b) and not isinstance(b, np.generic):
            b = np.complex128(b) if isinstance(b, complex) else (np.int64(b) if isinstance(b, int) and op == '**' else np.float64(b))
        elif type(b) is SymFloat and b.py:
            b = SymFloat(b.t, b.is_int, False)
    if op == '/' and not is_sym(a) and not is_sym(b):
        a = np.complex128(a) if isinstance(a, (complex, np.complexfloating)) else np.float64(a)
    with np.errstate(all='ignore'):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            r = a / b
        elif op == '**':
            if kind == 'i' and b < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            if kind == 'i' and not is_sym(a) and not is_sym(b):
                return int(a) ** int(b)
            if not is_sym(a) and not is_sym(b):
                return np.power(np.complex128(a) if kind == 'c' else np.float64(a), b)
            r = a ** b
        elif op == '//':
            r = a // b
        elif op == '%':
            r = a % b
        else:
            raise ValueError(op)
    if kind == 'f' and type(r) is SymFloat and (r.is_int or r.py):
        r = SymFloat(r.t, False, False)
    return r


def binop(op, x, y):
    kx, ky = k_of(x), k_of(y)
    if 'U' in (kx, ky) or 'O' in (kx, ky):
        k = 'O'
        import operator
        f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
             '**': operator.pow, '//': operator.floordiv, '%': operator.mod}[op]
        return bmap(f, x, y, k)
    k = kx if KORD[kx] >= KORD[ky] else ky
    if k == 'b':
        if op == '-':
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the "
                            "bitwise_xor, the `^` operator, or the logical_xor function instead.")
        if op == '+':
            return logic('or', x, y)
        if op == '*':
            return logic('and', x, y)
        k = 'i'
    if op == '/' and k in 'bi':
        k = 'f'
    return bmap(lambda a, b: s_op(op, a, b, k), x, y, k)


def s_cmp(op, a, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        from . import symstr
        return symstr.eq(a, b) if isinstance(a, str) else a == b
    from . import symstr
    return b_not(symstr.eq(a, b)) if isinstance(a, str) else a != b


def cmpop(op, x, y):
    def f(a, b):
        r = s_cmp(op, a, b)
        return r if type(r) is SymBool else np.bool_(r)
    return bmap(f, x, y, 'b')


def logic(op, x, y):
    kx, ky = k_of(x), k_of(y)
    if kx != 'b' or ky != 'b':
        if 'f' in (kx, ky) or 'c' in (kx, ky):
            raise TypeError("ufunc 'bitwise_%s' not supported for the input types" % op)
        return bmap(lambda a, b: {'and': int(a) & int(b), 'or': int(a) | int(b), 'xor': int(a) ^ int(b)}[op], x, y, 'i')
    if op == 'and':
        return bmap(b_and, x, y, 'b')
    if op == 'or':
        return bmap(b_or, x, y, 'b')
    return bmap(lambda a, b: b_or(b_and(a, b_not(b)), b_and(b_not(a), b)), x, y, 'b')


def truth(x):
    """element -> boolean value (SymBool or bool)"""
    if type(x) is SymBool:
        return x
    if is_sym(x):
        return b_not(x == 0)
    return np.bool_(bool(x))


def reduce_any(x):
    return b_or(*[truth(e) for e in asarr(x).a.flat])


def reduce_all(x):
    return b_and(*[truth(e) for e in asarr(x).a.flat])


def s_abs(x):
    return abs(x)


def s_sqrt(x):
    k = elem_kind(x)
    if type(x) is SymFP:
        return SymFP(z3.fpSqrt(core.RNE, x.t))
    if k == 'c':
        return c_sqrt(x)
    if type(x) is SymBool:
        x = x.num()
    return r_sqrt(x)


def real_floor(name, x):
    if type(x) is SymFloat:
        if x.is_int:
            return SymFloat(x.t, False)
        fl = z3.ToReal(z3.ToInt(x.t))
        if name == 'floor':
            return mkreal(fl)
        if name == 'ceil':
            return mkreal(-z3.ToReal(z3.ToInt(-x.t)))
        if name == 'trunc':
            return mkreal(z3.If(x.t >= 0, fl, -z3.ToReal(z3.ToInt(-x.t))))
        return r_round(x, 0)
    return getattr(np, name)(conc_scalar(x))


def dot(x, y):
    x, y = asarr(x), asarr(y)
    if x.a.ndim == 1 and y.a.ndim == 1:
        if x.a.shape != y.a.shape:
            raise ValueError("shapes not aligned")
        return NP.sum(x * y)
    if x.a.ndim == 2 and y.a.ndim == 1:
        return NP.array([dot(x[i], y) for i in range(x.a.shape[0])])
    if x.a.ndim == 2 and y.a.ndim == 2:
        return NP.array([[dot(x[i], y[:, j]) for j in range(y.a.shape[1])] for i in range(x.a.shape[0])])
    if x.a.ndim == 1 and y.a.ndim == 2:
        return NP.array([dot(x, y[:, j]) for j in range(y.a.shape[1])])
    return x * y


def red(f, x, axis, kind=None, keepdims=False, empty=None):
    """fold a reduction over an axis"""
    x = asarr(x)
    kind = kind or x.kind
    if axis is None:
        els = list(x.a.flat)
        r = f([as_scalar(e, x.kind) for e in els])
        if keepdims:
            return NP.array(r).reshape((1,) * x.a.ndim)
        return as_scalar(r, kind)
    if isinstance(axis, tuple):
        raise PathLimit("reduction over several axes")
    if axis < -x.a.ndim or axis >= x.a.ndim:
        raise np.exceptions.AxisError(axis, x.a.ndim)
    m = np.moveaxis(x.a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = f(list(m[i]))
    if out.ndim == 0:
        return as_scalar(out[()], kind)
    r = SymArray(out, kind)
    if keepdims:
        r = SymArray(np.expand_dims(r.a, axis), kind)
    return r


def order_perm(els, lt=None):
    """stable sorting permutation; forks on symbolic comparisons"""
    idx = []
    for i, e in enumerate(els):
        j = len(idx)
        while j > 0 and bool(e < els[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


# ------------------------------------------------------------------- text I/O
def fmt_number(fmt, v):
    """text of one number under a %-format"""
    if is_sym(v):
        if type(v) is SymComplex:
            return " (%s+%sj)" % (fmt_number(fmt, v.re), fmt_number(fmt, v.im))
        spec = fmt.strip()
        if '%' in spec:
            i = spec.index('%')
            return spec[:i] + core.token(core.fmt_value(v, spec[i + 1:].replace('-', '<')))
        return core.token(v)
    return fmt % v


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='',
            comments='# ', encoding=None):
    X = asarr(X)
    if X.a.ndim == 0 or X.a.ndim > 2:
        raise ValueError("Expected 1D or 2D array, got %dD array instead" % X.a.ndim)
    own = False
    if isinstance(fname, os.PathLike):
        fname = os.fspath(fname)
    if isinstance(fname, str):
        fh = open(fname, 'w', encoding=encoding or 'utf-8', newline='')
        own = True
    else:
        fh = fname
    try:
        rows = X.a.reshape(-1, 1) if X.a.ndim == 1 else X.a
        ncol = rows.shape[1]
        if isinstance(fmt, (list, tuple)):
            if len(fmt) != ncol:
                raise AttributeError("fmt has wrong shape.  %s" % str(fmt))
            fmts = list(fmt)
        elif fmt.count('%') == 1:
            fmts = [fmt] * ncol
        else:
            raise PathLimit("savetxt row format")
        if header:
            fh.write(comments + header.replace('\n', '\n' + comments) + newline)
        for r in rows:
            fh.write(delimiter.join(fmt_number(f, v) for f, v in zip(fmts, r)) + newline)
        if footer:
            fh.write(comments + footer.replace('\n', '\n' + comments) + newline)
    finally:
        if own:
            fh.close()


def parse_float(s):
    v = core.untoken(s)
    if v is not None:
        return v
    return np.float64(float(s))


def loadtxt(fname, dtype=float, comments='#', delimiter=None, converters=None, skiprows=0,
            usecols=None, unpack=False, ndmin=0, encoding=None, max_rows=None, quotechar=None, like=None):
    own = False
    if isinstance(fname, os.PathLike):
        fname = os.fspath(fname)
    if isinstance(fname, str):
        if not os.path.exists(fname):
            raise FileNotFoundError("%s not found." % fname)
        fh = open(fname, 'r', encoding=encoding if encoding not in (None, 'bytes') else 'utf-8')
        own = True
    else:
        fh = fname
    if isinstance(comments, str):
        comments = [comments]
    comments = list(comments or [])
    rows = []
    try:
        for n, line in enumerate(fh):
            if n < skiprows:
                continue
            if isinstance(line, bytes):
                line = line.decode('utf-8')
            for c in comments:
                line = line.split(c, 1)[0]
            line = line.strip('\r\n')
            cells = line.split(delimiter) if delimiter is not None else line.split()
            if not line.strip() or not cells:
                continue
            if usecols is not None:
                uc = [usecols] if isinstance(usecols, int) else list(usecols)
                cells = [cells[i] for i in uc]
            row = []
            for j, c in enumerate(cells):
                try:
                    if converters is not None:
                        f = converters if callable(converters) else converters.get(j)
                        row.append(f(c) if f else parse_float(c))
                    else:
                        row.append(parse_float(c))
                except ValueError:
                    raise ValueError("could not convert string '%s' to float64 at row %d, column %d."
                                     % (c, len(rows), j + 1)) from None
            if rows and len(row) != len(rows[0]):
                raise ValueError("the number of columns changed from %d to %d at row %d; use `usecols` "
                                 "to select a subset and avoid this error" % (len(rows[0]), len(row), len(rows) + 1))
            rows.append(row)
            if max_rows is not None and len(rows) >= max_rows:
                break
    finally:
        if own:
            fh.close()
    if not rows:
        a = asarr(np.empty((0,) if ndmin < 2 else (0, 1)))
    else:
        a = asarr(rows, kind_of(dtype) or 'f')
    if a.a.ndim > ndmin:
        a = a.squeeze()
        if a.a.ndim < ndmin:
            a = SymArray(np.atleast_2d(a.a) if ndmin == 2 else np.atleast_1d(a.a), a.kind)
            if ndmin == 2 and len(rows) > 1:
                a = a.T
    return a.T if unpack else a


SYMWIDTH = 24


def array2string(a, max_line_width=None, precision=None, suppress_small=None, separator=' ', prefix='',
                 *, formatter=None, threshold=None, edgeitems=None, sign=None, floatmode=None,
                 suffix='', legacy=None, style=None):
    a = asarr(a)
    opts = np.get_printoptions()
    thr = opts['threshold'] if threshold is None else threshold
    edge = opts['edgeitems'] if edgeitems is None else edgeitems
    prec = opts['precision'] if precision is None else precision
    width = opts['linewidth'] if max_line_width is None else max_line_width
    mode = opts['floatmode'] if floatmode is None else floatmode
    if not has_sym(a) or a.kind in 'OU':
        kw = {}
        if formatter is not None:
            kw['formatter'] = formatter
        return np.array2string(a.concrete(), max_line_width=max_line_width, precision=precision,
                               suppress_small=suppress_small, separator=separator, prefix=prefix,
                               threshold=threshold, edgeitems=edgeitems, sign=sign, floatmode=floatmode,
                               suffix=suffix, **kw)

    fm = formatter or opts.get('formatter') or {}

    def one(e):
        if type(e) is SymComplex or isinstance(e, np.complexfloating):
            f = fm.get('complex_kind') or fm.get('complexfloat') or fm.get('all')
            if f:
                return f(e)
            return core.token(shown(e.real)) + '+' + core.token(shown(e.imag)) + 'j'
        f = fm.get('float_kind') or fm.get('float') or fm.get('all')
        if f:
            return f(e)
        if not is_sym(e):
            if a.kind == 'i':
                return repr(int(e))
            if not math.isfinite(e):
                return repr(float(e))
            if mode == 'unique':
                return repr(float(e))
            return repr(float("%.*g" % (builtins.max(prec, 1) + 1, e)))
        return core.token(shown(e))

    def shown(e):
        if type(e) is not SymFloat or e.is_int or mode == 'unique' or prec >= 17:
            return e
        # fixed notation: half a unit of the last decimal; scientific: relative
        t = e.t
        k = core.CUR.key('a2s%d' % prec, t)
        if k not in core.CUR.cache:
            v = core.CUR.fresh('a2s')
            h = z3.RealVal(str(Fraction(1, 2) / Fraction(10) ** prec))
            at = z3.If(t >= 0, t, -t)
            core.CUR.cache[k] = v
            core.CUR.pc += [v - t <= h + h * at, t - v <= h + h * at]
            core.CUR.model = None
        return mkreal(core.CUR.cache[k])

    summarize = a.a.size > thr

    def fmt(arr, indent):
        if arr.ndim == 0:
            return one(arr[()])
        n = len(arr)
        ids = list(range(n))
        cut = None
        if summarize and n > 2 * edge:
            ids = list(range(edge)) + [None] + list(range(n - edge, n))
        if arr.ndim == 1:
            out, line = '', ''
            cells = []
            for i in ids:
                cells.append('...' if i is None else one(arr[i]))
            ln = indent
            for j, c in enumerate(cells):
                w = SYMWIDTH if any(ord(ch) >= core.TOK0 for ch in c) else len(c)
                sep = separator if j < len(cells) - 1 else ''
                if ln + w + len(sep.rstrip()) > width - 1 and line:
                    out += line.rstrip() + '\n' + ' ' * (indent + 1)
                    line = ''
                    ln = indent + 1
                line += c + sep
                ln += w + len(sep)
            return '[' + out + line + ']'
        parts = ['...' if i is None else fmt(arr[i], indent + 1) for i in ids]
        return '[' + (separator.rstrip() + '\n' * (arr.ndim - 1) + ' ' * (indent + 1)).join(parts) + ']'
    return fmt(a.a, 0)


# --------------------------------------------------------------- numpy module
class _NP:
    """stand-in for the numpy module"""
    __name__ = 'numpy'

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, type) or not callable(real):
            if name in ('linalg', 'random', 'fft', 'ma', 'polynomial', 'lib', 'char', 'strings'):
                return SubProxy(real)
            return real
        return fallback(real, 'numpy.' + name)


def fallback(real, label):
    @functools.wraps(real)
    def call(*a, **k):
        sym = any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())
        if sym:
            core.CUR.stats.note('unmodelled ' + label)
        return lift(real(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()}))
    return call


class SubProxy:
    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, name):
        r = getattr(self._m, name)
        if callable(r) and not isinstance(r, type):
            return fallback(r, self._m.__name__ + '.' + name)
        return r


NP = _NP()


def npf(*names):
    def deco(f):
        for n in names or (f.__name__,):
            setattr(_NP, n, staticmethod(f))
        return f
    return deco


npf('savetxt')(savetxt)
npf('loadtxt')(loadtxt)
npf('array2string')(array2string)
npf('dot', 'matmul', 'inner')(dot)


@npf('genfromtxt')
def _genfromtxt(fname, dtype=float, comments='#', delimiter=None, skip_header=0, **k):
    k = {n: v for n, v in k.items() if n in ('usecols', 'unpack', 'ndmin', 'max_rows', 'encoding', 'converters')}
    return loadtxt(fname, dtype=dtype or float, comments=comments, delimiter=delimiter, skiprows=skip_header, **k)


@npf('array')
def _array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
    k = None
    if dtype is not None and dtype is not str:
        k = kind_of(dtype)
    if dtype is object:
        if type(x) is SymArray:
            return SymArray(x.a.copy(), 'O')
        return asarr(np.array(x, dtype=object)) if not has_sym(x) else SymArray(asarr(x).a.copy(), 'O')
    r = asarr(x, copy=True)
    if k is not None and (k != r.kind or is32(dtype)):
        r = r.astype(dtype)
    if type(r) is not SymArray:
        r = asarr(r)
    while r.a.ndim < ndmin:
        r = SymArray(r.a[None], r.kind)
    return r


@npf('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
def _asarray(x, dtype=None, **k):
    if type(x) is SymArray and (dtype is None or (kind_of(dtype) == x.kind and not is32(dtype))):
        return x
    return _array(x, dtype)


@npf('asarray_chkfinite')
def _aac(x, dtype=None, **k):
    return _asarray(x, dtype)


@npf('copy')
def _copy(x, **k):
    return asarr(x, copy=True)


@npf('atleast_1d')
def _at1(*xs):
    r = [x if type(x) is SymArray and x.a.ndim >= 1 else (lambda s: s if s.a.ndim >= 1 else s.reshape(1))(asarr(x)) for x in xs]
    return r[0] if len(r) == 1 else r


@npf('atleast_2d')
def _at2(*xs):
    r = []
    for x in xs:
        s = asarr(x)
        r.append(s if s.a.ndim >= 2 else SymArray(np.atleast_2d(s.a), s.kind))
    return r[0] if len(r) == 1 else r


def filled(shape, v, kind):
    if type(shape) is SymArray:
        shape = tuple(int(e) for e in shape.a.flat)
    if isinstance(shape, (int, np.integer)) or type(shape) is SymFloat:
        shape = (int(shape),)
    a = np.empty(tuple(int(s) for s in shape), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = v
    return SymArray(a, kind)


def _dtk(dtype, default='f'):
    return default if dtype is None else kind_of(dtype)


@npf('ones')
def _ones(shape, dtype=None, **k):
    kd = _dtk(dtype)
    return filled(shape, cast_elem(1, kd), kd)


@npf('zeros')
def _zeros(shape, dtype=None, **k):
    kd = _dtk(dtype)
    return filled(shape, cast_elem(0, kd), kd)


@npf('empty')
def _empty(shape, dtype=None, **k):
    kd = _dtk(dtype)
    return filled(shape, cast_elem(0, kd) if kd in 'bifc' else None, kd)


@npf('full')
def _full(shape, v, dtype=None, **k):
    kd = _dtk(dtype, elem_kind(v) if not type(v) is SymArray else v.kind)
    if type(v) is SymArray or isinstance(v, (list, tuple, np.ndarray)):
        r = filled(shape, cast_elem(0, kd), kd)
        r[...] = v
        return r
    return filled(shape, cast_elem(v, kd), kd)


def _like(v):
    def f(x, dtype=None, shape=None, **k):
        x = asarr(x)
        kd = _dtk(dtype, x.kind)
        return filled(x.a.shape if shape is None else shape, cast_elem(v, kd) if kd in 'bifc' else None, kd)
    return f


npf('ones_like')(_like(1))
npf('zeros_like')(_like(0))
npf('empty_like')(_like(0))


@npf('full_like')
def _full_like(x, v, dtype=None, **k):
    x = asarr(x)
    return _full(x.a.shape, v, dtype=dtype if dtype is not None else KDT[x.kind])


@npf('arange')
def _arange(*a, **k):
    return asarr(np.arange(*[conc(x) for x in a], **k))


@npf('linspace')
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return lift(np.linspace(conc(start), conc(stop), int(num), endpoint, retstep, dtype))
    n = int(num)
    n = cap_num(n)
    div = (n - 1) if endpoint else n
    els = []
    for i in range(n):
        if i == 0:
            els.append(start)
        elif endpoint and i == n - 1:
            els.append(stop)
        else:
            els.append(start + (stop - start) * (float(Fraction(i, div))))
    r = asarr(els, 'f')
    if dtype is not None:
        r = r.astype(dtype)
    return r


def cap_num(n):
    cap = core.CUR.opts.get('sample_cap', 4)
    if n > cap:
        core.CUR.stats.note('grid of %d samples abstracted to %d' % (n, cap))
        return cap
    return n


def mono_grid(start, stop, num, name, extra=0):
    """contract of a monotone sampling of [start, stop]: exact end points and
    strictly monotone points between them"""
    n = cap_num(int(num)) + extra
    ta, tb = core.num_term(start), core.num_term(stop)
    if n == 1:
        return asarr([start], 'f')
    run = core.CUR
    k = run.key('grid%s%d' % (name, n), ta, tb)
    if k not in run.cache:
        vs = [run.fresh('grid') for _ in range(n - 2)]
        run.cache[k] = vs
        pts = [ta] + vs + [tb]
        up = z3.And([pts[i] < pts[i + 1] for i in range(n - 1)])
        dn = z3.And([pts[i] > pts[i + 1] for i in range(n - 1)])
        eq = z3.And([pts[i] == pts[i + 1] for i in range(n - 1)])
        run.pc.append(z3.If(ta < tb, up, z3.If(ta > tb, dn, eq)))
        run.model = None
    return asarr([start] + [mkreal(v) for v in run.cache[k]] + [stop], 'f')


@npf('geomspace')
def _geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return lift(np.geomspace(conc(start), conc(stop), int(num), endpoint, dtype))
    if bool(b_or(start == 0, stop == 0)):
        raise ValueError("Geometric sequence cannot include zero")
    for x in (start, stop):
        if not is_sym(x) and not math.isfinite(x):
            return fallback(np.geomspace, 'numpy.geomspace')(start, stop, num)
    if bool(b_or(start * stop < 0)):
        return asarr(np.full(cap_num(int(num)), np.nan))
    if not endpoint:        # the first points of a longer grid
        n = cap_num(int(num))
        return mono_grid(start, stop, n, 'geomopen', extra=1)[:n]
    return mono_grid(start, stop, num, 'geom')


@npf('logspace')
def _logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return lift(np.logspace(conc(start), conc(stop), int(num), endpoint, base))
    lo = r_pow_base(base, start)
    hi = r_pow_base(base, stop)
    if not endpoint:
        n = cap_num(int(num))
        return mono_grid(lo, hi, n, 'logopen', extra=1)[:n]
    return mono_grid(lo, hi, num, 'log')


def r_pow_base(b, e):
    return np.float64(b) ** e


def _cat(xs, axis):
    xs = [asarr(x) for x in xs]
    k = builtins.max((x.kind for x in xs), key=lambda q: KORD[q])
    arrs = [x.a if x.kind == k or k in 'OU' else x.astype(KDT[k]).a for x in xs]
    return SymArray(np.concatenate(arrs, axis=axis), k)


@npf('concatenate')
def _concatenate(xs, axis=0, **k):
    if axis is None:
        return _cat([asarr(x).ravel() for x in xs], 0)
    return _cat(xs, axis)


@npf('vstack', 'row_stack')
def _vstack(xs, **k):
    return _cat([_at2(x) for x in xs], 0)


@npf('hstack')
def _hstack(xs, **k):
    xs = [_at1(x) for x in xs]
    return _cat(xs, 0 if xs[0].a.ndim == 1 else 1)


@npf('column_stack')
def _column_stack(xs):
    cols = []
    for x in xs:
        s = asarr(x)
        cols.append(s.reshape(-1, 1) if s.a.ndim < 2 else s)
    return _cat(cols, 1)


@npf('stack')
def _stack(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    if len(set(x.a.shape for x in xs)) > 1:
        raise ValueError("all input arrays must have the same shape")
    return _cat([SymArray(np.expand_dims(x.a, axis), x.kind) for x in xs], axis)


@npf('append')
def _append(x, y, axis=None):
    if axis is None:
        return _cat([asarr(x).ravel(), asarr(y).ravel()], 0)
    return _cat([x, y], axis)


class _CClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return _column_stack([asarr(k) for k in key])


class _RClass:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return _cat([_at1(k) for k in key], 0)


_NP.c_ = _CClass()
_NP.r_ = _RClass()


@npf('expand_dims')
def _expand_dims(x, axis):
    x = asarr(x)
    return SymArray(np.expand_dims(x.a, axis), x.kind)


@npf('delete')
def _delete(x, obj, axis=None):
    x = asarr(x)
    o = SymArray._idx(obj, x) if type(obj) is SymArray else obj
    return SymArray(np.delete(x.a, o, axis), x.kind)


@npf('insert')
def _insert(x, obj, vals, axis=None):
    x = asarr(x)
    v = asarr(vals, x.kind).a
    return SymArray(np.insert(x.a, obj, v if v.ndim else v[()], axis), x.kind)


@npf('tile')
def _tile(x, reps):
    x = asarr(x)
    return SymArray(np.tile(x.a, reps), x.kind)


@npf('repeat')
def _repeat(x, n, axis=None):
    x = asarr(x)
    return SymArray(np.repeat(x.a, n, axis), x.kind)


@npf('reshape')
def _reshape(x, s, order='C', **k):
    return asarr(x).reshape(s)


@npf('ravel')
def _ravel(x, order='C'):
    return asarr(x).ravel()


@npf('squeeze')
def _squeeze(x, axis=None):
    return asarr(x).squeeze(axis)


@npf('transpose')
def _transpose(x, axes=None):
    x = asarr(x)
    return SymArray(np.transpose(x.a, axes), x.kind)


def _viewfn(name):
    def f(x, *a, **k):
        x = asarr(x)
        return SymArray(getattr(np, name)(x.a, *a, **k), x.kind)
    return f


for _n in ('flip', 'flipud', 'fliplr', 'roll', 'moveaxis', 'swapaxes', 'rot90', 'broadcast_to', 'resize', 'diag',
           'atleast_3d'):
    npf(_n)(_viewfn(_n))


@npf('broadcast_arrays')
def _broadcast_arrays(*xs, **k):
    xs = [asarr(x) for x in xs]
    return [SymArray(a, x.kind) for a, x in zip(np.broadcast_arrays(*[x.a for x in xs]), xs)]


@npf('split')
def _split(x, n, axis=0):
    x = asarr(x)
    return [SymArray(a, x.kind) for a in np.split(x.a, n, axis)]


npf('array_split')(lambda x, n, axis=0: [SymArray(a, asarr(x).kind) for a in np.array_split(asarr(x).a, n, axis)])
npf('hsplit')(lambda x, n: [SymArray(a, asarr(x).kind) for a in np.hsplit(asarr(x).a, n)])


@npf('shape')
def _shape(x):
    return asarr(x).a.shape


@npf('ndim')
def _ndim(x):
    return asarr(x).a.ndim


@npf('size')
def _size(x, axis=None):
    return asarr(x).a.size if axis is None else asarr(x).a.shape[axis]


@npf('isscalar')
def _isscalar(x):
    return True if is_sym(x) else (False if type(x) is SymArray else np.isscalar(x))


@npf('take')
def _take(x, idx, axis=None, **k):
    x = asarr(x)
    i = SymArray._idx(idx, x)
    r = np.take(x.a, i, axis)
    return SymArray(r, x.kind) if isinstance(r, np.ndarray) else as_scalar(r, x.kind)


# ------------------------------------------------------------------- reductions
def _fold(f):
    def g(els):
        if not els:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return functools.reduce(f, els)
    return g


def s_min(a, b):
    return r_min(a, b)


@npf('min', 'amin')
def _min(x, axis=None, out=None, keepdims=False, initial=None, where=None, **k):
    x = asarr(x)
    if initial is not None:
        return red(lambda e: functools.reduce(r_min, e, initial), x, axis, None, keepdims)
    return red(_fold(r_min), x, axis, None, keepdims)


@npf('max', 'amax')
def _max(x, axis=None, out=None, keepdims=False, initial=None, where=None, **k):
    x = asarr(x)
    if initial is not None:
        return red(lambda e: functools.reduce(r_max, e, initial), x, axis, None, keepdims)
    return red(_fold(r_max), x, axis, None, keepdims)


def _nonan(f):
    def g(els):
        els = [e for e in els if is_sym(e) or not math.isnan(e)]
        return _fold(f)(els) if els else np.float64('nan')
    return g


npf('nanmin')(lambda x, axis=None, **k: red(_nonan(r_min), x, axis))
npf('nanmax')(lambda x, axis=None, **k: red(_nonan(r_max), x, axis))
npf('ptp')(lambda x, axis=None: _max(x, axis) - _min(x, axis))


def _sumkind(x, dtype):
    x = asarr(x)
    return 'i' if x.kind == 'b' else x.kind


def _s_num(e):
    return e.num() if type(e) is SymBool else (int(e) if isinstance(e, np.bool_) else e)


@npf('sum', 'nansum')
def _sum(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    kd = _sumkind(x, dtype)
    z = {'i': 0, 'f': np.float64(0), 'c': np.complex128(0)}.get(kd, 0)
    r = red(lambda e: functools.reduce(lambda p, q: s_op('+', p, q, kd), [_s_num(v) for v in e], z) if len(e) != 1 else _s_num(e[0]),
            x, axis, kd, keepdims)
    return r


@npf('prod')
def _prod(x, axis=None, **k):
    kd = _sumkind(x, None)
    return red(lambda e: functools.reduce(lambda p, q: s_op('*', p, q, kd), [_s_num(v) for v in e], cast_elem(1, kd)), x, axis, kd)


@npf('mean', 'average')
def _mean(x, axis=None, dtype=None, weights=None, **k):
    x = asarr(x)
    if weights is not None:
        return _sum(x * asarr(weights), axis) / _sum(asarr(weights), axis)
    n = x.a.size if axis is None else x.a.shape[axis]
    return _sum(x, axis) / np.float64(n)


@npf('median')
def _median(x, axis=None, **k):
    x = asarr(x)
    if axis is not None:
        return fallback(np.median, 'numpy.median')(x, axis)
    s = _sort(x.ravel())
    n = s.a.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


@npf('cumsum')
def _cumsum(x, axis=None, **k):
    x = asarr(x)
    if axis not in (None, 0, -1) or (x.a.ndim > 1 and axis is not None):
        return fallback(np.cumsum, 'numpy.cumsum')(x, axis)
    out, acc = [], None
    for e in x.a.ravel():
        e = _s_num(e)
        acc = e if acc is None else acc + e
        out.append(acc)
    return asarr(out, 'i' if x.kind == 'b' else x.kind)


@npf('all', 'alltrue')
def _all(x, axis=None, out=None, keepdims=False, **k):
    return red(lambda e: b_and(*[truth(v) for v in e]), x, axis, 'b', keepdims)


@npf('any', 'sometrue')
def _any(x, axis=None, out=None, keepdims=False, **k):
    return red(lambda e: b_or(*[truth(v) for v in e]), x, axis, 'b', keepdims)


@npf('count_nonzero')
def _count_nonzero(x, axis=None, **k):
    return _sum(emap(truth, asarr(x), 'b'), axis)


@npf('nonzero')
def _nonzero(x):
    x = asarr(x)
    m = np.array([bool(truth(e)) for e in x.a.flat]).reshape(x.a.shape)
    return tuple(asarr(i) for i in np.nonzero(m))


npf('flatnonzero')(lambda x: _nonzero(asarr(x).ravel())[0])
npf('argwhere')(lambda x: _transpose(asarr([i for i in _nonzero(x)])))


def _arg(better):
    def g(els):
        best = 0
        for i in range(1, len(els)):
            if bool(better(els[i], els[best])):
                best = i
        return best
    return g


npf('argmin')(lambda x, axis=None, **k: red(_arg(lambda a, b: a < b), x, axis, 'i'))
npf('argmax')(lambda x, axis=None, **k: red(_arg(lambda a, b: (_s_num(a) > _s_num(b))), x, axis, 'i'))


@npf('argsort')
def _argsort(x, axis=-1, kind=None, **k):
    x = asarr(x)
    if x.a.ndim != 1:
        return fallback(np.argsort, 'numpy.argsort')(x, axis)
    els = list(x.a)
    if not any(is_sym(e) for e in els):     # equal elements: as numpy's algorithm orders them
        return asarr(np.argsort(np.array(els), kind=kind))
    return asarr(np.array(order_perm(els), dtype=int))


@npf('trim_zeros')
def _trim_zeros(x, trim='fb', **k):
    x = asarr(x)
    if x.a.ndim != 1:
        return fallback(np.trim_zeros, 'numpy.trim_zeros')(x, trim)
    lo, hi = 0, x.a.size
    if 'f' in trim.lower():
        while lo < hi and not bool(x.a[lo] != 0):
            lo += 1
    if 'b' in trim.lower():
        while hi > lo and not bool(x.a[hi - 1] != 0):
            hi -= 1
    return SymArray(x.a[lo:hi].copy(), x.kind)


@npf('sort')
def _sort(x, axis=-1, kind=None, **k):
    x = asarr(x)
    if x.a.ndim == 1:
        return SymArray(x.a[order_perm(list(x.a))] if x.a.size else x.a.copy(), x.kind)
    if axis is None:
        return _sort(x.ravel())
    m = np.moveaxis(x.a, axis, -1).copy()
    for i in np.ndindex(*m.shape[:-1]):
        m[i] = m[i][order_perm(list(m[i]))]
    return SymArray(np.moveaxis(m, -1, axis), x.kind)


@npf('unique')
def _unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = asarr(x)
    if axis is not None or return_inverse:
        return fallback(np.unique, 'numpy.unique')(x, return_index, return_inverse, return_counts, axis)
    els = list(x.a.ravel())
    p = order_perm(els)
    keep, cnt = [], []
    for i in p:
        if keep and bool(els[i] == els[keep[-1]]):
            cnt[-1] += 1
            continue
        keep.append(i)
        cnt.append(1)
    vals = asarr([els[i] for i in keep], x.kind)
    out = [vals]
    if return_index:
        out.append(asarr(np.array(keep, dtype=int)))
    if return_counts:
        out.append(asarr(np.array(cnt, dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


@npf('lexsort')
def _lexsort(keys, axis=-1):
    keys = [asarr(k) for k in keys]
    n = keys[0].a.size
    idx = list(range(n))
    for k in keys:
        els = list(k.a)
        p = order_perm([els[i] for i in idx])
        idx = [idx[i] for i in p]
    return asarr(np.array(idx, dtype=int))


@npf('diff')
def _diff(x, n=1, axis=-1, **k):
    x = asarr(x)
    for _ in range(n):
        if axis in (-1, x.a.ndim - 1):
            x = x[..., 1:] - x[..., :-1]
        elif axis == 0:
            x = x[1:] - x[:-1]
        else:
            raise PathLimit("diff axis")
    return x


@npf('searchsorted')
def _searchsorted(x, v, side='left', sorter=None):
    x = asarr(x)
    if sorter is not None:
        x = x[sorter]
    els = list(x.a)

    def one(q):
        lo, hi = 0, len(els)
        while lo < hi:
            m = (lo + hi) // 2
            if bool(els[m] < q if side == 'left' else els[m] <= q):
                lo = m + 1
            else:
                hi = m
        return lo
    if type(v) is SymArray or isinstance(v, (np.ndarray, list, tuple)):
        return emap(one, asarr(v), 'i')
    return np.int64(one(v))


@npf('digitize')
def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side='left' if right else 'right')


@npf('interp')
def _interp(q, xp, fp, left=None, right=None, period=None):
    xp, fp = asarr(xp), asarr(fp)
    xs, ys = list(xp.a), list(fp.a)

    def one(v):
        if bool(v < xs[0]):
            return ys[0] if left is None else left
        if bool(v > xs[-1]):
            return ys[-1] if right is None else right
        for i in range(len(xs) - 1):
            if bool(v <= xs[i + 1]):
                return ys[i] + (v - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]))
        return ys[-1]
    if type(q) is SymArray or isinstance(q, (np.ndarray, list, tuple)):
        return emap(lambda v: cast_elem(one(v), 'f'), asarr(q), 'f')
    return cast_elem(one(q), 'f')


# ------------------------------------------------------------------ elementwise
def into(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def masked(r, x, out, where):
    """ufunc(..., out=, where=)"""
    if where is True or where is None:
        return into(r, out)
    base = out if out is not None else _zeros(asarr(r).a.shape, KDT[k_of(r)])
    if isinstance(base, tuple):
        base = base[0]
    sel = _where(where, r, base)
    base[...] = sel
    return base


def ufunc1(names, f, kindf):
    def g(x, out=None, *, where=True, dtype=None, **k):
        if not (type(x) is SymArray or is_num(x)):
            x = asarr(x)
        kd = kindf(k_of(x))
        if type(x) is SymArray and where is not True and where is not None:
            # only evaluate where the mask holds (avoids spurious forks)
            m = asarr(where).a
            m, xa = np.broadcast_arrays(m, x.a)
            base = (out[0] if isinstance(out, tuple) else out) if out is not None else _zeros(xa.shape, KDT[kd])
            for i in np.ndindex(*xa.shape):
                if bool(m[i]):
                    base.a[i] = cast_elem(f(xa[i]), base.kind)
            return base
        if type(x) is SymFloat and x.py:
            x = SymFloat(x.t, x.is_int, False)
        r = emap(f, x, kd)
        return into(r, out)
    npf(*names)(g)
    return g


same = lambda k: k
tofl = lambda k: 'c' if k == 'c' else 'f'
boolk = lambda k: 'b'
realk = lambda k: 'f' if k == 'c' else k


def _c(x):
    """concrete numpy scalar"""
    return x if isinstance(x, np.generic) else (np.complex128(x) if isinstance(x, complex) else (x if isinstance(x, (int, bool)) else np.float64(x)))


def conc_or(f_sym, name):
    real = getattr(np, name)

    def g(x):
        if is_sym(x):
            return f_sym(x)
        with np.errstate(all='ignore'):
            return real(_c(x))
    return g


ufunc1(['sqrt'], s_sqrt, tofl)
ufunc1(['square'], lambda x: x * x, same)
ufunc1(['abs', 'absolute'], lambda x: abs(x), realk)
ufunc1(['fabs'], lambda x: abs(cast_elem(x, 'f')), lambda k: 'f')
ufunc1(['negative'], lambda x: -x, same)
ufunc1(['positive'], lambda x: x, same)
ufunc1(['reciprocal'], lambda x: s_op('/', np.float64(1.0), x, tofl(elem_kind(x))), same)
ufunc1(['real'], lambda x: x.real if elem_kind(x) == 'c' else x, realk)
ufunc1(['imag'], lambda x: x.imag if elem_kind(x) == 'c' else cast_elem(0, elem_kind(x) if elem_kind(x) in 'if' else 'f'), realk)
ufunc1(['conj', 'conjugate'], lambda x: x.conjugate() if elem_kind(x) == 'c' else x, same)
ufunc1(['floor'], lambda x: real_floor('floor', x), same)
ufunc1(['ceil'], lambda x: real_floor('ceil', x), same)
ufunc1(['trunc', 'fix'], lambda x: real_floor('trunc', x), same)
ufunc1(['rint'], lambda x: real_floor('rint', x), same)
ufunc1(['logical_not'], lambda x: b_not(truth(x)), boolk)


def s_isnan(x):
    if type(x) is SymComplex:
        return b_or(s_isnan(x.re), s_isnan(x.im))
    if type(x) is SymFP:
        return mkbool(z3.fpIsNaN(x.t))
    return np.bool_(False) if is_sym(x) else np.isnan(x)


def s_isinf(x):
    if type(x) is SymComplex:
        return b_or(s_isinf(x.re), s_isinf(x.im))
    if type(x) is SymFP:
        return mkbool(z3.fpIsInf(x.t))
    return np.bool_(False) if is_sym(x) else np.isinf(x)


ufunc1(['isnan'], s_isnan, boolk)
ufunc1(['isinf'], s_isinf, boolk)
ufunc1(['isfinite'], lambda x: b_and(b_not(s_isnan(x)), b_not(s_isinf(x))), boolk)
ufunc1(['isposinf'], lambda x: b_and(s_isinf(x), x > 0), boolk)
ufunc1(['isneginf'], lambda x: b_and(s_isinf(x), x < 0), boolk)
ufunc1(['isreal'], lambda x: (x.imag == 0) if elem_kind(x) == 'c' else np.bool_(True), boolk)
ufunc1(['iscomplex'], lambda x: b_not(x.imag == 0) if elem_kind(x) == 'c' else np.bool_(False), boolk)


def s_sign(x):
    if type(x) is SymFloat:
        return mkreal(z3.If(x.t > 0, core.RV(1), z3.If(x.t < 0, core.RV(-1), core.RV(0))), x.is_int)
    return np.sign(_c(conc_scalar(x)))


ufunc1(['sign'], s_sign, same)


def s_exp(x):
    if type(x) is SymComplex:
        m = s_exp(x.re)
        return c_mk(m * s_fn('cos', x.im), m * s_fn('sin', x.im))
    return s_fn('exp', x)


def s_fn(name, x):
    if type(x) is SymFloat:
        return r_fn(name, x)
    if is_sym(x):
        core.CUR.stats.note('unmodelled numpy.%s of a complex number' % name)
        x = conc_scalar(x)
    with np.errstate(all='ignore'):
        return getattr(np, name)(_c(x))


for _n in ('log', 'log10', 'log2', 'log1p', 'expm1', 'exp2', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'sinh',
           'cosh', 'tanh', 'cbrt', 'arcsinh', 'arccosh', 'arctanh', 'deg2rad', 'rad2deg'):
    ufunc1([_n], functools.partial(s_fn, _n), tofl)
ufunc1(['exp'], s_exp, tofl)
npf('radians')(lambda x: x * (np.pi / 180.0) if type(x) is SymArray or is_sym(x) else lift(np.radians(x)))
npf('atan')(_NP.arctan)
npf('asin')(_NP.arcsin)
npf('acos')(_NP.arccos)


@npf('angle')
def _angle(z, deg=False):
    f = lambda x: r_arctan2(c_lift(x).im, c_lift(x).re)
    r = emap(f, z if type(z) is SymArray or is_num(z) else asarr(z), 'f')
    return r * (180.0 / np.pi) if deg else r


def ufunc2(names, f, kindf=None):
    def g(x, y, out=None, *, where=True, dtype=None, **k):
        if where is not True and where is not None and out is not None:
            o = out[0] if isinstance(out, tuple) else out
            xa, ya = asarr(x), asarr(y)
            A, B, W = np.broadcast_arrays(xa.a, ya.a, asarr(where).a)
            for i in np.ndindex(*A.shape):
                if bool(W[i]):
                    r = f(SymArray(A[i:i + 1] if False else np.array(A[i], dtype=object), xa.kind),
                          SymArray(np.array(B[i], dtype=object), ya.kind))
                    o.a[i] = cast_elem(r, o.kind)
            return o
        return masked(f(x, y), x, out, where)
    npf(*names)(g)
    return g


def _np_scal(x):
    """numpy view of a scalar argument: python numbers become numpy scalars"""
    if type(x) is SymFloat and x.py:
        return SymFloat(x.t, x.is_int, False)
    return x


def _bin(op):
    def f(x, y):
        return binop(op, _np_scal(x), _np_scal(y))
    return f


def _cmpf(op):
    return lambda x, y: cmpop(op, x, y)


for _names, _op in ((['add'], '+'), (['subtract'], '-'), (['multiply'], '*'), (['divide', 'true_divide'], '/'),
                    (['power'], '**'), (['floor_divide'], '//'), (['mod', 'remainder', 'fmod'], '%')):
    ufunc2(_names, _bin(_op))
npf('pow')(_NP.power)
for _n, _op in (('greater', '>'), ('greater_equal', '>='), ('less', '<'), ('less_equal', '<='), ('equal', '=='), ('not_equal', '!=')):
    ufunc2([_n], _cmpf(_op))


def _fp(x):
    return cast_elem(x, 'f') if elem_kind(x) != 'c' else x


ufunc2(['float_power'], lambda x, y: binop('**', asarr(x).astype(float) if k_of(x) in 'bi' else _np_scal(x), _np_scal(y)))
ufunc2(['minimum', 'fmin'], lambda x, y: bmap(r_min, x, y, builtins.max(k_of(x), k_of(y), key=lambda q: KORD[q])))
ufunc2(['maximum', 'fmax'], lambda x, y: bmap(r_max, x, y, builtins.max(k_of(x), k_of(y), key=lambda q: KORD[q])))
ufunc2(['arctan2', 'atan2'], lambda x, y: bmap(r_arctan2, x, y, 'f'))
ufunc2(['hypot'], lambda x, y: bmap(lambda a, b: r_sqrt(a * a + b * b), x, y, 'f'))
ufunc2(['logical_and'], lambda x, y: bmap(lambda a, b: b_and(truth(a), truth(b)), x, y, 'b'))
ufunc2(['logical_or'], lambda x, y: bmap(lambda a, b: b_or(truth(a), truth(b)), x, y, 'b'))
ufunc2(['logical_xor'], lambda x, y: logic('xor', emap(truth, asarr(x), 'b'), emap(truth, asarr(y), 'b')))
ufunc2(['bitwise_and'], lambda x, y: logic('and', x, y))
ufunc2(['bitwise_or'], lambda x, y: logic('or', x, y))
ufunc2(['bitwise_xor'], lambda x, y: logic('xor', x, y))
ufunc2(['copysign'], lambda x, y: bmap(lambda a, b: abs(a) if bool(b >= 0) else -abs(a), x, y, 'f'))
ufunc2(['heaviside'], lambda x, y: bmap(lambda a, b: ite(a > 0, np.float64(1), ite(a == 0, b, np.float64(0))), x, y, 'f'))
npf('invert', 'bitwise_not')(lambda x: ~asarr(x) if type(x) is not SymBool else ~x)


def _reduce(op):
    return staticmethod(lambda x, axis=0, **k: red(lambda e: functools.reduce(lambda a, b: op(a, b), e), x, axis))


class _UfuncObj:
    """callable with .reduce, for np.add.reduce and friends"""
    def __init__(self, f, name, red_=None):
        self._f, self._name, self.reduce_ = f, name, red_

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def reduce(self, x, axis=0, **k):
        return red(lambda e: functools.reduce(lambda p, q: self._f(p, q), e), x, axis,
                   'b' if self._name.startswith('logical') else None)

    def outer(self, x, y):
        x, y = asarr(x), asarr(y)
        return self._f(x.reshape(x.a.shape + (1,) * y.a.ndim), y)


for _n in ('add', 'multiply', 'subtract', 'maximum', 'minimum', 'logical_and', 'logical_or', 'divide'):
    setattr(_NP, _n, _UfuncObj(_NP.__dict__[_n].__func__, _n))


@npf('round', 'around', 'round_')
def _round(x, decimals=0, out=None):
    if not (type(x) is SymArray or is_num(x)):
        x = asarr(x)

    def f(e):
        if type(e) is SymComplex:
            return c_mk(f(e.re), f(e.im))
        if type(e) is SymFP:
            return e.round(decimals)
        if type(e) is SymFloat:
            r = r_round(e, decimals)
            return SymFloat(r.t, r.is_int, False) if type(r) is SymFloat and r.py else r
        return np.round(_c(e), decimals)
    return into(emap(f, x, k_of(x)), out)


@npf('where')
def _where(c, x=None, y=None):
    if x is None and y is None:
        return _nonzero(c)
    kd = builtins.max(k_of(x), k_of(y), key=lambda q: KORD[q])
    c, x, y = asarr(c), asarr(x), asarr(y)
    C, X, Y = np.broadcast_arrays(c.a, x.a, y.a)
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(*C.shape):
        t = truth(C[i])
        v = ite(t, X[i], Y[i])
        out[i] = cast_elem(v, kd) if kd in 'bifc' else v
    return SymArray(out, kd)


@npf('select')
def _select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = _where(c, v, r)
    return r


@npf('piecewise')
def _piecewise(x, conds, funcs, *a, **k):
    x = asarr(x)
    out = _zeros(x.a.shape, KDT[x.kind])
    n = len(conds)
    rest = None
    for c, f in zip(conds, funcs):
        c = asarr(c)
        rest = c if rest is None else rest | c
        out[c] = f(x[c], *a, **k) if callable(f) else f
    if len(funcs) == n + 1:
        c = ~rest
        out[c] = funcs[-1](x[c], *a, **k) if callable(funcs[-1]) else funcs[-1]
    return out


@npf('putmask')
def _putmask(a, m, v):
    a[...] = _where(m, v, a)


@npf('copyto')
def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@npf('clip')
def _clip(x, lo=None, hi=None, out=None, **k):
    lo = k.get('a_min', k.get('min', lo)) if lo is None else lo
    hi = k.get('a_max', k.get('max', hi)) if hi is None else hi
    r = x if type(x) is SymArray or is_num(x) else asarr(x)
    if lo is not None:
        r = _NP.maximum(r, lo)
    if hi is not None:
        r = _NP.minimum(r, hi)
    return into(r, out)


def s_isclose(a, b, rtol, atol, equal_nan):
    """|a-b| <= atol + rtol*|b| (a finite symbolic number is never close to inf)"""
    if not is_sym(a) and not is_sym(b):
        return np.bool_(np.isclose(_c(a), _c(b), rtol, atol, equal_nan))
    for p in (a, b):
        if not is_sym(p) and elem_kind(p) != 'c' and not math.isfinite(p):
            return np.bool_(False)
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


@npf('isclose')
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bmap(lambda p, q: s_isclose(p, q, rtol, atol, equal_nan), a, b, 'b')


@npf('allclose')
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(reduce_all(asarr(_isclose(a, b, rtol, atol, equal_nan))))


@npf('array_equal')
def _array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.a.shape != b.a.shape:
        return False
    return bool(reduce_all(asarr(cmpop('==', a, b))))


@npf('array_equiv')
def _array_equiv(a, b):
    try:
        return bool(reduce_all(asarr(cmpop('==', a, b))))
    except ValueError:
        return False


@npf('nan_to_num')
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        return e if is_sym(e) else np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf)
    return emap(f, x if type(x) is SymArray or is_num(x) else asarr(x), k_of(x))


npf('iscomplexobj')(lambda x: k_of(x) == 'c')
npf('isrealobj')(lambda x: k_of(x) != 'c')


@npf('isin', 'in1d')
def _isin(x, vals, **k):
    els = list(asarr(vals).a.flat)
    return emap(lambda e: b_or(*[s_cmp('==', e, v) for v in els]), asarr(x), 'b')


@npf('polyval')
def _polyval(p, x):
    r = asarr(x) * 0.0 if type(x) is SymArray else 0.0
    for c in asarr(p):
        r = r * x + c
    return r


@npf('outer')
def _outer(x, y):
    x, y = asarr(x).ravel(), asarr(y).ravel()
    return x.reshape(-1, 1) * y.reshape(1, -1)


@npf('trapz', 'trapezoid')
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    d = dx if x is None else _diff(asarr(x))
    return _sum(d * (y[1:] + y[:-1]) / 2.0)


@npf('ndenumerate')
def _ndenumerate(x):
    x = asarr(x)
    return ((i, as_scalar(e, x.kind)) for i, e in np.ndenumerate(x.a))


npf('nditer')(lambda x, **k: asarr(x).flat)


class _Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        self.otypes = otypes

    def __call__(self, *xs):
        xs = [asarr(x) for x in xs]
        bs = np.broadcast_arrays(*[x.a for x in xs])
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*bs[0].shape):
            out[i] = self.f(*[as_scalar(b[i], x.kind) for b, x in zip(bs, xs)])
        if self.otypes:
            k = kind_of(self.otypes[0])
        else:
            k = builtins.max((elem_kind(e) for e in out.flat), key=lambda q: KORD[q]) if out.size else 'f'
        for i in np.ndindex(*out.shape):
            out[i] = cast_elem(out[i], k) if k in 'bifc' else out[i]
        return SymArray(out, k)


_NP.vectorize = _Vectorize


@npf('fromiter')
def _fromiter(it, dtype=float, count=-1, **k):
    return _array(list(it), dtype)


@npf('apply_along_axis')
def _apply(f, axis, x, *a, **k):
    x = asarr(x)
    m = np.moveaxis(x.a, axis, -1)
    out = [f(SymArray(m[i], x.kind), *a, **k) for i in np.ndindex(*m.shape[:-1])]
    r = asarr(out)
    return r.reshape(m.shape[:-1] + r.a.shape[1:])


@npf('fromstring')
def _fromstring(s, dtype=float, count=-1, sep=''):
    cells = s.split(sep) if sep.strip() else s.split()
    return asarr([parse_float(c) for c in cells if c.strip()], kind_of(dtype))


@npf('format_float_positional', 'format_float_scientific')
def _fmtfloat(x, precision=None, **k):
    if is_sym(x):
        return core.token(x if precision is None else core.fmt_value(x, '.%df' % precision))
    return np.format_float_positional(x, precision=precision, **k)


@npf('array_repr')
def _array_repr(x, *a, **k):
    return repr(asarr(x))


@npf('array_str')
def _array_str(x, *a, **k):
    return str(asarr(x))


@npf('result_type')
def _result_type(*xs):
    return np.result_type(*[KDT[k_of(x)] if type(x) is SymArray or is_sym(x) else x for x in xs])


@npf('may_share_memory', 'shares_memory')
def _share(x, y, *a):
    return np.shares_memory(x.a, y.a) if type(x) is SymArray and type(y) is SymArray else False


@npf('issubdtype')
def _issubdtype(a, b):
    return np.issubdtype(a, b)
