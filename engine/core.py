"""Core of the symbolic executor: path exploration, solver queries and the
symbolic scalars (real, IEEE double, boolean, complex).

The code under test is executed by CPython itself; numbers that stand for
arbitrary inputs are the Sym* objects of this module.  They build z3 terms, and
every Python-level branch on a symbolic condition is decided by the solver: both
feasible outcomes are explored (depth first, by re-execution).
"""
import math
import time
from fractions import Fraction
import numpy as np
import z3

CUR = None            # the Run being executed


class PathAbort(BaseException):
    """path cannot be continued (infeasible, or pruned by assume)"""


class PathLimit(BaseException):
    """a stated bound was hit inside one path"""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.discharged = 0
        self.concretized = 0
        self.cut_incompat = 0
        self.notes = {}

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def RV(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator) if f.denominator != 1 else str(f.numerator))


def z3_to_float(v):
    """numeral (rational, algebraic, fp, int) -> python number"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return math.inf if n > 0 else -math.inf
    if z3.is_algebraic_value(v):
        a = v.approx(60)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_fp_value(v):
        if v.isNaN():
            return math.nan
        if v.isInf():
            return -math.inf if v.isNegative() else math.inf
        bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        return float(np.array([bv], dtype=np.uint64).view(np.float64)[0])
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError("not a value: %s" % v)


_SIMP = {}


def canon(t):
    """canonical (sum of monomials) form, used only as a cache key"""
    return z3.simplify(t, som=True, som_blowup=10)


def _mk_solvers(timeout_ms):
    def nra():
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', timeout_ms)
        return s

    def dflt():
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        return s

    def nra2():
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout_ms)
        return s
    return dflt, nra, nra2


class Violation:
    def __init__(self, label, inputs, detail):
        self.label, self.inputs, self.detail = label, inputs, detail


class Run:
    """one execution (one path) of one harness"""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.pc = []
        self.stats = stats
        self.opts = opts
        self.fresh_n = 0
        self.cache = {}
        self.fnapps = {}
        self.tokens = []
        self.inputs = {}          # name -> (kind, payload)
        self.ranges = {}          # name -> declared range
        self.model = None         # a model of pc, or None
        self.model_ok = False
        self.candidates = []
        self.keep = []
        self.partial = []         # concretisations on this path
        self.kind = 'real'        # or 'fp' / 'int'
        self.reached = False
        self.labels = {}
        self.reuse = None
        self.wider = None
        self.note_for = None

    # ---------------------------------------------------------------- terms
    def fresh(self, hint, sort='real'):
        self.fresh_n += 1
        nm = "%s!%d" % (hint, self.fresh_n)
        if sort == 'real':
            return z3.Real(nm)
        if sort == 'int':
            return z3.Int(nm)
        if sort == 'bool':
            return z3.Bool(nm)
        raise ValueError(sort)

    def add(self, c):
        self.pc.append(c)
        if self.model is not None:
            # keep the model only if it still satisfies the new constraint
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    # --------------------------------------------------------------- solving
    def solve(self, extra, timeout_ms=None, want_model=True):
        """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
        st = self.stats
        t0 = time.time()
        st.queries += 1
        tmo = timeout_ms or self.opts.get('timeout_ms', 8000)
        res, model = 'unknown', None
        portfolio = self.opts.get('portfolio')
        dflt, nra, nra2 = _mk_solvers(tmo)
        if portfolio is None:
            if self.kind == 'real':
                portfolio = ('d1', 'n', 'd')
            else:
                portfolio = ('d',)
        for which in portfolio:
            if which == 'd1':
                s = z3.Solver()
                s.set('timeout', min(1500, tmo))
            elif which == 'd':
                s = dflt()
            elif which == 'n':
                s = nra()
            elif which == 'fp':
                s = z3.Tactic('qffp').solver()
                s.set('timeout', tmo)
            else:
                s = nra2()
            try:
                for c in self.pc:
                    s.add(c)
                for c in extra:
                    s.add(c)
                r = s.check()
                if r == z3.sat:
                    res = 'sat'
                    model = s.model()
                    break
                if r == z3.unsat:
                    res = 'unsat'
                    break
            except z3.Z3Exception as exc:
                st.note('z3: ' + str(exc)[:60])
        st.solver_s += time.time() - t0
        setattr(st, res, getattr(st, res) + 1)
        return res, model

    def feasible(self, c):
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(c, model_completion=True)):
                    return 'sat', self.model
            except z3.Z3Exception:
                pass
        return self.solve([c], timeout_ms=self.opts.get('branch_timeout_ms', 3000))

    def branch(self, c):
        """decide a symbolic condition on this path"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.add(c if d else z3.Not(c))
            return d
        self.stats.branches += 1
        if len(self.decisions) > self.opts.get('max_depth', 4000):
            raise PathLimit("more than %d branches on one path" % self.opts.get('max_depth', 4000))
        nc = z3.Not(c)
        rt, mt = self.feasible(c)
        if rt == 'unsat':
            d, m, both = False, None, False
        else:
            rf, mf = self.feasible(nc)
            if rf == 'unsat':
                d, m, both = True, mt, False
            else:
                d, m, both = True, mt, True
        if both:
            self.alternatives.append(self.decisions + [False])
        self.decisions.append(d)
        self.pos += 1
        self.pc.append(c if d else nc)
        if d:
            self.model = m if m is not None else None
        elif self.model is not None:
            pass  # model (if any) satisfies not c
            try:
                if not z3.is_true(self.model.eval(nc, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None
        return d

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.t
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add(c)

    def get_model(self):
        if self.model is None:
            r, m = self.solve([])
            if r == 'unsat':
                raise PathAbort()
            if r == 'sat':
                self.model = m
        return self.model

    def realize(self, t, why):
        """concretise a term (recorded: the path is then only partially covered)"""
        t = z3.simplify(t)
        if not is_val(t):
            m = self.get_model()
            if m is None:
                raise PathLimit("cannot concretise (%s): solver gave no model" % why)
            v = m.eval(t, model_completion=True)
            if not is_val(v):
                raise PathLimit("cannot concretise (%s)" % why)
            if z3.is_algebraic_value(v):
                # use a rational neighbour
                f = RV(z3_to_float(v))
                self.stats.note('concretised algebraic value')
                v = f
            self.stats.concretized += 1
            self.partial.append(why)
            self.stats.note('concretised: ' + why)
            self.pc.append(t == v)
            self.model = None
            t = v
        return z3_to_float(t)

    # ------------------------------------------------------ algebraic helpers
    def key(self, name, *ts):
        cs = [canon(t) for t in ts]
        self.keep.extend(cs)
        return (name,) + tuple(c.get_id() for c in cs)

    def inv(self, t):
        """1/t for t != 0 (already established on this path)"""
        k = self.key('inv', t)
        if k not in self.cache:
            # share the inverse of a multiple: 1/(q*u) with numeral q
            v = self.fresh('inv')
            self.cache[k] = v
            self.pc.append(v * t == 1)
            self.model = None
        return self.cache[k]

    def sqrt(self, t):
        k = self.key('sqrt', t)
        if k not in self.cache:
            v = self.fresh('sqrt')
            self.cache[k] = v
            self.pc.append(v >= 0)
            self.pc.append(v * v == t)
            self.model = None
        return self.cache[k]

    def csqrt(self, re, im):
        k = self.key('csqrt', re, im)
        if k not in self.cache:
            a, b = self.fresh('csr'), self.fresh('csi')
            self.cache[k] = (a, b)
            self.pc += [a * a - b * b == re, 2 * a * b == im,
                        z3.Or(a > 0, z3.And(a == 0, b >= 0))]
            self.model = None
        return self.cache[k]

    def rounded(self, t, half):
        """a value within +-half of t (contract of decimal rounding)"""
        k = self.key('round%s' % half, t)
        if k not in self.cache:
            v = self.fresh('rnd')
            self.cache[k] = v
            h = RV(half) if not isinstance(half, Fraction) else z3.RealVal(str(half))
            self.pc += [v - t <= h, t - v <= h]
            self.model = None
        return self.cache[k]

    def rel_rounded(self, t, rel):
        k = self.key('rel%s' % rel, t)
        if k not in self.cache:
            v = self.fresh('rrd')
            self.cache[k] = v
            r = z3.RealVal(str(rel)) if isinstance(rel, Fraction) else RV(rel)
            at = z3.If(t >= 0, t, -t)
            self.pc += [v - t <= r * at, t - v <= r * at]
            self.model = None
        return self.cache[k]

    def trunc(self, t):
        k = self.key('trunc', t)
        if k not in self.cache:
            v = self.fresh('trunc', 'int')
            r = z3.ToReal(v)
            self.cache[k] = r
            self.pc += [z3.If(t >= 0, z3.And(r <= t, t < r + 1), z3.And(r >= t, t > r - 1))]
            self.model = None
        return self.cache[k]

    def fn(self, name, *ts):
        """uninterpreted real function; equal canonical arguments share a value
        and congruence is added pairwise"""
        k = self.key('fn_' + name, *ts)
        if k not in self.cache:
            v = self.fresh(name)
            self.cache[k] = v
            for args, w in self.fnapps.get(name, []):
                self.pc.append(z3.Implies(z3.And([a == b for a, b in zip(args, ts)]), v == w))
            self.fnapps.setdefault(name, []).append((ts, v))
            if name in ('exp', 'pow'):
                self.pc.append(v > 0)
            if name == 'pow':
                self.pc.append(z3.Implies(ts[1] == 0, v == 1))
                self.pc.append(z3.Implies(ts[1] == 1, v == ts[0]))
                self.pc.append(z3.Implies(ts[1] == 2, v == ts[0] * ts[0]))
            if name == 'log':
                self.pc.append(z3.Implies(ts[0] == 1, v == 0))
                self.pc.append(z3.Implies(ts[0] > 1, v > 0))
                self.pc.append(z3.Implies(ts[0] < 1, v < 0))
            self.model = None
        return self.cache[k]

    # ----------------------------------------------------------------- checks
    def check(self, cond, label, weak=None):
        """assert cond on this path.  `weak` is an alternative, weaker form of
        the condition tried when the (cheaper) strong form is not provable."""
        st = self.stats
        st.checks += 1
        self.reached = True
        self.labels[label] = self.labels.get(label, 0) + 1
        conds = [cond] if weak is None else [cond, weak]
        last = None
        for c in conds:
            if isinstance(c, SymBool):
                c = c.t
            if isinstance(c, (bool, np.bool_)):
                if c:
                    st.discharged += 1
                    return True
                last = ('sat', None, z3.BoolVal(False))
                continue
            c = z3.simplify(c)
            if z3.is_true(c):
                st.discharged += 1
                return True
            r, m = self.solve([z3.Not(c)], timeout_ms=self.opts.get('check_timeout_ms', 20000))
            if r == 'unsat':
                st.discharged += 1
                return True
            last = (r, m, c)
        r, m, c = last
        if r == 'sat' and self.wider is not None and not isinstance(self.wider, (bool, np.bool_)):
            # prefer a counterexample that misses the tolerance by a wide margin
            r2, m2 = self.solve([z3.Not(self.wider.t)], timeout_ms=self.opts.get('check_timeout_ms', 20000))
            if r2 == 'sat':
                m = m2
        if r == 'sat' and m is None:
            r, m = self.solve([], timeout_ms=self.opts.get('check_timeout_ms', 20000))
            if r == 'unsat':
                raise PathAbort()
        self.candidates.append((label, r, m, c, self.note_for))
        return False

    def input_values(self, model):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            if kind == 'real' or kind == 'int' or kind == 'bool' or kind == 'fp':
                v = model.eval(payload, model_completion=True)
                f = z3_to_float(v)
                if kind == 'fp' or kind == 'real':
                    f = float(f)
                    out[name] = f if math.isfinite(f) else repr(f)
                else:
                    out[name] = f
            elif kind == 'str':
                chars = []
                for ch in payload:
                    if isinstance(ch, str):
                        chars.append(ch)
                    else:
                        chars.append(chr(z3_to_float(model.eval(ch, model_completion=True))))
                out[name] = "".join(chars)
            else:
                out[name] = payload
        return out


def is_val(t):
    return (z3.is_rational_value(t) or z3.is_algebraic_value(t) or z3.is_int_value(t)
            or z3.is_fp_value(t) or z3.is_true(t) or z3.is_false(t))


# ======================================================================= bool
class SymBool:
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return np.bool_

    def __bool__(self):
        return CUR.branch(self.t)

    def _lift(self, o):
        if type(o) is SymBool:
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else mkbool(z3.And(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.t, o))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        l = self._lift(o)
        if l is None:
            return mkbool(z3.If(self.t, RV(1), RV(0)) == num_term(o)) if is_num(o) else np.bool_(False)
        return mkbool(self.t == l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r

    def __hash__(self):
        return id(self)

    def num(self):
        return SymFloat(z3.If(self.t, RV(1), RV(0)), True)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(bool)

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return "SymBool"

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return bool(self)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return np.bool_(True)
    if z3.is_false(t):
        return np.bool_(False)
    return SymBool(t)


def is_sym(x):
    return type(x) in SYMSCALARS


def is_num(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_)) or type(x) in SYMSCALARS


def num_term(x):
    """z3 Real term of a finite real scalar"""
    ty = type(x)
    if ty is SymFloat:
        return x.t
    if ty is SymBool:
        return z3.If(x.t, RV(1), RV(0))
    return RV(x)


def b_not(x):
    if type(x) is SymBool:
        return ~x
    return np.bool_(not x)


def b_and(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return np.bool_(False)
    if not ts:
        return np.bool_(True)
    return mkbool(z3.And(ts))


def b_or(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return np.bool_(True)
    if not ts:
        return np.bool_(False)
    return mkbool(z3.Or(ts))


# ======================================================================= real
def is_py(x):
    """plain Python number (as opposed to a numpy scalar)"""
    if type(x) is SymFloat:
        return x.py
    return isinstance(x, (int, float)) and not isinstance(x, np.generic)


def num(v, py=False):
    return float(v) if py else np.float64(v)


def mkreal(t, is_int=False, py=False):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        n, d = t.numerator_as_long(), t.denominator_as_long()
        if is_int and d == 1:
            return n if py else np.int64(n) if abs(n) < 2 ** 63 else n
        try:
            v = n / d
        except OverflowError:
            v = np.inf if n > 0 else -np.inf
        return num(v, py)
    return SymFloat(t, is_int, py)


def _npattr(name, fn):
    def get(self):
        if self.py:
            raise AttributeError("'%s' object has no attribute '%s'" % ('int' if self.is_int else 'float', name))
        return fn(self)
    return property(get)


def _meth(name):
    def fn(self):
        from . import symnp
        return getattr(symnp.asarr(self), name)
    return fn


class SymFloat:
    """a finite real number; as far as types are concerned a numpy float64/int64
    or (py=True) a plain Python float/int"""
    __slots__ = ('t', 'is_int', 'py')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, is_int=False, py=False):
        self.t = t
        self.is_int = is_int
        self.py = py

    @property
    def __class__(self):
        if self.py:
            return int if self.is_int else float
        return np.int64 if self.is_int else np.float64

    shape = _npattr('shape', lambda s: ())
    ndim = _npattr('ndim', lambda s: 0)
    size = _npattr('size', lambda s: 1)
    dtype = _npattr('dtype', lambda s: np.dtype(np.int64 if s.is_int else np.float64))
    T = _npattr('T', lambda s: s)
    item = _npattr('item', lambda s: lambda: SymFloat(s.t, s.is_int, True))
    tolist = _npattr('tolist', lambda s: lambda: SymFloat(s.t, s.is_int, True))
    copy = _npattr('copy', lambda s: lambda: s)
    min = _npattr('min', lambda s: lambda *a, **k: s)
    max = _npattr('max', lambda s: lambda *a, **k: s)
    sum = _npattr('sum', lambda s: lambda *a, **k: s)
    mean = _npattr('mean', lambda s: lambda *a, **k: s)
    all = _npattr('all', lambda s: lambda *a, **k: s != 0)
    any = _npattr('any', lambda s: lambda *a, **k: s != 0)
    reshape = _npattr('reshape', _meth('reshape'))
    ravel = _npattr('ravel', _meth('ravel'))
    flatten = _npattr('flatten', _meth('flatten'))
    squeeze = _npattr('squeeze', lambda s: lambda *a, **k: s)
    round = _npattr('round', lambda s: lambda decimals=0, out=None: r_round(s, decimals))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return num(0.0, self.py)

    def conjugate(self):
        return self
    conj = _npattr('conj', lambda s: lambda: s)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def astype(self):
        if self.py:
            raise AttributeError("'float' object has no attribute 'astype'")
        from . import symnp
        return lambda dt, **k: symnp.cast_elem(self, symnp.kind_of(dt), dt)

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __bool__(self):
        return CUR.branch(self.t != 0)

    def __float__(self):
        return float(CUR.realize(self.t, 'float() of a symbolic number in C code'))

    def __int__(self):
        return int(CUR.realize(self.t, 'int() of a symbolic number'))

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(CUR.realize(self.t, 'index from a symbolic number'))

    def __complex__(self):
        return complex(self.__float__())

    def __hash__(self):
        # equal numbers need equal hashes: any two symbolic numbers may be equal
        return 0x5EED

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token(fmt_value(self, spec))

    def __getitem__(self, idx):
        if self.py:
            raise TypeError("'float' object is not subscriptable")
        from . import symnp
        if idx is None or idx == () or idx is Ellipsis:
            return symnp.asarr(self)[idx]
        if isinstance(idx, (bool, np.bool_)) or type(idx) is SymBool:
            return symnp.asarr(self).reshape(1)[symnp.asarr([idx])]
        raise IndexError("invalid index to scalar variable.")

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    # arithmetic
    def _bin(self, o, op, rev=False):
        ty = type(o)
        if ty is SymFloat or ty is SymBool:
            a, b = self, (o if ty is SymFloat else o.num())
        elif ty is SymFP:
            return NotImplemented
        elif ty is SymComplex:
            return NotImplemented
        elif isinstance(o, (bool, np.bool_, int, np.integer, float, np.floating)):
            a, b = self, o
        elif isinstance(o, (complex, np.complexfloating)):
            a, b = SymComplex(self, np.float64(0)), o
            if rev:
                a, b = b, a
            return c_op(op, a, b)
        elif isinstance(o, Fraction):
            a, b = self, o
        elif ty is np.ndarray:
            from . import symnp
            o = symnp.asarr(o)
            return symnp.binop(op, o, self) if rev else symnp.binop(op, self, o)
        else:
            return NotImplemented
        if rev:
            a, b = b, a
        return r_op(op, a, b)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)

    def __floordiv__(self, o):
        q = self / o
        if type(q) is not SymFloat:
            return np.float64(math.floor(q)) if math.isfinite(q) else q
        return mkreal(z3.ToReal(z3.ToInt(q.t)), False, self.py and is_py(o))

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __neg__(self): return mkreal(-self.t, self.is_int, self.py)
    def __pos__(self): return self
    def __abs__(self): return mkreal(z3.If(self.t >= 0, self.t, -self.t), self.is_int, self.py)

    def __round__(self, n=None):
        if n is None:
            if self.is_int:
                return self
            return int(self)
        return r_round(self, n)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def _cmp(self, o, op):
        ty = type(o)
        if ty is SymFloat:
            a, b = self.t, o.t
        elif ty is SymBool:
            a, b = self.t, o.num().t
        elif ty is SymComplex or isinstance(o, (complex, np.complexfloating)):
            if op == '==':
                return c_eq(self, o)
            if op == '!=':
                return b_not(c_eq(self, o))
            return NotImplemented
        elif isinstance(o, (bool, np.bool_, int, np.integer, float, np.floating)):
            f = float(o)
            if math.isnan(f):
                return np.bool_(op == '!=')
            if math.isinf(f):
                pos = f > 0
                return np.bool_({'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                                 '==': False, '!=': True}[op])
            a, b = self.t, RV(o)
        elif isinstance(o, Fraction):
            a, b = self.t, z3.RealVal(str(o))
        elif ty is np.ndarray:
            from . import symnp
            return symnp.cmpop(op, self, symnp.asarr(o))
        else:
            return NotImplemented
        t = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        return mkbool(t)


def sign_fork(x):
    """sign of a real scalar: -1, 0, 1 (forks)"""
    if type(x) is not SymFloat:
        x = float(x)
        return (x > 0) - (x < 0)
    if CUR.branch(x.t > 0):
        return 1
    if CUR.branch(x.t == 0):
        return 0
    return -1


def r_op(op, a, b):
    """real arithmetic with at least one SymFloat; the other may be any real
    number including inf/nan"""
    sa, sb = type(a) is SymFloat, type(b) is SymFloat
    py = is_py(a) and is_py(b)
    ints = ((a.is_int if sa else isinstance(a, (int, np.integer, bool, np.bool_)))
            and (b.is_int if sb else isinstance(b, (int, np.integer, bool, np.bool_))))
    # non finite concrete operand
    for which, x in ((0, a), (1, b)):
        if type(x) is not SymFloat and not isinstance(x, Fraction) and not math.isfinite(x):
            f = float(x)
            other = b if which == 0 else a
            if math.isnan(f):
                return num('nan', py)
            if op == '+':
                return num(f, py)
            if op == '-':
                return num(f if which == 0 else -f, py)
            if op == '*':
                s = sign_fork(other)
                return num(f * s if s else 'nan', py)
            if op == '/':
                if which == 1:
                    return num(0.0, py)
                s = sign_fork(other)
                if s == 0 and py:
                    raise ZeroDivisionError("float division by zero")
                return num(f * (s if s else 1), py)
            if op == '**':
                v = np.float64(CUR.realize(num_term(other), 'power with infinite operand'))
                with np.errstate(all='ignore'):
                    return num(v ** f if which == 1 else np.float64(f) ** v, py)
    ta = a.t if sa else (z3.RealVal(str(a)) if isinstance(a, Fraction) else RV(a))
    tb = b.t if sb else (z3.RealVal(str(b)) if isinstance(b, Fraction) else RV(b))
    if op == '+':
        return mkreal(ta + tb, ints, py)
    if op == '-':
        return mkreal(ta - tb, ints, py)
    if op == '*':
        return mkreal(ta * tb, ints, py)
    if op == '/':
        if not sb:
            if frac(b) == 0:
                if py:
                    raise ZeroDivisionError("float division by zero")
                s = sign_fork(a)
                return np.float64(np.nan if s == 0 else s * np.inf)
            return mkreal(ta / tb, False, py)
        if CUR.branch(tb == 0):
            if py:
                raise ZeroDivisionError("float division by zero")
            s = sign_fork(a) if sa else ((float(a) > 0) - (float(a) < 0))
            return np.float64(np.nan if s == 0 else s * np.inf)
        return mkreal(ta * CUR.inv(tb), False, py)
    if op == '**':
        return r_pow(a, b)
    raise ValueError(op)


MAXPOW = 16


def r_pow(a, b):
    sb = type(b) is SymFloat
    py = is_py(a) and is_py(b)
    if not sb:
        fb = float(b)
        if fb == int(fb) and abs(fb) <= MAXPOW:
            n = int(fb)
            bint = isinstance(b, (int, np.integer))
            if n == 0:
                return num(1.0, py)
            t = a.t
            if n < 0:
                if a.is_int and bint and not py:
                    raise ValueError("Integers to negative integer powers are not allowed.")
                if CUR.branch(t == 0):
                    if py:
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                    return np.float64(np.inf)
                t = CUR.inv(t)
                n = -n
            r = t
            for _ in range(n - 1):
                r = r * t
            return mkreal(r, a.is_int and fb > 0 and bint, py)
        if abs(fb) * 2 == int(abs(fb) * 2) and abs(fb) <= MAXPOW:
            if py and CUR.branch(a.t < 0):
                return float(CUR.realize(a.t, 'fractional power of a negative number')) ** fb
            s = r_sqrt(SymFloat(a.t, False, False))
            if type(s) is not SymFloat:
                with np.errstate(all='ignore'):
                    return num(s ** int(fb * 2), py)
            r = r_pow(SymFloat(s.t, False, py), int(fb * 2))
            return r
    ta = num_term(a)
    tb = num_term(b)
    # symbolic (or odd) exponent: uninterpreted for a positive base
    if not (z3.is_rational_value(ta) and z3_to_float(ta) > 0):
        if not CUR.branch(ta > 0):
            va = CUR.realize(ta, 'power of a non-positive base')
            vb = CUR.realize(tb, 'power of a non-positive base')
            with np.errstate(all='ignore'):
                return float(va) ** float(vb) if py else np.power(np.float64(va), np.float64(vb))
    return mkreal(CUR.fn('pow', ta, tb), False, py)


def r_sqrt(a):
    if type(a) is not SymFloat:
        with np.errstate(all='ignore'):
            return np.sqrt(np.float64(a))
    if CUR.branch(a.t < 0):
        return np.float64('nan')
    return mkreal(CUR.sqrt(a.t))


def r_round(a, decimals):
    if type(a) is not SymFloat:
        return np.round(a, decimals)
    d = int(decimals)
    if a.is_int and d >= 0:
        return a
    return mkreal(CUR.rounded(a.t, Fraction(1, 2) / Fraction(10) ** d))


def r_fn(name, a):
    """transcendental function of a real scalar"""
    if type(a) is not SymFloat:
        with np.errstate(all='ignore'):
            return getattr(np, name)(np.float64(a))
    if name == 'log':
        if CUR.branch(a.t == 0):
            return np.float64(-np.inf)
        if CUR.branch(a.t < 0):
            return np.float64('nan')
    if name == 'log10':
        return r_fn('log', a) / float(np.log(10.0))
    if name == 'log2':
        return r_fn('log', a) / float(np.log(2.0))
    if name == 'exp':
        return mkreal(CUR.fn('exp', a.t))
    return mkreal(CUR.fn(name, a.t))


def r_arctan2(y, x):
    if type(y) is not SymFloat and type(x) is not SymFloat:
        return np.arctan2(np.float64(y), np.float64(x))
    tx, ty = num_term(x), num_term(y)
    if CUR.branch(tx > 0):
        return r_fn('arctan', y / x)
    return mkreal(CUR.fn('arctan2', ty, tx))


def r_min(a, b):
    return r_minmax(a, b, True)


def r_max(a, b):
    return r_minmax(a, b, False)


def r_minmax(a, b, mn):
    sa, sb = type(a) in (SymFloat, SymFP), type(b) in (SymFloat, SymFP)
    if not sa and not sb:
        if isinstance(a, (float, np.floating)) and math.isnan(a):
            return a
        if isinstance(b, (float, np.floating)) and math.isnan(b):
            return b
        return (a if a <= b else b) if mn else (a if a >= b else b)
    if type(a) is SymFP or type(b) is SymFP:
        a, b = fp_lift(a), fp_lift(b)
        c = z3.fpLEQ(a.t, b.t) if mn else z3.fpGEQ(a.t, b.t)
        return SymFP(z3.If(c, a.t, b.t))
    for x, o in ((a, b), (b, a)):
        if type(x) is not SymFloat and not math.isfinite(x):
            if math.isnan(x):
                return np.float64('nan')
            return o if (x > 0) == mn else np.float64(x)
    ta, tb = num_term(a), num_term(b)
    c = ta <= tb if mn else ta >= tb
    ai = a.is_int if sa else isinstance(a, (int, np.integer))
    bi = b.is_int if sb else isinstance(b, (int, np.integer))
    return mkreal(z3.If(c, ta, tb), ai and bi)


def ite(c, a, b):
    """elementwise where(c, a, b)"""
    if type(c) is not SymBool:
        return a if c else b
    ca, cb = type(a) is SymComplex or isinstance(a, (complex, np.complexfloating)), \
        type(b) is SymComplex or isinstance(b, (complex, np.complexfloating))
    if ca or cb:
        a, b = c_lift(a), c_lift(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if type(a) is SymBool or isinstance(a, (bool, np.bool_)):
        if type(b) is SymBool or isinstance(b, (bool, np.bool_)):
            la = a.t if type(a) is SymBool else z3.BoolVal(bool(a))
            lb = b.t if type(b) is SymBool else z3.BoolVal(bool(b))
            return mkbool(z3.If(c.t, la, lb))
    if type(a) is SymFP or type(b) is SymFP:
        return SymFP(z3.If(c.t, fp_lift(a).t, fp_lift(b).t))
    fin = True
    for x in (a, b):
        if type(x) not in (SymFloat, SymBool):
            if not isinstance(x, (int, float, np.integer, np.floating, np.bool_)) or not math.isfinite(x):
                fin = False
    if not fin:
        return a if CUR.branch(c.t) else b
    return mkreal(z3.If(c.t, num_term(a), num_term(b)))


# ==================================================================== complex
class SymComplex:
    __slots__ = ('re', 'im')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def __class__(self):
        return np.complex128

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(np.complex128)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def T(self):
        return self

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def reshape(self, *a):
        from . import symnp
        return symnp.asarr(self).reshape(*a)

    def ravel(self, *a):
        return self.reshape(1)
    flatten = ravel

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        # equal numbers need equal hashes: any two symbolic numbers may be equal
        return 0x5EED

    def __repr__(self):
        return "(%s%s)" % (self.re, self.im)

    def __format__(self, spec):
        return "(%s+%sj)" % (format(self.re, spec), format(self.im, spec))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __bool__(self):
        return bool(b_not(c_eq(self, 0.0)))

    def __getitem__(self, idx):
        from . import symnp
        return symnp.asarr(self)[idx]

    def _bin(self, o, op, rev=False):
        if not is_num(o):
            return NotImplemented
        a, b = self, o
        if rev:
            a, b = b, a
        return c_op(op, a, b)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __pos__(self): return self
    def __abs__(self): return r_sqrt(self.re * self.re + self.im * self.im)
    def __eq__(self, o): return c_eq(self, o) if is_num(o) else NotImplemented
    def __ne__(self, o): return b_not(c_eq(self, o)) if is_num(o) else NotImplemented


def c_lift(x):
    ty = type(x)
    if ty is SymComplex:
        return x
    if ty is SymFloat:
        return SymComplex(x, np.float64(0.0))
    if ty is SymBool:
        return SymComplex(x.num(), np.float64(0.0))
    if isinstance(x, (complex, np.complexfloating)):
        return SymComplex(np.float64(x.real), np.float64(x.imag))
    return SymComplex(np.float64(x), np.float64(0.0))


def c_mk(re, im):
    if is_sym(re) or is_sym(im):
        return SymComplex(re, im)
    return np.complex128(complex(float(re), float(im)))


def c_eq(a, b):
    a, b = c_lift(a), c_lift(b)
    return b_and(a.re == b.re, a.im == b.im)


def is_zero_c(x):
    return not is_sym(x) and float(x) == 0.0


def z_mul(a, b):
    """product that keeps exact zeros (0 * finite sym)"""
    if is_zero_c(a) or is_zero_c(b):
        if (is_sym(a) or math.isfinite(a)) and (is_sym(b) or math.isfinite(b)):
            return np.float64(0.0)
    with np.errstate(all='ignore'):
        return a * b


def c_op(op, a, b):
    # keep real operands real where that matters for precision of the model
    a0, b0 = a, b
    a, b = c_lift(a), c_lift(b)
    with np.errstate(all='ignore'):
        if op == '+':
            return c_mk(a.re + b.re, a.im + b.im)
        if op == '-':
            return c_mk(a.re - b.re, a.im - b.im)
        if op == '*':
            return c_mk(z_mul(a.re, b.re) - z_mul(a.im, b.im),
                        z_mul(a.re, b.im) + z_mul(a.im, b.re))
        if op == '/':
            if is_zero_c(b.im):
                return c_mk(a.re / b.re, a.im / b.re)
            den = z_mul(b.re, b.re) + z_mul(b.im, b.im)
            nr = z_mul(a.re, b.re) + z_mul(a.im, b.im)
            ni = z_mul(a.im, b.re) - z_mul(a.re, b.im)
            if type(den) is SymFloat:
                if CUR.branch(den.t == 0):
                    return np.complex128(complex(np.nan, np.nan))
            elif den == 0:
                return np.complex128(complex(np.nan, np.nan))
            return c_mk(nr / den, ni / den)
        if op == '**':
            e = b0
            if not is_sym(e) and not isinstance(e, (complex, np.complexfloating)):
                fe = float(e)
                if fe == 0.5:
                    return c_sqrt(a)
                if fe == int(fe) and abs(fe) <= MAXPOW:
                    n = int(abs(fe))
                    if n == 0:
                        return np.complex128(1.0)
                    r = a
                    for _ in range(n - 1):
                        r = c_op('*', r, a)
                    return c_op('/', 1.0, r) if fe < 0 else c_mk(c_lift(r).re, c_lift(r).im)
            ca = complex(a)
            cb = complex(b)
            return np.complex128(ca) ** np.complex128(cb)
    raise ValueError(op)


def c_sqrt(z):
    z = c_lift(z)
    if not is_sym(z.re) and not is_sym(z.im):
        return np.sqrt(np.complex128(complex(float(z.re), float(z.im))))
    for p in (z.re, z.im):
        if not is_sym(p) and not math.isfinite(p):
            return np.sqrt(np.complex128(complex(z)))
    a, b = CUR.csqrt(num_term(z.re), num_term(z.im))
    return SymComplex(mkreal(a), mkreal(b))


# ========================================================================= FP
FP = z3.Float64()
RNE = z3.RNE()


def FPV(x):
    return z3.FPVal(float(x), FP)


def fp_lift(x):
    if type(x) is SymFP:
        return x
    return SymFP(FPV(x))


class SymFP:
    """an IEEE double, bit precise"""
    __slots__ = ('t',)
    __array_ufunc__ = None
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1
    is_int = False

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return np.float64

    @property
    def dtype(self):
        return np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np.float64(0.0)

    def item(self):
        return self

    def copy(self):
        return self

    def __hash__(self):
        # equal numbers need equal hashes: any two symbolic numbers may be equal
        return 0x5EED

    def __repr__(self):
        return token(self)
    __str__ = __repr__

    def __format__(self, s):
        return token(self)

    def __float__(self):
        return float(CUR.realize(self.t, 'float() of a symbolic double in C code'))

    def __bool__(self):
        return CUR.branch(z3.Not(z3.fpIsZero(self.t)))

    def _ok(self, o):
        return type(o) is SymFP or isinstance(o, (int, float, np.integer, np.floating, bool, np.bool_))

    def _b(self, o, f, rev=False):
        if not self._ok(o):
            return NotImplemented
        a, b = self.t, fp_lift(o).t
        if rev:
            a, b = b, a
        return SymFP(z3.simplify(f(RNE, a, b)))

    def __add__(self, o): return self._b(o, z3.fpAdd)
    def __radd__(self, o): return self._b(o, z3.fpAdd, True)
    def __sub__(self, o): return self._b(o, z3.fpSub)
    def __rsub__(self, o): return self._b(o, z3.fpSub, True)
    def __mul__(self, o): return self._b(o, z3.fpMul)
    def __rmul__(self, o): return self._b(o, z3.fpMul, True)
    def __truediv__(self, o): return self._b(o, z3.fpDiv)
    def __rtruediv__(self, o): return self._b(o, z3.fpDiv, True)

    def __pow__(self, o):
        if not is_sym(o) and float(o) == 2.0:
            return self * self
        if not is_sym(o) and float(o) == 1.0:
            return self
        return np.float64(float(self)) ** o

    def __neg__(self): return SymFP(z3.fpNeg(self.t))
    def __pos__(self): return self
    def __abs__(self): return SymFP(z3.fpAbs(self.t))

    def round(self, decimals=0, out=None):
        p = FPV(10.0 ** int(decimals))
        if decimals == 0:
            return SymFP(z3.fpRoundToIntegral(RNE, self.t))
        return SymFP(z3.fpDiv(RNE, z3.fpRoundToIntegral(RNE, z3.fpMul(RNE, self.t, p)), p))

    def __round__(self, n=None):
        return self.round(n or 0)

    def _c(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return mkbool(f(self.t, fp_lift(o).t))

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)
    def __eq__(self, o): return self._c(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._c(o, z3.fpEQ)
        return r if r is NotImplemented else b_not(r)


SYMSCALARS = {SymFloat, SymBool, SymComplex, SymFP}


# ===================================================================== tokens
TOK0 = 0x100000          # plane 16: one character per symbolic number in text


def token(x):
    """one character that stands for the decimal literal of a symbolic number"""
    if not is_sym(x):
        return repr(float(x))
    CUR.tokens.append(x)
    if len(CUR.tokens) > 60000:
        raise PathLimit("too many symbolic numbers in text")
    return chr(TOK0 + len(CUR.tokens) - 1)


def fmt_value(x, spec):
    """value that is left after formatting x with a numeric format spec"""
    import re
    m = re.match(r'^[<>=^ +\-#0-9,_]*?(?:\.(\d+))?([a-zA-Z%]?)$', spec or '')
    if not m or type(x) is not SymFloat:
        return x
    prec, ty = m.group(1), m.group(2)
    if ty in ('f', 'F'):
        return r_round(x, int(prec) if prec is not None else 6)
    if ty in ('e', 'E'):
        p = int(prec) if prec is not None else 6
        return x if p >= 16 else mkreal(CUR.rel_rounded(x.t, Fraction(5) / Fraction(10) ** (p + 1)))
    if ty in ('g', 'G') or (ty == '' and prec is not None):
        p = int(prec) if prec is not None else 6
        p = max(p, 1)
        return x if p >= 17 else mkreal(CUR.rel_rounded(x.t, Fraction(5) / Fraction(10) ** p))
    if ty in ('d', 'i') and not x.is_int:
        return SymFloat(CUR.trunc(x.t), True, False)
    return x


def untoken(s):
    """numeric value of a text cell, or None if it is not a token"""
    s = s.strip()
    sign = 1
    if len(s) == 2 and s[0] in '+-':
        sign = -1 if s[0] == '-' else 1
        s = s[1:]
    if len(s) == 1 and ord(s) >= TOK0:
        v = CUR.tokens[ord(s) - TOK0]
        return v if sign > 0 else -v
    return None
