from engine.runner import H
from harness.common import *
from harness.common2 import *

NM = ('wavelength', 'nm')


# ---------------------------------------------------- stand-in for matplotlib
class Anything:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())


class Lines:
    def get_next_color(self):
        return 'C0'


class Axes(Anything):
    def __init__(self):
        self.drawn, self.xlab, self.ylab, self._get_lines = [], '', '', Lines()

    def plot(self, *a, **k):
        i, out = 0, []
        a = list(a)
        while a:
            x = a.pop(0)
            y = a.pop(0) if a and not isinstance(a[0], str) else None
            if a and isinstance(a[0], str):
                a.pop(0)
            if y is None:
                x, y = None, x
            self.drawn.append((x, y, k.get('label')))
            out.append(Anything())
        return out

    def axhline(self, y=0, *a, **k):
        self.drawn.append(('horizontal', y, k.get('label')))
        return Anything()

    def hlines(self, y, xmin, xmax, *a, **k):
        self.drawn.append(('horizontal', y, k.get('label') or k.get('label', None)))
        return Anything()

    def set_xlabel(self, s, *a, **k):
        self.xlab = s

    def set_ylabel(self, s, *a, **k):
        self.ylab = s

    def set(self, **k):
        self.xlab, self.ylab = k.get('xlabel', self.xlab), k.get('ylabel', self.ylab)

    def get_xlabel(self):
        return self.xlab


class Pyplot(Anything):
    def __init__(self):
        self.cur = None
        self.pyplot = self
        self.made = []

    def axes(self, *a, **k):
        self.cur = Axes()
        self.made.append(self.cur)
        return self.cur

    def gca(self, *a, **k):
        return self.cur if self.cur is not None else self.axes()

    def subplots(self, *a, **k):
        return Anything(), self.axes()

    def sca(self, ax):
        self.cur = ax

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def axhline(self, *a, **k):
        return self.gca().axhline(*a, **k)

    def xlabel(self, s, *a, **k):
        self.gca().set_xlabel(s)

    def ylabel(self, s, *a, **k):
        self.gca().set_ylabel(s)


def plot(cx, mat, what, given, **kw):
    """-> {label: (x values or 'horizontal', y values)}, label of the x axis"""
    if cx.sym:
        plt = Pyplot()
        cx.override('matplotlib', plt)
        cx.override('matplotlib.pyplot', plt)
        other = Axes()
        mine = Axes()
    else:
        import matplotlib.pyplot as plt
        plt.close('all')
        fig, (mine, other) = plt.subplots(1, 2)
    if given:
        plt.sca(other)
        kw['axes'] = mine
    cx.ok('plot', getattr(mat, 'plot_nk_data' if what == 'nk' else 'plot_permittivity'), **kw)
    ax = mine if given else (plt.cur if cx.sym else plt.gca())
    if given:
        if cx.sym:
            cx.check(not other.drawn, 'only the given axes are drawn on')
        else:
            cx.check(not other.get_lines(), 'only the given axes are drawn on')
    out = {}
    if cx.sym:
        lines = ax.drawn
    else:
        lines = []
        for ln in ax.get_lines():
            x, y = list(ln.get_xdata()), list(ln.get_ydata())
            if len(x) == 2 and x == [0, 1]:
                x, y = 'horizontal', y[0]
            lines.append((x, y, ln.get_label()))
    cx.check(len(lines) == 2, 'two curves')
    for x, y, label in lines:
        out[label] = (x if isinstance(x, str) else cx.flat(x), cx.flat(y))
    xl = ax.get_xlabel()
    if not cx.sym:
        plt.close('all')
    cx.check(len(out) == 2, 'two labels')
    return out, xl


LAB = {'nk': ('n', 'k'), 'permittivity': ('eps_r', 'eps_i')}


def material(cx, kind, flat=False):
    """-> material, its own type/unit, lower and upper end (or None)"""
    Material = cx.D.Material
    if kind == 'gain':
        return Material(fixed_nk=cx.real('n', 0.1, 5) + 1j * cx.real('k', -5, 5)), NM, None, None
    if kind == 'fixed':
        return Material(fixed_nk=complex(1.5, 0.25)), NM, None, None
    if kind in ('nk', 'eps'):
        tu = NM if kind == 'nk' else EV
        lo, hi = rng_of(tu, 3e-7, 9e-7)
        a, b = cx.real('a', lo, hi), cx.real('b', lo, hi)
        cx.assume(a * 1.1 < b)
        v = [cx.real('v%d' % i, -5, 5) for i in range(4)]
        if flat:
            v[2:] = v[:2]
        t = cx.arr([[a, v[0], v[1]], [b, v[2], v[3]]])
        return Material(**{'tabulated_' + kind: t, 'spectrum_type': tu[0], 'unit': tu[1]}), tu, a, b
    if kind == 'model':
        a, b = cx.real('a', 0.3, 0.9), cx.real('b', 0.3, 0.9)
        cx.assume(a * 1.1 < b)
        kw = dict(name='Cauchy', parameters=cx.arr([1.5, 0.01, -2.0]), valid_range=cx.arr([a, b]), spectrum_type='wavelength', unit='um')
        return Material(model_kw=kw, spectrum_type='wavelength', unit='um'), UM, a, b
    if kind == 'drude':
        a, b = cx.real('a', 1, 4), cx.real('b', 1, 4)
        cx.assume(a * 1.1 < b)
        kw = dict(name='Drude', parameters=cx.arr([8.0, 0.5]), valid_range=cx.arr([a, b]), spectrum_type='energy', unit='ev')
        return Material(model_kw=kw, spectrum_type='energy', unit='ev'), EV, a, b


def curves(cx, what, qtu, mat, got, xs_want=None, tu=None, lo=None, hi=None):
    """the curves show the material at the plotted points"""
    r, i = LAB[what]
    cx.check(set(got) == {r, i}, 'labels of the curves')
    if set(got) != {r, i}:
        return
    xr, yr = got[r]
    xi, yi = got[i]
    get = mat.get_nk_data if what == 'nk' else mat.get_permittivity
    if xr == 'horizontal' or xi == 'horizontal':
        cx.check(xr == xi and xs_want is not None and len(xs_want) == 1, 'a horizontal line only for a single value')
        xs = xs_want
    else:
        cx.check(len(xr) == len(xi) and len(yr) == len(xr) and len(yi) == len(xi), 'one value per point')
        for a, b in zip(xr, xi):
            cx.check_close(a, b, 'both curves over the same points', rel=1e-12)
        xs = xr
        if xs_want is not None:
            cx.check_close(xs, xs_want, 'the requested points', rel=1e-12)
    sel = list(range(len(xs))) if len(xs) <= 6 else [0, 1, len(xs) // 2, len(xs) - 2, len(xs) - 1]
    for j in sel:
        x = xs[j]
        v, e = cx.attempt(get, cx.D.Spectrum(float_(cx, x), *qtu))
        if e is not None:
            # the end of the range, converted and back, may lie outside by rounding
            near = False
            if xs_want is None and lo is not None:
                p = phys(x, qtu, tu)
                near = cx.either(abs(p - lo) < 1e-6 * lo, abs(p - hi) < 1e-6 * hi)
            cx.check(near, 'plotted points can be evaluated', note=repr(e))
            continue
        v = cx.flat(v)[0]
        cx.check_close([yr[j] + 0.0, yi[j] + 0.0], [cx.np.real(v), cx.np.imag(v)], 'the values of the material', rel=1e-7, abs_=1e-5)


def float_(cx, x):
    return x if cx.sym else float(x)


def xlabel(cx, label, qtu):
    cx.check(label == cx.D.Spectrum(1.0, *qtu).get_type_unit_string(), 'axis label')
    cx.check(qtu[0].lower()[:6] in label.lower().replace(' ', ''), 'type on the axis')
    sym = {'um': ('um', '\u03bcm', '\\mu m', 'micrometer', 'micrometre'), 'nm': ('nm',), 'ev': ('ev',), 'hz': ('hz',)}.get(qtu[1], (qtu[1],))
    cx.check(any(s in label.lower() for s in sym), 'unit on the axis', note=label)


def values(cx, kind, what, qtu, form, given, default=False):
    """plots at given points"""
    mat, tu, lo, hi = material(cx, kind)
    n = {'scalar': 1, 'one': 1}.get(form, 2)
    qlo, qhi = rng_of(qtu, 3e-7, 9e-7)
    xs = [cx.pyfloat('x%d' % i, qlo, qhi) if form in ('scalar', 'list', 'tuple') else cx.real('x%d' % i, qlo, qhi) for i in range(n)]
    if lo is not None:
        for x in xs:
            p = phys(x, qtu, tu)
            w = 1e-6 * p
            cx.assume(cx.both(p > lo + w, p < hi - w))
    v = {'scalar': xs[0], 'one': cx.arr(xs), 'list': xs, 'tuple': tuple(xs), 'array': cx.arr(xs)}[form]
    kw = {} if default else dict(spectrum_type=qtu[0], unit=qtu[1])
    got, xl = plot(cx, mat, what, given, values=v, **kw)
    curves(cx, what, qtu, mat, got, xs_want=xs)
    xlabel(cx, xl, qtu)


def whole_range(cx, kind, what, qtu, given):
    """without points: the whole valid range"""
    mat, tu, lo, hi = material(cx, kind, flat=qtu is not None)
    kw = {} if qtu is None else dict(spectrum_type=qtu[0], unit=qtu[1])
    qtu = qtu or (mat.defaults['spectrum_type'], mat.defaults['unit'])
    q = {'nanometer': 'nm', 'micrometer': 'um'}.get(qtu[1], qtu[1])
    qtu = (qtu[0], q)
    got, xl = plot(cx, mat, what, given, **kw)
    curves(cx, what, qtu, mat, got, tu=tu, lo=lo, hi=hi)
    xlabel(cx, xl, qtu)
    if lo is not None and len(got) == 2:
        for x, y in got.values():
            if x == 'horizontal':
                cx.check(False, 'curves')
                continue
            ends = sorted_pair(cx, x[0], x[-1])
            want = sorted_pair(cx, phys(lo, tu, qtu), phys(hi, tu, qtu))
            cx.check_close(ends, want, 'the whole range is shown', rel=1e-6)


def sorted_pair(cx, a, b):
    return [a, b] if bool(a <= b) else [b, a]


HARNESSES = [
    H(values, [dict(kind=k, what=w, qtu=q, form=f, given=g) for k, w, q, f, g in (
        ('nk', 'nk', NM, 'array', False), ('nk', 'permittivity', EV, 'list', True), ('nk', 'nk', EV, 'scalar', True),
        ('eps', 'nk', EV, 'tuple', False), ('eps', 'permittivity', UM, 'array', True), ('eps', 'permittivity', NM, 'one', False),
        ('model', 'nk', UM, 'list', False), ('model', 'permittivity', NM, 'scalar', False), ('drude', 'nk', NM, 'array', False),
        ('drude', 'permittivity', EV, 'scalar', True), ('fixed', 'nk', NM, 'array', False), ('fixed', 'permittivity', EV, 'list', True),
        ('gain', 'nk', NM, 'scalar', False), ('gain', 'permittivity', NM, 'list', False))]
      + [dict(kind='nk', what='nk', qtu=NM, form='array', given=False, default=True),
         dict(kind='eps', what='permittivity', qtu=EV, form='list', given=True, default=True)],
      thorough=[dict(kind=k, what=w, qtu=q, form=f, given=g) for k in ('nk', 'eps', 'model', 'drude', 'fixed') for w in LAB
                for q in (NM, EV, UM, ('frequency', 'hz')) for f in ('scalar', 'one', 'list', 'tuple', 'array') for g in (True, False)],
      bounds='1-2 arbitrary points inside arbitrary ranges, scalar/list/tuple/array, default or given axes'),
    H(whole_range, [dict(kind=k, what=w, qtu=q, given=g) for k, w, q, g in (
        ('nk', 'nk', None, False), ('nk', 'permittivity', UM, True), ('eps', 'permittivity', None, True), ('eps', 'nk', NM, False),
        ('model', 'nk', None, False), ('drude', 'permittivity', EV, True), ('fixed', 'nk', None, False), ('fixed', 'permittivity', EV, False))],
      thorough=[dict(kind=k, what=w, qtu=q, given=g) for k in ('nk', 'eps', 'model', 'drude', 'fixed') for w in LAB
                for q in (None, NM, EV, UM, ('frequency', 'hz')) for g in (True, False)
                if q is None or k in ('nk', 'eps', 'fixed')],
      bounds='arbitrary ranges (the two rows of a table hold the same values when plotted in another unit); the sampled grid is abstracted to its ends and arbitrary increasing points', opts={'sample_cap': 3}),
]
ASSUMPTIONS = ['matplotlib draws what plot/axhline/xlabel are given (recorded by a stand-in; the replays use matplotlib itself)']
