from math import pi
import os
from engine.runner import H
from harness.common import *
from harness.common2 import *

CM = ('wavelength', 'cm')


def table(cx, tu, rows, order=None, src='direct', lmin=1e-9, lmax=1e-3):
    lo, hi = rng_of(tu, lmin, lmax)
    ts = cx.reals('t', rows, lo, hi)
    for i in range(rows - 1):
        cx.assume(ts[i] < ts[i + 1])
    ns = cx.reals('n', rows, -5, 5)
    al = cx.reals('al', rows, -1e6, 1e6)
    idx = order or range(rows)
    data = [[ts[i], ns[i], al[i]] for i in idx]
    D = cx.D
    if src == 'direct':
        m = cx.ok('material', D.Material, tabulated_n_alpha=cx.arr(data), spectrum_type=tu[0], unit=tu[1])
    else:
        p = os.path.join(cx.tmp(), 'm.' + src)
        if src == 'txt':
            with open(p, 'w', encoding='utf8') as f:
                f.write('# SPECTRUMTYPE: %s\n# UNIT: %s\n# DATATYPE: tabulated n_alpha\n' % tu)
                for r in data:
                    f.write('\t'.join(['%s'] * 3) % tuple(str(v) for v in r) + '\n')
        else:
            with open(p, 'w', encoding='utf8') as f:
                f.write('DATA:\n  - type: tabulated n_alpha\n    SpectrumType: %s\n    Unit: %s\n    data: |\n' % tu)
                for r in data:
                    f.write('        ' + ' '.join(str(v) for v in r) + '\n')
        m = cx.ok('load', D.Material, file_path=p, spectrum_type='wavelength', unit='nm')
    cx.check(m.data['name'] == 'nk', 'quantity')
    nk = cx.flat(cx.ok('evaluate', m.get_nk_data, D.Spectrum(cx.arr(ts), *tu)))
    for i in range(rows):
        lam = phys(ts[i], tu, CM)
        want = al[i] * lam / (4 * pi)
        cx.check_close(cx.np.real(nk[i]), ns[i], 'n as tabulated', scale=10.0)
        cx.check_close(cx.np.imag(nk[i]), want, 'k = alpha lambda / 4 pi', rel=1e-6, abs_=1e-12)


def whole_numbers(cx, tu):
    """a table of integers"""
    lo, hi = rng_of(tu, 1e-9, 1e-3)
    lo, hi = max(1, int(lo) + 1), max(2, int(min(hi, 1e15)))
    ts = [cx.int('t%d' % i, lo, hi) for i in range(2)]
    cx.assume(ts[0] < ts[1])
    ns = [cx.int('n%d' % i, -5, 5) for i in range(2)]
    al = [cx.int('al%d' % i, 0, 1000000) for i in range(2)]
    m = cx.ok('material', cx.D.Material, tabulated_n_alpha=cx.arr([list(r) for r in zip(ts, ns, al)]), spectrum_type=tu[0], unit=tu[1])
    nk = cx.flat(cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(cx.arr(ts), *tu)))
    for i in range(2):
        want = al[i] * 1.0 * phys(ts[i] * 1.0, tu, CM) / (4 * pi)
        cx.check_close(cx.np.real(nk[i]), ns[i] * 1.0, 'n as tabulated', scale=10.0)
        cx.check_close(cx.np.imag(nk[i]), want, 'k = alpha lambda / 4 pi', rel=1e-6, abs_=1e-12)


def long_table(cx, tu, rows):
    lo, hi = rng_of(tu, 1e-7, 1e-5)
    ts = [lo + (hi - lo) * (i + 0.5) / rows for i in range(rows)]
    ns, al = [1.5] * rows, [100.0 * (i + 1) for i in range(rows)]
    for j, p in enumerate((0, rows // 2, rows - 1)):
        ns[p], al[p] = cx.real('n%d' % j, -5, 5), cx.real('al%d' % j, -1e6, 1e6)
    m = cx.ok('material', cx.D.Material, tabulated_n_alpha=cx.arr([list(r) for r in zip(ts, ns, al)]), spectrum_type=tu[0], unit=tu[1])
    nk = cx.flat(cx.ok('evaluate', m.get_nk_data, cx.D.Spectrum(cx.np.array(ts), *tu)))
    for i in range(rows):
        want = al[i] * phys(ts[i], tu, CM) / (4 * pi)
        cx.check_close(cx.np.real(nk[i]), ns[i], 'n as tabulated', scale=10.0)
        cx.check_close(cx.np.imag(nk[i]), want, 'k = alpha lambda / 4 pi', rel=1e-6, abs_=1e-12)


HARNESSES = [
    H(whole_numbers, [dict(tu=tu) for tu in (('wavelength', 'nm'), ('energy', 'ev'), ('wavenumber', '1/cm'))],
      bounds='integer tables of two rows'),
    H(long_table, [dict(tu=tu, rows=80) for tu in TU], bounds='80 rows, n and alpha of three of them arbitrary'),
    H(table, [dict(tu=tu, rows=2) for tu in TU] + [dict(tu=tu, rows=1) for tu in TU]
      + [dict(tu=tu, rows=3, order=(2, 0, 1)) for tu in (TU[3], TU[5], TU[6])]
      + [dict(tu=tu, rows=2, src=s) for tu in TU for s in ('txt', 'yml')],
      thorough=[dict(tu=tu, rows=r, src=s) for tu in TU for r in (1, 2, 3, 4) for s in ('direct', 'txt', 'yml')]
      + [dict(tu=tu, rows=3, order=o) for tu in TU for o in ((2, 0, 1), (1, 0, 2), (2, 1, 0))],
      bounds='1-3 (4) arbitrary rows, wavelengths 1 nm..1 mm, alpha -1e6..1e6 / cm, every type/unit, '
             'given directly, as text file and as YAML file'),
]
