from engine.runner import H
from harness.common import *

INF = float('inf')
KINDS = ('zero', 'inf', 'fin')


def expect(kind, x, src, dst):
    if kind == 'fin':
        return phys(x, src, dst)
    same = is_wl(src) == is_wl(dst)
    v = 0.0 if kind == 'zero' else INF
    return v if same else (INF - v if v == 0.0 else 0.0)


def limits(cx, src, dst, n, long=False):
    ks = [cx.choice('k%d' % i, KINDS) for i in range(max(n, 1))]
    xs = [{'zero': 0.0, 'inf': INF}.get(k) if k != 'fin' else cx.pyfloat('x%d' % i, *RANGE[src])
          for i, k in enumerate(ks)]
    if long:
        xs, pos = filled(cx, xs, 120, *rng_of(src, 1e-8, 1e-4))
        at = dict(zip(pos, ks))
        ks = [at.get(i, 'fin') for i in range(120)]
    vals = xs[0] if n == 0 else cx.arr(xs)
    s = cx.ok('construct', cx.D.Spectrum, vals, *src)
    got = cx.ok('convert', s.convert_to, *dst)
    cx.check(cx.is_scalar(got) == (n == 0), 'scalar/array shape kept')
    cx.check_close(got, [expect(k, x, src, dst) for k, x in zip(ks, xs)], 'limit', rel=REL, abs_=ABS[dst])


def negative(cx, src, dst):
    """a finite value of any sign next to 0 and infinity"""
    x = cx.pyfloat('x', *RANGE[src])
    xs = [0.0, -x, INF, x]
    s = cx.ok('construct', cx.D.Spectrum, cx.arr(xs), *src)
    got = cx.ok('convert', s.convert_to, *dst)
    w = phys(x, src, dst)
    cx.check_close(got, [expect('zero', 0.0, src, dst), -w, expect('inf', INF, src, dst), w], 'limit', rel=REL, abs_=ABS[dst])


def inverse(cx, n, ints=False):
    """safe_inverse itself, also for values below 1e-8 and integers"""
    f = cx.mod('dispersion.spectrum').safe_inverse
    ks = [cx.choice('k%d' % i, KINDS if not ints else ('zero', 'fin')) for i in range(max(n, 1))]
    xs = []
    for i, k in enumerate(ks):
        if k == 'fin':
            xs.append(cx.int('x%d' % i, 1, 10 ** 9) if ints else cx.pyfloat('x%d' % i, 1e-30, 1e30))
        else:
            xs.append({'zero': 0 if ints else 0.0, 'inf': INF}[k])
    got = cx.ok('inverse', f, xs[0] if n == 0 else cx.arr(xs))
    cx.check_close(got, [INF if k == 'zero' else 0.0 if k == 'inf' else 1.0 / x for k, x in zip(ks, xs)],
                   'inverse', rel=REL)


def cases(n):
    return [dict(src=a, dst=b, n=n) for a in TU for b in TU]


LONG = [(TU[3], TU[6]), (TU[5], TU[0]), (TU[8], TU[2]), (TU[2], TU[7])]
HARNESSES = [
    H(limits, cases(0) + cases(2) + [dict(src=a, dst=b, n=3) for a, b in (
        (TU[3], TU[6]), (TU[6], TU[3]), (TU[5], TU[0]), (TU[0], TU[5]), (TU[8], TU[2]), (TU[2], TU[7]))]
      + [dict(src=a, dst=b, n=2, long=True) for a, b in LONG],
      thorough=cases(0) + cases(1) + cases(2) + cases(3) + [dict(src=a, dst=b, n=4) for a, b in (
          (TU[3], TU[6]), (TU[6], TU[3]), (TU[5], TU[0]), (TU[0], TU[5]))]
      + [dict(src=a, dst=b, n=3, long=True) for a, b in LONG],
      bounds='every placement of 0/inf/finite in scalars and arrays of 2 (3 for 6 pairs; thorough 3, 4 for 4 pairs), '
             'all 81 type/unit pairs; the same inside arrays of 120 values'),
    H(negative, [dict(src=a, dst=b) for a in TU for b in TU], bounds='a value of either sign between 0 and infinity, all 81 pairs'),
    H(inverse, [dict(n=0), dict(n=1), dict(n=3), dict(n=2, ints=True)],
      thorough=[dict(n=0), dict(n=1), dict(n=3), dict(n=4), dict(n=3, ints=True)],
      bounds='safe_inverse on 1e-30..1e30, arrays up to 3 (4), integer arrays'),
]
