from engine.runner import H
from harness.common import *

def conv(cx, src, dst, shape):
    st, su = src
    dt, du = dst
    want_shape = None
    if shape == 'scalar':
        xs = [cx.pyfloat('x', *RANGE[src])]
        vals = xs[0]
    elif shape == 'np':
        xs = [cx.real('x', *RANGE[src])]
        vals = xs[0]
    elif shape == 'long':
        xs, _ = filled(cx, cx.reals('x', 3, *RANGE[src]), 150, *rng_of(src, 1e-8, 1e-4))
        vals = cx.arr(xs)
    elif shape == '2d':
        xs = cx.reals('x', 4, *RANGE[src])
        vals = cx.arr([xs[:2], xs[2:]])
        want_shape = (2, 2)
    elif shape in ('row', 'column'):
        xs = cx.reals('x', 2, *RANGE[src])
        vals = cx.arr([xs] if shape == 'row' else [[x] for x in xs])
        want_shape = (1, 2) if shape == 'row' else (2, 1)
    else:
        n = {'arr1': 1, 'arr2': 2, 'list': 2, 'tuple': 2, 'int': 2}[shape]
        if shape == 'int':
            lo, hi = RANGE[src]
            xs = [cx.int('x%d' % i, max(1, int(lo)), max(2, int(hi))) for i in range(n)]
        else:
            xs = cx.reals('x', n, *RANGE[src])
        vals = tuple(xs) if shape == 'tuple' else list(xs) if shape == 'list' else cx.arr(xs)
    s = cx.ok('construct', cx.D.Spectrum, vals, st, su)
    got = cx.ok('convert', s.convert_to, dt, du)
    want = [phys(x, src, dst) for x in xs]
    cx.check(cx.is_scalar(got) == (shape in ('scalar', 'np')), 'scalar/array shape kept')
    if want_shape:
        cx.check(tuple(cx.np.shape(got)) == want_shape, 'shape kept')
    cx.check_close(got, want, 'converted value', rel=REL, abs_=ABS[dst])
    # in place
    cx.ok('convert in place', s.convert_to, dt, du, in_place=True)
    cx.check(s.spectrum_type == dt and s.unit == du, 'in place: type and unit')
    cx.check_close(s.values, want, 'in place: values', rel=REL, abs_=ABS[dst])
    back = cx.ok('convert back', s.convert_to, st, su)
    cx.check_close(back, xs, 'in place: same physical points', rel=REL, abs_=ABS[src])

HARNESSES = [
    H(conv, [dict(src=a, dst=b, shape=sh) for a in TU for b in TU
             for sh in ('scalar', 'arr2', 'list', 'tuple', 'int')]
      + [dict(src=a, dst=b, shape=sh) for i, a in enumerate(TU) for j, b in enumerate(TU)
         for sh in ('np', '2d', 'long') if (i + j) % 3 == 0]
      + [dict(src=a, dst=b, shape=sh) for i, a in enumerate(TU) for j, b in enumerate(TU)
         for sh in ('row', 'column') if (i + j) % 3 == 1],
      thorough=[dict(src=a, dst=b, shape=sh) for a in TU for b in TU
                for sh in ('scalar', 'np', 'arr1', 'arr2', 'list', 'tuple', 'int', '2d', 'row', 'column', 'long')],
      bounds='all 81 (type, unit) pairs; scalars, arrays/lists/tuples of 2 values, integer arrays, 2x2, 1x2 and 2x1 arrays, arrays of 150 with 3 arbitrary values'),
]
