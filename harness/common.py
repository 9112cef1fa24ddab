"""Physics oracle shared by the harnesses (independent of the package)."""
from math import pi

C = 299792458.0                 # exact SI values
HPL = 6.62607015e-34
E = 1.602176634e-19
HC_E = HPL * C / E              # eV m

WU = {'m': 1.0, 'cm': 1e-2, 'um': 1e-6, 'nm': 1e-9, 'a': 1e-10}
TU = [('wavelength', u) for u in ('m', 'cm', 'um', 'nm', 'a')] + [
    ('frequency', 'hz'), ('energy', 'ev'), ('angularfrequency', '1/s'), ('wavenumber', '1/cm')]
# factor F with  lambda[m] = F * x  (wavelengths)  or  lambda[m] = F / x
FAC = {('wavelength', u): f for u, f in WU.items()}
FAC[('frequency', 'hz')] = C
FAC[('energy', 'ev')] = HC_E
FAC[('angularfrequency', '1/s')] = 2 * pi * C
FAC[('wavenumber', '1/cm')] = 2 * pi * 1e-2
# values of every unit for wavelengths between 0.01 nm and 10 cm
LMIN, LMAX = 1e-11, 1e-1


def is_wl(tu):
    return tu[0] == 'wavelength'


def rng_of(tu, lmin=LMIN, lmax=LMAX):
    if is_wl(tu):
        return lmin / FAC[tu], lmax / FAC[tu]
    return FAC[tu] / lmax, FAC[tu] / lmin


RANGE = {tu: rng_of(tu) for tu in TU}
REL = 1e-9
ABS = {tu: 0.0 for tu in TU}
for _u, _d in (('cm', 13), ('um', 9), ('nm', 12), ('a', 13)):      # display rounding
    ABS[('wavelength', _u)] = 10.0 ** -_d
ABS[('energy', 'ev')] = 1e-9


def phys(x, src, dst):
    """the same physical point as x[src], expressed in dst"""
    if is_wl(src):
        if is_wl(dst):
            return x * (FAC[src] / FAC[dst])
        return (FAC[dst] / FAC[src]) / x
    if is_wl(dst):
        return (FAC[src] / FAC[dst]) / x
    return x * (FAC[dst] / FAC[src])


def filled(cx, sym, n, lo, hi):
    """list of n points between lo and hi, arbitrary order; the symbolic values sit first, last and in between
    -> (points, their positions)"""
    xs = [lo + (hi - lo) * ((i * 37) % n + 0.5) / n for i in range(n)]
    k = len(sym)
    pos = [0, n - 1, n // 2, n // 3][:k]
    for p, x in zip(pos, sym):
        xs[p] = x
    return xs, pos
