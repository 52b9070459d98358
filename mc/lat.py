"""Finite lattices of orbital elements shared by the checks (radians)."""
import numpy as np
from . import ref

D = np.pi/180

# a value below every power of ten: the code must not treat it specially
DEC = [9e-9, 9e-8, 9e-7, 9e-6, 9e-5, 9e-4, 9e-3]
ECC_ELL = [0.0, 5e-10] + DEC + [0.05, 0.3, 0.7, 0.9, 0.99, 0.9999]
ECC_HYP = [1.0001, 1.05, 1.5, 2.0, 5.0, 20.0, 300.0, 5e4]
ECC = ECC_ELL + [1.0] + ECC_HYP
# open and closed orbits next to, but not, parabolic: the rounding of e alone
# changes 1 - e by EPS/|1 - e|
ECC_NEAR = [1 + s*d for d in (1e-5, 1e-6, 1e-7) for s in (-1, 1)]
EPS = 2.3e-16
INC = [0.0, 1e-9] + DEC + [15*D, 45*D, 89.99*D, 90*D, 120*D, 165*D,
       np.pi - 9e-3, np.pi - 9e-4, np.pi - 9e-5, np.pi - 9e-6, np.pi - 9e-7,
       np.pi - 9e-8, np.pi - 9e-9, np.pi - 1e-9, np.pi]
ANG = [0.0, 30*D, 61*D, 90*D, 135*D, 179*D, 180*D, 181*D, 225*D, 270*D,
       299*D, 330*D, 359.9*D]
ANG_WIDE = ANG + [-400*D, -90*D, -1e-7, 360*D, 450*D, 725*D]
NU = [0.0, 1e-6, 5*D, 45*D, 90*D, 135*D, 175*D, np.pi - 1e-6, np.pi,
      np.pi + 1e-6, 200*D, 270*D, 359*D, 2*np.pi - 1e-6]
FRAC = [-0.98, -0.9, -0.5, -0.1, -1e-6, 0.0, 1e-6, 0.1, 0.5, 0.9, 0.98]
# (a or q, mu) pairs in different unit systems
SIZES = [(1.0, 1.0), (1.5e11, 1.32712440018e20), (7.0e6, 3.986004418e14),
         (0.39, 39.47812018693255), (3e-7, 2e-19), (4e11, 3e-3)]


def nu_for(e):
    """True anomalies explored for eccentricity e, in (-pi, 2pi)."""
    if e < 1:
        return list(NU)
    lim = np.pi if e == 1 else float(np.arccos(-1/e))
    out = [f*lim for f in FRAC]
    # the same points written in [0, 2pi)
    out += [f*lim + 2*np.pi for f in FRAC if f < 0]
    return out


def mesh(*vals):
    g = np.meshgrid(*[np.asarray(v, dtype=float) for v in vals],
                    indexing='ij')
    return np.stack([x.ravel() for x in g])


def mixed(stride, ecc=None, inc=None):
    """Orbits of every eccentricity and orientation class in one batch, of
    different sizes and around different bodies, in an order in which
    neighbours differ: (kep, mu)."""
    cols = []
    for k, e in enumerate(ECC + ECC_NEAR if ecc is None else ecc):
        nus = nu_for(e)
        for j, i in enumerate(INC[::2] + [np.pi] if inc is None else inc):
            for m in range(3):
                om = ANG[(3*k + j + 4*m) % len(ANG)]
                Om = ANG[(k + 5*j + 2*m) % len(ANG)]
                cols.append([1.0, e, i, om, Om, nus[(k + j + 3*m) % len(nus)]])
    kep = np.array(cols).T
    n = kep.shape[1]
    while np.gcd(stride, n) != 1:
        stride += 1
    kep = kep[:, (np.arange(n)*stride) % n].copy()
    j = np.arange(n)
    kep[0] = 10.0**(3*(j % 5) - 6)
    return kep, 10.0**(4*(j % 7) - 9)


def chunks(n):
    """Batch boundaries: everything, and batches of two, three and seven."""
    yield slice(0, n)
    for size in (2, 3, 7):
        for lo in range(0, n, size):
            yield slice(lo, lo + size)


def kinds():
    """One representative of each orbit kind the code distinguishes
    (name, kep) with true anomaly in radians, a in units of the length."""
    pi = np.pi
    return [
        ('ell-incl', [1.3, 0.3, 0.7, 1.1, 2.2, 4.0]),
        ('ell-planar', [0.8, 0.5, 0.0, 4.0, 0.0, 2.0]),
        ('ell-retro-planar', [1.1, 0.2, pi, 2.5, 0.0, 5.5]),
        ('ell-retro', [2.0, 0.6, 2.8, 5.0, 3.3, 1.0]),
        ('ell-polar', [1.0, 0.1, pi/2, 0.4, 5.9, 3.0]),
        ('ell-high', [5.0, 0.97, 1.9, 3.4, 0.3, 3.0]),
        ('circ-incl', [1.2, 0.0, 1.2, 0.0, 4.4, 0.9]),
        ('circ-planar', [0.9, 0.0, 0.0, 0.0, 0.0, 5.1]),
        ('circ-retro-planar', [1.4, 0.0, pi, 0.0, 0.0, 2.1]),
        ('circ-retro', [0.7, 0.0, 2.6, 0.0, 1.4, 4.4]),
        ('par-incl', [0.6, 1.0, 0.5, 2.0, 3.9, -1.2]),
        ('par-planar', [1.5, 1.0, 0.0, 5.2, 0.0, 2.1]),
        ('hyp-incl', [1.1, 1.5, 1.0, 0.7, 5.0, -1.6]),
        ('hyp-planar', [0.9, 2.2, 0.0, 3.0, 0.0, 1.1]),
        ('hyp-retro-planar', [2.1, 1.2, pi, 1.0, 0.0, 0.3]),
        ('hyp-retro', [1.6, 3.0, 2.9, 4.7, 2.7, 1.7]),
    ]


def todeg(kep):
    kep = np.array(kep, dtype=float)
    kep[2:] = kep[2:]*(180/np.pi)
    return kep


def case(kep, j):
    return [float(x) for x in np.asarray(kep)[:, j]]
