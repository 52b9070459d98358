"""Independent reference for the two-body conversions, in extended precision.

Written from the documented conventions (module docstring of pyorb.kepler) and
textbook two-body mechanics, not from the code.  Angles in radians.
Nothing here imports pyorb.
"""
import numpy as np

L = np.longdouble
PI = L('3.14159265358979323846264338327950288')
TWOPI = 2*PI
E_LIM = L('1e-9')
I_LIM = PI*L('1e-9')


def ld(x):
    return np.asarray(x, dtype=np.longdouble)


def wrap(x):
    """Angle difference mapped to [-pi, pi)."""
    x = ld(x)
    return x - TWOPI*np.floor((x + PI)/TWOPI)


def mod2pi(x):
    x = ld(x)
    return x - TWOPI*np.floor(x/TWOPI)


def rad(x):
    return ld(x)*PI/180


def deg(x):
    return ld(x)*180/PI


def semilatus(a, e):
    """p, with the documented first element: a>0, or periapsis distance."""
    a, e = ld(a), ld(e)
    return np.where(e == 1, 2*a, a*np.abs(1 - e*e))


def state(kep, mu):
    """(6, N) elements (true anomaly, rad) -> (6, N) state."""
    a, e, inc, om, Om, nu = [ld(k) for k in kep]
    mu = ld(mu)
    p = semilatus(a, e)
    r = p/(1 + e*np.cos(nu))
    x, y, z = r*np.cos(nu), r*np.sin(nu), 0*r
    f = np.sqrt(mu/p)
    u, v, w = -f*np.sin(nu), f*(e + np.cos(nu)), 0*r

    def rz(t, q):
        c, s = np.cos(t), np.sin(t)
        return c*q[0] - s*q[1], s*q[0] + c*q[1], q[2]

    def rx(t, q):
        c, s = np.cos(t), np.sin(t)
        return q[0], c*q[1] - s*q[2], s*q[1] + c*q[2]

    out = []
    for q in ((x, y, z), (u, v, w)):
        q = rz(Om, rx(inc, rz(om, q)))
        out += list(q)
    return np.stack(np.broadcast_arrays(*out))


def cross(a, b):
    return np.stack([a[1]*b[2] - a[2]*b[1],
                     a[2]*b[0] - a[0]*b[2],
                     a[0]*b[1] - a[1]*b[0]])


def norm(a):
    return np.sqrt(np.sum(a*a, axis=0))


def invariants(cart, mu):
    cart, mu = ld(cart), ld(mu)
    r, v = cart[:3], cart[3:]
    rn = norm(r)
    h = cross(r, v)
    en = np.sum(v*v, axis=0)/2 - mu/rn
    ev = cross(v, h)/mu - r/rn
    return r, v, rn, h, en, ev


def canon(cart, mu, e_lim=E_LIM, i_lim=I_LIM, par_lim=L('1e-9')):
    """State -> canonical elements with true anomaly (rad)."""
    cart, mu = np.atleast_2d(ld(cart).T).T, ld(mu)
    r, v, rn, h, en, ev = invariants(cart, mu)
    e = norm(ev)
    hn = norm(h)
    rho = np.sqrt(h[0]**2 + h[1]**2)
    inc = np.arctan2(rho, h[2])
    planar = (inc <= i_lim) | (inc >= PI - i_lim)
    circ = e <= e_lim
    retro = h[2] < 0
    # node direction (x axis if planar), and the in-plane axis 90 deg ahead
    with np.errstate(all='ignore'):
        nx = np.where(planar, 1, -h[1]/np.where(rho == 0, 1, rho))
        ny = np.where(planar, 0, h[0]/np.where(rho == 0, 1, rho))
    n = np.stack([nx, ny, 0*nx])
    hh = np.where(planar, np.stack([0*nx, 0*nx, np.where(retro, -1, 1)*(1+0*nx)]), h/hn)
    m = cross(hh, n)
    Om = np.where(planar, 0, mod2pi(np.arctan2(ny, nx)))
    om = np.where(circ, 0, mod2pi(np.arctan2(np.sum(ev*m, axis=0),
                                             np.sum(ev*n, axis=0))))
    u = np.arctan2(np.sum(r*m, axis=0), np.sum(r*n, axis=0))
    # anomaly from the eccentricity vector
    evh = cross(h/hn, ev)
    nu = np.where(circ, mod2pi(u),
                  mod2pi(np.arctan2(np.sum(r*evh, axis=0),
                                    np.sum(r*ev, axis=0))))
    par = np.abs(e - 1) < par_lim
    a = np.where(par, hn**2/mu/2, np.abs(mu/(2*np.where(en == 0, 1, en))))
    e = np.where(par, 1, e)
    return np.stack([a, e, inc, om, Om, nu])


# ---------------------------------------------------------------- anomalies
def sgn_nu(nu):
    return wrap(nu)


def true_to_ecc(nu, e):
    nu, e = ld(nu), ld(e)
    nu, e = np.broadcast_arrays(nu, e)
    w = wrap(nu)
    E = np.empty(nu.shape, dtype=L)
    k = e < 1
    # elliptic: whole revolutions of nu are whole revolutions of E
    s, c = np.sin(w[k]), np.cos(w[k])
    E[k] = np.arctan2(np.sqrt(1 - e[k]**2)*s, e[k] + c) + (nu[k] - w[k])
    k = e == 1
    E[k] = np.tan(w[k]/2)
    k = e > 1
    t = np.sqrt((e[k] - 1)/(e[k] + 1))*np.tan(w[k]/2)
    E[k] = np.log((1 + t)/(1 - t))
    return E


def ecc_to_true(E, e):
    E, e = np.broadcast_arrays(ld(E), ld(e))
    nu = np.empty(E.shape, dtype=L)
    k = e < 1
    w = wrap(E[k])
    nu[k] = np.arctan2(np.sqrt(1 - e[k]**2)*np.sin(w), np.cos(w) - e[k]) \
        + (E[k] - w)
    k = e == 1
    nu[k] = 2*np.arctan(E[k])
    k = e > 1
    nu[k] = 2*np.arctan(np.sqrt((e[k] + 1)/(e[k] - 1))*np.tanh(E[k]/2))
    return nu


def ecc_to_mean(E, e):
    E, e = np.broadcast_arrays(ld(E), ld(e))
    return np.where(e < 1, E - e*np.sin(E),
                    np.where(e == 1, E + E**3/3,
                             e*np.sinh(np.where(e > 1, E, 0)) - E))


def mean_to_ecc(M, e):
    """Bisection + Newton: monotone equations, no starter needed."""
    M, e = np.broadcast_arrays(ld(M), ld(e))
    M = M.copy()
    rev = np.where(e < 1, TWOPI*np.round(M/TWOPI), 0)
    m = M - rev
    hi = np.where(e < 1, PI + L('0.1'), 0)
    with np.errstate(all='ignore'):
        hi = np.where(e == 1, np.cbrt(3*np.abs(m)) + 1 + np.abs(m)*0, hi)
        hi = np.where(e > 1, np.log(2*(np.abs(m) + 60)/np.minimum(e, 1e300) + 3)
                      + np.cbrt(6*np.abs(m) + 1) + 3, hi)
    s = np.where(m < 0, -1, 1)
    t = np.abs(m)
    lo = 0*hi
    for _ in range(24):
        mid = (lo + hi)/2
        f = ecc_to_mean(mid, e) - t
        hi = np.where(f > 0, mid, hi)
        lo = np.where(f > 0, lo, mid)
    # the equations are convex for positive arguments: Newton's method
    # descends monotonically from above
    x = hi
    for _ in range(14):
        with np.errstate(all='ignore'):
            d = np.where(e < 1, 1 - e*np.cos(x),
                         np.where(e == 1, 1 + x*x,
                                  e*np.cosh(np.where(e > 1, x, 0)) - 1))
            x = np.clip(np.where(d > 0, x - (ecc_to_mean(x, e) - t)/d, x),
                        lo, hi)
    return s*x + rev


def true_to_mean(nu, e):
    return ecc_to_mean(true_to_ecc(nu, e), e)


def mean_to_true(M, e):
    return ecc_to_true(mean_to_ecc(M, e), e)


def mean_rate(a, e, mu):
    a, e, mu = ld(a), ld(e), ld(mu)
    n = np.sqrt(mu/a**3)
    return np.where(e == 1, n/np.sqrt(L(2)), n)


def convert_anom(x, e, frm, to):
    f = {'true': lambda v: v, 'eccentric': lambda v: ecc_to_true(v, e),
         'mean': lambda v: mean_to_true(v, e)}
    g = {'true': lambda v: ld(v), 'eccentric': lambda v: true_to_ecc(v, e),
         'mean': lambda v: true_to_mean(v, e)}
    if frm == to:
        return ld(x)
    if frm == 'mean' and to == 'eccentric':
        return mean_to_ecc(x, e)
    if frm == 'eccentric' and to == 'mean':
        return ecc_to_mean(x, e)
    return g[to](f[frm](x))


def propagate(kep, mu, dt):
    """Elements with true anomaly -> same after dt."""
    kep = ld(kep).copy()
    M = true_to_mean(kep[5], kep[1]) + mean_rate(kep[0], kep[1], mu)*ld(dt)
    kep[5] = mean_to_true(M, kep[1])
    return kep


# ------------------------------------------------------------- equinoctial
def equinoctial(kep):
    """Definition; the last entry of kep is taken as is (mean or true)."""
    a, e, inc, om, Om, an = [ld(k) for k in kep]
    return np.stack([a, e*np.sin(om + Om), e*np.cos(om + Om),
                     np.tan(inc/2)*np.sin(Om), np.tan(inc/2)*np.cos(Om),
                     mod2pi(om + Om + an)])


# ---------------------------------------------------------------- rotation
def rot(axis, t):
    """Rodrigues rotation matrix, right handed about a unit axis."""
    t = ld(t)
    k = ld(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]],
                 dtype=L)
    return np.eye(3, dtype=L) + np.sin(t)*K + (1 - np.cos(t))*(K @ K)


def stumpff(k, x):
    """Series in exact rational arithmetic; x is a Python float."""
    from fractions import Fraction
    from math import factorial
    x = Fraction(x)
    t = Fraction(1, factorial(k))
    s = t
    j = 0
    while True:
        t = -t*x/((k + 2*j + 1)*(k + 2*j + 2))
        s += t
        j += 1
        if j > 4 + abs(x) and abs(t) < Fraction(1, 10**40)*(abs(s) + 1):
            break
    return s


# -------------------------------------------------- comparison of two states
def cond(kep):
    """Amplification of angle rounding in the position, >= 1."""
    e, nu = ld(kep[1]), ld(kep[5])
    return 1 + e*np.abs(np.sin(nu))/np.abs(1 + e*np.cos(nu))


def state_err(got, want, mu, kep=None):
    """Relative errors of position and velocity, scaled by conditioning."""
    got, want = ld(got), ld(want)
    rn = norm(want[:3])
    vn = norm(want[3:])
    h = norm(cross(want[:3], want[3:]))
    # natural velocity scale mu/h: components cancel near apoapsis
    vs = np.maximum(vn, ld(mu)/h)
    c = 1
    if kep is not None:
        c = cond(kep)
    er = norm(got[:3] - want[:3])/(rn*c)
    ev = norm(got[3:] - want[3:])/vs
    return er, ev
