"""A finite alphabet of calls of the public conversion functions.

Each entry is (name, function, make) where make() returns fresh, equal
positional and keyword arguments; used by the purity, concurrency and
precision checks.
"""
import numpy as np
import pyorb
from pyorb import kepler
from . import lat, ref

K = np.array([k for _, k in lat.kinds()]).T
NK = K.shape[1]
MU = np.array([1.0 + 0.1*j for j in range(NK)])
CART = np.array([np.array(ref.state(K[:, j:j + 1], MU[j]), dtype=float)[:, 0]
                 for j in range(NK)]).T
CLOSED = [j for j in range(NK) if K[1, j] < 1 and K[2, j] < 3.0]
EQUI = np.array(ref.equinoctial(K), dtype=float)
NU, ECC = K[5].copy(), K[1].copy()
EA = np.array(ref.true_to_ecc(NU, ECC), dtype=float)
MA = np.array(ref.ecc_to_mean(EA, ECC), dtype=float)
X = np.array([0.0, 1e-9, -1e-9, 0.3, -0.3, 1.0, -1.0, 2.0, -7.0, 30.0, -30.0,
              1e-3, 0.999, -0.999, 5.0, -2.0])


def table(small=False):
    """List of (label, function, make) calls."""
    out = []

    def put(label, f, *args, **kw):
        def make():
            return ([a.copy() if isinstance(a, np.ndarray) else a
                     for a in args],
                    {k: (v.copy() if isinstance(v, (np.ndarray, dict)) else v)
                     for k, v in kw.items()})
        out.append((label, f, make))

    deg = 180/np.pi
    for dg in (False, True):
        u = deg if dg else 1.0
        d = dict(degrees=dg)
        tag = 'deg' if dg else 'rad'
        kep = lat.todeg(K) if dg else K
        equ = EQUI.copy()
        equ[5] *= u
        mats = [('kep_to_cart', kepler.kep_to_cart, kep, True, range(NK)),
                ('cart_to_kep', kepler.cart_to_kep, CART, True, range(NK)),
                ('kep_to_equi', kepler.kep_to_equi, kep, False, CLOSED),
                ('equi_to_kep', kepler.equi_to_kep, equ, False, CLOSED),
                ('cart_to_equi', kepler.cart_to_equi, CART, True, CLOSED),
                ('equi_to_cart', kepler.equi_to_cart, equ, True, CLOSED)]
        for name, f, data, has_mu, sel in mats:
            sel = list(sel)
            kw = dict(d)
            if has_mu:
                kw['mu'] = MU[sel]
            put(f'{name}/{tag}/all', f, data[:, sel], **kw)
            # same orbits in another order and another mass
            if has_mu:
                kw['mu'] = 2.5
            put(f'{name}/{tag}/rev', f, data[:, sel[::-1]], **kw)
            for j in sel if not small else sel[::3]:
                if has_mu:
                    kw['mu'] = float(MU[j])
                put(f'{name}/{tag}/one{j}', f, data[:, j], **kw)
                if not small:
                    put(f'{name}/{tag}/col{j}', f, data[:, j:j + 1], **kw)
            if has_mu:
                put(f'{name}/{tag}/sun', f,
                    data[:, sel]*np.r_[1.5e11*np.ones(3 if 'cart_' in name
                                                      else 1),
                                       np.ones(3 if 'cart_' in name
                                               else 5)][:, None], **d)
        anoms = [('true_to_eccentric', NU), ('eccentric_to_true', EA),
                 ('eccentric_to_mean', EA), ('true_to_mean', NU),
                 ('mean_to_eccentric', MA), ('mean_to_true', MA)]
        for name, src in anoms:
            f = getattr(kepler, name)
            put(f'{name}/{tag}/all', f, src*u, ECC, **d)
            put(f'{name}/{tag}/rev', f, (src*u)[::-1], ECC[::-1], **d)
            put(f'{name}/{tag}/wide', f, src[:6]*u + 3*2*np.pi*u, ECC[:6], **d)
            put(f'{name}/{tag}/matrix', f, (src*u).reshape(4, 4),
                ECC.reshape(4, 4), **d)
            for j in (0, 6, 10, 12):
                put(f'{name}/{tag}/scalar{j}', f, float(src[j]*u),
                    float(ECC[j]), **d)
                put(f'{name}/{tag}/one{j}', f, src[j:j + 1]*u,
                    ECC[j:j + 1], **d)
            put(f'{name}/{tag}/onee', f, src[:6]*u, 0.3, **d)
            put(f'{name}/{tag}/hype', f, src[12:]*u, 1.3, **d)
            put(f'{name}/{tag}/nan', f, src[:3]*u,
                np.array([0.1, np.nan, 1.4]), **d)
            if name.startswith('mean'):
                put(f'{name}/{tag}/loose', f, src*u, ECC,
                    solver_options=dict(tol=1e-3, max_iter=2), **d)
                put(f'{name}/{tag}/degree', f, src*u, ECC,
                    solver_options=dict(degree=3), **d)
        put(f'euler/{tag}/vec', kepler.euler_rotation_matrix,
            K[2]*u, K[3]*u, K[4]*u, **d)
        put(f'euler/{tag}/one', kepler.euler_rotation_matrix,
            0.3*u, 0.5*u, 4.0*u, **d)
        put(f'orbital_distance/{tag}', kepler.orbital_distance,
            np.abs(K[0]), MU, ECC, NU*u, **d)
        put(f'elliptic_radius/{tag}', kepler.elliptic_radius,
            NU*u, K[0], ECC, **d)
        put(f'parabolic_radius/{tag}', kepler.parabolic_radius,
            NU*u, K[0], **d)
        put(f'hyperbolic_radius/{tag}', kepler.hyperbolic_radius,
            NU*u, K[0], ECC, **d)
        put(f'true_of_the_asymptote/{tag}', kepler.true_of_the_asymptote,
            1 + K[0], **d)
    put('kepler_guess/all', kepler.kepler_guess, MA,
        np.where(ECC == 1, 0.4, ECC))
    put('kepler_guess/one', kepler.kepler_guess, 1.0, 0.5)
    put('kepler_guess/hyp', kepler.kepler_guess, 1.0, 1.5)
    put('laguerre', kepler.laguerre_solve_kepler, 1.0, 1.2, 0.5)
    put('laguerre/opts', kepler.laguerre_solve_kepler, 1.0, 1.2, 0.5,
        tol=1e-2, max_iter=1, degree=4)
    put('laguerre/hyp', kepler.laguerre_solve_kepler, 1.0, 1.2, 1.5)
    put('orbital_speed', kepler.orbital_speed, K[0], K[0], MU)
    put('orbital_period', kepler.orbital_period, K[0], MU)
    put('semi_major_axis', kepler.semi_major_axis, K[0], MU)
    put('h', kepler.orbit_total_angular_momentum, K[0],
        np.minimum(ECC, 0.9), MU)
    put('hpar', kepler.parabolic_total_angular_momentum, K[0], MU)
    for k in range(4):
        put(f'stumpff{k}', getattr(kepler, f'stumpff{k}'), X)
        put(f'stumpff{k}/scalar', getattr(kepler, f'stumpff{k}'), -0.7)
    put('stumpff', kepler.stumpff, X)
    for ax in 'xyz':
        put(f'rot_mat_{ax}', getattr(kepler, f'rot_mat_{ax}'), 0.7)
    put('kep_equivalent/same', kepler.kep_equivalent, K[:, 0], K[:, 0])
    put('kep_equivalent/circ', kepler.kep_equivalent,
        np.array([1.0, 0, 0, 1.0, 2.0, 3.0]),
        np.array([1.0, 0, 0, 2.0, 1.0, 3.0]))
    put('kep_equivalent/diff', kepler.kep_equivalent, K[:, 0], K[:, 1])
    put('get_G', pyorb.get_G, 'AU', 'Msol', 'y')
    put('get_G/num', pyorb.get_G, 2.0, 3.0, 4.0)
    return out


def arrays(x):
    """All arrays inside arguments or results."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    return []


def freeze(x):
    """Exact value of arguments or results, comparable with ==."""
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, x.dtype.str, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return ('dict', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (float, np.floating)):
        return (type(x).__name__, np.float64(x).tobytes())
    return (type(x).__name__, repr(x))


def same(a, b, tol=1e-12):
    """Two results equal up to last-bit differences."""
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) \
            and all(same(x, y, tol) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind not in 'fiub':
        return bool(np.all(a == b))
    a, b = a.astype(float), b.astype(float)
    ok = (a == b) | (np.isnan(a) & np.isnan(b)) \
        | (np.abs(a - b) <= tol*(1e-3 + np.abs(b)))
    return bool(np.all(ok))
