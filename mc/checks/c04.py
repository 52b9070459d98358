"""Anomaly conversions on dense lattices, all routes."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import ref, lat

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('complete lattice eccentricity x true anomaly (dense) x unit x call '
        'form (scalar/array in each argument) and, on each point, every '
        'conversion and every two-step and three-step route between the '
        'three anomalies; a point is one position on one conic')
ASSUMPTIONS = ['|1-e| >= 1e-7 unless e is exactly 1; open orbits within 98% '
               'of the asymptote', 'default solver tolerance 1e-12']

NAMES = ('true', 'eccentric', 'mean')


def conv(frm, to):
    return getattr(kepler, f'{frm}_to_{to}')


def tasks(tier):
    n = 72 if tier == 'quick' else 720
    eccs = sorted(set(lat.ECC + lat.ECC_NEAR + [0.02*k for k in range(50)]
                      + [0.95, 0.999]
                      + [1.01, 1.1, 1.2, 3.0, 10.0, 50.0]))
    return [dict(e=float(e), n=n) for e in eccs]


def points(e, n):
    if e < 1:
        nu = np.concatenate([np.linspace(0, 2*np.pi, n, endpoint=False),
                             [1e-7, np.pi - 1e-5, np.pi + 1e-5,
                              2*np.pi - 1e-7]])
    else:
        lim = np.pi if e == 1 else np.arccos(-1/e)
        nu = np.concatenate([np.linspace(-0.98, 0.98, n)*lim,
                             [0.0, 1e-9, -1e-9]])
    return nu


def rates(nu, E, e):
    """dE/dnu and dM/dE at the point."""
    if e < 1:
        return np.sqrt(1 - e*e)/(1 + e*np.cos(nu)), 1 - e*np.cos(E)
    if e == 1:
        return (1 + E*E)/2, 1 + E*E
    return np.sqrt(e*e - 1)/(1 + e*np.cos(nu)), e*np.cosh(E) - 1


def run(task, ctx):
    e = task['e']
    nu = points(e, task['n'])
    eL = ref.ld(e)
    nuL = ref.ld(nu)
    EL = ref.true_to_ecc(nuL, eL)
    ML = ref.ecc_to_mean(EL, eL)
    val = dict(true=nuL, eccentric=EL, mean=ML)
    dEdnu, dMdE = rates(nuL, EL, eL)
    ctx.ev(0, len(nu))

    def tol(frm, to, x):
        """Error budget of y=f(x): rounding of x, of the result, solver."""
        g = dict(true=1/dEdnu, eccentric=1 + 0*dEdnu, mean=dMdE)
        amp = g[to]/g[frm]
        t = 4e-15*(1 + np.abs(x))*amp + 2e-14*(1 + np.abs(val[to]))
        if to == 'mean':
            t = t + 4e-15*(1 + np.abs(EL))*dMdE
        if frm == 'mean':
            rate = np.maximum(dMdE, 1e-6)
            dE = (2e-12 + 4e-16*np.abs(ML))/rate
            t = t + dE*g[to]*2
        if e > 1:
            # artanh/tan amplification towards the asymptote
            t = t*(1 + 1e2*(np.abs(EL) > 3)) + 1e-14*np.abs(EL)/abs(e - 1)
        return t*(1 + 1/np.abs(1 - eL)*1e-3 if e != 1 else 1)

    def compare(got, to, t, what, **kw):
        got = np.asarray(got)
        w = val[to]
        if got.shape != w.shape:
            ctx.fail(f'{what}: shape', e=e, shape=got.shape, **kw)
            return
        d = np.abs(ref.wrap(got - w)) if (e < 1 or to == 'true') \
            else np.abs(got - w)
        bad = ~(d <= t)
        if bad.any():
            j = int(np.argmax(np.where(np.isnan(d), np.inf, d/t)))
            ctx.fail(what, e=e, nu=nu[j], got=got[j], want=float(w[j]),
                     tol=float(t[j]), bad=int(bad.sum()), **kw)

    for deg in (False, True):
        u = 180/np.pi if deg else 1.0
        inp = {k: (v.astype(float)*u if not deg else ref.deg(v).astype(float))
               for k, v in val.items()}
        direct = {}
        for frm, to in itertools.permutations(NAMES, 2):
            f = conv(frm, to)
            name = f'{frm}_to_{to}'
            t = tol(frm, to, val[frm])
            base = f(inp[frm].copy(), np.full(nu.shape, e), degrees=deg)
            direct[frm, to] = base
            compare(base/u, to, t, name, degrees=deg)
            ctx.ev(len(nu), 0)
            if e < 1 and {frm, to} == {'true', 'eccentric'}:
                if not np.all((base >= 0) & (base <= 2*np.pi*u*(1 + 1e-15))):
                    ctx.fail(f'{name}: outside [0, 360] deg', e=e,
                             got=base[(base < 0) | (base > 2*np.pi*u)])
            if e >= 1 and to != 'true' and frm != 'true':
                w = val[to]
                if not np.all((np.sign(base) == np.sign(w))
                              | (np.abs(w) <= np.maximum(t, 1e-8))):
                    ctx.fail(f'{name}: sign', e=e)
            # the same value in every call form
            forms = dict(
                scalar_e=lambda: f(inp[frm].copy(), e, degrees=deg),
                scalars=lambda: np.array(
                    [f(float(x), e, degrees=deg) for x in inp[frm]]),
                np_scalars=lambda: np.array(
                    [f(np.float64(x), np.float64(e), degrees=deg)
                     for x in inp[frm]]),
                scalar_anomaly=lambda: np.array(
                    [f(float(x), np.array([e, e]), degrees=deg)[1]
                     for x in inp[frm]]),
                matrix=lambda: f(inp[frm][:6].reshape(2, 3).copy(),
                                 np.full((2, 3), e), degrees=deg).ravel())
            for fn, call in forms.items():
                got = np.asarray(call())
                ctx.ev(got.size, 0)
                b = base[:6] if fn == 'matrix' else base
                tt = t[:6] if fn == 'matrix' else t
                if got.shape != b.shape:
                    ctx.fail(f'{name} {fn}: shape', e=e, shape=got.shape)
                    continue
                d = (got - b)/u
                if e < 1 or to == 'true':
                    d = ref.wrap(d)
                if not np.all(np.abs(d) <= tt):
                    j = int(np.argmax(np.abs(d)))
                    ctx.fail(f'{name} {fn}: differs from array form', e=e,
                             x=inp[frm][j], got=got[j], array=b[j],
                             degrees=deg)
        # routes of two and three steps from every start
        for route in itertools.chain(
                itertools.product(NAMES, repeat=3),
                itertools.product(NAMES, repeat=4)):
            if any(a == b for a, b in zip(route, route[1:])):
                continue
            x = inp[route[0]].copy()
            t = 0
            for a, b in zip(route, route[1:]):
                x = conv(a, b)(x, e, degrees=deg)
                t = t + tol(route[0], route[-1], val[route[0]]) \
                    + tol(a, b, val[a])*amp(a, b, route[-1], dEdnu, dMdE)
            ctx.ev(len(nu), 0)
            compare(x/u, route[-1], t, 'route ' + '->'.join(route),
                    degrees=deg)
    # closed orbits: input beyond one revolution is the same position
    if e < 1:
        for k in (-2, -1, 1, 3):
            for frm, to in itertools.permutations(NAMES, 2):
                x = (val[frm] + k*ref.TWOPI).astype(float)
                got = conv(frm, to)(x, e)
                ctx.ev(len(nu), 0)
                compare(got, to, tol(frm, to, np.abs(val[frm]) + 20),
                        f'{frm}_to_{to} beyond one revolution', k=k)
    ctx.sample(e=e, nu=nu[len(nu)//3], E=float(EL[len(nu)//3]),
               M=float(ML[len(nu)//3]))


def amp(a, b, end, dEdnu, dMdE):
    """Error made in b carried on to end."""
    g = dict(true=1/dEdnu, eccentric=1 + 0*dEdnu, mean=dMdE)
    return g[end]/g[b]
