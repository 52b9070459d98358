"""No preferred length, time or mass: any consistent units give the same."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import hist, ref, lat

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = ('(a) every conversion and helper function on the product lattice of '
        'elements, in every system of units of a finite set (length and '
        'gravitational parameter rescaled over 36 decades); (b) every '
        'operation sequence up to the stated depth run in lockstep on Orbit '
        'objects holding the same orbits in different systems of units, all '
        'properties compared after every operation')
ASSUMPTIONS = [
    'scale factors are powers of 64, so that rescaling itself is exact',
    'lengths between 1e-18 and 1e18, no overflow of intermediate results',
    'angles to 2e-7 + 1e-14/e + 1e-14/sin i, other values to 1e-9 relative '
    'or the conditioning of the orbit']

# (length, time, mass)
S = 64.0
UNITS = [(S**4, 1.0, 1.0), (S**-4, 1.0, 1.0), (S**10, S**3, 1.0),
         (S**-10, S**-3, 1.0), (1.0, S**6, 1.0), (1.0, S**-6, S**2),
         (S**7, S**5, S**9), (S**-9, S**4, S**-9), (S**2, S**-7, S**5),
         (S**-2, S**8, S**-3), (S, S, S), (S**5, 1.0, S**-8)]


def angle_tol(e, inc):
    with np.errstate(all='ignore'):
        return (2e-7 + 1e-14/np.maximum(e, 1e-12)
                + 1e-14/np.maximum(np.abs(np.sin(inc)), 1e-12))


def wrapdiff(x, y):
    d = x - y
    return np.abs(d - 2*np.pi*np.round(d/(2*np.pi)))


def near(got, want, tol=1e-9):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return np.zeros(1, dtype=bool)
    return (got == want) | (np.isnan(got) & np.isnan(want)) \
        | (np.abs(got - want) <= tol*np.abs(want))


def run_fun(task, ctx):
    e = task['e']
    incs = lat.INC if task['tier'] == 'thorough' else lat.INC[::2] + [np.pi]
    ang = [0.0, 1.1, np.pi, 4.0] if task['tier'] == 'quick' else lat.ANG[::2]
    kep = lat.mesh([1.3], [e], incs, ang, ang, lat.nu_for(e))
    n = kep.shape[1]
    mu = 0.9*(1 + 0.25*(np.arange(n) % 3))
    cart = kepler.kep_to_cart(kep.copy(), mu=mu)
    base = kepler.cart_to_kep(cart.copy(), mu=mu)
    # next to the limits of the special cases the split of the angles is left
    # to rounding
    s = np.abs(np.sin(kep[2]))
    loose = ((s < 1e-7) & (s > 1e-15)) | ((e < 1e-7) & (e != 0))
    closed = e < 1
    eq = kepler.kep_to_equi(kep.copy()) if closed else None
    tol = angle_tol(e, kep[2])
    slow = 1e-12/max(abs(1 - e), 1e-12) if e != 1 else 0
    ctx.ev(0, n)
    for L, T, M in UNITS:
        V = L/T
        U = L**3/T**2
        ctx.states += n
        ctx.transitions += n
        cs = np.concatenate([cart[:3]*L, cart[3:]*V])
        ks = kep.copy()
        ks[0] *= L
        case = dict(e=e, length=L, time=T)

        def bad(name, ok, j=None):
            ok = np.asarray(ok)
            if not ok.all():
                j = int(np.flatnonzero(~ok.reshape(-1, ok.shape[-1]).all(axis=0))[0]) \
                    if ok.ndim and ok.shape[-1] == n else 0
                ctx.fail(f'{name}: depends on the system of units',
                         kep=kep[:, j], **case)

        def state(name, got, want):
            if got.shape != want.shape:
                ctx.fail(f'{name}: shape', **case)
                return
            er, ev = ref.state_err(got, want, mu*U, ks)
            bad(name, (er < 1e-9 + slow) & (ev < 1e-9 + slow))

        def elements(name, got, want, an=1):
            got = got.copy()
            got[0] /= L
            ok = near(got[0], want[0], 1e-7 + 100*slow) \
                & (np.abs(got[1] - want[1]) <= 1e-9 + slow)
            ok &= np.abs(got[2] - want[2]) <= 1e-7
            # the sum of the angles is defined for every orbit
            s = np.where(want[2] > np.pi/2, -1, 1)
            ok &= wrapdiff(got[4] + s*(got[3] + got[5]),
                           want[4] + s*(want[3] + want[5])) <= tol + 2e-7
            for r in (3, 4, 5):
                ok &= (wrapdiff(got[r], want[r]) <= tol) | loose
            bad(name, ok)
        state('kep_to_cart', kepler.kep_to_cart(ks.copy(), mu=mu*U), cs)
        elements('cart_to_kep', kepler.cart_to_kep(cs.copy(), mu=mu*U), base)
        if closed:
            got = kepler.kep_to_equi(ks.copy())
            want = eq.copy()
            want[0] *= L
            ok = near(got, want)
            ok[1:] |= (np.abs(got - want) <= 1e-9*(1 + np.abs(want)))[1:]
            bad('kep_to_equi', ok)
            got = kepler.cart_to_equi(cs.copy(), mu=mu*U)
            pro = kep[2] < 2.9
            wantc = kepler.cart_to_equi(cart.copy(), mu=mu)
            wantc[0] *= L
            ok = near(got[0], wantc[0], 1e-7 + 100*slow)
            for r in range(1, 5):
                ok &= np.abs(got[r] - wantc[r]) <= 1e-6*(
                    1 + np.abs(wantc[r]))
            ok &= wrapdiff(got[5], wantc[5]) <= 1e-6
            bad('cart_to_equi', ok | ~pro)
            eqs = eq.copy()
            eqs[0] *= L
            back = kepler.equi_to_cart(eqs, mu=mu*U)
            want = kepler.equi_to_cart(eq.copy(), mu=mu)
            want = np.concatenate([want[:3]*L, want[3:]*V])
            er, ev = ref.state_err(back, want, mu*U)
            bad('equi_to_cart', (er < 1e-7 + 1e-12/(1 - e))
                & (ev < 1e-7 + 1e-12/(1 - e)) | ~pro)
        # helpers
        nu = kep[5]
        if e == 1:
            h0 = kepler.parabolic_total_angular_momentum(kep[0], mu)
            h1 = kepler.parabolic_total_angular_momentum(ks[0], mu*U)
            bad('parabolic_radius',
                near(kepler.parabolic_radius(nu, ks[0]),
                     kepler.parabolic_radius(nu, kep[0])*L))
        else:
            sg = 1 if closed else -1
            h0 = kepler.orbit_total_angular_momentum(sg*kep[0], e, mu)
            h1 = kepler.orbit_total_angular_momentum(sg*ks[0], e, mu*U)
            if closed:
                bad('elliptic_radius',
                    near(kepler.elliptic_radius(nu, ks[0], e),
                         kepler.elliptic_radius(nu, kep[0], e)*L))
            else:
                bad('hyperbolic_radius',
                    near(kepler.hyperbolic_radius(nu, ks[0], e),
                         kepler.hyperbolic_radius(nu, kep[0], e)*L))
        bad('total_angular_momentum', near(h1, h0*L*V))
        bad('orbital_distance',
            near(kepler.orbital_distance(h1, mu*U, e, nu),
                 kepler.orbital_distance(h0, mu, e, nu)*L))
        a0 = (1 if closed else -1)*kep[0]
        r0 = np.sqrt(np.sum(cart[:3]**2, axis=0))
        if e != 1:
            bad('orbital_speed',
                near(kepler.orbital_speed(r0*L, a0*L, mu*U),
                     kepler.orbital_speed(r0, a0, mu)*V, 1e-7 + 100*slow))
        P = kepler.orbital_period(kep[0], mu)
        bad('orbital_period',
            near(kepler.orbital_period(ks[0], mu*U), P*T))
        bad('semi_major_axis',
            near(kepler.semi_major_axis(P*T, mu*U), kep[0]*L))
        # the equivalence test, on orbits that differ a little in one element
        for j in range(0, n, max(1, n//6)):
            for r in range(6):
                k2 = kep[:, j].copy()
                k2[r] += (1e-3 if r == 0 else 0.1)*(1 if r else k2[0])
                s2 = k2.copy()
                s2[0] *= L
                if bool(kepler.kep_equivalent(ks[:, j].copy(), s2)) != bool(
                        kepler.kep_equivalent(kep[:, j].copy(), k2)):
                    ctx.fail('kep_equivalent: depends on the system of units',
                             kep=kep[:, j], other=k2, **case)
        # one orbit at a time
        for j in range(0, n, max(1, n//8)):
            got = kepler.kep_to_cart(ks[:, j].copy(), mu=float(mu[j]*U))
            er, ev = ref.state_err(got[:, None], cs[:, j:j + 1], mu[j]*U,
                                   ks[:, j:j + 1])
            if not ((er < 1e-9 + slow) & (ev < 1e-9 + slow)).all():
                ctx.fail('kep_to_cart of one orbit: depends on the system of '
                         'units', kep=kep[:, j], **case)
            got = kepler.cart_to_kep(cs[:, j].copy(), mu=float(mu[j]*U))
            g, w = got.copy(), base[:, j]
            g[0] /= L
            t = tol[j]
            if not (abs(g[0] - w[0]) <= (1e-7 + 100*slow)*w[0]
                    and abs(g[1] - w[1]) <= 1e-9 + slow
                    and abs(g[2] - w[2]) <= 1e-7
                    and (loose[j] or (wrapdiff(g[3:], w[3:]) <= t).all())):
                ctx.fail('cart_to_kep of one orbit: depends on the system of '
                         'units', kep=kep[:, j], got=g, want=w, **case)
        ctx.ev(8*n, 0)
    ctx.sample(e=e, units=UNITS[:3], points=n)


# ------------------------------------------------------------------ histories
DIM = dict(x='L', y='L', z='L', r='L', vx='V', vy='V', vz='V', v='V', a='L',
           e='1', i='1', omega='1', Omega='1', anom='1', true_anomaly='1',
           eccentric_anomaly='1', mean_anomaly='1', mean_longitude='1',
           period='T', mean_motion='N', velocity='V', speed='V',
           apoapsis='L', periapsis='L', m='M')


class Duo:
    def __init__(self, orbs):
        self.orbs = orbs


def factor(dim, u):
    L, T, M = u
    return {'L': L, 'V': L/T, '1': 1.0, 'T': T, 'N': 1/T, 'M': M}[dim]


def scaled(name, val, u):
    val = np.array(val, dtype=float)
    if name == 'cartesian':
        f = np.array([factor('L', u)]*3 + [factor('V', u)]*3)
    elif name in ('kepler', 'equinoctial'):
        f = np.array([factor('L', u)] + [1.0]*5)
    else:
        return val*factor(DIM[name], u)
    return val*(f if val.ndim == 1 else f[:, None])


def ops_for(n, deg):
    """(name, real(orbit, unit), model)."""
    al = {o.name: o for o in hist.alphabet(n, deg)}
    u1 = 180/np.pi if deg else 1.0
    f = np.linspace(1.0, 1.2, n)
    k1 = hist._units(hist.KEP1[:, :n], deg)
    c1 = hist.carts(hist.KEP1, n)*np.array(
        [1.1, 0.9, 1, 1, 1.05, 1])[:, None]
    equ = np.array(ref.equinoctial(np.array(
        [[1.4, 0.25, 0.8, 1.0, 2.0, 3.0]]*n).T), dtype=float)
    equ[0] *= f
    equ[5] = (equ[5] + 0.1*np.arange(n))*u1
    vals = dict(cartesian=c1, kepler=k1, a=0.8*f, e=0.45*f, i=0.9*u1*f,
                omega=3.0*u1*f, Omega=1.3*u1*f, anom=0.6*u1*f, x=0.75*f,
                y=-0.6*f, z=0.3*f, vx=-0.5*f, vy=0.8*f, vz=-0.4*f,
                r=c1[:3]*0.9, v=c1[3:]*1.1, period=3.0*f, velocity=1.1*f,
                true_anomaly=0.9*u1*f, eccentric_anomaly=0.7*u1*f,
                mean_anomaly=0.5*u1*f,
                equinoctial=equ if n > 1 else equ[:, 0])
    out = []
    for name, val in vals.items():
        out.append((name, lambda o, u, name=name, val=val:
                    setattr(o, name, scaled(name, val, u)), al[name].model))
    for name, dt in (('propagate+', 0.37), ('propagate-', -2.9)):
        out.append((name, lambda o, u, dt=dt: o.propagate(dt*u[1]),
                    al[name].model))
    for name in ('type=true', 'type=eccentric', 'type=mean',
                 'calculate_cartesian()', 'calculate_kepler()', 'copy',
                 'read kepler', 'read cartesian'):
        out.append((name, lambda o, u, f=al[name].real: f(o), al[name].model))
    j = n - 1
    out.append(('update kepler', lambda o, u: o.update(
        inds=[0], kepler=scaled('kepler', 1.03*k1[:, :1], u)),
        al['update([0],kepler)'].model))
    out.append(('update cartesian', lambda o, u: o.update(
        inds=np.array([-1]), cartesian=scaled('cartesian', 0.97*c1[:, j:], u)),
        al['update([-1],cartesian)'].model))
    out.append(('update a,e', lambda o, u: o.update(
        inds=j, a=(1.15 + 0.1*j)*u[0], e=0.35 + 0.05*j),
        al['update(int,a,e)'].model))

    def add(o, u):
        o.add(1, kepler=scaled('kepler', k1[:, :1], u), m=0.25*u[2])

    def madd(m):
        if m.n > n:
            raise hist.Invalid
        m.add(1, m=0.25)
        m.write_kep(range(6), k1[:, :1], [m.n - 1])

    def mdel(m):
        if m.n <= n:
            raise hist.Invalid
        m.delete(0)
    sized = ('type', 'calculate', 'copy', 'read', 'propagate')
    out = [(a, b, c if a.startswith(sized) else
            (lambda m, c=c: c(m) if m.n == n else skip())) for a, b, c in out]
    out.append(('add', add, madd))
    out.append(('delete', lambda o, u: o.delete(0), mdel))
    return out


def skip():
    raise hist.Invalid


def make(n, deg, typ, direct, u, via):
    L, T, M = u
    k, c = hist._initial(np.array(hist.KEP0[:, :n]).tobytes(), n, deg, typ)
    o = pyorb.Orbit(hist.M0*M, G=hist.G*L**3/T**2/M, num=n,
                    m=np.array(hist.MASS[:n])*M, degrees=deg, type=typ,
                    direct_update=direct)
    if via == 'kepler':
        o.kepler = scaled('kepler', k, u)
    else:
        o.cartesian = scaled('cartesian', c, u)
    return o


def observe(ctx, d, mod, hst, level):
    full = 360.0 if mod.deg else 2*np.pi
    first = None
    for o, u in zip(d.orbs, [(1.0, 1.0, 1.0)] + ctx.units):
        o = hist.clone(o)
        c, k = o.cartesian, o.kepler
        one = (1/factor('L', u), 1/(factor('V', u)))
        cs = np.concatenate([c[:3]*one[0], c[3:]*one[1]])
        ks = k.copy()
        ks[0] *= one[0]
        vals = {}
        if level <= 2:
            for name, dim in DIM.items():
                vals[name] = np.asarray(getattr(o, name),
                                        dtype=float)/factor(dim, u)
            vals['equinoctial'] = scaled(
                'equinoctial', o.equinoctial, (1/u[0], 1, 1))
        if first is None:
            first = cs, ks, vals
            msg = hist.diff(cs, ks, mod)
            if msg:
                return f'wrong {msg}'
            continue
        none = np.zeros(6, dtype=bool)
        for j in range(mod.n):
            if not hist.state_close(cs[:, j], first[0][:, j], mod.mu(j), 1e-7):
                return (f'the state of orbit {j} depends on the system of '
                        'units')
            if not hist.kep_close(ks[:, j], first[1][:, j], none, mod.mu(j),
                                  mod.deg, mod.typ, 1e-7):
                return (f'the elements of orbit {j} depend on the system of '
                        'units')
        for name, w in first[2].items():
            g = vals[name]
            if g.shape != w.shape:
                return f'{name} has another shape in other units'
            if hist.equal(g, w):
                continue
            if name in ('apoapsis', 'period'):
                ok = (np.abs(g - w) <= 1e-6*np.abs(w)) | (
                    mod.kep[1].astype(float) >= 1)
            elif DIM.get(name) == '1':
                dd = (g - w + full/2) % full - full/2
                ok = np.abs(dd) <= 1e-6*full
            else:
                # components: relative to the largest
                ok = np.abs(g - w) <= 1e-6*np.max(np.abs(w), axis=0)
                if name in ('x', 'y', 'z', 'vx', 'vy', 'vz'):
                    ok = np.abs(g - w) <= 1e-6*hist.ref.norm(
                        first[0][:3] if len(name) == 1 else first[0][3:])
                if name == 'equinoctial':
                    continue
            if not np.all(ok):
                return f'{name} depends on the system of units'
    return None


def run_hist(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ctx.units = [tuple(UNITS[k]) for k in task['units']]
    allu = [(1.0, 1.0, 1.0)] + ctx.units
    k0, mod = hist.make(hist.KEP0[:, :n], deg, typ, task['direct'], True,
                        via=task['via'])
    d = Duo([make(n, deg, typ, task['direct'], u, task['via'])
             for u in allu])

    def lift(name, real, model):
        def both(d):
            out = []
            for o, u in zip(d.orbs, allu):
                res = real(o, u)
                out.append(res if isinstance(res, pyorb.Orbit) else o)
            return Duo(out)
        return hist.Op(name, both, model)
    ops = [lift(*x) for x in ops_for(n, deg)]
    msg = observe(ctx, d, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    hist.explore(ctx, d, mod, ops, task['depth'], observe,
                 first=task['first'],
                 clone=lambda d: Duo([hist.clone(o) for o in d.orbs]),
                 snap=lambda d: b'#'.join(hist.snap(o) for o in d.orbs))


def tasks(tier):
    q = tier == 'quick'
    out = [dict(part='fun', e=float(e), tier=tier)
           for e in lat.ECC + ([] if q else lat.ECC_NEAR)]
    for i, (typ, deg, direct) in enumerate((
            ('true', False, True), ('mean', True, False),
            ('eccentric', False, False), ('mean', False, True))):
        nf = len(ops_for(2, deg))
        us = [i, i + 4, i + 8] if q else list(range(len(UNITS)))
        out += [dict(part='hist', n=2, deg=deg, typ=typ, direct=direct,
                     via='kepler' if i % 2 else 'cart', units=us,
                     depth=2 if q else 3, first=g.tolist())
                for g in np.array_split(range(nf), 4 if q else nf)]
        out.append(dict(part='hist', n=1, deg=not deg, typ=typ, direct=direct,
                        via='cart' if i % 2 else 'kepler',
                        units=[(i + k) % 12 for k in (1, 6, 11)], depth=1,
                        first=None))
    return out


def run(task, ctx):
    {'fun': run_fun, 'hist': run_hist}[task['part']](task, ctx)
