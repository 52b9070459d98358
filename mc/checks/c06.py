"""Equinoctial elements: definition, inverse, and every conversion route."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import ref, lat

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('complete lattice of closed orbits (e x i x Omega x omega x mean '
        'anomaly x size x unit); on every point the definition, and all '
        'conversion routes of up to four steps through the graph Keplerian '
        '<-> equinoctial <-> Cartesian; on representatives, the Orbit '
        'property in every anomaly type, unit, updating mode and number of '
        'orbits; a point is one orbit description')
ASSUMPTIONS = ['0 <= e <= 0.99, 0 <= i <= 180 deg - 9e-5 rad',
               'route tolerance 1e-6 in the state, 3e-8 rad per angle']

ECC = [e for e in lat.ECC_ELL if e <= 0.99]
INC = [0.0, 1e-9] + lat.DEC + [15*lat.D, 60*lat.D, 90*lat.D, 120*lat.D,
       170*lat.D] + [np.pi - d for d in (9e-3, 9e-4, 9e-5)]
ANG = lat.ANG[::2] + [lat.ANG[3], 200*lat.D]


def tasks(tier):
    eccs = ECC if tier == 'quick' else sorted(
        set(ECC + [0.08*k for k in range(13)]))
    incs = INC if tier == 'quick' else sorted(
        set(INC + [15*lat.D*k for k in range(1, 12)]))
    out = [dict(kind='lat', e=float(e), inc=float(i), tier=tier)
           for e in eccs for i in incs]
    out += [dict(kind='orbit', type=t, degrees=d)
            for t in ('true', 'eccentric', 'mean') for d in (False, True)]
    return out


def run(task, ctx):
    if task['kind'] == 'orbit':
        return run_orbit(task, ctx)
    e, inc = task['e'], task['inc']
    quick = task['tier'] == 'quick'
    ang = ANG[::2] + [lat.ANG[9]] if quick else lat.ANG
    for si, ((a, mu), deg) in enumerate(zip(lat.SIZES,
                                            (False, True, False, True))):
        u = 180/np.pi if deg else 1.0
        kep = lat.mesh([a], [e], [inc], ang, ang, lat.NU[::2] + [0.7, 2.6, 7.0, -14.0, 40.0])
        n = kep.shape[1]
        kin = lat.todeg(kep) if deg else kep.copy()
        kw = dict(degrees=deg)
        q = kepler.kep_to_equi(kin.copy(), **kw)
        want = ref.equinoctial(kep)
        ctx.ev(n, n)
        equi_cmp(ctx, q, want, e, inc, a, u, 'kep_to_equi', kep, deg)
        if q.shape == want.shape and not np.all(
                (q[5] >= 0) & (q[5] <= 2*np.pi*u*(1 + 1e-15))):
            j = int(np.flatnonzero(~((q[5] >= 0) & (
                q[5] <= 2*np.pi*u*(1 + 1e-15))))[0])
            ctx.fail('kep_to_equi: longitude range', kep=kep[:, j],
                     got=q[:, j], degrees=deg)
        # state with the last element as mean anomaly
        kt = ref.ld(kep).copy()
        kt[5] = ref.mean_to_true(kep[5], kep[1])
        st = ref.state(kt, mu)
        cart = st.astype(float)

        # routes
        step = {
            ('K', 'E'): lambda x: kepler.kep_to_equi(x, **kw),
            ('E', 'K'): lambda x: kepler.equi_to_kep(x, **kw),
            ('E', 'C'): lambda x: kepler.equi_to_cart(x, mu=mu, **kw),
            ('C', 'E'): lambda x: kepler.cart_to_equi(x, mu=mu, **kw),
            ('K', 'C'): lambda x: ktoc(x, mu, deg),
            ('C', 'K'): lambda x: ctok(x, mu, deg),
        }
        start = dict(K=kin, C=cart,
                     E=np.vstack([want[:5].astype(float),
                                  (want[5]*u).astype(float)[None]]))
        # the longitude may be given in any turn
        start['E'][5] += 2*np.pi*u*np.resize([0, 0, -1, 1, -3, 6], n)
        cache = {}
        for ln in ((2, 3) if quick and si > 1 else (2, 3, 4) if quick
                   else (2, 3, 4, 5) if si < 2 else (2, 3, 4)):
            for route in itertools.product('KEC', repeat=ln):
                if any(x == y for x, y in zip(route, route[1:])):
                    continue
                prev = cache[route[:-1]] if ln > 2 else start[route[0]]
                x = step[route[-2], route[-1]](prev.copy())
                cache[route] = x
                ctx.ev(n, 0)
                name = '->'.join(route)
                if x.shape != (6, n) or not np.all(np.isfinite(x)):
                    ctx.fail(f'route {name}: not finite', e=e, inc=inc,
                             degrees=deg)
                    continue
                if route[-1] == 'E':
                    equi_cmp(ctx, x, want, e, inc, a, u, f'route {name}',
                             kep, deg, loose=True)
                    lon = x[5]
                    if not np.all((lon >= 0) & (lon <= 2*np.pi*u*(1 + 1e-15))):
                        ctx.fail(f'route {name}: longitude range', e=e,
                                 inc=inc, degrees=deg)
                    continue
                if route[-1] == 'K':
                    y = ref.ld(x).copy()
                    if deg:
                        y[2:] = ref.rad(y[2:])
                    if not np.all((y[3:] >= 0) & (y[3:] <= 2*np.pi + 1e-12)) \
                            and route[-2] == 'E':
                        ctx.fail(f'route {name}: angle range', e=e, inc=inc,
                                 degrees=deg)
                    y[5] = ref.mean_to_true(y[5], y[1])
                    x = ref.state(y, mu)
                # position error grows with dnu/dM
                c = 1/(1 - e)**2 if e > 0.9 else 3.0
                er, ev = ref.state_err(x, st, mu, kt)
                bad = ~((er < 1e-7*c) & (ev < 1e-7*c))
                if bad.any():
                    j = int(np.flatnonzero(bad)[0])
                    ctx.fail(f'route {name}: different orbit', kep=kep[:, j],
                             mu=mu, degrees=deg, got=x[:, j],
                             want=cart[:, j], bad=int(bad.sum()))
    ctx.sample(kep=kep[:, n//3], equinoctial=want[:, n//3])


def ktoc(k, mu, deg):
    k = k.copy()
    k[5] = kepler.mean_to_true(k[5], k[1], degrees=deg)
    return kepler.kep_to_cart(k, mu=mu, degrees=deg)


def ctok(c, mu, deg):
    k = kepler.cart_to_kep(c, mu=mu, degrees=deg)
    k[5] = kepler.true_to_mean(k[5], k[1], degrees=deg)
    return k


def equi_cmp(ctx, q, want, e, inc, a, u, what, kep, deg, loose=False):
    t = 3e-8 if loose else 1e-13
    # angles enter p and q multiplied by tan(i/2), through i by sec^2(i/2)
    sec = 1/np.cos(inc/2)**2
    n = want.shape[1]
    if q.shape != want.shape:
        ctx.fail(f'{what}: shape', shape=q.shape)
        return
    err = [np.abs(q[0] - want[0])/a, np.abs(q[1] - want[1]),
           np.abs(q[2] - want[2]), np.abs(q[3] - want[3])/sec,
           np.abs(q[4] - want[4])/sec,
           np.abs(ref.wrap(q[5]/u - want[5]))*(0.1 if loose else 0.01)]
    amp = (1/(1 - e)**1.5 if loose else 1)
    for k, d in zip('ahkpql', err):
        bad = ~(d <= t*(10 + np.abs(kep[3:]).max())*amp)
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.fail(f'{what}: element {k}', kep=kep[:, j], got=q[:, j],
                     want=want[:, j].astype(float), degrees=deg,
                     bad=int(bad.sum()), of=n)
            return


KEPS = np.array([[1.0, 0.3, 0.5, 1.0, 2.0, 4.3],
                 [2.0, 0.0, 0.9, 0.0, 3.0, 1.4],
                 [1.5, 0.6, 0.0, 5.3, 0.0, 3.9],
                 [0.7, 0.0, 0.0, 0.0, 0.0, 5.0],
                 [1.5, 0.8, 2.5, 0.3, 5.0, 0.8]]).T   # mean anomaly


def run_orbit(task, ctx):
    typ, deg = task['type'], task['degrees']
    u = 180/np.pi if deg else 1.0
    mu = 1.5
    kt = ref.ld(KEPS).copy()
    kt[5] = ref.mean_to_true(KEPS[5], KEPS[1])
    st = ref.state(kt, mu)
    want = ref.equinoctial(KEPS)
    want[5] = want[5]*u
    sel = [[j] for j in range(5)] + [[0, 1], [4, 3, 2], [0, 1, 2, 3, 4]]
    modes = [(True, True), (True, False), (False, True)]
    for cols, (direct, auto), src in itertools.product(
            sel, modes, ('kepler', 'cartesian', 'equinoctial',
                         'lazy-kep', 'lazy-cart')):
        o = pyorb.Orbit(mu, G=1.0, num=len(cols), degrees=deg, type=typ,
                        direct_update=direct, auto_update=auto)
        an = ref.convert_anom(kt[5], kt[1], 'true', typ)
        k = kt.copy()
        k[5] = an
        k[2:] *= u
        k = k.astype(float)[:, cols]
        c = st.astype(float)[:, cols]
        q = want.astype(float)[:, cols]
        if src.startswith('lazy'):
            # another orbit was there first, converted or pending
            o.kepler = KEPS[:, [0]*len(cols)]*np.array(
                [[1], [1], [u], [u], [u], [u]])*1.01
            if src == 'lazy-cart':
                o.cartesian
        if src.endswith('cart') or src == 'cartesian':
            o.cartesian = c
        elif src == 'equinoctial':
            o.equinoctial = q[:, 0] if len(cols) == 1 else q
        else:
            o.kepler = k
        ctx.ev(1)
        got = np.asarray(o.equinoctial)
        if len(cols) == 1 and got.shape == (6,):
            got = got[:, None]
        w = ref.ld(want[:, cols]).copy()
        d = np.abs(got - w)
        d[5] = np.abs(ref.wrap((got[5] - w[5])/u))
        if got.shape != w.shape or not np.all(d < 1e-6):
            ctx.fail('Orbit.equinoctial read', type=typ, degrees=deg,
                     direct=direct, source=src, cols=cols, got=got,
                     want=w.astype(float))
            continue
        # write it to an orbit that holds something else
        for first in ('kepler', 'cartesian', 'pending'):
            p = pyorb.Orbit(mu, G=1.0, num=len(cols), degrees=deg, type=typ,
                            direct_update=direct, auto_update=auto)
            other = k.copy()
            other[0] *= 2
            other[4] += 0.3*u
            p.kepler = other
            if first != 'pending':
                getattr(p, first)
            else:
                p.cartesian = c[:, ::-1]*1.1
            p.equinoctial = got if len(cols) > 1 else got[:, 0]
            for order in ('ck', 'kc'):
                for what in order:
                    ctx.ev(1, 0)
                    if what == 'c':
                        er, ev = ref.state_err(p.cartesian, c, mu)
                        ok = np.all(er < 1e-6) and np.all(ev < 1e-6)
                    else:
                        y = ref.ld(p.kepler).copy()
                        y[2:] /= u
                        y[5] = ref.convert_anom(y[5], y[1], typ, 'true')
                        er, ev = ref.state_err(ref.state(y, mu), c, mu)
                        ok = np.all(er < 1e-6) and np.all(ev < 1e-6)
                    if not ok:
                        ctx.fail('Orbit.equinoctial write', type=typ,
                                 degrees=deg, direct=direct, auto=auto,
                                 cols=cols, first=first, read=what,
                                 cartesian=p.cartesian, want=c)
    ctx.sample(type=typ, degrees=deg, kep=KEPS[:, 0])
