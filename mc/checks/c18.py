"""Derived quantities agree with the state; their setters invert getters."""
import itertools
import numpy as np
import pyorb
from mc import hist, ref, lat

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('product lattice of orbits (every kind x position x size and mass) x '
        'anomaly type x unit x updating mode x side entered x which quantity '
        'is read first, against values computed from the state in extended '
        'precision; every setter x every history of up to two earlier '
        'operations, read back and compared with the state it implies; a '
        'distinct case is one orbit in one configuration')
ASSUMPTIONS = ['period, apoapsis: closed orbits only; mean motion of open '
               'orbits is the rate of the mean anomaly of the conversions',
               'relative tolerance 1e-7 from a state (conditioned), 1e-11 '
               'from elements; set values read back to 1e-12 (velocity and '
               'mean motion 1e-9)']

G = hist.G
NAMES = ['period', 'mean_motion', 'speed', 'velocity', 'periapsis',
         'apoapsis', 'mean_longitude']


def orbits(tier):
    out = []
    q = tier == 'quick'
    for name, k in lat.kinds():
        lim = np.pi if k[1] <= 1 else np.arccos(-1/k[1])
        for f in ([-0.9, -0.3, 0.0, 0.5, 0.9] if q
                  else np.linspace(-0.95, 0.95, 21)):
            out.append(k[:5] + [f*lim])
        if k[1] < 1:
            out += [k[:5] + [np.pi], k[:5] + [5.0]]
    if not q:
        for e in (1e-3, 0.05, 0.9, 0.99, 0.999, 1.01, 1.1, 4.0, 20.0):
            for inc in (0.0, 0.4, 1.57, 2.9, np.pi):
                lim = np.pi if e <= 1 else np.arccos(-1/e)
                for f in (-0.9, -0.2, 0.4, 0.85):
                    out.append([2.2, e, inc, 0.8, 2.1 if 0 < inc < np.pi
                                else 0.0, f*lim])
    return np.array(out).T


def expected(kep, mu, deg):
    """Everything from the state alone."""
    st = ref.state(kep, mu)
    can = ref.canon(np.array(st, dtype=float), mu)
    r, v, rn, h, en, ev = ref.invariants(st, mu)
    hn = ref.norm(h)
    e = ref.norm(ev)
    par = kep[1] == 1
    p = hn**2/mu
    u = 180/np.pi if deg else 1
    full = ref.TWOPI
    out = dict(
        velocity=ref.norm(v), speed=ref.norm(v),
        periapsis=p/(1 + e),
    )
    with np.errstate(all='ignore'):
        a = np.where(par, p/2, mu/np.abs(2*en))
        out['period'] = full*np.sqrt(a**3/mu)
        out['mean_motion'] = np.where(
            par, np.sqrt(mu/(2*a**3)), np.sqrt(mu/a**3))*u
        out['apoapsis'] = p/np.where(e < 1, 1 - e, np.nan)
    return out, can, st


def config(mode):
    return dict(direct=dict(direct_update=True, auto_update=True),
                auto=dict(direct_update=False, auto_update=True),
                manual=dict(direct_update=False, auto_update=False))[mode]


def tasks(tier):
    out = []
    for typ, deg, mode, side, big in itertools.product(
            ('true', 'eccentric', 'mean'), (False, True),
            ('direct', 'auto', 'manual'), ('kepler', 'cart'), (False, True)):
        out.append(dict(part='get', typ=typ, deg=deg, mode=mode, side=side,
                        big=big, tier=tier))
    for typ, deg, mode in itertools.product(
            ('true', 'eccentric', 'mean'), (False, True),
            ('direct', 'auto', 'manual')):
        out.append(dict(part='set', typ=typ, deg=deg, mode=mode, tier=tier))
    return out


def build(kep, typ, deg, mode, side, m, G, M0):
    k = ref.ld(kep).copy()
    k[5] = ref.convert_anom(k[5], k[1], 'true', typ)
    if deg:
        k[2:] = ref.deg(k[2:])
    o = pyorb.Orbit(M0, G=G, num=kep.shape[1], m=m, degrees=deg, type=typ,
                    **config(mode))
    mu = G*(M0 + m)
    c = np.array(ref.state(ref.ld(kep), mu), dtype=float)
    if side == 'kepler':
        o.kepler = k.astype(float)
        if mode == 'manual':
            o.calculate_cartesian()
    else:
        o.cartesian = c
        if mode == 'manual':
            o.calculate_kepler()
    return o


def getters(task, ctx):
    kep = orbits(task['tier']).copy()
    n = kep.shape[1]
    m = 0.05 + 0.9*np.arange(n)/n
    G_, M0 = G, 0.7
    if task['big']:
        kep[0] *= 1.5e11
        G_, M0, m = pyorb.G, pyorb.M_sol, m*1e29
    mu = G_*(M0 + m)
    typ, deg = task['typ'], task['deg']
    want, can, st = expected(ref.ld(kep), mu, deg)
    # sensitivity of the elements to the state, far from periapsis
    rn = ref.norm(st[:3])
    cnd = 1 + 2*kep[0]/np.asarray(rn, dtype=float) \
        + np.asarray(rn, dtype=float)/kep[0]
    cnd = cnd/np.minimum(1, np.abs(1 - kep[1]) + (kep[1] == 1))
    tol = (1e-11 if task['side'] == 'kepler' else 1e-8)*cnd
    closed = kep[1] < 1
    for name in NAMES + ['true_anomaly', 'eccentric_anomaly',
                         'mean_anomaly']:
        # each as the first thing read from a fresh object, and after others
        for pre in ((), ('cartesian',), ('kepler',)):
            o = build(kep, typ, deg, task['mode'], task['side'], m, G_, M0)
            for x in pre:
                getattr(o, x)
            got = np.array(getattr(o, name), dtype=float)
            again = np.array(getattr(o, name), dtype=float)
            ctx.ev(n, n if not pre else 0)
            if got.shape != (n,):
                ctx.fail(f'{name}: shape {got.shape}')
                continue
            if not np.array_equal(got, again, equal_nan=True):
                ctx.fail(f'{name}: read twice, different values')
            k = ref.ld(o.kepler)
            c = o.cartesian
            if name in want:
                w = np.array(want[name], dtype=float)
                use = closed if name in ('period', 'apoapsis') \
                    else np.ones(n, dtype=bool)
                if name in ('velocity', 'speed'):
                    ref_v = np.array(ref.norm(ref.ld(c[3:])), dtype=float)
                    for g, t in ((w, tol), (ref_v, tol)):
                        bad = ~(np.abs(got - g) <= t*np.maximum(
                            g, np.array(mu/ref.norm(ref.cross(
                                st[:3], st[3:])), dtype=float)))
                        if bad.any():
                            j = int(np.flatnonzero(bad)[0])
                            ctx.fail(f'{name} is not that of the state',
                                     kep=kep[:, j], mu=mu[j], got=got[j],
                                     want=g[j], first=not pre)
                    continue
                bad = use & ~(np.abs(got - w) <= tol*np.abs(w))
                if bad.any():
                    j = int(np.flatnonzero(bad)[0])
                    ctx.fail(f'{name} is not that of the state',
                             kep=kep[:, j], mu=mu[j], got=got[j], want=w[j],
                             first=not pre, bad=int(bad.sum()))
                continue
            # angles: consistent with the elements reported
            kr = k.copy()
            if deg:
                kr[2:] = ref.rad(kr[2:])
            full = 360.0 if deg else 2*np.pi
            if name == 'mean_longitude':
                M = ref.convert_anom(kr[5], kr[1], typ, 'mean')
                w = M + kr[3] + kr[4]
            else:
                w = ref.convert_anom(kr[5], kr[1], typ, name.split('_')[0])
            w = np.array(ref.deg(w) if deg else w, dtype=float)
            d = got - w
            # true anomaly and mean longitude modulo a revolution
            per = closed | (name in ('mean_longitude', 'true_anomaly'))
            d = np.where(per, (d + full/2) % full - full/2, d)
            t = 1e-8*full*(1 + np.abs(w)/full)/np.minimum(
                1, np.abs(1 - kep[1]) + (kep[1] == 1))
            bad = ~(np.abs(d) <= t)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail(f'{name} contradicts the elements', kep=kep[:, j],
                         got=got[j], want=w[j], first=not pre)
    ctx.sample(task=task, orbit=kep[:, 0])


SETK = np.array([k for nm, k in lat.kinds()
                 if nm in ('ell-incl', 'ell-retro', 'ell-high', 'circ-incl',
                           'par-incl', 'hyp-incl', 'hyp-retro',
                           'ell-planar', 'hyp-planar')]).T
PRE = ['none', 'read cartesian', 'read kepler', 'kepler', 'cartesian',
       'type=mean', 'type=eccentric', 'type=true', 'propagate', 'settle',
       'period', 'mean_motion', 'velocity', 'm']


def setters(task, ctx):
    n = SETK.shape[1]
    m = 0.05 + 0.1*np.arange(n)
    M0 = 0.7
    mu = G*(M0 + m)
    typ, deg, mode = task['typ'], task['deg'], task['mode']
    u = 360.0 if deg else 2*np.pi
    closed = SETK[1] < 1
    par = SETK[1] == 1

    def apply(o, name):
        if name == 'read cartesian':
            o.cartesian
        elif name == 'read kepler':
            o.kepler
        elif name == 'settle':
            o.cartesian, o.kepler, o.mean_anomaly
        elif name == 'kepler':
            o.kepler = o.kepler
        elif name == 'cartesian':
            o.cartesian = o.cartesian
        elif name.startswith('type='):
            o.type = name[5:]
        elif name == 'propagate':
            o.propagate(0.21)
        elif name == 'period':
            o.period = o.period*1.1
        elif name == 'mean_motion':
            o.mean_motion = o.mean_motion*0.9
        elif name == 'velocity':
            o.velocity = o.velocity*np.where(closed, 0.97,
                                             np.where(par, 1.0, 1.03))
        elif name == 'm':
            o.cartesian, o.kepler
            o.m = o.m*1.3
            o.calculate_cartesian()

    depth = 1 if task['tier'] == 'quick' else 2
    for pre in itertools.product(PRE, repeat=depth):
        for side in ('kepler', 'cart'):
            for target in ('period', 'mean_motion', 'velocity'):
                o = build(SETK, typ, deg, mode, side, m, G, M0)
                for p in pre:
                    apply(o, p)
                q = hist.clone(o)
                k0 = q.kepler
                c0 = q.cartesian
                val = np.array(getattr(hist.clone(o), target))
                f = np.where(closed, 1.07, np.where(par, 1.0, 1.07))
                val = val*(f if target == 'velocity'
                           else np.linspace(1.1, 1.4, n))
                mu_ = G*(M0 + o.m)
                for scalar in (False, True):
                    p = hist.clone(o)
                    v = val if not scalar else float(val[0])
                    if scalar and target == 'velocity':
                        continue    # not meaningful for all kinds at once
                    setattr(p, target, v)
                    ctx.ev(n)
                    for order in (0, 1):
                        w = hist.clone(p)
                        if order:
                            w.kepler
                        got = np.array(getattr(w, target))
                        bad = ~(np.abs(got - v) <= 1e-9*np.abs(v))
                        if bad.any():
                            j = int(np.flatnonzero(bad)[0])
                            ctx.fail(f'{target} does not read back',
                                     got=got[j], want=np.ravel(v)[
                                         0 if scalar else j],
                                     orbit=SETK[:, j], before=pre, side=side,
                                     mode=mode)
                        if mode == 'manual':
                            if target == 'velocity':
                                w.calculate_kepler()
                            else:
                                w.calculate_cartesian()
                        c, k = w.cartesian, w.kepler
                        if target == 'velocity':
                            want = c0.copy()
                            want[3:] *= v/np.linalg.norm(c0[3:], axis=0)
                            if not np.allclose(c, want, rtol=1e-9,
                                               atol=1e-9):
                                ctx.fail('setting the velocity changes more '
                                         'than the speed', before=pre,
                                         side=side, mode=mode)
                        else:
                            same = np.delete(k, 0, axis=0)
                            if not np.allclose(same,
                                               np.delete(k0, 0, axis=0),
                                               rtol=1e-12, atol=1e-12):
                                ctx.fail(f'setting {target} changes other '
                                         'elements', before=pre, side=side,
                                         mode=mode)
                            P = v if target == 'period' else \
                                u/(v*np.where(par, np.sqrt(2), 1))
                            a = np.array(np.cbrt(
                                (ref.ld(P)/ref.TWOPI)**2*mu_), dtype=float)
                            if not np.allclose(k[0], a, rtol=1e-11):
                                ctx.fail(f'setting {target} gives the wrong '
                                         'semi-major axis', before=pre,
                                         side=side, mode=mode)
                        kt = ref.ld(k).copy()
                        if deg:
                            kt[2:] = ref.rad(kt[2:])
                        kt[5] = ref.convert_anom(kt[5], kt[1], w.type, 'true')
                        er, ev = ref.state_err(
                            np.array(ref.state(kt, mu_), dtype=float),
                            ref.ld(c), mu_)
                        # cart_to_kep takes arc cosines
                        if not ((er < 1e-5) & (ev < 1e-5)).all():
                            j = int(np.argmax(er + ev))
                            ctx.fail(f'setting {target} leaves elements and '
                                     'state in disagreement', before=pre,
                                     side=side, mode=mode, orbit=SETK[:, j],
                                     err=[float(er[j]), float(ev[j])])
    ctx.sample(task=task, histories=PRE)


def run(task, ctx):
    (getters if task['part'] == 'get' else setters)(task, ctx)
