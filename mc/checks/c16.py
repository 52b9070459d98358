"""Changing the anomaly type never moves the orbit."""
import numpy as np
import pyorb
from mc import hist, ref, lat

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('all sequences of type changes, anomaly writes and reads, '
        'propagations, recalculations and mode switches up to the stated '
        'depth, on real objects holding one orbit of every kind, in lockstep '
        'with a reference model; every type change is wrapped in a comparison '
        'of state and all three anomalies before and after')
ASSUMPTIONS = ['elliptic and hyperbolic e outside |e-1| < 5e-3 or exactly 1',
               'type changes compared to 1e-7 (solver tolerance), states as '
               'in C10']

KINDS = np.array([k for _, k in lat.kinds()]).T
ANOM = ['true', 'eccentric', 'mean']
# high eccentricity amplifies the solver's absolute tolerance
RT = 1e-7


def group(g):
    """Initial elements (true anomaly)."""
    if g == 'kinds':
        return KINDS[:, [0, 2, 6, 8, 10, 11, 12, 15]]
    if g == 'kinds2':
        return KINDS[:, [1, 3, 4, 5, 7, 9, 13, 14]]
    if g == 'one':
        return KINDS[:, [12]]
    return KINDS[:, [0, 10, 12]]


def anomalies(o):
    return [np.array(getattr(o, a + '_anomaly')) for a in ANOM]


def close_anom(a, b, e, deg, name):
    full = 360.0 if deg else 2*np.pi
    d = a - b
    # the true anomaly is an angle, the others are periodic if closed
    d = np.where((e < 1) | (name == 'true'), (d + full/2) % full - full/2, d)
    scale = full*(1 + np.abs(b)/full)
    return bool((np.abs(d) <= RT*scale).all())


def check_type(o, typ):
    """The type setter, with everything compared before and after."""
    p = hist.clone(o)
    c, e = p.cartesian, p.e
    an = anomalies(p)
    k = p.kepler
    setattr(o, 'type', typ)
    if o.type != typ.lower().strip():
        raise AssertionError('type not changed')
    for order in (0, 1):
        q = hist.clone(o)
        if order:
            an2 = anomalies(q)
            k2 = q.kepler
            c2 = q.cartesian
        else:
            c2 = q.cartesian
            k2 = q.kepler
            an2 = anomalies(q)
        d = np.abs(c2 - c)
        s = np.array([np.linalg.norm(c[:3], axis=0)]*3
                     + [np.linalg.norm(c[3:], axis=0)]*3)
        if not (d <= RT*s).all():
            raise AssertionError('the state changed with the anomaly type')
        if not (np.abs(k2[:5] - k[:5]) <= 1e-9*(1 + np.abs(k[:5]))).all():
            raise AssertionError('other elements changed with the type')
        for x, y, name in zip(an, an2, ANOM):
            if not close_anom(x, y, e, o.degrees, name):
                raise AssertionError(f'the {name} anomaly changed with the '
                                     'anomaly type')
        if not np.array_equal(q.anom, an2[ANOM.index(q.type)]):
            raise AssertionError('anom is not the anomaly of the type')


def ops_for(n, deg, kep):
    u = 180/np.pi if deg else 1.0
    e = kep[1]
    ops = []

    def op(name, real, model):
        ops.append(hist.Op(name, real, model))
    for t in ANOM:
        op('type=' + t, lambda o, t=t: check_type(o, t),
           lambda m, t=t: m.set_type(t))
    op('type= Mean ', lambda o: check_type(o, ' Mean '),
       lambda m: m.set_type('mean'))
    lim = np.where(e < 1, np.pi, np.where(e == 1, np.pi, np.arccos(
        -1/np.maximum(e, 1.0000001))))
    frac = np.linspace(-0.8, 0.85, n)[::-1] if n > 1 else np.array([0.6])
    nu = frac*lim
    E = np.array(ref.true_to_ecc(nu, e), dtype=float)
    M = np.array(ref.ecc_to_mean(E, e), dtype=float)
    for t, v in zip(ANOM, (nu, E, M)):
        # different positions through each
        v = v*dict(true=1.0, eccentric=0.9, mean=-0.8)[t]*u
        op(t + '_anomaly=', lambda o, t=t, v=v:
           setattr(o, t + '_anomaly', v.copy()),
           lambda m, t=t, v=v: m.set_anomaly(t, v))
        op(t + ' read', lambda o, t=t: [getattr(o, t + '_anomaly'), None][1],
           lambda m: None)
    op('anom=', lambda o: setattr(o, 'anom', 0.3*u*np.ones(n)),
       lambda m: m.write_kep([5], np.full((1, n), 0.3*u)))
    op('propagate', lambda o: o.propagate(0.45), lambda m: m.propagate(0.45))
    op('calculate_cartesian()', lambda o: o.calculate_cartesian(),
       lambda m: m.calculate('cart'))
    op('read cartesian', lambda o: [o.cartesian, None][1], lambda m: None)
    vals = np.ones(n)*0.55
    k1 = kep.copy()
    k1[0] *= 1.3
    k1[5] *= 0.5
    if deg:
        k1[2:] *= u
    op('kepler=', lambda o: setattr(o, 'kepler', k1.copy()),
       lambda m: m.write_kep(range(6), k1))
    if not (e >= 1).any() and not (e == 0).any() or n == 3 or n == 1:
        c1 = np.stack([np.array(ref.state(
            kep[:, j:j + 1]*np.array([1.2, 1, 1, 1, 1, -0.7])[:, None],
            hist.G*(hist.M0 + MASS[j])), dtype=float)[:, 0]
            for j in range(n)], axis=1)
        op('cartesian=', lambda o: setattr(o, 'cartesian', c1.copy()),
           lambda m: m.write_cart(range(6), c1))
        op('vx=', lambda o: setattr(o, 'vx', vals.copy()),
           lambda m: m.write_cart([3], vals[None, :]))
    for d, a in ((True, False), (False, True)):
        def real(o, d=d, a=a):
            o.direct_update, o.auto_update = d, a
        op(f'mode{int(d)}{int(a)}', real,
           lambda m, d=d, a=a: m.set_mode(d, a))

    def real(o):
        o.cartesian, o.kepler
        o.direct_update = o.auto_update = False

    def model(m):
        m.settle()
        m.set_mode(False, False)
    op('manual', real, model)
    return ops


MASS = hist.MASS + [0.01, 0.15]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for g in ('kinds', 'kinds2', 'three', 'one'):
        for typ, deg in (('true', False), ('mean', True),
                         ('eccentric', False)):
            for direct, auto in ((True, True), (False, True),
                                 (False, False)):
                if q and g.startswith('kinds') and typ == 'eccentric':
                    continue
                base = dict(g=g, typ=typ, deg=deg, direct=direct, auto=auto)
                if q:
                    out.append(dict(base, depth=2 if g != 'one' else 3,
                                    first=None))
                else:
                    nf = len(ops_for(group(g).shape[1], deg, group(g)))
                    out += [dict(base, depth=4 if g in ('one', 'three')
                                 else 3, first=[k])
                            for k in range(nf)]
    return out


def observe(ctx, orb, mod, hst, level):
    msg = hist.observe_both(ctx, orb, mod, hst, level)
    if msg:
        return msg
    e = mod.kep[1].astype(float)
    for order in (ANOM, ANOM[::-1]):
        o = hist.clone(orb)
        for t in order:
            got = getattr(o, t + '_anomaly')
            want = np.array([mod.anomaly(t, j) for j in range(mod.n)],
                            dtype=float)
            full = 360.0 if mod.deg else 2*np.pi
            # circular or planar values rounded through a state keep only
            # their sum with the periapsis; states are compared above
            known = mod.kx[1] | (e > 1e-3)
            d = got - want
            d = np.where((e < 1) | (t == 'true'),
                         (d + full/2) % full - full/2, d)
            tol = 1e-6*full*(1 + np.abs(want)/full)
            if got.shape != want.shape or (np.abs(d[known])
                                           > tol[known]).any():
                return (f'{t} anomaly contradicts the element set')
            if o.type == t and not np.array_equal(got, o.anom):
                return f'{t} anomaly is not anom'
    return None


def run(task, ctx):
    kep = group(task['g'])
    n = kep.shape[1]
    keep = hist.MASS
    hist.MASS = MASS
    try:
        hist._initial.cache_clear()
        orb, mod = hist.make(kep, task['deg'], task['typ'], True, True)
    finally:
        hist.MASS = keep
    orb.direct_update, orb.auto_update = task['direct'], task['auto']
    mod.direct, mod.auto = task['direct'], task['auto']
    mod.lazy = task['auto'] and not task['direct']
    ops = ops_for(n, task['deg'], kep)
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    hist.explore(ctx, orb, mod, ops, task['depth'], observe,
                 first=task['first'])
