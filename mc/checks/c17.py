"""Propagation is two-body motion and additive in time."""
import itertools
import numpy as np
import pyorb
from mc import hist, ref, lat

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('(a) product lattice of orbit kind x start x step (multiples of the '
        'characteristic time, both signs, including whole periods) x anomaly '
        'type x unit x mode x how the orbit was entered, against two-body '
        'motion computed in extended precision; (b) every sequence of steps '
        'up to the stated depth mixed with type changes, reads and mode '
        'switches, in lockstep with the reference model and compared with the '
        'single step of the summed time; (c) very long steps, whole and split, '
        'in which the mean anomaly must advance in proportion to time')
ASSUMPTIONS = ['|e-1| > 1e-3 or exactly parabolic',
               'relative state tolerance 1e-8 times the growth of an error '
               'of the mean anomaly over the step',
               'at most 60 periods, hyperbolic mean anomaly below 300']

G, M0 = hist.G, hist.M0
STEPS = [1e-9, 1e-3, 0.11, 0.5, 1.0, 1.37, 7.3, 60.0]


def starts(tier):
    out = []
    kinds = lat.kinds()
    for name, k in kinds:
        lim = np.pi if k[1] <= 1 else np.arccos(-1/k[1])
        fr = [-0.9, -0.4, 0.0, 0.3, 0.8] if tier == 'quick' else \
            list(np.linspace(-0.95, 0.95, 13)) + [0.0]
        if k[1] < 1:
            fr = fr + [1.0, 1.5, 1.99]
        for f in fr:
            out.append(k[:5] + [f*lim])
    for e in ([0.0, 1e-3, 0.9, 0.99, 1.0, 1.01, 4.0] if tier == 'quick' else
              [0.0, 1e-9, 1e-6, 1e-3, 0.05, 0.4, 0.8, 0.9, 0.95, 0.99, 0.999,
               1.0, 1.001, 1.01, 1.1, 2.5, 4.0, 15.0]):
        lim = np.pi if e <= 1 else np.arccos(-1/e)
        for f in (-0.93, -0.5, -0.1, 1e-5, 0.2, 0.7, 0.95):
            out.append([1.7, e, 1.1, 0.8, 2.9, f*lim])
    return np.array(out).T


def tasks(tier):
    q = tier == 'quick'
    out = []
    for typ, deg, mode in itertools.product(
            ('true', 'eccentric', 'mean'), (False, True),
            ('direct', 'auto', 'manual')):
        out.append(dict(part='lattice', typ=typ, deg=deg, mode=mode,
                        tier=tier))
    for typ in ('eccentric', 'mean'):
        for deg in (False, True):
            out.append(dict(part='long', typ=typ, deg=deg))
    for typ in ('true', 'eccentric', 'mean'):
        for deg in (False, True):
            for d, a in ((True, True), (False, True), (False, False)):
                out.append(dict(part='sequences', typ=typ, deg=deg, direct=d,
                                auto=a, depth=3 if q else 5))
    return out


def build(kep, typ, deg, mode, via, m):
    n = kep.shape[1]
    k = ref.ld(kep).copy()
    k[5] = ref.convert_anom(k[5], k[1], 'true', typ)
    if deg:
        k[2:] = ref.deg(k[2:])
    kw = dict(direct=dict(direct_update=True, auto_update=True),
              auto=dict(direct_update=False, auto_update=True),
              manual=dict(direct_update=False, auto_update=False))[mode]
    o = pyorb.Orbit(M0, G=G, num=n, m=m, degrees=deg, type=typ, **kw)
    if via == 'kepler':
        o.kepler = k.astype(float)
    else:
        o.cartesian = np.array(ref.state(ref.ld(kep), G*(M0 + m)),
                               dtype=float)
        if mode == 'manual':
            o.calculate_kepler()
    return o


def final(o, mode):
    if mode == 'manual':
        o.calculate_cartesian()
    return o.cartesian, o.kepler


def amp(kep, mu, dt):
    """Growth of a relative error of the mean motion and of the anomaly."""
    M0_ = ref.true_to_mean(kep[5], kep[1])
    M1 = M0_ + ref.mean_rate(kep[0], kep[1], mu)*ref.ld(dt)
    end = ref.propagate(kep, mu, dt)
    h = ref.ld(1e-7)

    def states(M):
        k = end.copy()
        k[5] = ref.mean_to_true(M, kep[1])
        return ref.state(k, mu)
    s0, s1 = states(M1), states(M1 + h)
    rn = ref.norm(s0[:3])
    vn = np.maximum(ref.norm(s0[3:]), mu/ref.norm(ref.cross(s0[:3], s0[3:])))
    g = np.maximum(ref.norm((s1 - s0)[:3])/rn, ref.norm((s1 - s0)[3:])/vn)/h
    return s0, 1 + g*(1 + np.abs(M1) + np.abs(M0_)), end


def lattice(task, ctx):
    kep = starts(task['tier'])
    n = kep.shape[1]
    m = 0.05 + 0.9*np.arange(n)/n
    mu = G*(M0 + m)
    rate = np.array(ref.mean_rate(kep[0], kep[1], mu), dtype=float)
    typ, deg, mode = task['typ'], task['deg'], task['mode']
    nan = np.isnan
    for via in ('kepler', 'cart'):
        for s in STEPS:
            for sign in (1, -1):
                dt = sign*s*2*np.pi/rate
                openo = kep[1] >= 1
                M0_ = np.array(ref.true_to_mean(kep[5], kep[1]), dtype=float)
                use = ~openo | (np.abs(M0_ + rate*dt) < 300)
                # whole object with per-orbit steps, and a scalar step
                for scalar in (False, True):
                    d = dt if not scalar else float(dt[n//2])
                    if scalar:
                        use = ~openo | (np.abs(M0_ + rate*d) < 300)
                        use &= np.abs(rate*d) < 400
                    sel = kep[:, use]
                    dd = d[use] if not scalar else d
                    o = build(sel, typ, deg, mode, via, m[use])
                    k0 = o.kepler
                    o.propagate(dd)
                    if mode == 'manual':
                        if not np.array_equal(o.kepler[:5], k0[:5]):
                            ctx.fail('shape or orientation changed',
                                     task=task)
                    c, k = final(o, mode)
                    want, g, end = amp(ref.ld(sel), mu[use], dd)
                    ctx.ev(sel.shape[1])
                    ctx.transitions += sel.shape[1]
                    ctx.states += sel.shape[1]
                    ctx.traces += sel.shape[1]
                    er, ev = ref.state_err(c, want, mu[use])
                    # states entered as such carry the accuracy of cart_to_kep
                    tol = (1e-10 if via == 'kepler' else 3e-7)*g
                    if task['typ'] != 'mean' or True:
                        tol = np.maximum(tol, 2e-11*g)
                    bad = ~((er <= tol) & (ev <= tol))
                    bad |= nan(c).any(axis=0)
                    if bad.any():
                        j = int(np.flatnonzero(bad)[0])
                        ctx.fail('not the two-body motion',
                                 kep=sel[:, j], mu=mu[use][j],
                                 dt=np.ravel(dd)[j if not scalar else 0],
                                 got=c[:, j], want=want[:, j].astype(float),
                                 err=[float(er[j]), float(ev[j]),
                                      float(tol[j])],
                                 via=via, bad=int(bad.sum()), of=len(bad))
                    # shape and orientation as before
                    kk = k.copy()
                    if not np.array_equal(kk[:5], k0[:5]):
                        j = int(np.flatnonzero((kk[:5] != k0[:5]).any(
                            axis=0))[0])
                        rel = np.abs(kk[:5] - k0[:5])/(1 + np.abs(k0[:5]))
                        if not (rel < 1e-9).all():
                            ctx.fail('shape or orientation changed',
                                     kep=sel[:, j], before=k0[:, j],
                                     after=kk[:, j], via=via)
                    # the elements agree with the state
                    kt = ref.ld(kk).copy()
                    if deg:
                        kt[2:] = ref.rad(kt[2:])
                    kt[5] = ref.convert_anom(kt[5], kt[1], typ, 'true')
                    er, ev = ref.state_err(np.array(
                        ref.state(kt, mu[use]), dtype=float), ref.ld(c),
                        mu[use])
                    bad = ~((er <= 1e-8*g) & (ev <= 1e-8*g))
                    if bad.any():
                        ctx.fail('elements and state differ after '
                                 'propagation', via=via,
                                 kep=sel[:, int(np.flatnonzero(bad)[0])])
                    # there and back
                    o.propagate(-dd)
                    c2, _ = final(o, mode)
                    start = np.array(ref.state(ref.ld(sel), mu[use]))
                    _, g0, _ = amp(ref.ld(sel), mu[use], 0*dt[use])
                    er, ev = ref.state_err(c2, start, mu[use])
                    gg = (1 + np.abs(rate[use]*dd))*g0
                    tol = (1e-10 if via == 'kepler' else 3e-7)*gg
                    bad = ~((er <= tol) & (ev <= tol))
                    if bad.any():
                        j = int(np.flatnonzero(bad)[0])
                        ctx.fail('opposite steps do not cancel',
                                 kep=sel[:, j], via=via,
                                 err=[float(er[j]), float(ev[j]),
                                      float(tol[j])])
    ctx.sample(task=task, steps=STEPS)


LONG = [1e3, 3e4, 1e6, 1e8, 1e11]


def long(task, ctx):
    """Very long steps: the mean anomaly advances in proportion to time."""
    kep = starts('quick')
    n = kep.shape[1]
    m = 0.05 + 0.9*np.arange(n)/n
    rate = ref.mean_rate(ref.ld(kep[0]), ref.ld(kep[1]), ref.ld(G*(M0 + m)))
    typ, deg = task['typ'], task['deg']
    closed = kep[1] < 1
    full = 2*ref.PI
    for s in LONG if typ == 'mean' else LONG[:2]:
        for sign, split in itertools.product((1, -1), (1, 2, 3)):
            # only the mean anomalies are looked at: the state of an open
            # orbit far out does not determine its position in double
            # precision
            dt = np.array(sign*s/rate, dtype=float)
            o = build(kep, typ, deg, 'manual', 'kepler', m)
            k0 = o.kepler
            a0 = ref.ld(k0[5])
            M = ref.convert_anom(ref.rad(a0) if deg else a0, ref.ld(kep[1]),
                                 typ, 'mean')
            for _ in range(split):
                o.propagate(dt/split)
            k = o.kepler
            ctx.ev(n)
            ctx.states += n
            ctx.transitions += n*split
            a = ref.ld(k[5])
            got = ref.convert_anom(ref.rad(a) if deg else a, ref.ld(kep[1]),
                                   typ, 'mean')
            want = M + rate*ref.ld(dt)
            d = np.abs(got - want)
            d = np.where(closed, np.abs(d - full*np.round(d/full)), d)
            tol = np.where(closed, 1e-9 + 4e-15*s, 1e-11*(1 + np.abs(want)))
            bad = ~(d <= tol)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail('not in proportion to time over a long step',
                         kep=kep[:, j], dt=dt[j], steps=split, got=got[j],
                         want=want[j])
            if not np.array_equal(k[:5], k0[:5]):
                ctx.fail('shape or orientation changed', task=task)
    ctx.sample(task=task, steps=LONG)


SEQ_DT = [0.0, 0.31, -0.47, 2.6, -6.0]


def sequences(task, ctx):
    kep = np.array([[1.3, 0.3, 0.7, 1.1, 2.2, 4.0],
                    [0.6, 1.0, 0.5, 2.0, 3.9, -1.2],
                    [1.1, 1.5, 1.0, 0.7, 5.0, -1.3],
                    [2.0, 0.9, 2.5, 5.0, 3.3, 3.0],
                    [0.8, 0.0, 0.0, 0.0, 0.0, 1.0]]).T
    n = kep.shape[1]
    hist._initial.cache_clear()
    orb, mod = hist.make(kep, task['deg'], task['typ'], True, True)
    orb.direct_update, orb.auto_update = task['direct'], task['auto']
    mod.direct, mod.auto = task['direct'], task['auto']
    ops = []
    total = {}
    for dt in SEQ_DT:
        def model(m, dt=dt):
            m.propagate(dt)
            m.t = getattr(m, 't', 0.0) + dt
        ops.append(hist.Op(f'propagate({dt})',
                           lambda o, dt=dt: o.propagate(dt), model))

    def period(o):
        # a whole period of every closed orbit, nothing for the others
        o.propagate(np.where(o.e < 1, o.period, 0.0))
    ops.append(hist.Op('propagate(period)', period, lambda m: None))
    for t in ('true', 'mean', 'eccentric'):
        ops.append(hist.Op('type=' + t, lambda o, t=t: setattr(o, 'type', t),
                           lambda m, t=t: m.set_type(t)))
    ops.append(hist.Op('read cartesian', lambda o: [o.cartesian, None][1],
                       lambda m: None))
    ops.append(hist.Op('read kepler', lambda o: [o.kepler, None][1],
                       lambda m: None))
    ops.append(hist.Op('copy', lambda o: o.copy(), lambda m: None))
    ops.append(hist.Op('calculate_cartesian()',
                       lambda o: o.calculate_cartesian(),
                       lambda m: m.calculate('cart')))
    if task['direct'] or task['auto']:
        for d, a in ((True, False), (False, True)):
            def real(o, d=d, a=a):
                o.direct_update, o.auto_update = d, a
            ops.append(hist.Op(f'mode{int(d)}{int(a)}', real,
                               lambda m, d=d, a=a: m.set_mode(d, a)))
    k0 = orb.kepler[:5]
    start = ref.ld(kep)
    mu = np.array([mod.mu(j) for j in range(n)])

    def observe(ctx, o, m, hst, level):
        p = hist.clone(o)
        k = p.kepler
        if not (np.abs(k[:5] - k0) <= 1e-9*(1 + np.abs(k0))).all():
            return 'shape or orientation changed'
        q = hist.clone(o)
        if m.manual:
            q.calculate_cartesian()
        c = q.cartesian
        want = ref.state(ref.propagate(start, mu, getattr(m, 't', 0.0)), mu)
        for j in range(n):
            if not hist.state_close(c[:, j], want[:, j], mu[j], 1e-8):
                return (f'orbit {j}: the steps do not add up to one step of '
                        'the total time')
        return None
    ctx.sample(task=task, ops=[o.name for o in ops])
    hist.explore(ctx, orb, mod, ops, task['depth'], observe)


def run(task, ctx):
    dict(lattice=lattice, long=long, sequences=sequences)[task['part']](
        task, ctx)
