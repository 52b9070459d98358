"""Every orbit moves under its own, current gravitational parameter."""
import copy
import itertools
import numpy as np
import pyorb
from mc import hist, ref, lat

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('(a) every way of supplying masses x every way of entering elements x '
        'orbit kind x anomaly type x unit x mode x central mass (quick: a '
        'quarter of the pairs in each configuration), against the '
        'reference with each orbit\'s own G (M0 + m); (b) all operation '
        'sequences up to the stated depth that mix changes of masses, central '
        'mass and G with writes, recalculations, propagation, selection and '
        'mode switches, in lockstep with a reference model; a mass change is '
        'wrapped in a bitwise comparison of both representations')
ASSUMPTIONS = [
    'masses are changed when no conversion is pending (both representations '
    'have been read), or together with written elements through update',
    'written values in the domain of C10, values compared as states to 1e-6']

NAMES = ['cartesian', 'kepler', 'a', 'e', 'anom', 'x', 'vy', 'v',
         'mean_anomaly', 'equinoctial', 'period', 'velocity', 'propagate+',
         'propagate-', 'type=true', 'type=mean', 'calculate_cartesian()',
         'calculate_kepler()', 'calculate_cartesian([0])',
         'calculate_kepler([last])', 'update([0],kepler)',
         'update([-1],cartesian)', 'update(int,a,e)', 'update(mask,x,vy)',
         'copy', 'slice', 'modeD-', 'mode-A', 'mode--']
MASS = ['m last', 'm all', 'm scaled', 'M0', 'G', 'update m',
        'update m,a', 'update m,x', 'update m[0],e', 'm whole object']
SMALL = ['kepler', 'e', 'vy', 'propagate+', 'period', 'type=mean',
         'calculate_cartesian()', 'calculate_kepler([last])',
         'update([0],kepler)', 'mode-A', 'modeD-', 'slice'] \
    + ['m last', 'm all', 'M0', 'G', 'update m,x']


class MassOrbit(hist.RefOrbit):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.G, self.M0 = hist.G, hist.M0

    def mu(self, j):
        return self.G*(self.M0 + float(self.m[j]))


def still(o, f):
    """Change a mass: nothing else may change."""
    c, k = o.cartesian, o.kepler
    f(o)
    if not np.array_equal(c, o.cartesian, equal_nan=True) \
            or not np.array_equal(k, o.kepler, equal_nan=True):
        raise AssertionError('changing a mass changed elements')


def ops_for(n, deg, names=None):
    ops = hist.alphabet(n, deg, NAMES)
    u = 180/np.pi if deg else 1.0

    def mass(name, real, model, refused=False):
        def m2(m):
            m.guard()
            m.settle()
            return model(m)
        ops.append(hist.Op(name, lambda o: still(o, real), m2))

    def put(m, j, v):
        m.m = m.m.copy()
        m.m[j] = v
        for i in range(m.n):
            m.check(i)

    def setm(o, j, v):
        o.m[j] = v

    def scalem(o):
        o.m *= 1.5
    new = 0.8 + 0.15*np.arange(n)
    mass('m last', lambda o: setm(o, -1, 1.1), lambda m: put(m, -1, 1.1))
    mass('m all', lambda o: setattr(o, 'm', new.copy()),
         lambda m: put(m, slice(None), new))
    mass('m scaled', scalem, lambda m: put(m, slice(None), m.m*1.5))
    mass('m whole object', lambda o: setm(o, slice(None), 0.25),
         lambda m: put(m, slice(None), 0.25))

    def setp(m, k, v):
        setattr(m, k, v)
        for i in range(m.n):
            m.check(i)
    mass('M0', lambda o: setattr(o, 'M0', 1.6), lambda m: setp(m, 'M0', 1.6))
    mass('G', lambda o: setattr(o, 'G', 1.25), lambda m: setp(m, 'G', 1.25))

    def nodirect(m):
        if m.direct:
            raise hist.Invalid
        m.guard()
        m.settle()
    mids = np.arange(n)[::-1]

    def upd(name, inds, mv, **kw):
        def real(o):
            o.cartesian, o.kepler
            o.update(inds=inds, m=mv, **{k: np.copy(v) for k, v in kw.items()})

        def model(m):
            nodirect(m)
            put(m, inds, mv)
            rows = [k for k in kw if k in pyorb.Orbit.KEPLER]
            if rows:
                m.write_kep([pyorb.Orbit.KEPLER.index(k) for k in rows],
                            np.array([np.broadcast_to(
                                kw[k], np.arange(n)[inds].shape)
                                for k in rows]), inds)
            rows = [k for k in kw if k in pyorb.Orbit.CARTESIAN]
            if rows:
                m.write_cart([pyorb.Orbit.CARTESIAN.index(k) for k in rows],
                             np.array([np.broadcast_to(
                                 kw[k], np.arange(n)[inds].shape)
                                 for k in rows]), inds)
        ops.append(hist.Op(name, real, model))
    upd('update m', mids, new[mids])
    upd('update m,a', np.array([n - 1]), 1.3, a=1.4)
    upd('update m,x', slice(None), new*1.1, x=0.7 + 0.1*np.arange(n))
    upd('update m[0],e', [0], 0.9, e=0.4)
    if names:
        by = {o.name: o for o in ops}
        ops = [by[x] for x in names]
    return ops


def derived(orb, mod):
    """Quantities that involve the gravitational parameter."""
    u = 360.0 if mod.deg else 2*np.pi
    if mod.stale.any():
        return None
    got = {k: np.asarray(getattr(hist.clone(orb), k))
           for k in ('period', 'mean_motion', 'speed', 'velocity')}
    for j in range(mod.n):
        a, e = mod.kep[0, j], mod.kep[1, j]
        if np.isnan(mod.kep[:, j]).any() or np.isnan(mod.cart[:, j]).any():
            continue
        mu = mod.mu(j)
        n = float(ref.mean_rate(a, e, mu))
        want = dict(velocity=float(ref.norm(mod.cart[3:, j:j + 1])[0]))
        x = ref.rad(mod.kep[5, j]) if mod.deg else mod.kep[5, j]
        nu = ref.convert_anom(np.atleast_1d(x), e, mod.typ, 'true')[0]
        r = ref.semilatus(a, e)/(1 + e*np.cos(nu))
        en = 0 if e == 1 else -1/a if e < 1 else 1/a
        want['speed'] = float(np.sqrt(mu*(2/r + en)))
        if e < 1:
            want['period'] = 2*np.pi/n
        want['mean_motion'] = n*u/(2*np.pi)
        for k, w in want.items():
            if got[k].shape != (mod.n,):
                return f'{k} has shape {got[k].shape}'
            if not abs(float(got[k][j]) - w) <= 1e-5*abs(w):
                return (f'{k} of orbit {j} is not the one for its '
                        'gravitational parameter')
    return None


def observe(ctx, orb, mod, hst, level):
    if mod.hidden or (mod.manual and mod.stale.any()):
        return None
    msg = hist.observe_both(ctx, orb, mod, hst, level) or derived(orb, mod)
    if msg is None and level <= 1:
        msg = hist.observe_getters(ctx, orb, mod, hst, level)
    return msg


def run_hist(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ops = ops_for(n, deg, SMALL if task['small'] else None)
    orb, mod0 = hist.make(hist.KEP0[:, :n], deg, typ, task['direct'],
                          task['auto'], via=task['via'])
    mod = MassOrbit(n)
    mod.__dict__.update(mod0.__dict__)
    orb.m = orb.m.copy()
    ctx.sample(task=task, ops=[o.name for o in ops][-12:])
    msg = observe(ctx, orb, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    hist.explore(ctx, orb, mod, ops, task['depth'], observe,
                 first=task['first'])


# ------------------------------------------------------------ entering masses
def supply(how, n, M0, G, m, kw):
    """An orbit without elements whose masses have been supplied."""
    Orbit = pyorb.Orbit
    if how == 'constructor':
        return Orbit(M0, G=G, num=n, m=m.copy(), **kw)
    if how == 'list':
        return Orbit(M0, G=G, num=n, m=[float(x) for x in m], **kw)
    if how == 'tuple':
        return Orbit(M0, G=G, num=n, m=tuple(float(x) for x in m), **kw)
    if how == 'assigned':
        o = Orbit(M0, G=G, num=n, **kw)
        o.m = m.copy()
        return o
    if how == 'filled':
        o = Orbit(M0, G=G, num=n, **kw)
        o.m[:] = m
        return o
    if how == 'item':
        o = Orbit(M0, G=G, num=n, **kw)
        for j in range(n):
            o.m[j] = m[j]
        return o
    if how == 'added':
        o = Orbit(M0, G=G, num=0, **kw)
        o.add(n, m=m.copy())
        return o
    if how == 'added singly':
        o = Orbit(M0, G=G, num=1, m=float(m[0]), **kw)
        for j in range(1, n):
            o.add(1, m=float(m[j]))
        return o
    if how == 'added twice':
        o = Orbit(M0, G=G, num=n//2, m=m[:n//2].copy(), **kw)
        o.add(n - n//2, m=m[n//2:].copy())
        return o
    if how == 'reversed':
        o = Orbit(M0, G=G, num=n, m=m[::-1].copy(), **kw)
        return o[::-1]
    if how == 'deleted':
        o = Orbit(M0, G=G, num=n + 2,
                  m=np.concatenate([[9.0], m, [8.0]]), **kw)
        o.delete([0, n + 1])
        return o
    if how == 'copied':
        o = Orbit(M0, G=G, num=n, m=m.copy(), **kw)
        p = o.copy()
        o.m[:] = 7.0
        return p
    if how == 'update':
        o = Orbit(M0, G=G, num=n, **dict(kw, direct_update=False))
        o.update(m=m.copy())
        o.direct_update = kw['direct_update']
        return o
    if how == 'update inds':
        o = Orbit(M0, G=G, num=n, **dict(kw, direct_update=False))
        o.update(inds=np.arange(n)[::-1], m=m[::-1].copy())
        o.direct_update = kw['direct_update']
        return o
    if how == 'central later':
        o = Orbit(M0*3 + 1, G=2*G, num=n, m=m.copy(), **kw)
        o.M0 = M0
        o.G = G
        return o
    if how == 'shared scalar':
        return Orbit(M0, G=G, num=n, m=float(m[0]), **kw)
    if how == 'integer':
        return Orbit(M0, G=G, num=n, m=2, **kw)
    if how == 'default':
        return Orbit(M0, G=G, num=n, **kw)
    raise KeyError(how)


HOWS = ['constructor', 'list', 'tuple', 'assigned', 'filled', 'item', 'added',
        'added singly', 'added twice', 'reversed', 'deleted', 'copied',
        'update', 'update inds', 'central later', 'shared scalar', 'integer',
        'default']
ENTER = ['kepler', 'cartesian', 'update kepler', 'update cartesian',
         'kepler components', 'cartesian components', 'update components',
         'r and v', 'one by one', 'one by one cartesian', 'permuted kepler',
         'permuted cartesian', 'permuted components', 'masks',
         'recalculated permuted', 'added orbits']


def enter(o, how, k, c):
    n = o.num
    KN, CN = pyorb.Orbit.KEPLER, pyorb.Orbit.CARTESIAN
    if how == 'kepler':
        o.kepler = k.copy()
    elif how == 'cartesian':
        o.cartesian = c.copy()
    elif how == 'update kepler':
        o.update(kepler=k.copy())
    elif how == 'update cartesian':
        o.update(cartesian=c.copy())
    elif how == 'kepler components':
        for x, v in zip(KN, k):
            setattr(o, x, v.copy())
    elif how == 'cartesian components':
        for x, v in zip(CN, c):
            setattr(o, x, v.copy())
    elif how == 'update components':
        o.update(**{x: v.copy() for x, v in zip(KN, k)})
    elif how == 'r and v':
        o.v = c[3:].copy()
        o.r = c[:3].copy()
    elif how == 'one by one':
        for j in list(range(n))[::-1]:
            o.update(inds=[j], kepler=k[:, j:j + 1].copy())
    elif how == 'one by one cartesian':
        for j in range(n):
            o.update(inds=j, **{x: float(v) for x, v in zip(CN, c[:, j])})
    elif how.startswith('permuted'):
        # every index once, not in ascending order
        p = np.roll(np.arange(n)[::-1], n//2)
        if how.endswith('kepler'):
            o.update(inds=p, kepler=k[:, p].copy())
        elif how.endswith('cartesian'):
            o.update(inds=list(p), cartesian=c[:, p].copy())
        else:
            o.update(inds=p, **{x: v[p].copy() for x, v in zip(KN, k)})
    elif how == 'masks':
        b = np.arange(n) % 2 == 1
        o.update(inds=b, kepler=k[:, b].copy())
        o.update(inds=slice(None, None, 2), cartesian=c[:, ::2].copy())
    elif how == 'recalculated permuted':
        p = np.roll(np.arange(n)[::-1], n//2)
        o.kepler = k.copy()
        o.calculate_cartesian(p)
        o.calculate_kepler(list(p[::-1]))
    elif how == 'added orbits':
        m = o.m.copy()
        o.delete(np.arange(n))
        o.add(n//2, m=m[:n//2], kepler=k[:, :n//2].copy())
        o.add(n - n//2, m=m[n//2:], cartesian=c[:, n//2:].copy())


# (G, M0, typical mass): central body dominant, equal, massless, SI
SYSTEMS = [(2.0, 0.7, 0.3), (1.0, 0.0, 1.0), (39.47841760435743, 1.0, 3e-6),
           (6.6743e-11, 1.98847e30, 1.0e30)]


def run_entry(task, ctx):
    typ, deg, direct = task['typ'], task['deg'], task['direct']
    kinds = lat.kinds()
    K = np.array([k for _, k in kinds]).T
    kw = dict(type=typ, degrees=deg, direct_update=direct)
    for n, (G, M0, ms) in itertools.product(task['sizes'], SYSTEMS):
        sel = np.arange(n) if n < K.shape[1] else np.arange(K.shape[1])
        sel = (sel*5 + 3*n) % K.shape[1]
        kep = K[:, sel].copy()
        length = 1.0 if G != SYSTEMS[3][0] else 1.5e11
        kep[0] *= length
        for how in HOWS:
            # from negligible to dominating
            m = ms*(0.2 + 0.35*np.arange(n))
            if task['spread']:
                m = max(M0, ms)*10.0**(1 - 5*np.arange(n)/max(n - 1, 2)
                                       - (n == 1)*3)
            if how == 'shared scalar':
                m = np.full(n, m[0])
            elif how == 'integer':
                m = np.full(n, 2.0)
            elif how == 'default':
                m = np.zeros(n)
            if M0 == 0 and how == 'default':
                continue
            mu = G*(M0 + m)
            kt = ref.ld(kep).copy()
            kt[5] = ref.convert_anom(kt[5], kt[1], 'true', typ)
            if deg:
                kt[2:] = ref.deg(kt[2:])
            kt = kt.astype(float)
            want = ref.state(kep, mu)
            cin = want.astype(float)
            rate = np.array(ref.mean_rate(kep[0], kep[1], mu), dtype=float)
            for ent in ENTER:
                # thinned differently in every configuration, so that all
                # pairs of ways meet in some of them
                if task['thin'] and (HOWS.index(how) + ENTER.index(ent)
                                     + SYSTEMS.index((G, M0, ms))
                                     + task['cfg']) % 4:
                    continue
                o = supply(how, n, M0, G, m, kw)
                enter(o, ent, kt, cin)
                case = dict(masses=how, entered=ent, n=n, G=G, M0=M0, m=m,
                            type=typ, degrees=deg, direct=direct)
                ctx.ev(4*n, n)
                ctx.states += 1
                ctx.transitions += 1
                if np.shape(o.m) != (n,) or not np.array_equal(o.m, m):
                    ctx.fail('masses are not kept', got=o.m, **case)
                    continue
                if not same_states(o.cartesian, want, mu):
                    ctx.fail('Cartesian elements are not those for the '
                             'orbit\'s gravitational parameter', **case)
                    continue
                k = o.kepler.copy()
                back = to_states(k, mu, deg, typ)
                if not same_states(back, want, mu):
                    ctx.fail('Keplerian elements are not those for the '
                             'orbit\'s gravitational parameter', **case)
                    continue
                closed = kep[1] < 1
                P = o.period
                if not np.allclose(P[closed], (2*np.pi/rate)[closed],
                                   rtol=1e-6, atol=0) \
                        or not np.allclose(o.mean_motion,
                                           rate*(180/np.pi if deg else 1),
                                           rtol=1e-6, atol=0):
                    ctx.fail('period or mean motion is not the one for the '
                             'orbit\'s gravitational parameter', **case)
                if not np.allclose(o.speed, ref.norm(want[3:]).astype(float),
                                   rtol=1e-6, atol=0):
                    ctx.fail('speed is not the one for the orbit\'s '
                             'gravitational parameter', **case)
                setters(ctx, o, kep, mu, deg, case)
                dt = 0.3/rate.max()
                o.propagate(dt)
                moved = ref.state(ref.propagate(kep, mu, dt), mu)
                if not same_states(o.cartesian, moved, mu):
                    ctx.fail('propagation does not use the orbit\'s '
                             'gravitational parameter', **case)
                # each orbit on its own keeps its mass
                q = o[n - 1]
                if q.m.shape != (1,) or q.m[0] != m[n - 1]:
                    ctx.fail('a selected orbit does not keep its mass', **case)
                else:
                    q.update(cartesian=cin[:, n - 1].copy())
                    b = to_states(q.kepler, mu[n - 1:], deg, typ)
                    if not same_states(b, want[:, n - 1:], mu[n - 1:]):
                        ctx.fail('a selected orbit is not converted with its '
                                 'gravitational parameter', **case)
    ctx.sample(task=task, masses=HOWS, entered=ENTER)


def setters(ctx, o, kep, mu, deg, case):
    """Writing a period, mean motion or speed uses each orbit's own mass."""
    n = o.num
    T = 3.0*np.sqrt(np.abs(kep[0])**3/mu)
    wanta = np.cbrt((T/(2*np.pi))**2*mu)
    p = o.copy()
    p.period = T.copy()
    ok = np.abs(p.a - wanta) <= 1e-9*wanta
    closed = kep[1] < 1
    k = ref.ld(kep).copy()
    k[0] = wanta
    q = o.copy()
    full = 360.0 if deg else 2*np.pi
    q.mean_motion = full/T
    ok &= (np.abs(q.a - wanta) <= 1e-9*wanta) | ~closed
    # keeping the position's true anomaly is not the point: energy is
    for x in (p, q):
        c = ref.ld(x.cartesian)
        en = np.sum(c[3:]**2, axis=0)/2 - mu/ref.norm(c[:3])
        ok &= (np.abs(en + mu/(2*wanta)) <= 1e-6*mu/wanta*ref.cond(
            kep)).astype(bool) | ~closed
    ctx.ev(2*n, 0)
    if not ok.all():
        ctx.fail('writing a period or mean motion does not use the orbit\'s '
                 'gravitational parameter', orbit=int(np.flatnonzero(~ok)[0]),
                 **case)
    v = np.sqrt(mu/ref.norm(o.cartesian[:3]).astype(float))*0.9
    p = o.copy()
    r = p.r
    p.velocity = v.copy()
    a = ref.ld(p.a)
    wa = 1/(2/ref.norm(r.reshape(3, -1)) - v**2/mu)
    bad = ~(np.abs(a - wa) <= 1e-6*np.abs(wa))
    if bad.any():
        ctx.fail('after writing a velocity the elements are not those for '
                 'the orbit\'s gravitational parameter',
                 orbit=int(np.flatnonzero(bad)[0]), **case)


def same_states(got, want, mu):
    if got.shape != want.shape:
        return False
    er, ev = ref.state_err(got, want, mu)
    return bool((er < 1e-5).all() and (ev < 1e-5).all())


def to_states(kep, mu, deg, typ):
    k = ref.ld(kep).copy()
    if deg:
        k[2:] = ref.rad(k[2:])
    k[5] = ref.convert_anom(k[5], k[1], typ, 'true')
    return ref.state(k, mu)


def tasks(tier):
    q = tier == 'quick'
    out = []
    for cfg, (typ, deg, direct) in enumerate(itertools.product(
            ('true', 'eccentric', 'mean'), (False, True), (False, True))):
        out += [dict(part='entry', thin=q, cfg=cfg, typ=typ, deg=deg, direct=direct, sizes=[s],
                     spread=w)
                for s in ([1, 4] if q else [1, 2, 3, 5, 9, 16])
                for w in ((s > 1,) if q and typ == 'mean'
                          else (False, True))]
    for i, (direct, auto, typ) in enumerate((
            (True, True, 'true'), (False, True, 'mean'),
            (False, True, 'true'), (False, False, 'eccentric'),
            (True, False, 'mean'))):
        base = dict(part='hist', n=2, deg=i % 2 == 1, typ=typ, direct=direct,
                    auto=auto, via='kepler' if i % 2 else 'cart')
        nf = len(ops_for(2, base['deg']))
        out += [dict(base, small=False, depth=2 if q else 3, first=g.tolist())
                for g in np.array_split(range(nf), 4 if q else 20)]
        if q and i not in (0, 1, 3):
            continue
        out += [dict(base, n=3, small=True, depth=3 if q else 4, first=[k])
                for k in range(len(SMALL))]
    return out


def run(task, ctx):
    {'entry': run_entry, 'hist': run_hist}[task['part']](task, ctx)
