"""No preferred direction in space, nor sense of time."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import hist, ref, lat
from mc.checks.c34 import angle_tol, near, wrapdiff, Duo, skip

PROPERTY = 'C36'
LEVEL = 'model_checking'
RULE = ('the finite symmetry group generated by the 24 rotations of the cube, '
        'the mirror images and the reversal of time (96 elements, exact in '
        'floating point), plus turns about the reference axis: (a) every '
        'element of the group on every state of the lattice, conversions and '
        'helpers; (b) every operation sequence up to the stated depth run in '
        'lockstep on an orbit and its images')
ASSUMPTIONS = [
    'the anomaly of circular orbits, whose origin depends on the reference '
    'plane, is compared through the state only',
    'single angles are mapped for the images that keep the reference axis; '
    'for all others the elements are compared through the state',
    'tolerances as in C34; element extraction as in C02']


def group():
    """(name, 3x3 signed permutation, sense of time)."""
    out = []
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            P = np.zeros((3, 3))
            for r in range(3):
                P[r, perm[r]] = sg[r]
            for s in (1, -1):
                out.append((P, s))
    return out


GROUP = group()


def image(cart, g):
    P, s = g
    return np.concatenate([P @ cart[:3], s*(P @ cart[3:])])


def axis_map(g):
    """For images that keep the reference plane: what becomes of (i, omega,
    Omega, position angle), else None."""
    P, s = g
    if abs(P[2, 2]) != 1:
        return None
    det = np.linalg.det(P[:2, :2])
    zsg = P[2, 2]
    # direction of the image of the x axis
    phi = np.arctan2(P[1, 0], P[0, 0])

    def f(i, om, Om):
        # mirror image in the plane of x and z first: (i, Om, om) ->
        # (pi - i, -Om, om)  with the ascending node kept
        if det < 0:
            i, Om = np.pi - i, -Om
        if zsg < 0:
            # mirrored in the reference plane: the other node ascends
            Om, om = Om + np.pi, om + np.pi
        Om = Om + phi
        if s < 0:
            # run backwards: the other node ascends
            i, Om, om = np.pi - i, Om + np.pi, np.pi - om
        return i, om, Om
    return f


# a mirror image in the plane of x and z (y -> -y) composed with zsg: angular
# momentum is a pseudo vector, both cases are checked against the state in
# selftest below
def selftest():
    k = np.array([[1.3, 0.3, 0.7, 1.1, 2.2, 4.0]]).T
    c = ref.state(k, 1.0)
    for g in GROUP:
        f = axis_map(g)
        if f is None:
            continue
        got = ref.canon(image(np.array(c, dtype=float), g), 1.0)
        i, om, Om = f(*k[2:5, 0])
        w = np.array([i, om, Om])
        d = np.array(got[2:5, 0], dtype=float) - w
        d -= 2*np.pi*np.round(d/(2*np.pi))
        assert np.abs(d).max() < 1e-12, (g, d)
        dn = float(got[5, 0] - g[1]*k[5, 0])
        dn -= 2*np.pi*np.round(dn/(2*np.pi))
        assert abs(dn) < 1e-12


selftest()


# -------------------------------------------------------------- functions
def run_fun(task, ctx):
    e = task['e']
    q = task['tier'] == 'quick'
    incs = lat.INC[::2] + [np.pi] if q else lat.INC
    ang = [0.0, 1.1, np.pi, 4.0] if q else lat.ANG[::2]
    kep = lat.mesh([1.3], [e], incs, ang, ang, lat.nu_for(e))
    n = kep.shape[1]
    mu = 0.9*(1 + 0.25*(np.arange(n) % 3))
    cart = kepler.kep_to_cart(kep.copy(), mu=mu)
    base = kepler.cart_to_kep(cart.copy(), mu=mu)
    slow = 1e-12/max(abs(1 - e), 1e-12) if e != 1 else 0
    circ = e < 1e-8
    # the direction of periapsis is lost in the rounding of tiny
    # eccentricities
    ntol = 3e-7 + 1e-14/max(e, 1e-12)
    ctx.ev(0, n)
    anoms = {}
    if not circ:
        nu = base[5]
        anoms['eccentric'] = kepler.true_to_eccentric(nu, base[1])
        anoms['mean'] = kepler.true_to_mean(nu, base[1])
    for gi in task['group']:
        g = GROUP[gi]
        P, s = g
        ctx.states += n
        ctx.transitions += n
        cg = image(cart, g)
        got = kepler.cart_to_kep(cg.copy(), mu=mu)
        case = dict(e=e, image=P.astype(int).tolist(), time=s)

        def bad(name, ok):
            ok = np.asarray(ok)
            if not ok.all():
                j = int(np.flatnonzero(~ok)[0])
                ctx.fail(f'{name}: depends on the direction in space or time',
                         kep=kep[:, j], got=got[:, j], base=base[:, j],
                         **case)
        bad('semi-major axis', near(got[0], base[0], 1e-7 + 100*slow))
        bad('eccentricity', np.abs(got[1] - base[1]) <= 1e-9*(1 + e) + slow)
        if not circ:
            ok = wrapdiff(got[5], s*base[5]) <= ntol + 100*slow
            bad('true anomaly', ok | ((e > 1) & (base[1] == 1)))
        # and back to the state
        back = kepler.kep_to_cart(got.copy(), mu=mu)
        er, ev = ref.state_err(back, cg, mu, kep)
        t = 3e-7 + 200*lat.EPS/max(abs(1 - e), 1e-12)*(e != 1)
        bad('state', (er < t) & (ev < t*ref.cond(kep)))
        # orientation
        h = np.cross(cg[:3].T, cg[3:].T).T
        hn = ref.norm(h)
        inc = np.arctan2(np.hypot(h[0], h[1]), h[2])
        bad('inclination', np.abs(got[2] - inc) <= 1e-7)
        f = axis_map(g)
        if f is not None:
            planar = (kep[2] < 1e-8) | (kep[2] > np.pi - 1e-8)
            loose = (planar & (np.abs(np.sin(kep[2])) > 1e-15)) \
                | ((e < 1e-7) & (e != 0))
            i2, om2, Om2 = f(kep[2], kep[3], kep[4])
            if e < 1e-8:
                u2 = om2 + s*kep[5]
                om2, nu2 = 0*om2, u2
            else:
                nu2 = s*kep[5]
            ok = np.abs(got[2] - i2) <= 1e-7
            tol = angle_tol(e, kep[2])
            ok &= planar | (wrapdiff(got[4], Om2) <= tol) | loose
            ok &= planar | (wrapdiff(got[3], om2) <= tol) | loose
            bad('orientation', ok)
            if e < 1 and gi in task['equi']:
                # turns about the reference axis
                phi = np.arctan2(P[1, 0], P[0, 0])
                if np.linalg.det(P[:2, :2]) > 0 and P[2, 2] > 0 and s > 0:
                    pro = kep[2] < 2.9
                    a = kepler.cart_to_equi(cart.copy(), mu=mu)
                    b = kepler.cart_to_equi(cg.copy(), mu=mu)
                    c, d = np.cos(phi), np.sin(phi)
                    w = a.copy()
                    # h, k and p, q are (sin, cos) pairs
                    for r in (1, 3):
                        w[r] = c*a[r] + d*a[r + 1]
                        w[r + 1] = c*a[r + 1] - d*a[r]
                    w[5] = a[5] + phi
                    ok = near(b[0], w[0], 1e-7 + 100*slow)
                    for r in range(1, 5):
                        ok &= np.abs(b[r] - w[r]) <= 1e-6*(1 + np.abs(w[r]))
                    ok &= wrapdiff(b[5], w[5]) <= 1e-6
                    bad('cart_to_equi', ok | ~pro)
        # one orbit at a time
        for j in range(gi % 7, n, max(1, n//6)):
            g1 = kepler.cart_to_kep(cg[:, j].copy(), mu=float(mu[j]))
            if not (np.abs(g1 - got[:, j]) <= 1e-9*(1 + np.abs(got[:, j]))
                    ).all():
                ctx.fail('cart_to_kep of one orbit differs', kep=kep[:, j],
                         **case)
        ctx.ev(n, 0)
    # time reversal of the anomalies
    if not circ:
        for name, w in anoms.items():
            fn = dict(eccentric=kepler.true_to_eccentric,
                      mean=kepler.true_to_mean)[name]
            r = fn(-base[5], base[1])
            full = wrapdiff if e < 1 else (lambda x, y: np.abs(x - y))
            w0 = fn(np.where(base[5] > np.pi, base[5] - 2*np.pi, base[5]),
                    base[1]) if e >= 1 else w
            r0 = fn(-np.where(base[5] > np.pi, base[5] - 2*np.pi, base[5]),
                    base[1]) if e >= 1 else r
            okk = full(r0, -w0) <= 1e-9*(1 + np.abs(w0))
            if not okk.all():
                ctx.fail(f'true_to_{name} is not odd', e=e)
            inv = dict(eccentric=kepler.eccentric_to_true,
                       mean=kepler.mean_to_true)[name]
            x, y = inv(w0, base[1]), inv(-w0, base[1])
            okk = wrapdiff(x, -y) <= 1e-7
            if not okk.all():
                j = int(np.flatnonzero(~okk)[0])
                ctx.fail(f'{name}_to_true is not odd', e=e, at=w0[j])
    ctx.sample(e=e, group=len(task['group']), points=n)


# -------------------------------------------------------------- histories
SCALAR = ['a', 'e', 'period', 'mean_motion', 'velocity', 'speed', 'periapsis',
          'apoapsis', 'm']
ANOMS = ['anom', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly']


def mapped(name, val, g, deg):
    """The value to write to the image."""
    P, s = g
    val = np.array(val, dtype=float)
    if name == 'cartesian':
        return image(val, g)
    if name == 'r':
        return P @ val
    if name == 'v':
        return s*(P @ val)
    if name in ANOMS:
        return s*val
    return val


def mapkep(k, g, mu, deg, typ):
    """Elements (columns) of the image."""
    if g[1] == 1 and (g[0] == np.eye(3)).all():
        return np.array(k, dtype=float)
    out = np.empty(k.shape)
    for j in range(k.shape[1]):
        c = hist.to_state(ref.ld(k[:, j]), mu[j], deg, typ)
        out[:, j] = hist.to_kep(image(np.array(c, dtype=float), g), mu[j],
                                deg, typ).astype(float)
    return out


def ops_for(n, deg, angles):
    """(name, real(orbit, g), model); angles: single angles are written."""
    al = {o.name: o for o in hist.alphabet(n, deg)}
    u1 = 180/np.pi if deg else 1.0
    f = np.linspace(1.0, 1.2, n)
    k1 = hist._units(hist.KEP1[:, :n], deg)
    c1 = hist.carts(hist.KEP1, n)*np.array(
        [1.1, 0.9, 1, 1, 1.05, 1])[:, None]
    mus = [hist.G*(hist.M0 + m) for m in hist.MASS[:n]]
    vals = dict(cartesian=c1, a=0.8*f, e=0.45*f, anom=0.6*u1*f,
                r=c1[:3]*0.9, v=c1[3:]*1.1, period=3.0*f, velocity=1.1*f,
                true_anomaly=0.9*u1*f, eccentric_anomaly=0.7*u1*f,
                mean_anomaly=0.5*u1*f)
    out = []
    for name, val in vals.items():
        out.append((name, lambda o, g, name=name, val=val:
                    setattr(o, name, mapped(name, val, g, deg)),
                    al[name].model))
    comp = dict(x=0.75*f, y=-0.6*f, z=0.3*f, vx=-0.5*f, vy=0.8*f, vz=-0.4*f)
    for name, val in comp.items():
        def real(o, g, name=name, val=val):
            P, s = g
            c = 'xyz'.index(name[-1])
            r = int(np.flatnonzero(P[:, c])[0])
            x = val*P[r, c]*(s if name[0] == 'v' else 1)
            setattr(o, name[:-1] + 'xyz'[r], x)
        out.append((name, real, al[name].model))
    if angles:
        for name, val in dict(i=0.9*u1*f, omega=3.0*u1*f,
                              Omega=1.3*u1*f).items():
            def real(o, g, name=name, val=val):
                fn = axis_map(g)
                k = dict(i=0.0, omega=0.0, Omega=0.0)
                k[name] = np.asarray(val)/u1
                i, om, Om = fn(k['i'], k['omega'], k['Omega'])
                setattr(o, name, dict(i=i, omega=om, Omega=Om)[name]*u1)
            out.append((name, real, al[name].model))

    def kw(o, g):
        o.kepler = mapkep(k1, g, mus, deg, o.type)
    out.append(('kepler', kw, al['kepler'].model))
    for name, dt in (('propagate+', 0.37), ('propagate-', -2.9)):
        out.append((name, lambda o, g, dt=dt: o.propagate(g[1]*dt),
                    al[name].model))
    for name in ('type=true', 'type=eccentric', 'type=mean',
                 'calculate_cartesian()', 'calculate_kepler()', 'copy',
                 'read kepler', 'read cartesian'):
        out.append((name, lambda o, g, f=al[name].real: f(o), al[name].model))
    j = n - 1
    out.append(('update kepler', lambda o, g: o.update(
        inds=[0], kepler=mapkep(1.03*k1[:, :1], g, mus[:1], deg, o.type)),
        al['update([0],kepler)'].model))
    out.append(('update cartesian', lambda o, g: o.update(
        inds=np.array([-1]), cartesian=image(0.97*c1[:, j:], g)),
        al['update([-1],cartesian)'].model))
    out.append(('update a,e', lambda o, g: o.update(
        inds=j, a=1.15 + 0.1*j, e=0.35 + 0.05*j),
        al['update(int,a,e)'].model))
    return out


def make(n, deg, typ, direct, g, via):
    k, c = hist._initial(np.array(hist.KEP0[:, :n]).tobytes(), n, deg, typ)
    mus = [hist.G*(hist.M0 + m) for m in hist.MASS[:n]]
    o = pyorb.Orbit(hist.M0, G=hist.G, num=n, m=np.array(hist.MASS[:n]),
                    degrees=deg, type=typ, direct_update=direct)
    if via == 'kepler':
        o.kepler = mapkep(k, g, mus, deg, typ)
    else:
        o.cartesian = image(c, g)
    return o


def observe(ctx, d, mod, hst, level):
    full = 360.0 if mod.deg else 2*np.pi
    first = None
    for o, g in zip(d.orbs, [(np.eye(3), 1)] + ctx.gs):
        P, s = g
        o = hist.clone(o)
        if level % 2:
            c, k = o.cartesian, o.kepler
        else:
            k, c = o.kepler, o.cartesian
        if first is None:
            first = c, k, {nm: np.array(getattr(o, nm))
                           for nm in SCALAR + ANOMS}
            msg = hist.diff(c, k, mod)
            if msg:
                return f'wrong {msg}'
            continue
        want = image(first[0], g)
        for j in range(mod.n):
            if not hist.state_close(c[:, j], want[:, j], mod.mu(j), 1e-6):
                return f'the state of orbit {j} depends on the direction'
            st = hist.to_state(ref.ld(k[:, j]), mod.mu(j), mod.deg, mod.typ)
            if not hist.state_close(np.array(st, dtype=float), want[:, j],
                                    mod.mu(j), 1e-6):
                return f'the elements of orbit {j} depend on the direction'
        closed = first[1][1].astype(float) < 1
        for nm in SCALAR + ANOMS:
            x, w = np.array(getattr(o, nm)), first[2][nm]
            if x.shape != w.shape:
                return f'{nm} has another shape'
            if nm in ANOMS:
                dd = np.abs(x - s*w)
                # closed orbits and true anomalies modulo a revolution
                m = closed | (nm == 'true_anomaly') | (
                    (nm == 'anom') & (mod.typ == 'true'))
                dd = np.where(m, np.abs(dd - full*np.round(dd/full)), dd)
                ok = dd <= 2e-6*full*(1 + np.abs(w)/full)
            elif nm in ('apoapsis', 'period', 'mean_motion'):
                ok = (np.abs(x - w) <= 1e-6*np.abs(w)) | ~closed
            else:
                ok = np.abs(x - w) <= 1e-6*np.abs(w) + 1e-9
            if not np.all(ok | (np.isnan(x) & np.isnan(w))):
                return f'{nm} depends on the direction in space or time'
    return None


def run_hist(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ctx.gs = [GROUP[k] for k in task['group']]
    allg = [(np.eye(3), 1)] + ctx.gs
    k0, mod = hist.make(hist.KEP0[:, :n], deg, typ, task['direct'], True,
                        via=task['via'])
    d = Duo([make(n, deg, typ, task['direct'], g, task['via'])
             for g in allg])

    def lift(name, real, model):
        def both(d):
            out = []
            for o, g in zip(d.orbs, allg):
                res = real(o, g)
                out.append(res if isinstance(res, pyorb.Orbit) else o)
            return Duo(out)
        return hist.Op(name, both, model)
    ops = [lift(*x) for x in ops_for(n, deg, task['angles'])]
    msg = observe(ctx, d, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    hist.explore(ctx, d, mod, ops, task['depth'], observe,
                 first=task['first'],
                 clone=lambda d: Duo([hist.clone(o) for o in d.orbs]),
                 snap=lambda d: b'#'.join(hist.snap(o) for o in d.orbs))


AXIS = [k for k, g in enumerate(GROUP) if axis_map(g) is not None]
OTHER = [k for k in range(len(GROUP)) if k not in AXIS]


def tasks(tier):
    q = tier == 'quick'
    out = []
    ecc = lat.ECC + ([] if q else lat.ECC_NEAR)
    for i, e in enumerate(ecc):
        gs = list(range(i % 3, 96, 3)) if q else list(range(96))
        out.append(dict(part='fun', e=float(e), tier=tier, group=gs,
                        equi=gs))
    for i, (typ, deg, direct) in enumerate((
            ('true', False, True), ('mean', True, False),
            ('eccentric', False, False), ('mean', False, True))):
        for angles, pool in ((True, AXIS), (False, OTHER)):
            nf = len(ops_for(2, deg, angles))
            gs = pool[3*i + 1::13] if q else pool[i::4]
            out += [dict(part='hist', n=2, deg=deg, typ=typ, direct=direct,
                         via='kepler' if (i + angles) % 2 else 'cart',
                         group=gs, angles=angles, depth=2,
                         first=x.tolist())
                    for x in np.array_split(range(nf), 4 if q else nf)]
            out.append(dict(part='hist', n=1, deg=not deg, typ=typ,
                            direct=direct,
                            via='cart' if (i + angles) % 2 else 'kepler',
                            group=pool if not q else pool[i::4],
                            angles=angles, depth=1, first=None))
    return out


def run(task, ctx):
    {'fun': run_fun, 'hist': run_hist}[task['part']](task, ctx)
