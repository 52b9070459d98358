"""Degrees and radians: the same physical result from every entry point."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import ref, lat

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('every function with a degrees flag on the complete element lattice '
        '(argument forms: scalar, array), and every Orbit property and '
        'operation (and all pairs of operations) run in lock-step on an orbit '
        'in degrees and one in radians; a point is one call compared in both '
        'units')
ASSUMPTIONS = ['angles compared modulo one revolution where the orbit is '
               'closed, tolerance 1e-9 rad plus conditioning']

U = 180/np.pi


def tasks(tier):
    return [dict(kind='fun', e=float(e), tier=tier) for e in lat.ECC] \
        + [dict(kind='orb', k=k, type=t, direct=d, tier=tier,
                depth=1 if tier == 'quick' and (k + 2*d + len(t)) % 4 else 2)
           for k in range(len(lat.kinds())) for t in ('true', 'eccentric', 'mean')
           for d in (True, False)]


def differs(g, w, tol, periodic=False, per=2*np.pi):
    g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
    if g.shape != w.shape:
        return True
    d = g - w
    if periodic:
        d = d - per*np.round(d/per)
    both = np.isnan(g) & np.isnan(w)
    return not np.all(both | (np.abs(d) <= tol*(1 + np.abs(w))))


def run_fun(task, ctx):
    e = task['e']
    wide = task['tier'] == 'thorough'
    incs = lat.INC if wide else lat.INC[::2] + [lat.INC[-1]]
    kep = lat.mesh([1.3], [e], incs, lat.ANG_WIDE[::2], lat.ANG[1::2],
                   lat.nu_for(e))
    if e >= 1:
        # -nu is the same as 2pi - nu for the orbit, keep both
        pass
    n = kep.shape[1]
    kd = lat.todeg(kep)
    mu = 2.0
    ctx.ev(0, n)

    def two(name, fr, fd, out, tol=1e-11, cond=1.0):
        """out: index list of angular rows, 'angle' or None."""
        r, d = fr(), fd()
        ctx.ev(np.size(r))
        r = np.asarray(r, dtype=float)
        d = np.asarray(d, dtype=float).copy()
        if r.shape != d.shape:
            ctx.fail(f'{name}: shapes differ', e=e)
            return
        if out == 'angle':
            bad = np.abs(wrapd(d/U - r)) if e < 1 or 'true' in name.split('_')[-1:] \
                else np.abs(d/U - r)
        elif out is None:
            bad = np.abs(d - r)
        else:
            bad = np.abs(d - r)
            bad[out] = np.abs(wrapd(d[out]/U - r[out]))
        size = np.abs(r)
        if out is None and r.ndim and r.shape[0] == 6:
            # a component is as accurate as the whole vector
            size = size.copy()
            size[:3], size[3:] = size[:3].max(axis=0), size[3:].max(axis=0)
        lim = tol*cond*(1 + size)
        bad = ~(bad <= lim)
        if bad.any():
            j = np.argwhere(bad)[0]
            ctx.fail(f'{name}: depends on the unit', e=e, index=j,
                     radians=r[tuple(j)], degrees=d[tuple(j)])

    def wrapd(x):
        return x - 2*np.pi*np.round(x/(2*np.pi))
    # the conversion of the input to degrees and back costs an ulp, which
    # conditioning amplifies
    with np.errstate(all='ignore'):
        c = (ref.cond(kep)*10).astype(float)
    carts = kepler.kep_to_cart(kep, mu=mu)
    two('kep_to_cart', lambda: kepler.kep_to_cart(kep.copy(), mu=mu),
        lambda: kepler.kep_to_cart(kd.copy(), mu=mu, degrees=True), None,
        1e-12, c)
    two('cart_to_kep', lambda: kepler.cart_to_kep(carts, mu=mu),
        lambda: kepler.cart_to_kep(carts, mu=mu, degrees=True), [2, 3, 4, 5])
    for j in range(0, n, n//10):
        two('kep_to_cart vector', lambda: kepler.kep_to_cart(kep[:, j], mu=mu),
            lambda: kepler.kep_to_cart(kd[:, j], mu=mu, degrees=True), None,
            1e-12, float(c[j]))
        two('cart_to_kep vector',
            lambda: kepler.cart_to_kep(carts[:, j], mu=mu),
            lambda: kepler.cart_to_kep(carts[:, j], mu=mu, degrees=True),
            [2, 3, 4, 5])
        two('euler_rotation_matrix',
            lambda: kepler.euler_rotation_matrix(*[float(x) for x in kep[2:5, j]]),
            lambda: kepler.euler_rotation_matrix(
                *[float(x) for x in kd[2:5, j]], degrees=True), None)
    two('euler_rotation_matrix', lambda: kepler.euler_rotation_matrix(*kep[2:5]),
        lambda: kepler.euler_rotation_matrix(*kd[2:5], degrees=True), None)
    nus = np.array(lat.nu_for(e))
    if e >= 1:
        nus = np.array([x for x in nus if x < np.pi])
    E = kepler.true_to_eccentric(nus, e)
    M = kepler.eccentric_to_mean(E, e)
    cc = 1e3*np.asarray(ref.cond([0, e, 0, 0, 0, nus])).astype(float)
    slow = 1/max(1e-4, abs(1 - e))
    for name, x, amp in [('true_to_eccentric', nus, 1), ('true_to_mean', nus, 1),
                         ('eccentric_to_true', E, 1), ('eccentric_to_mean', E, 1),
                         ('mean_to_eccentric', M, slow),
                         ('mean_to_true', M, slow)]:
        f = getattr(kepler, name)
        ee = np.full(x.shape, e)
        two(name, lambda: f(x.copy(), ee), lambda: f(x*U, ee, degrees=True),
            'angle', 1e-12, cc*amp)
        two(name, lambda: f(x.copy(), e), lambda: f(x*U, e, degrees=True),
            'angle', 1e-12, cc*amp)
        two(name, lambda: np.array([f(float(y), e) for y in x]),
            lambda: np.array([f(float(y)*U, e, degrees=True) for y in x]),
            'angle', 1e-12, cc*amp)
    h = kepler.parabolic_total_angular_momentum(1.3, mu) if e == 1 else \
        kepler.orbit_total_angular_momentum(1.3 if e < 1 else -1.3, e, mu)
    for form in (lambda v: v, float):
        xs = [nus] if form is not float else list(nus)
        es = [E] if form is not float else list(E)
        for x, ec in zip(xs, es):
            x, ec = form(x), form(ec)
            kc = cc if form is not float else float(np.max(cc))
            two('orbital_distance', lambda: kepler.orbital_distance(h, mu, e, x),
                lambda: kepler.orbital_distance(h, mu, e, x*U, degrees=True),
                None, 1e-12, kc)
            two('elliptic_radius', lambda: kepler.elliptic_radius(ec, 1.3, e),
                lambda: kepler.elliptic_radius(ec*U, 1.3, e, degrees=True),
                None, 1e-12, kc)
            if e == 1:
                two('parabolic_radius',
                    lambda: kepler.parabolic_radius(x, 1.3),
                    lambda: kepler.parabolic_radius(x*U, 1.3, degrees=True),
                    None, 1e-12, kc/np.abs(1 + np.cos(x)))
            two('hyperbolic_radius', lambda: kepler.hyperbolic_radius(x, 1.3, e),
                lambda: kepler.hyperbolic_radius(x*U, 1.3, e, degrees=True),
                None, 1e-12, kc)
    if e > 1:
        two('true_of_the_asymptote', lambda: kepler.true_of_the_asymptote(e),
            lambda: kepler.true_of_the_asymptote(e, degrees=True), 'angle')
        two('true_of_the_asymptote',
            lambda: kepler.true_of_the_asymptote(np.array([e, 2*e])),
            lambda: kepler.true_of_the_asymptote(np.array([e, 2*e]),
                                                 degrees=True), 'angle')
    if e < 0.999:
        k = kep[:, (kep[2] < 3.0)]
        kk = lat.todeg(k)
        q = kepler.kep_to_equi(k)
        qd = q.copy()
        qd[5] *= U
        cart = kepler.equi_to_cart(q, mu=mu)
        sl = 100/(1 - e)**2
        two('kep_to_equi', lambda: q, lambda: kepler.kep_to_equi(
            kk, degrees=True), [5], 1e-11)
        two('equi_to_kep', lambda: kepler.equi_to_kep(q),
            lambda: kepler.equi_to_kep(qd, degrees=True), [2, 3, 4, 5], 1e-11)
        two('equi_to_cart', lambda: cart,
            lambda: kepler.equi_to_cart(qd, mu=mu, degrees=True), None, 1e-12,
            sl)
        two('cart_to_equi', lambda: kepler.cart_to_equi(cart, mu=mu),
            lambda: kepler.cart_to_equi(cart, mu=mu, degrees=True), [5],
            1e-12, sl)
    ctx.sample(e=e, kep=kep[:, n//2])


# ----------------------------------------------------- orbits in lock-step
ANGULAR = {'i', 'omega', 'Omega', 'anom', 'true_anomaly', 'eccentric_anomaly',
           'mean_anomaly', 'mean_longitude', 'mean_motion'}
PLAIN = ['a', 'e', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'period', 'apoapsis',
         'periapsis', 'velocity', 'speed']


def ops(closed):
    out = [
        ('propagate+', lambda o, u: o.propagate(0.3)),
        ('propagate-', lambda o, u: o.propagate(-1.1)),
        ('type true', lambda o, u: setattr(o, 'type', 'true')),
        ('type eccentric', lambda o, u: setattr(o, 'type', 'eccentric')),
        ('type mean', lambda o, u: setattr(o, 'type', 'mean')),
        ('i', lambda o, u: setattr(o, 'i', 0.4*u)),
        ('omega', lambda o, u: setattr(o, 'omega', 1.7*u)),
        ('Omega', lambda o, u: setattr(o, 'Omega', 5.0*u)),
        ('true_anomaly', lambda o, u: setattr(o, 'true_anomaly', 0.8*u)),
        ('eccentric_anomaly',
         lambda o, u: setattr(o, 'eccentric_anomaly', 0.5*u)),
        ('mean_anomaly', lambda o, u: setattr(o, 'mean_anomaly', 0.6*u)),
        ('update', lambda o, u: o.update(i=0.9*u, Omega=2.0*u)),
        ('cartesian', lambda o, u: setattr(o, 'cartesian', np.array(
            [1.0, 0.2, 0.3, -0.2, 0.9, 0.1]))),
        ('vx', lambda o, u: setattr(o, 'vx', 0.15)),
        ('calculate_kepler', lambda o, u: o.calculate_kepler()),
        ('calculate_cartesian', lambda o, u: o.calculate_cartesian()),
        ('copy', lambda o, u: o.copy()),
        ('a', lambda o, u: setattr(o, 'a', 1.7)),
        ('velocity', lambda o, u: setattr(o, 'velocity', 1.05)),
    ]
    if closed:
        out += [
            ('period', lambda o, u: setattr(o, 'period', 8.0)),
            ('mean_motion', lambda o, u: setattr(o, 'mean_motion', 0.9*u)),
            ('equinoctial', lambda o, u: setattr(o, 'equinoctial', np.array(
                [1.2, 0.2, 0.1, 0.05, 0.3, 2.0*u]))),
        ]
    return out


def compare(ctx, r, d, hist, kind):
    prop = []
    closed = bool(np.all(r.e < 1))

    def cmp(name, gr, gd, angular, amp=1.0):
        gr, gd = np.asarray(gr), np.asarray(gd)
        per = closed or name in (
            'i', 'omega', 'Omega', 'true_anomaly', 'mean_longitude') or \
            (name == 'anom' and r.type == 'true')
        w = gd/U if angular else gd
        if gr.shape != w.shape:
            ctx.fail(f'Orbit.{name}: shape depends on the unit', history=hist)
            return
        x = w - gr
        if angular and per and name != 'mean_motion':
            x = x - 2*np.pi*np.round(x/(2*np.pi))
        if not np.all(np.abs(x) <= 1e-6*(1 + np.abs(gr))):
            ctx.fail(f'Orbit.{name}: depends on the unit', history=hist,
                     kind=kind, radians=gr, degrees=gd)
    for name in sorted(ANGULAR) + PLAIN:
        cmp(name, getattr(r, name), getattr(d, name), name in ANGULAR)
    cmp('cartesian', r.cartesian, d.cartesian, False)
    kr, kd = r.kepler, d.kepler
    cmp('kepler[:2]', kr[:2], kd[:2], False)
    cmp('i', kr[2:3], kd[2:3], True)
    cmp('omega', kr[3:5], kd[3:5], True)
    cmp('anom', kr[5], kd[5], True)
    if closed:
        qr, qd = np.ravel(r.equinoctial), np.ravel(d.equinoctial)
        cmp('equinoctial', qr[:5], qd[:5], False)
        cmp('true_anomaly', qr[5:], qd[5:], True)
    ctx.ev(30, 1)


def run_orb(task, ctx):
    kind, kep = lat.kinds()[task['k']]
    closed = kep[1] < 1
    typ = task['type']
    kep = np.array(kep)
    an = float(ref.convert_anom(kep[5], kep[1], 'true', typ))
    if closed and typ != 'mean':
        an %= 2*np.pi
    kep[5] = an

    def make(deg):
        k = kep.copy()
        if deg:
            k[2:] *= U
        return pyorb.Orbit(1.0, G=1.0, num=1, kepler=k[:, None], type=typ,
                           degrees=deg, direct_update=task['direct'])
    o = ops(closed)
    depth = task['depth']
    for hist in itertools.chain(
            [()], *[itertools.product(o, repeat=k)
                    for k in range(1, depth + 1)]):
        names = [h[0] for h in hist]
        # leaving the closed orbits makes closed-only operations undefined
        if not closed and any('equi' in x for x in names):
            continue
        r, d = make(False), make(True)
        ok = True
        for name, f in hist:
            x = f(r, 1.0)
            y = f(d, U)
            if name == 'copy':
                r, d = x, y
            if not r.e[0] < 1 and closed:
                ok = False      # operations chosen for closed orbits
                break
        if ok:
            compare(ctx, r, d, names, kind)
    ctx.sample(kind=kind, type=typ, operations=[x[0] for x in o][:6])


def run(task, ctx):
    (run_fun if task['kind'] == 'fun' else run_orb)(task, ctx)
