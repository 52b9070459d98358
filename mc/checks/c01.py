"""Elements -> state on a complete lattice of elements, against the reference."""
import numpy as np
import pyorb
from mc import ref, lat

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('complete product lattice: eccentricity x inclination x node x '
        'periapsis argument x anomaly x size/mu x unit x entry point '
        '(kep_to_cart, Orbit.cartesian); every point is a distinct orbit or '
        'a distinct description of one; circular and planar points are '
        'included and counted')
ASSUMPTIONS = [
    'open orbits within 98% of the asymptote angle',
    '|1-e| >= 1e-9 unless e is exactly 1',
    'tolerance 2e-11 + 5e-15/|1-e| times the conditioning of the position']


def tasks(tier):
    incs = lat.INC
    eccs = lat.ECC + lat.ECC_NEAR + [1 - 1e-9, 1 + 1e-9]
    if tier == 'thorough':
        incs = sorted(set(incs + [x*lat.D for x in range(5, 180, 10)]))
        eccs = sorted(set(eccs + [0.01*k for k in range(2, 100, 4)]
                          + [1.01, 1.2, 3.0, 10.0, 50.0]))
    return [dict(e=float(e), incs=[float(x) for x in g], tier=tier)
            for e in eccs for g in np.array_split(incs, 2)] \
        + [dict(stride=s) for s in ((1, 37, 101) if tier == 'quick' else
                                    (1, 2, 5, 37, 59, 101, 173, 301))]


def near(e):
    """Tolerance for elements next to parabolic."""
    e = np.asarray(e, dtype=float)
    with np.errstate(all='ignore'):
        return 2e-11 + np.where(e == 1, 0, 20*lat.EPS/np.abs(1 - e))


def check(ctx, got, want, kep, mu, where, **extra):
    if got.shape != want.shape:
        ctx.fail(f'{where}: result shape', shape=got.shape)
        return
    er, ev = ref.state_err(got, want, mu, kep)
    tol = near(kep[1])
    bad = ~((er < tol) & (ev < tol))
    if bad.any():
        j = int(np.flatnonzero(bad)[0])
        ctx.fail(f'{where}: state does not match the elements',
                 kep=kep[:, j], got=got[:, j], want=want[:, j].astype(float),
                 bad=int(bad.sum()), of=bad.size, **extra)


def run_mixed(task, ctx):
    """Orbits of all kinds, sizes and central bodies in one batch."""
    kep, mu = lat.mixed(task['stride'])
    want = ref.state(kep, mu)
    for c in lat.chunks(kep.shape[1]):
        k, m, w = kep[:, c], mu[c], want[:, c]
        n = k.shape[1]
        check(ctx, pyorb.kep_to_cart(k.copy(), mu=m), w, k, m,
              'kep_to_cart, mixed kinds')
        check(ctx, pyorb.kep_to_cart(lat.todeg(k), mu=m, degrees=True), w, k,
              m, 'kep_to_cart degrees, mixed kinds')
        ctx.ev(2*n, n)
        # masses so that each orbit has its own gravitational parameter
        orb = pyorb.Orbit(0.0, G=0.5, num=n, kepler=lat.todeg(k),
                          degrees=True, m=2*m, direct_update=bool(n % 2))
        check(ctx, orb.cartesian, w, k, m, 'Orbit.cartesian, mixed kinds')
        ctx.ev(n, 0)
    ctx.sample(kep=kep[:, 1], mu=mu[1])


def run(task, ctx):
    if 'stride' in task:
        return run_mixed(task, ctx)
    e = task['e']
    wide = task['tier'] == 'thorough'
    ang = lat.ANG_WIDE if wide else lat.ANG[::2] + [lat.ANG[3], lat.ANG[9],
                                                    -400*lat.D, 725*lat.D]
    for inc in task['incs']:
        for si, (a, mu) in enumerate(lat.SIZES):
            nus = lat.nu_for(e)
            if e < 1:
                nus = nus + [-1.0, 7.0]
            kep = lat.mesh([a], [e], [inc], ang, ang, nus)
            n = kep.shape[1]
            mus = mu*(1 + 0.25*(np.arange(n) % 3))
            want1 = ref.state(kep, mu)
            wantn = ref.state(kep, mus)
            kd = lat.todeg(kep)
            check(ctx, pyorb.kep_to_cart(kep.copy(), mu=mu), want1, kep, mu,
                  'kep_to_cart radians')
            check(ctx, pyorb.kep_to_cart(kd.copy(), mu=mus, degrees=True),
                  wantn, kep, mus, 'kep_to_cart degrees, mu array')
            G, M0 = 0.5, mu
            orb = pyorb.Orbit(M0, G=G, num=n, kepler=kd, degrees=True,
                              m=np.full(n, mu), direct_update=bool(si % 2))
            check(ctx, orb.cartesian, want1, kep, mu, 'Orbit.cartesian')
            ctx.ev(3*n, n)
            # one orbit at a time as a plain vector
            for j in range(0, n, max(1, n//12)):
                got = pyorb.kep_to_cart(kep[:, j].copy(), mu=mu)
                if got.shape != (6,):
                    ctx.fail('kep_to_cart vector: shape', shape=got.shape)
                else:
                    check(ctx, got[:, None], want1[:, j:j + 1],
                          kep[:, j:j + 1], mu, 'kep_to_cart vector')
                ctx.ev(1, 0)
            # the state satisfies the conic's invariants
            cart = pyorb.kep_to_cart(kep.copy(), mu=mu)
            r, v, rn, h, en, evec = ref.invariants(cart, mu)
            p = ref.semilatus(kep[0], kep[1])
            sgn = np.sign(np.sum(r*v, axis=0)/ref.norm(r))
            s = np.sin(kep[5])
            wrong = (np.abs(s*kep[1]) > 1e-6) & (sgn != np.sign(s))
            enw = {True: -mu/(2*a), False: mu/(2*a)}[e < 1] if e != 1 else 0.0
            tol = 5*near(e)*(mu/rn + np.sum(v*v, axis=0))*ref.cond(kep)
            hw = np.sqrt(p*mu)
            nz = np.stack([np.sin(kep[2])*np.sin(kep[4]),
                           -np.sin(kep[2])*np.cos(kep[4]), np.cos(kep[2])])
            bad = (np.abs(en - enw) > tol) | wrong \
                | (ref.norm(h - hw*nz) > 5*near(e)*hw*ref.cond(kep)) \
                | (np.abs(ref.norm(evec) - e) > 5*near(e)*(1 + e)*ref.cond(kep))
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail('energy/angular momentum/eccentricity/direction of '
                         'motion', kep=kep[:, j], cart=cart[:, j],
                         wrong_direction=bool(wrong[j]))
            if inc == task['incs'][0] and si == 0:
                ctx.sample(kep=kep[:, n//2], mu=mu, cart=cart[:, n//2])
