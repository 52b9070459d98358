"""State -> elements -> state on lattices of states."""
import itertools
import numpy as np
import pyorb
from mc import ref, lat

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('complete lattices: (1) states of the element lattice (e x i x Omega '
        'x omega x nu x size), (2) every position and velocity direction in '
        '{-1,0,1}^3 x {-1,0,1}^3 with non-zero angular momentum, at speeds '
        'that are sub-, exactly and super-parabolic and circular; each state '
        'is converted in both units')
ASSUMPTIONS = ['|1-e| >= 1e-7 unless the state is parabolic to rounding',
               'tolerance 3e-7 + 5e-14/|1-e| times the conditioning of the position (the '
               'arccos in the conversion limits angles near 0 and 180 deg '
               'to 1.5e-8)']
TOL = 3e-7


def tasks(tier):
    incs = lat.INC + [1e-8, np.pi - 1e-8, 4e-9]
    eccs = lat.ECC + lat.ECC_NEAR + [2e-9]
    if tier == 'thorough':
        incs = sorted(set(incs + [x*lat.D for x in range(5, 180, 10)]))
        eccs = sorted(set(eccs + [0.01*k for k in range(2, 100, 4)]
                          + [1.01, 1.2, 3.0, 10.0, 50.0]))
    out = [dict(kind='lat', e=float(e), incs=[float(x) for x in g], tier=tier)
           for e in eccs for g in np.array_split(incs, 2)]
    out += [dict(kind='grid', r=list(r), tier=tier)
            for r in itertools.product((-1, 0, 1), repeat=3) if any(r)]
    out += [dict(kind='mixed', stride=s) for s in
            ((1, 37, 101) if tier == 'quick' else
             (1, 2, 5, 37, 59, 101, 173, 301))]
    return out


def near(e):
    e = np.asarray(e, dtype=float)
    with np.errstate(all='ignore'):
        return TOL + np.where(np.abs(1 - e) < 1e-9, 0,
                              200*lat.EPS/np.abs(1 - e))


def check(ctx, cart, mu, where):
    n = cart.shape[1]
    ctx.ev(2*n, n)
    for deg in (False, True):
        kep = pyorb.cart_to_kep(cart.copy(), mu=mu, degrees=deg)
        if kep.shape != cart.shape or not np.all(np.isfinite(kep)):
            j = 0
            if kep.shape == cart.shape:
                j = int(np.flatnonzero(~np.isfinite(kep).all(axis=0))[0])
            ctx.fail(f'{where}: elements not finite', cart=cart[:, j],
                     kep=kep[:, j], mu=np.ravel(mu)[0])
            continue
        back = pyorb.kep_to_cart(kep.copy(), mu=mu, degrees=deg)
        kr = kep.copy()
        if deg:
            kr[2:] *= np.pi/180
        er, ev = ref.state_err(back, cart, mu, kr)
        tol = near(kr[1])
        bad = ~((er < tol) & (ev < tol))
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.fail(f'{where}: state not reproduced', cart=cart[:, j],
                     kep=kep[:, j], back=back[:, j], degrees=deg,
                     mu=np.ravel(mu)[0], bad=int(bad.sum()), of=n)


def run_mixed(task, ctx):
    kep, mu = lat.mixed(task['stride'])
    cart = ref.state(kep, mu).astype(float)
    for c in lat.chunks(kep.shape[1]):
        k, m, w = kep[:, c], mu[c], cart[:, c]
        n = k.shape[1]
        check(ctx, w, m, 'mixed kinds')
        orb = pyorb.Orbit(0.0, G=0.5, num=n, cartesian=w, m=2*m,
                          direct_update=bool(n % 2))
        orb.kepler = orb.kepler
        er, ev = ref.state_err(orb.cartesian, w, m, k)
        ctx.ev(n, 0)
        bad = ~((er < near(k[1])) & (ev < near(k[1])))
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.fail('Orbit, mixed kinds: state not reproduced',
                     cart=w[:, j], bad=int(bad.sum()))
    ctx.sample(cart=cart[:, 1], mu=mu[1])


def run(task, ctx):
    if task['kind'] == 'mixed':
        return run_mixed(task, ctx)
    if task['kind'] == 'lat':
        e = task['e']
        ang = lat.ANG
        for inc in task['incs']:
            # every size and gravitational parameter next to each other
            kep = lat.mesh([1.0], [e], [inc], ang[::3], ang[1::3],
                           lat.nu_for(e))
            j = np.arange(kep.shape[1])
            kep[0] = 10.0**(5*(j % 9) - 20)
            mus = 10.0**(6*(j % 7) - 18)
            check(ctx, ref.state(kep, mus).astype(float), mus, 'mixed sizes')
            for a, mu in lat.SIZES:
                kep = lat.mesh([a], [e], [inc], ang, ang, lat.nu_for(e))
                cart = ref.state(kep, mu).astype(float)
                check(ctx, cart, mu, 'element lattice')
                if (a, mu) == lat.SIZES[0]:
                    n = kep.shape[1]
                    mus = np.linspace(0.5, 2, n)
                    check(ctx, ref.state(kep, mus).astype(float), mus,
                          'element lattice, mu array')
                    for j in range(0, n, max(1, n//10)):
                        c1 = cart[:, j]
                        b = pyorb.kep_to_cart(pyorb.cart_to_kep(c1, mu=mu),
                                              mu=mu)
                        er, ev = ref.state_err(
                            b[:, None], c1[:, None], mu, kep[:, j:j + 1])
                        ctx.ev(1, 0)
                        if b.shape != (6,) or not (er < near(e)).all() \
                                or not (ev < near(e)).all():
                            ctx.fail('vector: state not reproduced', cart=c1,
                                     back=b)
                    orb = pyorb.Orbit(mu, G=1.0, num=n, cartesian=cart,
                                      direct_update=False)
                    orb.kepler = orb.kepler
                    er, ev = ref.state_err(orb.cartesian, cart, mu, kep)
                    ctx.ev(n, 0)
                    bad = ~((er < near(e)) & (ev < near(e)))
                    if bad.any():
                        j = int(np.flatnonzero(bad)[0])
                        ctx.fail('Orbit: state not reproduced',
                                 cart=cart[:, j], bad=int(bad.sum()))
                    ctx.sample(cart=cart[:, n//3], mu=mu)
        return
    r0 = np.array(task['r'], dtype=float)
    dirs = [np.array(d, dtype=float)
            for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
    cols = []
    scales = [0.3, 1.0, 7.0] if task['tier'] == 'quick' \
        else [1e-3, 0.3, 1.0, 7.0, 1e4]
    for s in scales:
        r = r0*s
        rn = np.linalg.norm(r)
        for d in dirs:
            if not np.any(np.cross(r, d)):
                continue
            u = d/np.linalg.norm(d)
            for f in (0.1, 0.5, 1.0, 1.2, np.sqrt(2), 1.5, 3.0, 10.0):
                cols.append(np.concatenate([r, u*f*np.sqrt(1/rn)]))
            # exact binary speeds on exact directions
            for f in (0.25, 0.5, 1.0, 2.0):
                cols.append(np.concatenate([r, d*f]))
    cart = np.array(cols).T
    # states so close to (but not) parabolic that elements are ill-defined
    en = ref.invariants(cart, 1.0)
    rn, e = en[2], ref.norm(en[5])
    keep = (np.abs(1 - e) >= 1e-7) | (np.abs(en[4])*rn < 1e-12)
    ctx.count('ill_conditioned_excluded', (~keep).sum())
    check(ctx, cart[:, keep], 1.0, 'direction grid')
    ctx.sample(cart=cart[:, 3], mu=1.0)
