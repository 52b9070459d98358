"""Computed elements are canonical and equal the elements of the orbit."""
import numpy as np
import pyorb
from mc import ref, lat

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('complete product lattice of elements (e x i x Omega x omega x nu x '
        'size, including non-canonical descriptions of circular and planar '
        'orbits); the state is built by the reference in extended precision, '
        'rounded to double and converted in both units; a lattice point is '
        'one orbit description')
ASSUMPTIONS = [
    '|1-e| >= 1e-7 unless exactly parabolic; open orbits within 98% of the '
    'asymptote',
    'angle tolerance 2e-7 plus rounding divided by e respectively sin i',
    'between the planarity limit and sin i = 2e-8, where cos i rounds to one, '
    'only the true longitude is compared']


def tasks(tier):
    incs, eccs = lat.INC, lat.ECC + lat.ECC_NEAR
    if tier == 'thorough':
        incs = sorted(set(incs + [x*lat.D for x in range(5, 180, 10)]))
        eccs = sorted(set(eccs + [0.01*k for k in range(2, 100, 4)]
                          + [1.01, 1.2, 3.0, 10.0, 50.0]))
    return [dict(e=float(e), incs=[float(x) for x in g])
            for e in eccs for g in np.array_split(incs, 2)] \
        + [dict(stride=s) for s in ((1, 37, 101) if tier == 'quick' else
                                    (1, 2, 5, 37, 59, 101, 173, 301))]


def judge(ctx, got, cart, want, mu, deg, where):
    n = cart.shape[1]
    g = np.array(got, dtype=float)
    full = 360.0 if deg else 2*np.pi
    if g.shape != cart.shape:
        ctx.fail(f'{where}: shape', shape=g.shape)
        return

    def report(mask, what):
        mask = np.asarray(mask)
        if mask.any():
            j = int(np.flatnonzero(mask)[0])
            ctx.fail(f'{where}: {what}', cart=cart[:, j], got=g[:, j],
                     want=want[:, j].astype(float), mu=np.ravel(mu)[0],
                     degrees=deg, bad=int(mask.sum()), of=n)

    report(~np.isfinite(g).all(axis=0), 'not finite')
    report(~(g[0] > 0), 'first element not positive')
    report(~(g[1] >= 0), 'eccentricity negative')
    report(~((g[2] >= 0) & (g[2] <= full/2*(1 + 1e-15))),
           'inclination outside [0, 180] deg')
    report(~((g[3:] >= 0) & (g[3:] <= full*(1 + 1e-15))).all(axis=0),
           'angle outside [0, 360] deg')
    a, e, inc, om, Om, nu = want
    planar = (inc <= ref.I_LIM) | (inc >= ref.PI - ref.I_LIM)
    circ = e <= ref.E_LIM
    report(planar & (g[4] != 0), 'planar: node not exactly zero')
    report(circ & (g[3] != 0), 'circular: periapsis argument not zero')
    if deg:
        g[2:] *= np.pi/180
    rn = ref.norm(ref.ld(cart[:3]))
    report(np.abs(g[0]/a - 1) > 1e-11*(1 + 2*a/rn), 'first element')
    report((e == 1) & (g[1] != 1), 'parabolic: eccentricity not one')
    report(np.abs(g[1] - e) > 1e-12*(1 + e)**2*ref.cond(want),
           'eccentricity')
    report(np.abs(g[2] - inc) > 5e-8, 'inclination')
    s = np.where(planar, 1, np.sin(inc))
    ec = np.where(circ, 1, e)
    t = 2e-7 + 1e-14/s + 1e-14/ec
    # cos i = 1 in double precision: inclination zero is as right
    t = np.where(~planar & (s < 2e-8), np.inf, t)
    report(np.abs(ref.wrap(g[4] - Om)) > t, 'ascending node')
    report(np.abs(ref.wrap(g[3] - om)) > t, 'argument of periapsis')
    report(np.abs(ref.wrap(g[5] - nu)) > t, 'true anomaly')
    # what matters where single angles are ill-conditioned
    retro = inc > ref.PI/2
    lon = np.where(retro, g[3] + g[5] - g[4], g[3] + g[5] + g[4])
    lonw = np.where(retro, om + nu - Om, om + nu + Om)
    report((s < 1e-2) & (np.abs(ref.wrap(lon - lonw)) > 2e-7),
           'true longitude of a nearly planar orbit')


def run_mixed(task, ctx):
    kep, mu = lat.mixed(task['stride'])
    st = ref.state(kep, mu)
    cart = st.astype(float)
    want = ref.canon(st, mu)
    for c in lat.chunks(kep.shape[1]):
        m, w, x = mu[c], want[:, c], cart[:, c]
        n = x.shape[1]
        judge(ctx, pyorb.cart_to_kep(x.copy(), mu=m), x, w, m, False,
              'cart_to_kep, mixed kinds')
        judge(ctx, pyorb.cart_to_kep(x.copy(), mu=m, degrees=True), x, w, m,
              True, 'cart_to_kep, mixed kinds')
        orb = pyorb.Orbit(0.0, G=0.5, num=n, degrees=True, cartesian=x, m=2*m,
                          direct_update=bool(n % 2))
        judge(ctx, orb.kepler, x, w, m, True, 'Orbit.kepler, mixed kinds')
        ctx.ev(3*n, n)
    ctx.sample(cart=cart[:, 1], elements=want[:, 1])


def run(task, ctx):
    if 'stride' in task:
        return run_mixed(task, ctx)
    e = task['e']
    for inc in task['incs']:
        for si, (a, mu) in enumerate(lat.SIZES):
            kep = lat.mesh([a], [e], [inc], lat.ANG, lat.ANG, lat.nu_for(e))
            n = kep.shape[1]
            mus = mu*(1 + 0.5*(np.arange(n) % 2)) if si % 2 else mu
            st = ref.state(kep, mus)
            cart = st.astype(float)
            want = ref.canon(st, mus)
            # the reference inverse agrees with the lattice point itself
            if 1e-3 < inc < np.pi - 2e-3 and e > 1e-3:
                d = np.abs(ref.wrap(want[3:] - kep[3:])).max(axis=0) \
                    + np.abs(want[1] - e) + np.abs(want[2] - inc)
                if d.max() > 1e-9:
                    raise AssertionError('reference inconsistent')
            judge(ctx, pyorb.cart_to_kep(cart.copy(), mu=mus), cart, want,
                  mus, False, 'cart_to_kep')
            judge(ctx, pyorb.cart_to_kep(cart.copy(), mu=mus, degrees=True),
                  cart, want, mus, True, 'cart_to_kep')
            orb = pyorb.Orbit(mu, G=1.0, num=n, degrees=True,
                              cartesian=st.astype(float)
                              if not si % 2 else ref.state(kep, mu).astype(float),
                              direct_update=bool(si < 2))
            if si % 2:
                st1 = ref.state(kep, mu)
                judge(ctx, orb.kepler, st1.astype(float), ref.canon(st1, mu),
                      mu, True, 'Orbit.kepler')
            else:
                judge(ctx, orb.kepler, cart, want, mu, True, 'Orbit.kepler')
            ctx.ev(3*n, n)
            for j in range(0, n, max(1, n//8)):
                v = pyorb.cart_to_kep(cart[:, j].copy(),
                                      mu=float(np.broadcast_to(mus, (n,))[j]))
                if v.shape != (6,):
                    ctx.fail('vector: shape', shape=v.shape)
                    continue
                judge(ctx, v[:, None], cart[:, j:j + 1], want[:, j:j + 1],
                      np.broadcast_to(mus, (n,))[j:j + 1], False,
                      'cart_to_kep vector')
                ctx.ev(1, 0)
            if si == 0:
                ctx.sample(cart=cart[:, n//3], elements=want[:, n//3])
