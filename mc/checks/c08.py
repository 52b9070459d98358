"""Batches: every mix and order of orbit kinds against one at a time."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import ref, lat

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('every ordered selection of up to three orbit kinds (of 16), all '
        'rotations of the full list, and batches of every length up to a '
        'bound plus long ones; each in several memory layouts and with scalar '
        'or per-orbit mu or e; and every ordered pair of orbits of very '
        'different size, mass and eccentricity; each column is compared with '
        'the single call; a batch is a distinct case')
ASSUMPTIONS = ['agreement to 1e-10 relative (vectorised library functions '
               'may differ from scalar ones in the last bits)']

K = np.array([k for _, k in lat.kinds()]).T
NK = K.shape[1]
MU = np.array([1.0 + 0.1*j for j in range(NK)])
CLOSED = [j for j in range(NK) if K[1, j] < 1 and K[2, j] < 3.0]


def layouts(x):
    """The same batch in different memory layouts."""
    yield 'C', np.ascontiguousarray(x)
    yield 'F', np.asfortranarray(x)
    big = np.full((x.shape[0], 2*x.shape[1] + 1), np.nan)
    big[:, 1::2] = x
    yield 'strided', big[:, 1::2]
    yield 'reversed', np.ascontiguousarray(x[:, ::-1])[:, ::-1]
    yield 'rows', np.ascontiguousarray(np.vstack([x, x])[::1])[:6]


def vec_layouts(a):
    """The same values (any dimensions) in different memory layouts."""
    yield 'C', np.ascontiguousarray(a)
    for ax in range(a.ndim):
        yield f'reversed{ax}', np.ascontiguousarray(
            np.flip(a, ax))[(slice(None),)*ax + (slice(None, None, -1),)]
    big = np.full(tuple(3*k for k in a.shape), np.nan)
    idx = tuple(slice(1, None, 3) for _ in a.shape)
    big[idx] = a
    yield 'strided', big[idx]
    ro = a.copy()
    ro.setflags(write=False)
    yield 'read-only', ro
    if a.ndim > 1:
        yield 'F', np.asfortranarray(a)
        yield 'turned', np.ascontiguousarray(np.flip(a.T))[::-1, ::-1].T \
            if a.ndim == 2 else np.asfortranarray(np.flip(a))[
                ::-1, ::-1, ::-1]


SHAPES = {1: [()], 4: [(2, 2), (4, 1), (1, 4)], 6: [(2, 3), (3, 2)],
          8: [(2, 2, 2)], 12: [(3, 4), (2, 3, 2)], 16: [(4, 4)]}


def funs():
    nu = K[5]
    e = K[1]
    E = np.array([float(np.ravel(kepler.true_to_eccentric(float(x), float(y)))[0])
                  for x, y in zip(nu, e)])
    M = np.array([float(kepler.eccentric_to_mean(float(x), float(y)))
                  for x, y in zip(E, e)])
    C = np.array([kepler.kep_to_cart(K[:, j].copy(), mu=float(MU[j]))
                  for j in range(NK)]).T
    mK = K.copy()
    out = []
    for deg in (False, True):
        kk = lat.todeg(K) if deg else K
        u = 180/np.pi if deg else 1.0
        dk = dict(degrees=deg)
        out += [
            ('kep_to_cart', 'mat', lambda x, mu, dk=dk: kepler.kep_to_cart(x, mu=mu, **dk), kk, range(NK)),
            ('cart_to_kep', 'mat', lambda x, mu, dk=dk: kepler.cart_to_kep(x, mu=mu, **dk), C, range(NK)),
            ('kep_to_equi', 'mat', lambda x, mu, dk=dk: kepler.kep_to_equi(x, **dk), kk, CLOSED),
            ('equi_to_kep', 'mat', lambda x, mu, dk=dk: kepler.equi_to_kep(x, **dk), kepler.kep_to_equi(kk, **dk), CLOSED),
            ('cart_to_equi', 'mat', lambda x, mu, dk=dk: kepler.cart_to_equi(x, mu=mu, **dk), C, CLOSED),
            ('equi_to_cart', 'mat', lambda x, mu, dk=dk: kepler.equi_to_cart(x, mu=mu, **dk), kepler.kep_to_equi(kk, **dk), CLOSED),
            ('true_to_eccentric', 'vec', lambda a, b, dk=dk: kepler.true_to_eccentric(a, b, **dk), (nu*u, e), range(NK)),
            ('eccentric_to_true', 'vec', lambda a, b, dk=dk: kepler.eccentric_to_true(a, b, **dk), (E*u, e), range(NK)),
            ('eccentric_to_mean', 'vec', lambda a, b, dk=dk: kepler.eccentric_to_mean(a, b, **dk), (E*u, e), range(NK)),
            ('true_to_mean', 'vec', lambda a, b, dk=dk: kepler.true_to_mean(a, b, **dk), (nu*u, e), range(NK)),
            ('mean_to_eccentric', 'vec', lambda a, b, dk=dk: kepler.mean_to_eccentric(a, b, **dk), (M*u, e), range(NK)),
            ('mean_to_true', 'vec', lambda a, b, dk=dk: kepler.mean_to_true(a, b, **dk), (M*u, e), range(NK)),
        ]
    out += [
        ('kepler_guess', 'vec', lambda a, b: kepler.kepler_guess(a, b), (M, np.where(e == 1, 0.5, e)), range(NK)),
        ('euler_rotation_matrix', 'rot', kepler.euler_rotation_matrix, (K[2], K[3], K[4]), range(NK)),
        ('orbital_distance', 'vecs', kepler.orbital_distance, (np.abs(K[0]), MU, np.minimum(e, 1.0), nu*0.5), range(NK)),
        ('elliptic_radius', 'vecs', kepler.elliptic_radius, (nu, K[0], e), range(NK)),
        ('parabolic_radius', 'vecs', kepler.parabolic_radius, (nu, K[0]), range(NK)),
        ('hyperbolic_radius', 'vecs', kepler.hyperbolic_radius, (nu, K[0], e), range(NK)),
        ('orbital_speed', 'vecs', kepler.orbital_speed, (K[0], K[0], MU), range(NK)),
        ('orbital_period', 'vecs', kepler.orbital_period, (K[0], MU), range(NK)),
        ('semi_major_axis', 'vecs', kepler.semi_major_axis, (K[0], MU), range(NK)),
        ('orbit_total_angular_momentum', 'vecs', kepler.orbit_total_angular_momentum, (K[0], np.minimum(e, 0.9), MU), range(NK)),
        ('parabolic_total_angular_momentum', 'vecs', kepler.parabolic_total_angular_momentum, (K[0], MU), range(NK)),
        ('true_of_the_asymptote', 'vecs', kepler.true_of_the_asymptote, (1 + K[0],), range(NK)),
    ]
    x = np.array([0.0, 1e-9, -1e-9, 0.3, -0.3, 1.0, -1.0, 2.0, -7.0, 30.0, -30.0, 1e-3, 0.999, -0.999, 5.0, -2.0])
    for k in range(4):
        out.append((f'stumpff{k}', 'vecs', getattr(kepler, f'stumpff{k}'), (x,), range(NK)))
    return out


NAMES = [f'{i}' for i in range(24 + 12 + 4)]


def tasks(tier):
    fs = funs()
    return [dict(f=i, name=f[0], tier=tier, deg=12 <= i < 24)
            for i, f in enumerate(fs)]


def close(g, w):
    g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
    if g.shape != w.shape:
        return False
    both = (np.isnan(g) & np.isnan(w)) | (g == w)
    return bool(np.all(both | (np.abs(g - w) <= 1e-10*(1e-3 + np.abs(w)))))


def batches(sel, tier):
    sel = list(sel)
    for r in (1, 2, 3) if tier == 'thorough' else (1, 2):
        yield from itertools.product(sel, repeat=r)
    if tier == 'quick':
        # ordered triples without repetition of a covering subset
        yield from itertools.permutations(sel[::2], 3)
    for k in range(len(sel)):
        yield sel[k:] + sel[:k]
        yield (sel[k:] + sel[:k])[::-1]
    top = 40 if tier == 'quick' else 130
    for n in list(range(4, top)) + [255, 256, 257, 1000, 1023, 1024, 1025,
                                    2049] + ([5000] if tier != 'quick' else []):
        yield [sel[(j*7 + n) % len(sel)] for j in range(n)]
    yield [sel[0]]*17
    for bad in sel:
        yield [bad] + [sel[0]]*5
        yield [sel[-1]]*5 + [bad]


def shaped(ctx, name, f, args, want, n, kinds):
    """All combinations of memory layouts of the arguments, in all shapes."""
    for sh in [(n,)] + SHAPES.get(n, []):
        w = want.reshape(sh)
        if sh == ():
            # plain numbers of different types and arrays without dimensions
            opts = [[('float', float(a[0])), ('numpy', np.float64(a[0])),
                     ('0-d', np.array(a[0]))] for a in args]
        else:
            opts = [list(vec_layouts(a.reshape(sh))) for a in args]
            if len(args) > 2:
                opts = [o[:3] + o[-1:] for o in opts]
        for lays in itertools.product(*opts):
            ctx.ev()
            try:
                got = f(*[x for _, x in lays])
            except Exception as exc:
                ctx.fail(f'{name}: memory layout refused', n=n, shape=sh,
                         kinds=kinds, layout=[x for x, _ in lays],
                         error=repr(exc))
                continue
            if not close(got, w):
                ctx.fail(f'{name}: result depends on the memory layout or '
                         'shape of the arguments', n=n, shape=sh, kinds=kinds,
                         layout=[x for x, _ in lays],
                         got=np.ravel(got)[:6], want=np.ravel(w)[:6])


EXPS = [(-10, 0), (10, 0), (0, -8), (0, 8), (7, 14), (-6, 9), (0, 0)]


def scales(ctx, name, f, tier, deg):
    """Batches whose orbits have wildly different sizes, masses and
    eccentricities: every ordered pair, and rings of all of them."""
    kinds = [lat.kinds()[j][1] for j in ((0, 1, 6) if tier == 'quick'
                                         else (0, 1, 2, 6, 7, 9))]
    if 'equi' not in name:
        kinds += [lat.kinds()[j][1] for j in (10, 12)]
        kinds += [[1.0, 40.0, 0.6, 1.0, 2.0, 0.3],
                  [1.0, 5e3, 2.6, 4.0, 1.0, -0.9]]
    kinds += [[1.0, 4e-9, 0.5, 2.0, 3.0, 1.0], [1.0, 0.4, 2e-8, 2.0, 3.0, 1.0],
              [1.0, 0.9999, 0.5, 2.0, 3.0, 1.0]]
    cols, mus, angle = [], [], []
    for k in kinds:
        # directions of nearly circular or nearly planar orbits amplify the
        # last bits
        ill = 0 < k[1] < 1e-6 or 0 < k[2] < 1e-6 or k[1] > 0.999
        for s, m in EXPS:
            k2 = list(k)
            k2[0] *= 10.0**s
            mu = 2.0*10.0**m
            x = lat.todeg(k2) if deg and not name.startswith('cart') \
                else np.array(k2)
            if name.startswith('cart'):
                x = kepler.kep_to_cart(x, mu=mu)
            elif name.startswith('equi'):
                x = kepler.kep_to_equi(x, degrees=deg)
            cols.append(x)
            mus.append(mu)
            angle.append(1e-6 if ill else 1e-12)
    angle = np.array(angle)
    cols, mus = np.array(cols).T, np.array(mus)
    n = mus.size
    one = np.stack([np.asarray(f(cols[:, j].copy(), float(mus[j])))
                    for j in range(n)], axis=1)

    def same(got, js):
        got = np.asarray(got, dtype=float)
        w = one[:, js]
        if got.shape != w.shape:
            return False
        d, size = np.abs(got - w), np.abs(w)
        if name.endswith('cart'):
            size = size.copy()
            size[:3], size[3:] = size[:3].max(axis=0), size[3:].max(axis=0)
        ok = (d <= 1e-10*size) | (np.isnan(got) & np.isnan(w))
        if not name.endswith('cart'):
            # only the length has a size, and angles near 0 round absolutely
            turn = 360.0 if deg else 2*np.pi
            d[2:] = np.minimum(d[2:], np.abs(turn - d[2:]))
            ok[1:] |= d[1:] <= 1e-13
            ok[2:] |= d[2:] <= angle[js]*(60 if deg else 1)
        return ok.all()
    step = 1 if tier == 'thorough' else 3
    groups = [list(p) for p in itertools.permutations(range(n), 2)
              if (p[0] + 2*p[1]) % step == 0]
    groups += [[(a + k) % n for k in range(n)] for a in range(n)]
    groups += [[(a - k) % n for k in range(n)] for a in range(n)]
    groups += [[a, b, c] for a in range(0, n, 5) for b in range(n)
               for c in range(1, n, 7)]
    for js in groups:
        ctx.ev(len(js))
        ctx.outcome('scales', tuple(js))
        got = f(cols[:, js].copy(), mus[js])
        if not same(got, js):
            ctx.fail(f'{name}: orbits of different scales influence each '
                     'other', columns=cols[:, js][:, :4], mu=mus[js][:4],
                     got=np.asarray(got)[:, :4], want=one[:, js][:, :4])
            if ctx.nfail > 20:
                return


def run(task, ctx):
    name, form, f, data, sel = funs()[task['f']]
    sel = list(sel)
    single = {}
    scal = {}
    for j in sel:
        if form == 'mat':
            one = f(data[:, j].copy(), float(MU[j]))
            col = f(data[:, j:j + 1].copy(), float(MU[j]))
            single[j] = np.asarray(one)
            scal[j] = f(data[:, j].copy(), 1.7)
            # one orbit as a vector with its parameter in any container
            for mu in (np.float64(MU[j]), MU[j:j + 1],
                       np.repeat(MU[j], 3)[1:2]):
                got = f(data[:, j].copy(), mu)
                if np.shape(got) != (6,) or not close(got, one):
                    ctx.fail(f'{name}: one orbit with its parameter in an '
                             'array', kind=j, mu_shape=np.shape(mu),
                             shape=np.shape(got))
            if one.shape != (6,) or col.shape != (6, 1) \
                    or not close(col[:, 0], one):
                ctx.fail(f'{name}: vector and column differ', kind=j,
                         vector=one, column=col)
        else:
            single[j] = np.asarray(f(*[float(d[j]) for d in data]))
    ctx.sample(function=name, batch=[lat.kinds()[j][0] for j in sel[:3]])
    for batch in batches(sel, task['tier']):
        batch = list(batch)
        n = len(batch)
        ctx.ev(n, 1)
        kinds = batch[:12]
        if form == 'mat':
            x = data[:, batch]
            mu = MU[batch]
            want = np.stack([single[j] for j in batch], axis=1)
            lays = layouts(x) if n <= 2 or n in (16, 17, 256) \
                else [('C', x.copy())]
            for ln, xl in lays:
                keep = xl.copy()
                got = f(xl, mu)
                if not np.array_equal(keep, xl, equal_nan=True):
                    ctx.fail(f'{name}: input modified', layout=ln, kinds=kinds)
                if not close(got, want):
                    g = np.asarray(got)
                    ctx.fail(f'{name}: batch differs from single calls',
                             layout=ln, n=n, kinds=kinds, shape=g.shape,
                             bad=[j for j in range(min(n, 50))
                                  if g.shape == want.shape
                                  and not close(g[:, j], want[:, j])][:5])
            # per-orbit mu as a strided view, and one scalar mu for all
            wide = np.repeat(mu, 3)[::3]
            back = mu[::-1].copy()[::-1]
            if not close(f(x.copy(), wide), want) \
                    or not close(f(x.copy(), back), want):
                ctx.fail(f'{name}: strided mu', kinds=kinds, n=n)
            got = f(x.copy(), 1.7)
            if not close(got, np.stack([scal[j] for j in batch], axis=1)):
                ctx.fail(f'{name}: scalar mu', kinds=kinds, n=n)
            continue
        args = [np.array([d[j] for j in batch]) for d in data]
        want = np.stack([single[j] for j in batch], axis=-1)
        got = f(*[a.copy() for a in args])
        if not close(got, want):
            g = np.asarray(got)
            ctx.fail(f'{name}: batch differs from single calls', n=n,
                     kinds=kinds, shape=g.shape)
        if form == 'rot' and n <= 16:
            for lays in itertools.product(*[list(vec_layouts(a))
                                            for a in args]):
                if not close(f(*[x for _, x in lays]), want):
                    ctx.fail(f'{name}: memory layout', n=n, kinds=kinds,
                             layout=[x for x, _ in lays])
        if form in ('vec', 'vecs') and (n in SHAPES or n in (2, 3, 5)):
            if n > 3 or batch == sorted(batch):
                shaped(ctx, name, f, args, want, n, kinds)
        if form in ('vec', 'vecs'):
            if n % 2 == 0 and n <= 64:
                sh = (2, n//2)
                got = f(*[a.reshape(sh) for a in args])
                if not close(got, want.reshape(sh)):
                    ctx.fail(f'{name}: matrix input', n=n, kinds=kinds)
            got = f(*[np.repeat(a, 2)[::2] for a in args])
            if not close(got, want):
                ctx.fail(f'{name}: strided input', n=n, kinds=kinds)
        if form == 'vec':
            # one eccentricity for all, one anomaly for all
            j = batch[0]
            got = f(args[0].copy(), float(args[1][0]))
            w = np.array([f(float(a), float(args[1][0])) for a in args[0]]) \
                if n <= 8 else None
            if w is not None and not close(got, w):
                ctx.fail(f'{name}: scalar eccentricity', kinds=kinds, n=n)
            if n <= 8:
                got = f(float(args[0][0]), args[1].copy())
                w = np.array([f(float(args[0][0]), float(b))
                              for b in args[1]])
                if not close(got, w):
                    ctx.fail(f'{name}: scalar anomaly', kinds=kinds, n=n)
    if form == 'mat':
        scales(ctx, name, f, task['tier'], task['deg'])
    # no orbits at all
    if form == 'mat':
        got = np.asarray(f(np.empty((6, 0)), np.empty(0)))
        if got.shape != (6, 0):
            ctx.fail(f'{name}: empty batch', shape=got.shape)
    elif form in ('vec', 'vecs'):
        got = np.asarray(f(*[np.empty(0) for _ in data]))
        if got.shape != (0,):
            ctx.fail(f'{name}: empty batch', shape=got.shape)
