"""Add, delete, allocate and indexed updates: an Orbit is a list of orbits."""
import numpy as np
import pyorb
from mc import hist

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = ('all sequences over an alphabet of list operations (add in every '
        'form, delete with every kind of index, allocate, update of every '
        'kind of subset, mass assignment, whole writes, reads, mode '
        'switches) up to the stated depth, real object and list model in '
        'lockstep; orbits not addressed by an operation are compared bitwise '
        'with their values before it')
ASSUMPTIONS = ['values in the domain of C10; at most 4 orbits',
               'masses of existing orbits change only together with a write '
               'of their elements, or while nothing is pending']
MAXN = 4


def kep(j, v, deg):
    k = hist.KEP1[:, (2*j + v) % 5].copy()
    k[0] *= 1 + 0.1*v
    return hist._units(k[:, None], deg)[:, 0]


def kmat(js, v, deg, typ='true'):
    return np.stack([kep(j, v, deg) for j in js], axis=1) if len(js) \
        else np.empty((6, 0))


def cmat(js, v):
    out = []
    for j in js:
        k = kep(j, v, False)
        out.append(np.array(hist.ref.state(k[:, None], 1.7),
                            dtype=float)[:, 0])
    return np.stack(out, axis=1) if len(js) else np.empty((6, 0))


INDS = {
    'int0': lambda n: 0, 'int-1': lambda n: -1,
    'list': lambda n: [0, n - 1], 'rev': lambda n: list(range(n))[::-1],
    'arr': lambda n: np.array([n - 1]),
    'mask': lambda n: np.arange(n) % 2 == 1,
    'nobody': lambda n: np.zeros(n, dtype=bool),
    'all': lambda n: slice(None), 'tail': lambda n: slice(1, None),
    'step': lambda n: slice(0, None, 2),
    'neg': lambda n: slice(-1, None),
}


def ids(form, n):
    return [int(j) for j in np.atleast_1d(np.arange(n)[INDS[form](n)])]


def close(a, b, tol):
    return bool(((a == b) | (np.isnan(a) & np.isnan(b))
                 | (np.abs(a - b) <= tol*np.abs(b))).all())


def guard_others(name, real, addressed, aligned=None):
    """Wrap: orbits not addressed keep their values bitwise.  `addressed(n)`
    gives the orbits an operation may change, `aligned(n)` the old numbers of
    the orbits that are left, in order (default: all)."""
    def f(o):
        n = o.num
        p = hist.clone(o)
        c, k, m = p.cartesian, p.kepler, p.m.copy()
        res = real(o)
        q = hist.clone(o)
        c2, k2, m2 = q.cartesian, q.kepler, q.m
        old = list(range(n)) if aligned is None else aligned(n)
        hit = set(addressed(n))
        for new, j in enumerate(old):
            if j in hit:
                continue
            # conversions that are still pending may be done in batches of
            # different length, and differ in the last bits
            tol = 0 if o.direct_update else 1e-12
            if not (close(c2[:, new], c[:, j], tol)
                    and close(k2[:, new], k[:, j], tol)
                    and m2[new] == m[j]):
                raise AssertionError(f'orbit {j} was not addressed, but '
                                     'changed')
        return res
    return f


def alphabet(deg, typ):
    ops = []

    def op(name, real, model, addressed=None, aligned=None):
        if addressed is not None:
            real = guard_others(name, real, addressed, aligned)
        ops.append(hist.Op(name, real, model))

    # --- add
    def add(name, num, kw, write):
        def real(o):
            n = o.num
            a = kw(n)
            o.add(**({} if num is None else dict(num=num)), **a)

        def model(m):
            n = m.n
            k = 1 if num is None else num
            if n + k > MAXN:
                raise hist.Invalid
            m.guard()
            a = kw(n)
            m.add(k, m=0.0)
            if 'm' in a:
                m.m[n:] = a['m']
            write(m, a, list(range(n, n + k)))
        op(name, real, model, lambda n: [])

    def wk(m, a, js):
        m.write_kep(range(6), np.reshape(a['kepler'], (6, -1)), js)

    def wc(m, a, js):
        m.write_cart(range(6), np.reshape(a['cartesian'], (6, -1)), js)

    def we(m, a, js):
        m.write_kep(range(6), np.stack(
            [np.broadcast_to(a[x], (len(js),)) for x in pyorb.Orbit.KEPLER]),
            js)

    def wx(m, a, js):
        m.write_cart(range(6), np.stack(
            [np.broadcast_to(a[x], (len(js),))
             for x in pyorb.Orbit.CARTESIAN]), js)

    add('add()', None, lambda n: {}, lambda m, a, js: None)
    add('add(kepler)', None, lambda n: dict(kepler=kmat([n], 0, deg)), wk)
    add('add(vector)', None, lambda n: dict(kepler=kep(n, 1, deg)), wk)
    add('add(2,kepler,m)', 2, lambda n: dict(
        kepler=kmat([n, n + 1], 1, deg), m=np.array([0.15, 0.35])), wk)
    add('add(cartesian,m)', 1, lambda n: dict(
        cartesian=cmat([n], 0), m=0.2), wc)
    add('add(2,cartesian)', 2, lambda n: dict(
        cartesian=cmat([n, n + 1], 1)), wc)
    add('add(2,keys)', 2, lambda n: dict(
        zip(pyorb.Orbit.KEPLER, kmat([n, n + 1], 0, deg)), m=0.4), we)
    add('add(keys)', 1, lambda n: dict(
        zip(pyorb.Orbit.CARTESIAN, cmat([n], 1)[:, 0])), wx)
    add('add(0)', 0, lambda n: {}, lambda m, a, js: None)

    # --- delete
    for form in INDS:
        def real(o, form=form):
            o.delete(INDS[form](o.num))

        def model(m, form=form):
            if m.n == 0:
                raise hist.Invalid
            m.delete(np.array(ids(form, m.n), dtype=int))
        op(f'delete({form})', real, model, lambda n: [],
           lambda n, form=form: [j for j in range(n)
                                 if j not in ids(form, n)])

    # --- allocate
    for num in (0, 1, 3):
        op(f'allocate({num})', lambda o, num=num: o.allocate(num),
           lambda m, num=num: m.allocate(num))

    # --- update
    for form in INDS:
        scalar = form.startswith('int')
        for what in ('kepler', 'cartesian', 'a,e', 'x,vy', 'm,keys',
                     'same kepler', 'scalar anom'):
            if what in ('same kepler', 'm,keys') and form in ('step', 'neg',
                                                              'rev'):
                continue

            def vals(n, form=form, what=what, scalar=scalar):
                js = ids(form, n)
                if what == 'kepler':
                    v = kmat(js, 1, deg)
                    return dict(kepler=v[:, 0] if scalar else v)
                if what == 'same kepler':
                    return dict(kepler=kep(0, 1, deg))
                if what == 'cartesian':
                    v = cmat(js, 1)
                    return dict(cartesian=v[:, 0] if scalar else v)
                f = np.array(js, dtype=float)
                if scalar:
                    f = f[0]
                if what == 'a,e':
                    return dict(a=1.1 + 0.1*f, e=0.2 + 0.1*f)
                if what == 'x,vy':
                    return dict(x=0.8 + 0.1*f, vy=0.6 + 0.1*f)
                if what == 'scalar anom':
                    return dict(anom=0.6)
                v = kmat(js, 0, deg)
                if scalar:
                    v = v[:, 0]
                return dict(zip(pyorb.Orbit.KEPLER, v), m=0.3 + 0.1*f)

            def real(o, form=form, vals=vals):
                o.update(inds=INDS[form](o.num), **vals(o.num))

            def model(m, form=form, what=what, vals=vals):
                if m.n == 0 and form not in ('mask', 'nobody', 'all',
                                             'tail', 'step', 'neg'):
                    raise hist.Invalid
                js = ids(form, m.n)
                a = vals(m.n)
                m.guard()
                if what == 'm,keys':
                    if m.direct:
                        raise hist.Invalid
                    m.m[js] = a['m']
                    we_rows = np.stack([np.broadcast_to(a[x], (len(js),))
                                        for x in pyorb.Orbit.KEPLER])
                    m.write_kep(range(6), we_rows, js)
                elif what == 'kepler' or what == 'same kepler':
                    v = np.reshape(a['kepler'], (6, -1))
                    m.write_kep(range(6),
                                np.broadcast_to(v, (6, len(js))), js)
                elif what == 'cartesian':
                    m.write_cart(range(6),
                                 np.reshape(a['cartesian'], (6, -1)), js)
                elif what == 'a,e':
                    m.write_kep([0, 1], np.reshape([a['a'], a['e']], (2, -1)),
                                js)
                elif what == 'x,vy':
                    m.write_cart([0, 4],
                                 np.reshape([a['x'], a['vy']], (2, -1)), js)
                else:
                    m.write_kep([5], [[a['anom']]], js)
            op(f'update({form},{what})', real, model,
               lambda n, form=form: ids(form, n))

    # --- whole object
    def wkep(o):
        o.kepler = kmat(range(o.num), 0, deg)

    def mkep(m):
        if not m.n:
            raise hist.Invalid
        m.write_kep(range(6), kmat(range(m.n), 0, deg))
    op('kepler', wkep, mkep)

    def wcart(o):
        o.cartesian = cmat(range(o.num), 1)

    def mcart(m):
        if not m.n:
            raise hist.Invalid
        m.write_cart(range(6), cmat(range(m.n), 1))
    op('cartesian', wcart, mcart)

    def wm(o):
        o.cartesian, o.kepler
        o.m = 0.5 + 0.1*np.arange(o.num)
        o.calculate_cartesian()

    def mm(m):
        if not m.n or m.manual:
            raise hist.Invalid
        m.m = 0.5 + 0.1*np.arange(m.n)
        m.settle()
        m.calculate('cart')
    op('m', wm, mm)

    def prop(m):
        if not m.n:
            raise hist.Invalid
        m.propagate(0.4)
    op('propagate', lambda o: o.propagate(0.4), prop)
    op('read cartesian', lambda o: [o.cartesian, None][1], lambda m: None)
    op('read kepler', lambda o: [o.kepler, None][1], lambda m: None)
    for d, a in ((True, True), (False, True)):
        def real(o, d=d, a=a):
            o.direct_update, o.auto_update = d, a
        op(f'mode{int(d)}{int(a)}', real,
           lambda m, d=d, a=a: m.set_mode(d, a))
    return ops


SMALL = ['add()', 'add(vector)', 'add(2,kepler,m)', 'add(cartesian,m)',
         'delete(int0)', 'delete(mask)', 'delete(tail)', 'allocate(1)',
         'update(int-1,kepler)', 'update(mask,cartesian)',
         'update(list,a,e)', 'update(tail,x,vy)', 'update(rev,kepler)',
         'kepler', 'cartesian', 'read cartesian', 'read kepler']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for typ, deg in (('true', False), ('mean', True)):
        nf = len(alphabet(deg, typ))
        for direct, auto in ((True, True), (False, True)):
            for n in (1, 3):
                base = dict(n=n, deg=deg, typ=typ, direct=direct, auto=auto)
                if not q or n == 3:
                    out += [dict(base, small=False, depth=2 if q else 3,
                                 first=g.tolist())
                            for g in np.array_split(range(nf),
                                                    4 if q else 32)]
                if not q or typ == 'true':
                    out += [dict(base, small=True, depth=3 if q else 4,
                                 first=[k]) for k in range(len(SMALL))]
    return out


def observe(ctx, orb, mod, hst, level):
    if orb.num != mod.n or len(orb) != mod.n:
        return f'length {orb.num} instead of {mod.n}'
    if orb.m.shape != (mod.n,) or not np.allclose(orb.m, mod.m, rtol=1e-15,
                                                  atol=0):
        return 'masses'
    msg = hist.observe_both(ctx, orb, mod, hst, level)
    if msg:
        return msg
    if mod.n and not np.isnan(mod.kep.astype(float)).any() and level <= 2:
        o = hist.clone(orb)
        for kind in ('mean', 'eccentric', 'true'):
            got = getattr(o, kind + '_anomaly')
            if got.shape != (mod.n,):
                return f'{kind} anomaly: shape'
        if len(list(iter(o))) != mod.n:
            return 'iteration length'
    return None


def run(task, ctx):
    deg, typ = task['deg'], task['typ']
    ops = alphabet(deg, typ)
    if task['small']:
        by = {o.name: o for o in ops}
        ops = [by[x] for x in SMALL]
    orb, mod = hist.make(hist.KEP0[:, :task['n']], deg, typ, task['direct'],
                         task['auto'], via='kepler')
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    hist.explore(ctx, orb, mod, ops, task['depth'], observe,
                 first=task['first'])
