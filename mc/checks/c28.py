"""C28: the chosen storage precision is kept throughout."""
import copy
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from .. import hist, ref, calls, lat

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = ('every operation sequence up to the stated depth on orbits stored in '
        'single, double and extended precision: type of everything reported, '
        'and values against the reference model; every conversion x orbit '
        'kind x floating point type against the double precision result; '
        'every conversion x integer type x integer orbits against the equal '
        'floating point input')
ASSUMPTIONS = ['single precision values are compared at 1e-4 (times the '
               'condition of the orbit); near-parabolic orbits excluded in '
               'single precision']
F = {'float32': np.float32, 'float64': np.float64, 'longdouble': np.longdouble}
TOLS = {'float32': 1e-4, 'float64': hist.TOL, 'longdouble': hist.TOL}
WROTE = {'float32': 1e-6, 'float64': 1e-12, 'longdouble': 1e-12}
SHORT = ['cartesian', 'kepler', 'a', 'e', 'anom', 'x', 'vy', 'r', 'v',
         'mean_anomaly', 'eccentric_anomaly', 'true_anomaly', 'equinoctial',
         'period', 'velocity', 'propagate+', 'type=true', 'type=eccentric',
         'type=mean', 'calculate_cartesian()', 'calculate_kepler()',
         'update([0],kepler)', 'update([-1],cartesian)', 'update([0],a,e)',
         'update([-1],x,vy)', 'copy', 'slice', 'copy.copy']
TINY = ['cartesian', 'kepler', 'e', 'x', 'mean_anomaly', 'propagate+',
        'type=mean', 'velocity', 'copy', 'update([0],a,e)']
INTS = [np.int64, np.int32, np.int8, np.uint8]


def extra(n, deg, dtype):
    """Operations that change the number of orbits, and integer writes."""
    out = []

    def op(name, real, model):
        out.append(hist.Op(name, real, model))
    k2 = hist._units(hist.KEP1[:, 1:2], deg)

    def madd(m):
        m.add(1, 0.2)
        m.write_kep(range(6), k2, [m.n - 1])
    op('add', lambda o: o.add(1, m=0.2, kepler=k2.copy()), madd)

    def madd0(m):
        m.add(1)
    op('add blank', lambda o: o.add(1), madd0)

    def mdel(m):
        if m.n < 2:
            raise hist.Invalid
        m.delete([0])
    op('delete', lambda o: o.delete([0]), mdel)
    op('slice last', lambda o: o[[-1]], lambda m: m.__dict__.update(
        m.select([-1]).__dict__))
    op('iterate', lambda o: list(o)[0], lambda m: m.__dict__.update(
        m.select([0]).__dict__))
    op('element', lambda o: o[0], lambda m: m.__dict__.update(
        m.select([0]).__dict__))
    op('a=int', lambda o: setattr(o, 'a', 2),
       lambda m: m.write_kep([0], np.full((1, m.n), 2.0)))
    op('x=ints', lambda o: setattr(o, 'x', np.arange(1, 1 + o.num)),
       lambda m: m.write_cart([0], np.arange(1.0, 1 + m.n)[None, :]))
    op('allocate', lambda o: o.allocate(2), lambda m: m.allocate(2))

    def setm(o):
        o.m[:] = 0.25

    def mm(m):
        # a mass change moves nothing until recalculated: outside the model
        # unless nothing is stored
        if not np.isnan(m.kep).all():
            raise hist.Invalid
        m.m[:] = 0.25
    op('m', setm, mm)
    return out


def tasks(tier):
    out = []
    big = tier != 'quick'
    for dt in F:
        for typ in ('true', 'eccentric', 'mean'):
            for deg in (False, True):
                for direct in (True, False):
                    if not big and deg and (direct or dt != 'float32'):
                        continue
                    if not big and dt == 'longdouble' and typ != 'mean':
                        continue
                    for names, depth in ((SHORT, 3 if big else 2),
                                         (TINY, 5 if big else 3)):
                        out.append(dict(kind='history', dtype=dt, type=typ,
                                        deg=deg, direct=direct,
                                        names='SHORT' if names is SHORT
                                        else 'TINY', depth=depth))
    for dt in F:
        for deg in (False, True):
            out.append(dict(kind='functions', dtype=dt, deg=deg))
    for dt in INTS:
        for deg in (False, True):
            out.append(dict(kind='integers', dtype=dt.__name__, deg=deg,
                            big=big))
    out.append(dict(kind='forms'))
    return out


ELEMENTS = ['cartesian', 'kepler', 'r', 'v'] + pyorb.Orbit.CARTESIAN \
    + pyorb.Orbit.KEPLER + ['true_anomaly', 'eccentric_anomaly',
                            'mean_anomaly', 'equinoctial', 'm']


def observer(dtn):
    dt = F[dtn]

    def look(ctx, orb, mod, h, level):
        for order in (('cartesian', 'kepler'), ('kepler', 'cartesian')):
            o = hist.clone(orb)
            got = {x: getattr(o, x) for x in order}
            m = mod.clone()
            # written values are rounded to the storage type
            for side, ex in (('cart', m.cx), ('kep', m.kx)):
                g = got['cartesian' if side == 'cart' else 'kepler']
                w = getattr(m, side)
                if g.shape == w.shape and ex.any():
                    e = ex & ~np.isnan(w.astype(float))
                    bad = e & ~(np.abs(g - w) <= WROTE[dtn]*np.abs(w))
                    if bad.any():
                        return f'written {side} values are not kept'
                ex[:] = False
            msg = hist.diff(got['cartesian'], got['kepler'], m, TOLS[dtn])
            if msg:
                return f'{msg} differs from the double precision value'
        o = hist.clone(orb)
        if o.dtype != dt:
            return 'the chosen type is not remembered'
        for name in ELEMENTS:
            if name != 'm' and np.isnan(mod.kep).any() \
                    and name in ('equinoctial',):
                continue
            g = getattr(o, name)
            if g.dtype != dt:
                return f'{name} is reported as {g.dtype}, not {dtn}'
        if o.m.shape != mod.m.shape or not np.allclose(
                o.m.astype(float), mod.m, rtol=1e-6):
            return 'masses changed'
        return None
    return look


def run(task, ctx):
    globals()['run_' + task['kind']](task, ctx)


def run_history(task, ctx):
    n = 2
    deg = task['deg']
    dtn = task['dtype']
    opts = dict(solver_options=dict(tol=1e-6)) if dtn == 'float32' else {}
    orb, mod = hist.make(hist.KEP0[:, [0, 2]], deg=deg, typ=task['type'],
                         direct=task['direct'], auto=True,
                         dtype=F[dtn], **opts)
    ops = hist.alphabet(n, deg, globals()[task['names']])
    safe = []
    for op in ops:
        safe.append(hist.Op(op.name, op.real, sized(op.model, n)))
    ops = safe + extra(n, deg, F[dtn])
    msg = observer(dtn)(ctx, orb, mod, None, 0)
    if msg:
        ctx.fail('new orbit: ' + msg, **task)
        return
    hist.explore(ctx, orb, mod, ops, task['depth'], observer(dtn))
    ctx.outcomes.update((dtn, task['type'], deg, task['direct'],
                         task['names'], j) for j in range(ctx.states))
    ctx.sample(**task)


def sized(model, n):
    """The alphabet's values are for n orbits with elements."""
    def f(m):
        if m.n != n:
            raise hist.Invalid
        # parabolas do not survive rounding to single precision
        r = model(m)
        e = m.kep[1].astype(float)
        if (np.abs(e - 1) < 0.02).any():
            raise hist.Invalid
        return r
    return f


def run_functions(task, ctx):
    dt = F[task['dtype']]
    single = task['dtype'] == 'float32'
    deg = task['deg']
    u = 180/np.pi if deg else 1.0
    K = calls.K if not deg else lat.todeg(calls.K)
    eps = 2e-6 if single else 1e-13
    kw = dict(degrees=deg)

    def typed(name, got, shape, **case):
        ctx.ev()
        if not isinstance(got, np.ndarray) or got.dtype != dt:
            ctx.fail(f'{name}: result is not of the input\'s type',
                     got=getattr(got, 'dtype', type(got)), want=dt.__name__,
                     degrees=deg, **case)
            return False
        if got.shape != shape:
            ctx.fail(f'{name}: wrong shape', got=got.shape, **case)
            return False
        return True

    NK = calls.NK
    for j in list(range(NK)) + ['all', 'rev']:
        sel = [j] if isinstance(j, int) else list(range(NK))
        if j == 'rev':
            sel = sel[::-1]
        for form in (('vector', 'column') if isinstance(j, int)
                     else ('matrix',)):
            def shaped(x):
                return x[:, 0] if form == 'vector' else x
            mu = float(calls.MU[sel[0]]) if form == 'vector' \
                else calls.MU[sel].astype(dt)
            mus = ref.ld(calls.MU[sel])
            case = dict(orbit=j, form=form)
            ctx.outcome(task['dtype'], deg, j, form)
            k = shaped(K[:, sel].astype(dt))
            kx = ref.ld(k.reshape(6, -1)).copy()
            if deg:
                kx[2:] = ref.rad(kx[2:])
            got = kepler.kep_to_cart(k.copy(), mu=mu, **kw)
            want = ref.state(kx, mus)
            if typed('kep_to_cart', got, k.shape, **case):
                er, ev = ref.state_err(got.reshape(6, -1), want, mus, kx)
                b = np.where(~((er <= 50*eps) & (ev <= 50*eps)))[0]
                for c in b[:2]:
                    ctx.fail('kep_to_cart differs from the double result',
                             kep=k.reshape(6, -1)[:, c], errors=[er[c], ev[c]],
                             dtype=task['dtype'], **case)
            # states back to elements, judged through the state
            sc = [s for s in sel if K[1, s] != 1 or not single]
            if sc:
                c = shaped(calls.CART[:, sc].astype(dt))
                m2 = mu if form == 'vector' else calls.MU[sc].astype(dt)
                got = kepler.cart_to_kep(c.copy(), mu=m2, **kw)
                if typed('cart_to_kep', got, c.shape, **case):
                    g = ref.ld(got.reshape(6, -1)).copy()
                    if deg:
                        g[2:] = ref.rad(g[2:])
                    back = ref.state(g, ref.ld(calls.MU[sc]))
                    er, ev = ref.state_err(
                        back, ref.ld(c.reshape(6, -1)),
                        ref.ld(calls.MU[sc]), g)
                    lim = 3e-3 if single else 3e-7
                    for q in np.where(~((er <= lim) & (ev <= lim)))[0][:2]:
                        ctx.fail('cart_to_kep differs from the double result',
                                 cart=c.reshape(6, -1)[:, q],
                                 errors=[er[q], ev[q]],
                                 dtype=task['dtype'], **case)
            # equinoctial
            cl = [s for s in sel if s in calls.CLOSED]
            if cl:
                k = shaped(K[:, cl].astype(dt))
                kx = ref.ld(k.reshape(6, -1)).copy()
                if deg:
                    kx[2:] = ref.rad(kx[2:])
                want = ref.equinoctial(kx)
                got = kepler.kep_to_equi(k.copy(), **kw)
                if typed('kep_to_equi', got, k.shape, **case):
                    g = ref.ld(got.reshape(6, -1)).copy()
                    if deg:
                        g[5] = ref.rad(g[5])
                    d = np.abs(g - want)
                    d[5] = np.abs(ref.wrap(d[5]))
                    if not np.all(d <= 40*eps*(1 + np.abs(want))):
                        ctx.fail('kep_to_equi differs from the double result',
                                 kep=k, got=got, want=want, **case)
                q = shaped(calls.EQUI[:, cl].astype(dt))
                if deg:
                    q = q.copy()
                    q[5] = q[5]*dt(u)
                got = kepler.equi_to_kep(q.copy(), **kw)
                if typed('equi_to_kep', got, q.shape, **case):
                    g = ref.ld(got.reshape(6, -1)).copy()
                    if deg:
                        g[2:] = ref.rad(g[2:])
                    back = ref.equinoctial(g)
                    w = ref.ld(q.reshape(6, -1)).copy()
                    if deg:
                        w[5] = ref.rad(w[5])
                    d = np.abs(back - w)
                    d[5] = np.abs(ref.wrap(d[5]))
                    if not np.all(d <= 100*eps*(1 + np.abs(w))):
                        ctx.fail('equi_to_kep differs from the double result',
                                 equi=q, got=got, **case)
                m3 = mu if form == 'vector' else calls.MU[cl].astype(dt)
                got = kepler.equi_to_cart(
                    q.copy(), mu=m3, **kw, **(dict(solver_options=dict(
                        tol=1e-6)) if single else {}))
                typed('equi_to_cart', got, q.shape, **case)
                w = ref.ld(q.reshape(6, -1)).copy()
                if deg:
                    w[5] = ref.rad(w[5])
                dbl = kepler.equi_to_cart(
                    np.array(w, dtype=float), mu=np.array(
                        calls.MU[cl], dtype=float))
                kk = K[:, cl].astype(float)
                kk = ref.ld(kk)
                if deg:
                    kk[2:] = ref.rad(kk[2:])
                er, ev = ref.state_err(got.reshape(6, -1), dbl,
                                       ref.ld(calls.MU[cl]), kk)
                # e = 0.97: the anomaly amplifies by 1/(1-e)
                lim = 3e-3 if single else 1e-9
                if not np.all((er <= lim) & (ev <= lim)):
                    ctx.fail('equi_to_cart differs from the double result',
                             equi=q, errors=[er, ev], **case)
                c = shaped(calls.CART[:, cl].astype(dt))
                got = kepler.cart_to_equi(c.copy(), mu=m3, **kw)
                typed('cart_to_equi', got, c.shape, **case)
                back = kepler.cart_to_equi(c.astype(float), mu=np.array(
                    calls.MU[cl]) if form != 'vector' else mu, **kw)
                d = np.abs(ref.ld(got) - ref.ld(back))
                w5 = (d[5]/u)
                d[5] = np.abs(ref.wrap(w5))
                if not np.all(d <= (3e-3 if single else 1e-6)
                              * (1 + np.abs(ref.ld(back)))):
                    ctx.fail('cart_to_equi differs from the double result',
                             cart=c, got=got, want=back, **case)
    # anomalies
    T = calls.NU*u, calls.EA*u, calls.MA*u
    kinds = ['true', 'eccentric', 'mean']
    for a, b in itertools.permutations(range(3), 2):
        f = getattr(kepler, f'{kinds[a]}_to_{kinds[b]}')
        x = T[a].astype(dt)
        e = calls.ECC.astype(dt)
        opts = dict(solver_options=dict(tol=1e-6)) \
            if single and kinds[a] == 'mean' else {}
        for form in ('vector', 'matrix', 'one', 'tight'):
            if form == 'tight':
                # the default options: single precision cannot reach the
                # tolerance, the solver still has to return
                if kinds[a] != 'mean':
                    continue
                opts = {}
                xs, es = x[:3], e[:3]
            elif form == 'matrix':
                xs, es = x.reshape(4, 4), e.reshape(4, 4)
            elif form == 'one':
                xs, es = x[:1], e[:1]
            else:
                xs, es = x, e
            got = f(xs.copy(), es.copy(), **kw, **opts)
            ctx.outcome(task['dtype'], deg, a, b, form)
            if not typed(f.__name__, got, xs.shape, form=form):
                continue
            xx = ref.ld(xs.ravel())
            if deg:
                xx = ref.rad(xx)
            want = ref.convert_anom(xx, ref.ld(es.ravel()), kinds[a],
                                    kinds[b])
            g = ref.ld(got.ravel())
            if deg:
                g = ref.rad(g)
            d = np.abs(g - want)
            if kinds[b] == 'true':
                d = np.abs(ref.wrap(d))
            lim = (1e-3 if single else 1e-9)*(1 + np.abs(want))
            if not np.all(d <= lim):
                q = int(np.argmax(d/lim))
                ctx.fail(f'{f.__name__} differs from the double result',
                         x=xs.ravel()[q], e=es.ravel()[q], got=g[q],
                         want=want[q], form=form, dtype=task['dtype'])
    ctx.sample(**task)


def run_integers(task, ctx):
    dt = getattr(np, task['dtype'])
    deg = task['deg']
    signed = dt is not np.uint8
    kw = dict(degrees=deg)
    ang = [0, 1, 2, 3, 5] if not deg else [0, 1, 30, 90, 120]
    if signed:
        ang = ang + [-1]

    def cmp(name, f, ints, *args, **kwargs):
        ctx.ev()
        ctx.outcome(name, task['dtype'], deg, repr(ints))
        x = [np.array(v, dtype=dt) for v in ints]
        y = [v.astype(float) for v in x]
        try:
            got = f(*[v.copy() for v in x], *args, **kwargs)
        except Exception as exc:
            ctx.fail(f'{name} refuses integers', ints=ints, error=repr(exc))
            return
        want = f(*y, *args, **kwargs)
        if not isinstance(got, np.ndarray) or got.dtype.kind != 'f':
            ctx.fail(f'{name}: integers do not give floating point results',
                     got=got, ints=ints)
            return
        if got.shape != want.shape or not calls.same(
                got.astype(float), want.astype(float), 1e-10):
            ctx.fail(f'{name}: integers give other values than the equal '
                     'floats', ints=ints, got=got, want=want, degrees=deg)

    incs = [0, 1, 2] if not deg else [0, 45, 90]
    stack = []
    for a, e, i, om, Om in itertools.product(
            [1, 7], [0, 1, 2], incs, ang[:3], ang[1:4]):
        for nu in (ang if e == 0 else ang[:2]):
            k = [a, e, i, om, Om, nu]
            stack.append(k)
            cmp('kep_to_cart', kepler.kep_to_cart, [k], mu=2, **kw)
            if e == 0:
                cmp('kep_to_equi', kepler.kep_to_equi, [k], **kw)
                cmp('equi_to_kep', kepler.equi_to_kep,
                    [[a, 0, 0, om, Om, nu]], **kw)
                if nu in ang[:3]:
                    cmp('equi_to_cart', kepler.equi_to_cart,
                        [[a, 0, 0, om, Om, nu]], mu=2, **kw)
    cmp('kep_to_cart', kepler.kep_to_cart, [np.array(stack).T], mu=2, **kw)
    cmp('kep_to_cart', kepler.kep_to_cart, [np.array(stack).T],
        mu=np.arange(1, 1 + len(stack)), **kw)
    r = [-1, 1, 2] if signed else [1, 2, 3]
    cs = []
    for c in itertools.product(r, r, [0, 1], r[:2], [0, 1], [0, 1]):
        x = np.array(c, dtype=float)
        h = np.cross(x[:3], x[3:])
        en = x[3:] @ x[3:]/2 - 2/np.linalg.norm(x[:3])
        if np.linalg.norm(h) < .3:
            continue
        cs.append(c)
        cmp('cart_to_kep', kepler.cart_to_kep, [c], mu=2, **kw)
        if en < -0.01:
            cmp('cart_to_equi', kepler.cart_to_equi, [c], mu=2, **kw)
    cmp('cart_to_kep', kepler.cart_to_kep, [np.array(cs).T], mu=2, **kw)
    kinds = ['true', 'eccentric', 'mean']
    for a, b in itertools.permutations(kinds, 2):
        f = getattr(kepler, f'{a}_to_{b}')
        for e in (0, 1, 2):
            xs = [0, 1, 2] if not deg else [0, 1, 45, 90, 100]
            if signed:
                xs = xs + [-x for x in xs[1:]]
            if a == 'true' and e == 2 and not deg:
                xs = [x for x in xs if abs(x) < 2]
            cmp(f.__name__, f, [xs, [e]*len(xs)], **kw)
            cmp(f.__name__, lambda x, f=f, e=e: f(x, float(e), **kw), [xs])
            cmp(f.__name__, lambda x, f=f, e=e: f(x, e, **kw), [xs])
            cmp(f.__name__, lambda ee, f=f, x=xs[1]: f(x, ee, **kw), [[e]*2])
            for x in xs:
                ctx.ev()
                g = f(x, e, **kw)
                w = f(float(x), float(e), **kw)
                if not calls.same(np.float64(g), np.float64(w), 1e-12):
                    ctx.fail(f'{f.__name__}: integer scalars give other '
                             'values', x=x, e=e, got=g, want=w)
        # elliptic and mixed
        cmp(f.__name__, lambda x, f=f: f(x, np.full(x.shape, 0.3), **kw),
            [[0, 1, 2, 3, 100]])
        cmp(f.__name__, lambda x, f=f: f(x, 0.3, **kw), [[0, 1, 2, 3, 100]])
    for e in (0, 1, 2):
        xs = [0, 1, 2, 3, 5, 9]
        if e and signed:
            xs = xs + [-x for x in xs[1:]]
        cmp('kepler_guess', kepler.kepler_guess, [xs, [e]*len(xs)])
        cmp('kepler_guess', lambda x, e=e: kepler.kepler_guess(x, e), [xs])
        cmp('kepler_guess', lambda ee, x=xs[1]: kepler.kepler_guess(x, ee),
            [[e]*2])
        cmp('kepler_guess', lambda x, e=e: kepler.kepler_guess(
            x, np.full(x.shape, 0.3 + e)), [xs])
    # orbits fed with integers
    for typ in kinds:
        for direct in (True, False):
            for k in stack[::7]:
                if k[1] == 2 and typ == 'true' and not deg and k[5] == 2:
                    continue
                ctx.ev()
                o1 = pyorb.Orbit(1, G=2, degrees=deg, type=typ,
                                 direct_update=direct)
                o2 = pyorb.Orbit(1.0, G=2.0, degrees=deg, type=typ,
                                 direct_update=direct)
                o1.kepler = np.array(k, dtype=dt)
                o2.kepler = np.array(k, dtype=float)
                if not (calls.same(o1.cartesian, o2.cartesian, 1e-10)
                        and calls.same(o1.kepler, o2.kepler, 1e-10)):
                    ctx.fail('integer elements give another orbit', kep=k,
                             type=typ, direct=direct)
            for c in cs[::9]:
                ctx.ev()
                o1 = pyorb.Orbit(1, G=2, degrees=deg, type=typ,
                                 direct_update=direct,
                                 cartesian=np.array(c, dtype=dt))
                o2 = pyorb.Orbit(1.0, G=2.0, degrees=deg, type=typ,
                                 direct_update=direct,
                                 cartesian=np.array(c, dtype=float))
                if not (calls.same(o1.cartesian, o2.cartesian, 1e-10)
                        and calls.same(o1.kepler, o2.kepler, 1e-9)):
                    ctx.fail('an integer state gives another orbit', cart=c,
                             type=typ, direct=direct)
    ctx.sample(**task)


def run_forms(task, ctx):
    """Ways of naming the type, and of filling the orbit."""
    k = hist.KEP0[:, [0, 2]]
    for dt, name in ((np.float32, 'float32'), (np.float64, 'float64'),
                     (np.dtype('float32'), 'float32'), ('float32', 'float32'),
                     ('f4', 'float32'), ('f8', 'float64'), (float, 'float64')):
        for how in ('constructor', 'vector', 'add', 'update', 'components',
                    'cartesian', 'num0'):
            for direct in (True, False):
                ctx.ev()
                ctx.outcome(str(dt), how, direct)
                kw = dict(G=hist.G, dtype=dt, direct_update=direct,
                          solver_options=dict(tol=1e-6))
                m = np.array(hist.MASS[:2])
                if how == 'constructor':
                    o = pyorb.Orbit(hist.M0, num=2, m=m, kepler=k, **kw)
                elif how == 'components':
                    o = pyorb.Orbit(hist.M0, num=2, m=m, **kw, **{
                        x: k[j] for j, x in enumerate(pyorb.Orbit.KEPLER)})
                elif how == 'vector':
                    o = pyorb.Orbit(hist.M0, num=2, m=m, **kw)
                    o.kepler = k
                elif how == 'update':
                    o = pyorb.Orbit(hist.M0, num=2, m=m, **kw)
                    o.update(kepler=k)
                elif how == 'add':
                    o = pyorb.Orbit(hist.M0, num=1, m=m[0],
                                    kepler=k[:, 0], **kw)
                    o.add(1, m=m[1], kepler=k[:, 1])
                elif how == 'num0':
                    o = pyorb.Orbit(hist.M0, num=0, **kw)
                    o.add(2, m=m, kepler=k)
                else:
                    o = pyorb.Orbit(hist.M0, num=2, m=m,
                                    cartesian=hist.carts(
                                        hist.KEP0[:, [0, 2]], 2), **kw)
                for x in ELEMENTS:
                    g = getattr(o, x)
                    if g.dtype.name != name:
                        ctx.fail('an element is reported in another type',
                                 element=x, got=g.dtype.name, want=name,
                                 how=how, direct=direct)
    ctx.sample(how='constructor')
