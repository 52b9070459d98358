"""Kepler solver: residual, termination and options on complete lattices."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import ref, lat

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('complete lattice eccentricity x mean anomaly (dense near periapsis, '
        'both signs, many revolutions) x solver options (tolerance, iteration '
        'limit, polynomial degree); every iterate of every solution is '
        'visited by running the solver with each smaller iteration limit; a '
        'point is one equation; separately every Orbit operation that solves '
        'the equation under option sets that give distinguishable results')
ASSUMPTIONS = ['|M| <= 1000 rad; 0 <= e < 1 - 1e-12 or 1 + 1e-6 <= e <= 1000',
               'residual bound: max(tol, 16 ulp of the largest term)']

ECC = [0.0, 1e-9, 1e-3, 0.1, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.98, 0.99,
       0.999, 0.9999, 0.999999, 1 - 1e-9, 1 - 1e-12,
       1.0, 1 + 1e-12, 1 + 1e-9, 1.000001, 1.0001, 1.01, 1.1, 1.3, 1.5, 2.0, 3.0, 5.0, 10.0,
       100.0, 1000.0]
OPTS = [dict(tol=t) for t in (1e-3, 1e-6, 1e-9, 1e-12)] \
    + [dict(degree=d) for d in (2, 3, 4, 6, 8, 10)] \
    + [dict(tol=1e-8, max_iter=50, degree=4)]


def means(tier):
    small = [s*x for x in (0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.01, 0.05, 0.1, 0.2,
                           0.2499, 0.25, 0.2501) for s in (1, -1)]
    n = 60 if tier == 'quick' else 1200
    lin = list(np.linspace(-4*np.pi, 4*np.pi, n*2 + 1)) \
        + [1.999, 2.0, 2.001, np.pi, np.nextafter(np.pi, 4), 2*np.pi,
           2*np.pi - 1e-9, 2*np.pi - 0.1, -np.pi, -2*np.pi]
    big = [s*x for x in (20., 50., 100., 333.3, 1000., 1e4, 1e6) for s in (1, -1)]
    return sorted(set(small + lin + big))


def tasks(tier):
    return [dict(kind='solve', e=e, tier=tier) for e in ECC] \
        + [dict(kind='orbit', type=t, direct=d, degrees=g)
           for t in ('true', 'eccentric', 'mean')
           for d in (True, False) for g in (True, False)] \
        + [dict(kind='functions')]


def residual(E, M, e):
    return ref.ecc_to_mean(ref.ld(E), ref.ld(e)) - ref.ld(M)


def floor(E, M, e):
    eps = np.finfo(float).eps
    return 16*eps*(1 + np.abs(M) + np.abs(E)
                   + (e*np.cosh(min(abs(E), 700.0)) if e > 1 else e))


def run_solve(task, ctx):
    e = task['e']
    Ms = np.array(means(task['tier']))
    n = len(Ms)
    ctx.ev(0, n)
    worst = 0
    for deg in (False, True):
        u = 180/np.pi if deg else 1.0
        for opt in [{}] + OPTS:
            so = dict(opt) or None
            E = kepler.mean_to_eccentric(Ms*u, e, solver_options=so,
                                         degrees=deg)/u
            tol = opt.get('tol', 1e-12)
            ctx.ev(n)
            for M, x in zip(Ms, E):
                fl = floor(x, M, e)
                if e == 1:
                    lim = 1e-14*(1 + abs(M))*10
                else:
                    lim = max(tol, fl) + (fl if deg else 0) + fl
                if not abs(residual(x, M, e)) <= lim:
                    ctx.fail('residual above tolerance', e=e, M=M, E=x,
                             residual=float(residual(x, M, e)), options=opt,
                             degrees=deg)
    if e == 1:
        return
    for M in Ms:
        M = float(M)
        if e > 1:
            lo = kepler.kepler_guess(M, e)
        else:
            lo = kepler.kepler_guess(M, e)
        if not np.isfinite(lo):
            ctx.fail('starting value not finite', e=e, M=M, E0=lo)
            continue
        arr = kepler.kepler_guess(np.array([M, 0.5]), e)[0]
        if abs(arr - lo) > 1e-12*(1 + abs(lo)):
            ctx.fail('starting value: array and scalar differ', e=e, M=M)
        for degree in (2, 5, 8) if task['tier'] == 'quick' \
                else (2, 3, 4, 5, 6, 8, 10):
            for tol in (1e-4, 1e-12):
                E, it = kepler.laguerre_solve_kepler(
                    lo, M, e, tol=tol, degree=degree)
                ctx.ev(1, 0)
                if it >= 5000 + 1:
                    ctx.fail('iteration limit exceeded', e=e, M=M,
                             iterations=it)
                worst = max(worst, it if it < 4000 else 0)
                fl = floor(E, M, e)
                if not abs(residual(E, M, e)) <= max(tol, fl) + fl:
                    ctx.fail('laguerre: residual above tolerance', e=e, M=M,
                             E=E, tol=tol, degree=degree,
                             residual=float(residual(E, M, e)))
                if it > 20:
                    continue
                # every iterate, through the iteration limit
                prev = lo
                for k in range(1, it + 1):
                    Ek, ik = kepler.laguerre_solve_kepler(
                        lo, M, e, tol=tol, degree=degree, max_iter=k)
                    ctx.ev(1, 0)
                    if ik != k:
                        ctx.fail('iteration limit not honoured', e=e, M=M,
                                 max_iter=k, iterations=ik)
                        break
                    fl = floor(prev, M, e)
                    if abs(residual(prev, M, e)) < tol - 2*fl:
                        ctx.fail('iterated beyond the tolerance', e=e, M=M,
                                 tol=tol, iterate=k, degree=degree)
                        break
                    if abs(Ek - prev) > 1e-6 and k == 1:
                        want = step(prev, M, e, degree)
                        if abs(Ek - want) > 1e-6*abs(want - prev) + 1e-9:
                            ctx.fail('first step is not the one of the '
                                     'requested degree', e=e, M=M,
                                     degree=degree, got=Ek, want=want)
                            break
                    prev = Ek
                else:
                    if it and prev != E:
                        ctx.fail('last iterate differs', e=e, M=M, got=E,
                                 want=prev)
    ctx.count('max_iterations_task', worst)
    ctx.sample(e=e, M=float(Ms[n//3]), E=float(kepler.mean_to_eccentric(
        float(Ms[n//3]), e)))


def step(E, M, e, n):
    if e > 1:
        f, fp, fpp = M + E - e*np.sinh(E), 1 - e*np.cosh(E), -e*np.sinh(E)
    else:
        f, fp, fpp = M - E + e*np.sin(E), e*np.cos(E) - 1, -e*np.sin(E)
    s = np.sqrt(abs((n - 1)**2*fp**2 - n*(n - 1)*f*fpp))
    d = fp + s if abs(fp + s) > abs(fp - s) else fp - s
    return E - n*f/d


# options that leave visibly unconverged results, all different
ORBOPTS = [dict(max_iter=1), dict(max_iter=2), dict(max_iter=1, degree=3),
           dict(tol=0.3), {}]
KEP = np.array([[1.0, 0.9, 0.5, 1.0, 2.0, 1.3],
                [2.0, 1.6, 0.9, 4.0, 3.0, 1.4],
                [1.5, 0.95, 2.5, 0.3, 5.0, 0.8]]).T


def run_orbit(task, ctx):
    typ, deg = task['type'], task['degrees']
    u = 180/np.pi if deg else 1.0
    kep = lat.todeg(KEP) if deg else KEP
    a, e, M = kep[0], kep[1], kep[5]
    for opt, via in itertools.product(
            ORBOPTS, ('init', 'attribute', 'copy', 'slice', 'index')):
        full = dict(tol=1e-12, max_iter=5000, degree=5)
        full.update(opt)
        Ecc = kepler.mean_to_eccentric(M, e, solver_options=full, degrees=deg)
        Nu = kepler.mean_to_true(M, e, solver_options=full, degrees=deg)

        def make(type_):
            kw = dict(G=1.0, num=3, degrees=deg, type=type_,
                      direct_update=task['direct'])
            if via == 'attribute':
                o = pyorb.Orbit(1.0, **kw)
                o.solver_options.update(opt)
                return o
            o = pyorb.Orbit(1.0, solver_options=dict(opt), **kw)
            if via == 'copy':
                o = o.copy()
            elif via == 'slice':
                o = o[:]
            elif via == 'index':
                o = o[[0, 1, 2]]
            return o

        def chk(what, got, want, scale=1.0):
            got, want = np.asarray(got), np.asarray(want)
            ctx.ev(3, 1)
            if got.shape != want.shape or not np.all(
                    np.abs(got - want) <= 1e-9*scale*(1 + np.abs(want))):
                ctx.fail(f'options not honoured: {what}', options=opt,
                         type=typ, degrees=deg, via=via, got=got, want=want)
        # stored position in mean anomaly: everything derived solves
        cart = kepler.kep_to_cart(
            np.vstack([kep[:5], Nu]), mu=1.0, degrees=deg)
        if typ == 'mean':
            o = make('mean')
            o.kepler = kep
            chk('cartesian from mean anomaly', o.cartesian, cart)
            chk('true_anomaly', o.true_anomaly, Nu, u)
            chk('eccentric_anomaly', o.eccentric_anomaly, Ecc, u)
            o.calc_true_anomaly()
            o.type = 'true'
            chk('type change mean->true', o.anom, Nu, u)
            o = make('mean')
            o.kepler = kep
            o.type = 'eccentric'
            chk('type change mean->eccentric', o.anom, Ecc, u)
            o = make('mean')
            o.kepler = kep
            for x, c, t in zip(o, cart.T, Nu):
                chk('iterated orbit', x.cartesian[:, 0], c)
                chk('iterated orbit anomaly', x.true_anomaly, [t], u)
        else:
            o = make(typ)
            o.kepler = kep
            o.mean_anomaly = M
            chk('mean_anomaly assignment', o.anom,
                Nu if typ == 'true' else Ecc, u)
            o = make(typ)
            o.kepler = kep
            n = o.mean_motion
            m0 = o.mean_anomaly
            tgt = m0 + n*0.7
            k = e < 1
            tgt[k] = np.mod(tgt[k], 2*np.pi*u)
            f = kepler.mean_to_true if typ == 'true' \
                else kepler.mean_to_eccentric
            w = f(tgt, e, solver_options=full, degrees=deg)
            o.propagate(0.7)
            chk('propagate', o.anom, w, u)
        o = make(typ)
        el = kep[:, [0, 2]]
        o.delete(1)
        q = kepler.kep_to_equi(el, degrees=deg)
        o.equinoctial = q
        back = kepler.equi_to_kep(q, degrees=deg)
        w = back[5]
        if typ == 'true':
            w = kepler.mean_to_true(w, back[1], solver_options=full,
                                    degrees=deg)
        elif typ == 'eccentric':
            w = kepler.mean_to_eccentric(w, back[1], solver_options=full,
                                         degrees=deg)
        chk('equinoctial assignment', o.anom, w, u)
    ctx.sample(type=typ, options=ORBOPTS)


def run_functions(ctx):
    """equi_to_cart and mean_to_true pass the options on, for every degree."""
    seen = {}
    for opt in ORBOPTS + OPTS:
        full = dict(tol=1e-12, max_iter=5000, degree=5)
        full.update(opt)
        for deg in (False, True):
            u = 180/np.pi if deg else 1.0
            kep = lat.todeg(KEP) if deg else KEP
            kep = kep[:, [0, 2]]
            E = []
            for M, e in zip(KEP[5, [0, 2]], KEP[1, [0, 2]]):
                x, _ = kepler.laguerre_solve_kepler(
                    kepler.kepler_guess(M, e), M, e, **full)
                E.append(x)
            nu = kepler.eccentric_to_true(np.array(E), kep[1])
            for name, got, want in [
                ('mean_to_eccentric', kepler.mean_to_eccentric(
                    kep[5], kep[1], solver_options=dict(opt),
                    degrees=deg)/u, np.array(E)),
                ('mean_to_eccentric scalar', np.array([
                    kepler.mean_to_eccentric(
                        float(m), float(e), solver_options=dict(opt),
                        degrees=deg)/u for m, e in zip(kep[5], kep[1])]),
                    np.array(E)),
                ('mean_to_true', kepler.mean_to_true(
                    kep[5], kep[1], solver_options=dict(opt),
                    degrees=deg)/u, nu),
                ('equi_to_cart', kepler.equi_to_cart(
                    kepler.kep_to_equi(kep, degrees=deg), mu=1.0,
                    solver_options=dict(opt), degrees=deg),
                    kepler.kep_to_cart(np.vstack([KEP[:5, [0, 2]], nu]),
                                       mu=1.0)),
            ]:
                ctx.ev(2, 1)
                if not np.all(np.abs(got - want) < 1e-9*(1 + np.abs(want))):
                    ctx.fail(f'options not honoured: {name}', options=opt,
                             degrees=deg, got=got, want=want)
                seen.setdefault(name, set()).add(round(float(got.ravel()[0]), 9))
    for name, s in seen.items():
        ctx.count('distinct_results_' + name.split()[0], len(s))
    ctx.sample(options=OPTS)


def run(task, ctx):
    if task['kind'] == 'solve':
        run_solve(task, ctx)
    elif task['kind'] == 'orbit':
        run_orbit(task, ctx)
    else:
        run_functions(ctx)
