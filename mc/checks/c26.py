"""C26: orbit geometry helpers agree with each other and with the state."""
import itertools
import numpy as np
from pyorb import kepler
from .. import ref, lat

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('full product of eccentricities of every conic, positions on the '
        'orbit and (size, mu) systems, in both angle units, as scalars, '
        'vectors, matrices, integers and mixtures; oracle: closed forms in '
        'extended precision and the reference state')
ASSUMPTIONS = ['negative semi-major axis for hyperbolas where documented',
               'orbits within 1e-4 of parabolic only exactly parabolic']

ECC = sorted(set(lat.ECC_ELL + [0.2, 0.45, 0.6, 0.8, 0.95]))
HYP = sorted(set(lat.ECC_HYP + [1.01, 1.2, 3.0, 10.0]))
SIZES = lat.SIZES + [(3.0, 2.0), (1e-3, 1e3), (1e6, 5.0)]
TOL = 1e-12


def tasks(tier):
    k = 4 if tier == 'quick' else 24
    out = [dict(kind='radius', e=e, mul=k) for e in ECC + [1.0] + HYP]
    out += [dict(kind='period', mul=k), dict(kind='asymptote', mul=k),
            dict(kind='forms')]
    return out


def dense(e, mul):
    base = lat.nu_for(e)
    lim = np.pi if e <= 1 else float(np.arccos(-1/e))
    f = 0.98 if e >= 1 else 1.0
    n = 180*mul
    return np.array(base + list(np.linspace(-f*lim, f*lim, n + 1))
                    + ([7.0, -5.0, 2*np.pi + 3, 100.0] if e < 1 else []))


def rel(a, b, tol=TOL):
    return np.abs(ref.ld(a) - ref.ld(b)) <= tol*np.abs(ref.ld(b))


def run(task, ctx):
    kind = task['kind']
    if kind == 'radius':
        e = task['e']
        nus = dense(e, task['mul'])
        for size, mu in SIZES:
            n = nus.size
            kep = np.zeros((6, n))
            kep[0], kep[1], kep[5] = size, e, nus
            kep[2:5] = np.array([[0.4], [1.3], [5.1]])
            c = ref.state(kep, mu)
            rn, vn = ref.norm(c[:3]), ref.norm(c[3:])
            h = ref.norm(ref.cross(c[:3], c[3:]))
            E = ref.true_to_ecc(nus, e)
            p = ref.semilatus(size, e)
            cn = ref.cond(kep)
            sa = size if e < 1 else -size
            # conditioning of |1 - e^2| in double precision is exact data
            if e == 1:
                hh = kepler.parabolic_total_angular_momentum(size, mu)
            else:
                hh = kepler.orbit_total_angular_momentum(sa, e, mu)
            hw = np.sqrt(ref.L(mu)*p)
            he = 4e-16/max(abs(1 - e), 1e-16) if e != 1 else 0
            case = dict(e=e, size=size, mu=mu)
            ctx.ev()
            if not abs(hh - hw) <= (TOL + he)*hw:
                ctx.fail('angular momentum differs from the state', got=hh,
                         want=hw, **case)
            for dg in (False, True):
                u = 180/np.pi if dg else 1.0
                kw = dict(degrees=dg)
                # rounding of the angle, amplified near the far end
                t = TOL*cn*np.maximum(1, np.abs(nus)) + he
                r1 = kepler.orbital_distance(hh, mu, e, nus*u, **kw)
                rs = {'orbital_distance': r1}
                if e < 1:
                    rs['elliptic_radius'] = kepler.elliptic_radius(
                        np.asarray(E, float)*u, size, e, **kw)
                elif e == 1:
                    rs['parabolic_radius'] = kepler.parabolic_radius(
                        nus*u, size, **kw)
                else:
                    rs['hyperbolic_radius'] = kepler.hyperbolic_radius(
                        nus*u, size, e, **kw)
                for name, r in rs.items():
                    ctx.ev(n)
                    if r.shape != (n,):
                        ctx.fail('wrong shape', f=name, **case)
                        continue
                    bad = ~(np.abs(ref.ld(r) - rn) <= t*rn*2)
                    for j in np.where(bad)[0][:3]:
                        ctx.fail('radius differs from the state', f=name,
                                 nu=nus[j], degrees=dg, got=r[j], want=rn[j],
                                 **case)
                for j in range(0, n, 9):
                    ctx.outcome(e, size, mu, float(nus[j]), dg)
                    ctx.ev(3)
                    nu = float(nus[j]*u)
                    a = float(kepler.orbital_distance(hh, mu, e, nu, **kw))
                    if e < 1:
                        b = kepler.elliptic_radius(float(E[j]*u), size, e,
                                                   **kw)
                    elif e == 1:
                        b = kepler.parabolic_radius(nu, size, **kw)
                    else:
                        b = kepler.hyperbolic_radius(nu, size, e, **kw)
                    for x in (a, b):
                        if np.shape(x) != () or not abs(x - rn[j]) \
                                <= 2*t[j]*rn[j]:
                            ctx.fail('radius of a scalar differs', nu=nu,
                                     degrees=dg, got=x, want=rn[j], **case)
            # speed at the exact radius
            rr = np.asarray(rn, dtype=float)
            for form in ('vector', 'scalar'):
                aa = np.inf if e == 1 else float(sa)
                if form == 'vector':
                    v = kepler.orbital_speed(rr, np.full(n, aa), mu)
                    v2 = kepler.orbital_speed(rr, aa, np.full(n, mu))
                    js = range(n)
                else:
                    js = range(0, n, 11)
                    v = {j: kepler.orbital_speed(float(rr[j]), aa, mu)
                         for j in js}
                    v2 = v
                for j in js:
                    ctx.ev()
                    # 2/r - 1/a cancels near apoapsis of eccentric orbits
                    w = 2*mu/rn[j] + (0 if e == 1 else mu/size)
                    for x in (v[j], v2[j]):
                        if not abs(ref.L(x)**2 - vn[j]**2) <= 2*TOL*w:
                            ctx.fail('speed differs from the state',
                                     nu=nus[j], got=x, want=vn[j], **case)
            # period
            if e < 1:
                P = kepler.orbital_period(size, mu)
                nmot = ref.mean_rate(size, e, mu)
                ctx.ev()
                if not abs(P*nmot/ref.TWOPI - 1) <= TOL:
                    ctx.fail('period differs from the mean motion', got=P,
                             **case)
            if ctx.nfail > 30:
                return
        ctx.sample(e=e, nu=nus[3])
        return
    if kind == 'period':
        n = 12*task['mul']
        xs = [10.0**(d + j/n) for d in range(-12, 24) for j in range(n)]
        for mu in (1.0, 2.0, 1e-3, 39.478, 3.986004418e14, 1.327e20, 6.67e-11):
            a = np.array(xs)
            P = kepler.orbital_period(a, mu)
            w = ref.TWOPI*np.sqrt(ref.ld(a)**3/ref.L(mu))
            b = kepler.semi_major_axis(P, mu)
            s = kepler.semi_major_axis(a, mu)
            ws = np.cbrt((ref.ld(a)/ref.TWOPI)**2*ref.L(mu))
            q = kepler.orbital_period(s, mu)
            ctx.ev(4*len(xs))
            for got, want, msg in (
                    (P, w, 'period'), (b, a, 'axis of the period'),
                    (s, ws, 'semi-major axis'), (q, a, 'period of the axis')):
                bad = ~rel(got, want)
                for j in np.where(bad)[0][:2]:
                    ctx.fail(f'{msg} is wrong', x=xs[j], mu=mu, got=got[j],
                             want=want[j])
            for j in range(0, len(xs), 7):
                ctx.outcome(mu, xs[j])
                ctx.ev(2)
                x = xs[j]
                if not rel(kepler.orbital_period(x, mu), w[j]):
                    ctx.fail('period of a scalar is wrong', x=x, mu=mu)
                if not rel(kepler.semi_major_axis(x, mu), ws[j]):
                    ctx.fail('semi-major axis of a scalar is wrong', x=x,
                             mu=mu)
        ctx.sample(a=xs[0])
        return
    if kind == 'asymptote':
        n = 50*task['mul']
        es = np.array([1 + 10.0**(-6 + 16*j/n) for j in range(n + 1)]
                      + HYP + [1.0, 2, 4/3])
        want = np.arccos(-1/ref.ld(es))
        for dg in (False, True):
            w = ref.deg(want) if dg else want
            got = kepler.true_of_the_asymptote(es, degrees=dg)
            ctx.ev(es.size)
            for j, e in enumerate(es):
                ctx.outcome(float(e), dg)
                one = kepler.true_of_the_asymptote(float(e), degrees=dg)
                for g in (got[j], one):
                    if not abs(g - w[j]) <= 1e-9*w[j]:
                        ctx.fail('asymptote is wrong', e=e, degrees=dg, got=g,
                                 want=w[j])
            # the radius grows without bound exactly there
            for j, e in enumerate(es):
                if e < 1.05:
                    continue
                u = 180/np.pi if dg else 1.0
                lim = float(got[j])
                d = 1e-6*u
                ctx.ev()
                r1 = kepler.hyperbolic_radius(lim - d, 1.0, e, degrees=dg)
                r2 = kepler.hyperbolic_radius(lim + d, 1.0, e, degrees=dg)
                if not (r1 > 1e2*(e - 1) and r2 < 0):
                    ctx.fail('the radius does not diverge at the asymptote',
                             e=e, degrees=dg, got=[r1, r2])
        ctx.sample(e=es[3])
        return
    # argument forms of every helper: scalars, integers, vectors, matrices
    H = {
        'orbit_total_angular_momentum':
        (lambda a, e, mu: np.sqrt(mu*a*(1 - e*e)), [2, 3], [0, 0.5], [1, 4]),
        'parabolic_total_angular_momentum':
        (lambda q, mu: np.sqrt(2*mu*q), [2, 3], [1, 4]),
        'orbital_speed':
        (lambda r, a, mu: np.sqrt(mu*(2/r - 1/a)), [2, 3], [4, 5], [1, 4]),
        'orbital_period':
        (lambda a, mu: ref.TWOPI*np.sqrt(a**3/mu), [2, 3], [1, 4]),
        'semi_major_axis':
        (lambda P, mu: np.cbrt((P/ref.TWOPI)**2*mu), [2, 3], [1, 4]),
        'orbital_distance':
        (lambda h, mu, e, nu: h*h/(mu*(1 + e*np.cos(nu))), [2, 3], [1, 4],
         [0, 0.5], [1, 2]),
        'elliptic_radius':
        (lambda E, a, e: a*(1 - e*np.cos(E)), [1, 2], [2, 3], [0, 0.5]),
        'parabolic_radius':
        (lambda nu, q: 2*q/(1 + np.cos(nu)), [1, 2], [2, 3]),
        'hyperbolic_radius':
        (lambda nu, a, e: a*(e*e - 1)/(1 + e*np.cos(nu)), [1, 2], [2, 3],
         [2, 1.5]),
        'true_of_the_asymptote': (lambda e: np.arccos(-1/e), [2, 1.5]),
    }
    forms = {'int': lambda v: v[0], 'float': lambda v: float(v[1]),
             'vector': lambda v: np.array([v[0], v[1], v[1]], dtype=float),
             'ints': lambda v: np.array([v[0], v[0], v[0]])
             if isinstance(v[0], int) else np.array(v[:1]*3),
             'npfloat': lambda v: np.float64(v[1]),
             'one': lambda v: np.array([float(v[0])]),
             'matrix': lambda v: np.array([[v[0], v[1], v[1]]]*2,
                                          dtype=float)}
    # whole numbers of any size in any integer type are just numbers
    big = {'orbital_period': [(7000000, 398600), (42164000, 1)],
           'semi_major_axis': [(7000000000, 398600), (3200000000, 1)],
           'orbital_speed': [(7000000, 7100000, 398600)],
           'parabolic_total_angular_momentum': [(7000000, 398600),
                                                (7000000, 398600441800000)],
           'orbit_total_angular_momentum': [(7000000, 0, 398600),
                                            (7000000, 0, 398600441800000)],
           'orbital_distance': [(2000000000, 398600, 0, 1),
                                (52000000000, 398600441800000, 0, 1)],
           'elliptic_radius': [(1, 7000000, 0)],
           'parabolic_radius': [(1, 7000000)],
           'hyperbolic_radius': [(1, 7000000, 2)],
           'true_of_the_asymptote': [(2,)]}
    whole = {'int': int, 'float': float, 'npint': np.int64,
             'ints': lambda v: np.array([v, v], dtype=np.int64),
             'floats': lambda v: np.array([v, v], dtype=float)}
    for name, cases in big.items():
        f = getattr(kepler, name)
        for vals in cases:
            for combo in itertools.product(whole, repeat=len(vals)):
                args = [whole[c](v) for c, v in zip(combo, vals)]
                ctx.ev()
                ctx.outcome(name, combo, vals)
                want = H[name][0](*[ref.ld(a) for a in args])
                got = f(*args)
                if np.shape(got) != np.shape(want) \
                        or not np.all(rel(got, want)):
                    ctx.fail('wrong value for whole numbers', f=name,
                             forms=combo, args=args, got=got, want=want)
    for name, (w, *vals) in H.items():
        f = getattr(kepler, name)
        for combo in itertools.product(forms, repeat=len(vals)):
            args = [forms[c](v) for c, v in zip(combo, vals)]
            ctx.ev()
            ctx.outcome(name, combo)
            want = w(*[ref.ld(a) for a in args])
            try:
                got = f(*[a.copy() if isinstance(a, np.ndarray) else a
                          for a in args])
            except Exception as exc:
                ctx.fail('arguments refused', f=name, forms=combo,
                         error=repr(exc))
                continue
            if np.shape(got) != np.shape(want) or not np.all(rel(got, want)):
                ctx.fail('wrong value for these argument forms', f=name,
                         forms=combo, args=args, got=got, want=want)
    ctx.sample(forms='all combinations')
