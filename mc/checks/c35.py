"""Whole turns do not matter: an angle may be given in any turn."""
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from mc import hist, ref, lat

PROPERTY = 'C35'
LEVEL = 'exploration'
RULE = ('every function and every Orbit entry point that takes an angle x '
        'orbit kind x position x which angles are shifted (each alone and all '
        'together) x number of whole turns (both signs) x unit x anomaly type '
        'x argument form; the result must be the one without the shift')
ASSUMPTIONS = [
    'eccentric and mean anomalies of open orbits are not angles and are not '
    'shifted', 'up to 1000 turns; tolerance 1e-9 times the conditioning of the '
    'position, angles modulo one turn where the orbit is closed']

TURNS = [-400, -75, -3, -1, 1, 2, 7, 75, 1000]


def orbits(tier):
    out = []
    for name, k in lat.kinds():
        lim = np.pi if k[1] <= 1 else float(np.arccos(-1/k[1]))
        fr = [-0.9, -0.4, 0.0, 1e-4, 0.6] if tier == 'quick' else \
            [-0.97, -0.9, -0.6, -0.3, -1e-6, 0.0, 1e-6, 0.2, 0.5, 0.8, 0.97]
        if k[1] < 1:
            fr = fr + [1.0, 1.7]
        out += [k[:5] + [f*lim] for f in fr]
    return np.array(out).T


def tasks(tier):
    out = [dict(part='fun', deg=d, turns=t, tier=tier)
           for d in (False, True) for t in TURNS]
    out += [dict(part='orbit', deg=d, typ=t, direct=u, turns=g, tier=tier)
            for d in (False, True) for t in ('true', 'eccentric', 'mean')
            for u in (False, True)
            for g in ([TURNS] if tier == 'quick' else [[x] for x in TURNS])]
    return out


def moddiff(x, y, full):
    d = np.asarray(x, dtype=float) - np.asarray(y, dtype=float)
    return np.abs(d - full*np.round(d/full))


def run_fun(task, ctx):
    kep = orbits(task['tier'])
    n = kep.shape[1]
    deg = task['deg']
    full = 360.0 if deg else 2*np.pi
    u = full/(2*np.pi)
    dg = dict(degrees=deg)
    sh = task['turns']*full
    mu = 1.3*(1 + 0.1*np.arange(n))
    k = kep.copy()
    k[2:] *= u
    c = np.asarray(ref.cond(kep), dtype=float)
    tol = 1e-9*c
    e, nu = kep[1], k[5]
    closed = e < 1
    case0 = dict(degrees=deg, turns=task['turns'])

    def bad(name, ok, **case):
        ok = np.atleast_1d(ok)
        ctx.ev(ok.shape[-1])
        if not ok.all():
            j = int(np.flatnonzero(~ok.reshape(-1, ok.shape[-1]).all(axis=0))[0])
            ctx.fail(f'{name}: whole turns of an angle change the result',
                     kep=kep[:, j] if ok.shape[-1] == n else None, **case,
                     **case0)

    def st(name, got, want, m, kk, slack=1.0, **case):
        if got.shape != want.shape:
            ctx.fail(f'{name}: shape', **case0)
            return
        er, ev = ref.state_err(got, want, m)
        cc = np.asarray(ref.cond(kk), dtype=float)*1e-9*slack
        bad(name, (er < cc) & (ev < cc), **case)
    want = kepler.kep_to_cart(k.copy(), mu=mu, **dg)
    for rows in ([3], [4], [5], [3, 4], [3, 4, 5]):
        for signs in ([1]*len(rows), [1, -1, 1][:len(rows)]):
            kk = k.copy()
            for r, s in zip(rows, signs):
                kk[r] += s*sh
            st('kep_to_cart', kepler.kep_to_cart(kk.copy(), mu=mu, **dg),
               want, mu, kep, rows=rows)
            for j in range(0, n, 7):
                st('kep_to_cart of one orbit', kepler.kep_to_cart(
                    kk[:, j].copy(), mu=float(mu[j]), **dg)[:, None],
                   want[:, j:j + 1], mu[j:j + 1], kep[:, j:j + 1])
            q = closed & (kep[2] < 3)
            eq = kepler.kep_to_equi(k[:, q].copy(), **dg)
            got = kepler.kep_to_equi(kk[:, q].copy(), **dg)
            if got.shape != eq.shape:
                ctx.fail('kep_to_equi: shape', **case0)
                continue
            bad('kep_to_equi', (np.abs(got[:5] - eq[:5]).max(axis=0)
                                < 1e-9*(1 + np.abs(eq[:5]).max(axis=0)))
                & (moddiff(got[5], eq[5], full) < 1e-9*full), rows=rows)
    # equinoctial longitude
    q = closed & (kep[2] < 2.9) & (e < 0.99)
    eq = kepler.kep_to_equi(k[:, q].copy(), **dg)
    es = eq.copy()
    es[5] += sh
    a = kepler.equi_to_kep(eq.copy(), **dg)
    b = kepler.equi_to_kep(es.copy(), **dg)
    bad('equi_to_kep', (np.abs(a[:2] - b[:2]).max(axis=0) < 1e-9)
        & (np.abs(a[2] - b[2]) < 1e-7*u)
        & (moddiff(a[3:], b[3:], full).max(axis=0) < 1e-7*full))
    slack = 1e2
    ctr = kepler.equi_to_cart(eq.copy(), mu=mu[q], **dg)
    kt = kepler.cart_to_kep(ctr.copy(), mu=mu[q])
    st('equi_to_cart', kepler.equi_to_cart(es.copy(), mu=mu[q], **dg), ctr,
       mu[q], kt, slack)
    for j in range(0, eq.shape[1], 5):
        st('equi_to_cart of one orbit', kepler.equi_to_cart(
            es[:, j].copy(), mu=float(mu[q][j]), **dg)[:, None],
           ctr[:, j:j + 1], mu[q][j:j + 1], kt[:, j:j + 1], slack)
        g = kepler.equi_to_kep(es[:, j].copy(), **dg)
        bad('equi_to_kep of one orbit',
            moddiff(g[3:], a[3:, j], full).max() < 1e-7*full)
    # anomalies, arrays and scalars, per-orbit and common eccentricity
    E = kepler.true_to_eccentric(nu.copy(), e.copy(), **dg)
    M = kepler.true_to_mean(nu.copy(), e.copy(), **dg)

    def anom(name, x, ref_, shift, sel, wrapped):
        f = getattr(kepler, name)
        got = f(x[sel] + shift, e[sel], **dg)
        ones = np.array([f(float(y + shift), float(ee), **dg)
                         for y, ee in zip(x[sel], e[sel])])
        for form, g in (('', got), (' scalar', ones)):
            # an absolute error of the shifted angle, amplified by the
            # conversion
            t = 1e-9*c[sel]*np.maximum(1, np.abs(ref_[sel]))*u/np.abs(
                np.where(e[sel] == 1, 1, 1 - e[sel]))
            d = moddiff(g, ref_[sel], full) if wrapped \
                else np.abs(g - ref_[sel])
            ok = d <= t
            ctx.ev(ok.size)
            if not ok.all():
                j = int(np.flatnonzero(~ok)[0])
                ctx.fail(f'{name}{form}: whole turns of an angle change the '
                         'result', x=x[sel][j], e=e[sel][j],
                         got=g[j], want=ref_[sel][j], **case0)
    anom('true_to_eccentric', nu, E, sh, closed, True)
    anom('true_to_eccentric', nu, E, sh, ~closed, False)
    anom('true_to_mean', nu, M, sh, closed, True)
    anom('true_to_mean', nu, M, sh, ~closed, False)
    anom('eccentric_to_true', E, nu, sh, closed, True)
    anom('eccentric_to_mean', E, M, sh, closed, True)
    anom('mean_to_eccentric', M, E, sh, closed, True)
    anom('mean_to_true', M, nu, sh, closed, True)
    # geometry helpers
    sg = np.where(closed, 1, -1)*kep[0]
    h = np.where(e == 1, kepler.parabolic_total_angular_momentum(kep[0], mu),
                 kepler.orbit_total_angular_momentum(sg, e, mu))
    hyp, par = e > 1, e == 1
    for name, f, sel, x in (
            ('orbital_distance', lambda x, s: kepler.orbital_distance(
                h[s], mu[s], e[s], x, **dg), slice(None), nu),
            ('elliptic_radius', lambda x, s: kepler.elliptic_radius(
                x, kep[0][s], e[s], **dg), closed, E),
            ('parabolic_radius', lambda x, s: kepler.parabolic_radius(
                x, kep[0][s], **dg), par, nu),
            ('hyperbolic_radius', lambda x, s: kepler.hyperbolic_radius(
                x, kep[0][s], e[s], **dg), hyp, nu)):
        w = f(x[sel], sel)
        g = f(x[sel] + sh, sel)
        bad(name, np.abs(g - w) <= 1e-9*w*np.maximum(c[sel], 1))
    for rows in ([0], [1], [2], [0, 1, 2]):
        ang = [k[2].copy(), k[3].copy(), k[4].copy()]
        w = kepler.euler_rotation_matrix(*ang, **dg)
        for r in rows:
            ang[r] = ang[r] + sh
        g = kepler.euler_rotation_matrix(*ang, **dg)
        bad('euler_rotation_matrix', np.abs(g - w).max(axis=(0, 1)) < 1e-10)
        j = n//2
        g = kepler.euler_rotation_matrix(*[float(x[j]) for x in ang], **dg)
        bad('euler_rotation_matrix of one orbit',
            np.abs(g - w[..., j]).max() < 1e-10)
    if not deg:
        for ax in 'xyz':
            f = getattr(kepler, 'rot_mat_' + ax)
            for t in lat.ANG:
                bad('rot_mat_' + ax, np.abs(f(t + sh) - f(t)).max() < 2e-11)
    ctx.sample(task=task, orbits=n)


def read(o, deg):
    out = dict(cart=o.cartesian, kep=o.kepler)
    for x in ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period',
              'mean_motion', 'speed', 'velocity', 'periapsis',
              'mean_longitude', 'equinoctial'):
        out[x] = np.asarray(getattr(o, x))
    return out


def run_orbit(task, ctx):
    kep = orbits(task['tier'])
    n = kep.shape[1]
    deg, typ, direct = task['deg'], task['typ'], task['direct']
    full = 360.0 if deg else 2*np.pi
    u = full/(2*np.pi)
    G, M0 = 2.0, 0.7
    m = 0.05*np.arange(n)
    mu = G*(M0 + m)
    rate = np.array(ref.mean_rate(kep[0], kep[1], mu), dtype=float)
    c = np.asarray(ref.cond(kep), dtype=float)
    e = kep[1]
    closed = e < 1
    an = {t: np.array(ref.convert_anom(kep[5], e, 'true', t), dtype=float)*u
          for t in ('true', 'eccentric', 'mean')}
    k = kep.copy()
    k[2:5] *= u
    k[5] = an[typ]
    want = ref.state(kep, mu)
    dt = 0.4/rate
    moved = ref.state(ref.propagate(kep, mu, dt), mu)
    prograde = closed & (kep[2] < 2.9)

    def fresh(num=n, masses=m):
        return pyorb.Orbit(M0, G=G, num=num, m=masses.copy(), degrees=deg,
                           type=typ, direct_update=direct)
    KN = pyorb.Orbit.KEPLER

    def ent_vector(kk):
        o = fresh()
        o.kepler = kk
        return o

    def ent_constructor(kk):
        return pyorb.Orbit(M0, G=G, num=n, m=m.copy(), degrees=deg, type=typ,
                           direct_update=direct,
                           **{x: v.copy() for x, v in zip(KN, kk)})

    def ent_update(kk):
        o = fresh()
        o.update(kepler=kk)
        return o

    def ent_components(kk):
        o = fresh()
        for x, v in zip(KN[::-1], kk[::-1]):
            setattr(o, x, v.copy())
        return o

    def ent_inds(kk):
        o = fresh()
        o.kepler = 1.01*k
        for j in range(n):
            o.update(inds=j, **{x: float(v) for x, v in zip(KN, kk[:, j])})
        return o

    def ent_add(kk):
        o = fresh(0, m[:0])
        o.add(n, kepler=kk, m=m.copy())
        return o

    def ent_angles(kk):
        o = ent_vector(k.copy())
        for x, r in (('omega', 3), ('Omega', 4), ('anom', 5)):
            setattr(o, x, kk[r].copy())
        return o
    entries = [ent_vector, ent_constructor, ent_update, ent_components,
               ent_inds, ent_add, ent_angles]
    plain = read(ent_vector(k.copy()), deg)

    def judge(o, case, written=None):
        got = read(o, deg)
        ctx.ev(n, n)
        er, ev = ref.state_err(got['cart'], want, mu, kep)
        if got['cart'].shape != (6, n) or not (
                (er < 1e-8) & (ev < 1e-8*c)).all():
            return 'Cartesian state'
        if written is not None and not np.allclose(
                got['kep'], written, rtol=1e-12, atol=0):
            return 'elements read back'
        for x in ('period', 'mean_motion', 'speed', 'velocity', 'periapsis'):
            a, b = got[x], plain[x]
            s = closed if x == 'period' else slice(None)
            if a.shape != b.shape or not np.all(
                    np.abs(a - b)[s] <= 1e-7*np.abs(b)[s]*c[s]):
                return x
        for x in ('true', 'eccentric', 'mean'):
            a, b = got[x + '_anomaly'], an[x]
            t = 1e-7*u*c*np.maximum(1, np.abs(b)/u)
            d = np.where(closed | (x == 'true'), moddiff(a, b, full),
                         np.abs(a - b))
            if not (d <= t).all():
                return x + '_anomaly'
        a, b = got['equinoctial'], plain['equinoctial']
        if not (np.abs(a[:5] - b[:5])[:, prograde]
                <= 1e-7*(1 + np.abs(b[:5])[:, prograde])).all() \
                or not (moddiff(a[5], b[5], full)[prograde]
                        <= 1e-7*full*c[prograde]).all():
            return 'equinoctial'
        if not (moddiff(got['mean_longitude'], plain['mean_longitude'], full)
                <= 1e-7*full*c)[closed].all():
            return 'mean_longitude'
        o.propagate(dt)
        got = o.cartesian
        er, ev = ref.state_err(got, moved, mu)
        if not ((er < 1e-6) & (ev < 1e-6)).all():
            return 'state after propagation'
        return None

    # the anomaly of open orbits is an angle only as true anomaly
    can = closed if typ != 'true' else np.ones(n, dtype=bool)
    for t in task['turns']:
        for rows in ([3], [4], [5], [3, 4, 5]):
            kk = k.copy()
            for i, r in enumerate(rows):
                s = t*full*(-1)**i
                kk[r] += np.where(can, s, 0) if r == 5 else s
            for f in entries:
                o = f(kk.copy())
                case = dict(entry=f.__name__[4:], turns=t, rows=rows,
                            type=typ, degrees=deg, direct=direct)
                msg = judge(o, case, kk)
                if msg:
                    ctx.fail('whole turns of an angle change what an orbit '
                             'reports: ' + msg, **case)
        # setting the anomalies, whatever the type
        for x in ('true', 'eccentric', 'mean'):
            sel = closed if x != 'true' else np.ones(n, dtype=bool)
            for first in ('kepler', 'cartesian'):
                o = fresh()
                o.kepler = k.copy()
                if first == 'cartesian':
                    o.cartesian = np.array(want, dtype=float)
                start = o.kepler
                val = an[x].copy()
                if first == 'cartesian':
                    val = np.array(getattr(o, x + '_anomaly'))
                val[sel] += t*full
                setattr(o, x + '_anomaly', val)
                case = dict(entry=x + '_anomaly', first=first, turns=t,
                            type=typ, degrees=deg, direct=direct)
                msg = None
                if first == 'kepler':
                    msg = judge(o, case)
                else:
                    er, ev = ref.state_err(o.cartesian, want, mu)
                    if not ((er < 1e-5*c) & (ev < 1e-5*c)).all():
                        msg = 'Cartesian state'
                    ctx.ev(n, n)
                if msg:
                    ctx.fail('whole turns of an anomaly change what an orbit '
                             'reports: ' + msg, **case)
        # types after a shifted position
        for typ2 in ('true', 'eccentric', 'mean'):
            kk = k.copy()
            kk[5] += np.where(can, t*full, 0)
            o = ent_vector(kk)
            o.type = typ2
            msg = judge(o, None)
            ctx.ev(n, n)
            if msg:
                ctx.fail('whole turns of an anomaly and a change of type '
                         'change what an orbit reports: ' + msg, turns=t,
                         type=typ, to=typ2, degrees=deg, direct=direct)
        # equinoctial longitude
        sel = np.flatnonzero(prograde)
        eq = plain['equinoctial'][:, sel].copy()
        eq[5] += t*full
        o = fresh(sel.size, m[sel])
        o.equinoctial = eq
        er, ev = ref.state_err(o.cartesian, want[:, sel], mu[sel])
        ctx.ev(n, n)
        if not ((er < 1e-5*c[sel]) & (ev < 1e-5*c[sel])).all():
            ctx.fail('whole turns of the mean longitude move the orbit',
                     turns=t, type=typ, degrees=deg, direct=direct)
    ctx.sample(task=task, entries=[f.__name__[4:] for f in entries])


def run(task, ctx):
    {'fun': run_fun, 'orbit': run_orbit}[task['part']](task, ctx)
