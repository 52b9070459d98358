"""Cartesian and Keplerian values never contradict each other."""
import numpy as np
from mc import hist

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('all operation sequences over the alphabet up to the stated depth, '
        'executed on real Orbit objects in lockstep with a reference model, '
        'states merged only when the complete private state of object and '
        'model coincide; after every operation both representations are read '
        'in both orders (every single property first, up to depth 1 or 2); one '
        'alphabet writes values the orbit has, had, or almost has (9e-6)')
ASSUMPTIONS = [
    'written values describe orbits with |e-1| > 5e-3 or exactly parabolic, '
    'e > 1e-3 or exactly circular elements, open orbits within 97% of the '
    'asymptote; other writes are pruned (counted)',
    'masses, G and degrees are not changed while conversions are pending',
    'values compared as states to 1e-6, written values to 1e-12']

SMALL = ['cartesian', 'kepler', 'a', 'anom', 'x', 'vy', 'mean_anomaly',
         'propagate+', 'type=mean', 'type=true', 'calculate_cartesian()',
         'calculate_kepler()', 'update([0],a,e)', 'update([-1],cartesian)',
         'copy', 'read cartesian', 'read kepler',
         'modeD-', 'mode-A', 'mode--', 'settle--']
TINY = ['cartesian', 'e', 'y', 'propagate-', 'update([-1],a,e)',
        'update([0],x,vy)', 'read cartesian', 'read kepler', 'mode--',
        'settle--', 'mode-A', 'calculate_kepler([last])']


def configs(tier):
    out = []
    for direct, auto in ((True, True), (True, False), (False, True)):
        for typ in ('true', 'eccentric', 'mean'):
            out.append(dict(n=2, deg=typ == 'eccentric', typ=typ,
                            direct=direct, auto=auto,
                            via='kepler' if direct else 'cart'))
    return out


def tasks(tier):
    out = []
    q = tier == 'quick'
    for i, c in enumerate(configs(tier)):
        full = hist.alphabet(c['n'], c['deg'])
        # with direct updating there is nothing left to do on access
        gl = 2 if not (q and c['direct']) else 1
        out += [dict(c, alpha='full', first=g.tolist(), getters=gl,
                     depth=2 if q else 3)
                for g in np.array_split(range(len(full)), 4 if q else 16)]
    for i, c in enumerate(configs(tier)):
        if q and i not in (0, 7):
            continue
        if not q and i not in (0, 4, 7, 8):
            continue
        out += [dict(c, alpha='small', first=g.tolist(), getters=1,
                     depth=3 if q else 5 if i in (0, 7) else 4)
                for g in np.array_split(range(len(SMALL)), 4 if q else 20)]
        c = dict(c, n=3)
        out += [dict(c, alpha='tiny', first=[k], getters=1,
                     depth=4 if q else 6)
                for k in range(len(TINY))]
    for i, c in enumerate(configs(tier)):
        if q and i not in (0, 5, 7):
            continue
        m = len(rewrites(2, c['deg'], c['typ']))
        out += [dict(c, alpha='again', first=g.tolist(), getters=0, depth=3)
                for g in np.array_split(range(m), 6 if q else 12)]
    for c in configs(tier)[::4]:
        c = dict(c, n=1)
        full = hist.alphabet(1, c['deg'])
        out += [dict(c, alpha='full', first=list(range(len(full))),
                     getters=1 if q else 2, depth=2)]
    return out


NUDGE = 1 + 9e-6


def rewrites(n, deg, typ):
    """Writes of values the orbit has, had, or almost has."""
    from mc import ref
    k0, c0 = hist._initial(np.array(hist.KEP0[:, :n]).tobytes(), n, deg, typ)
    al = {o.name: o for o in hist.alphabet(n, deg)}
    u = 180/np.pi if deg else 1.0
    mu = hist.G*(hist.M0 + np.array(hist.MASS[:n]))
    ops = [al[x] for x in ('kepler', 'cartesian', 'read kepler',
                           'read cartesian', 'type=mean', 'type=true', 'x',
                           'a')]

    def op(name, real, model):
        ops.append(hist.Op(name, real, model))

    def seta(attr, val):
        return lambda o: setattr(o, attr, np.copy(val))
    for tag, f in (('0', 1.0), ('~', NUDGE)):
        k, c = k0*f, c0*f
        op('kepler=' + tag, seta('kepler', k),
           lambda m, k=k: m.write_kep(range(6), k))
        op('cartesian=' + tag, seta('cartesian', c),
           lambda m, c=c: m.write_cart(range(6), c))
        for r in (0, 1, 2, 5):
            name = ['a', 'e', 'i', 'omega', 'Omega', 'anom'][r]
            def model(m, r=r, v=k[r]):
                # the anomaly of a closed orbit may be in any turn
                if r == 1 and m.typ != 'true' \
                        and ((m.kep[1] < 1) != (v < 1)).any():
                    raise hist.Invalid
                m.write_kep([r], v[None, :])
            op(name + '=' + tag, seta(name, k[r]), model)
        for r in (0, 4):
            name = ['x', 'y', 'z', 'vx', 'vy', 'vz'][r]
            op(name + '=' + tag, seta(name, c[r]),
               lambda m, r=r, v=c[r]: m.write_cart([r], v[None, :]))
        op('r=' + tag, seta('r', c[:3]),
           lambda m, v=c[:3]: m.write_cart([0, 1, 2], v))
        op('v=' + tag, seta('v', c[3:]),
           lambda m, v=c[3:]: m.write_cart([3, 4, 5], v))
        P = f*2*np.pi*np.sqrt(k0[0]**3/mu)
        op('period=' + tag, seta('period', P),
           lambda m, P=P: m.set_period(P))
        V = f*np.sqrt(np.sum(c0[3:]**2, axis=0))
        op('velocity=' + tag, seta('velocity', V),
           lambda m, V=V: m.scale_velocity(V))
        for kind in ('true', 'eccentric', 'mean'):
            x = ref.rad(k0[5]) if deg else ref.ld(k0[5])
            y = np.array([ref.convert_anom(x[j:j + 1], k0[1, j], typ, kind)[0]
                          for j in range(n)], dtype=float)*u*f
            op(kind + '_anomaly=' + tag, seta(kind + '_anomaly', y),
               lambda m, kind=kind, y=y: m.set_anomaly(kind, y))
        op(f'update([0],kepler={tag})',
           lambda o, v=k[:, :1]: o.update(inds=[0], kepler=v.copy()),
           lambda m, v=k[:, :1]: m.write_kep(range(6), v, [0]))
        op(f'update([-1],vy={tag})',
           lambda o, v=c[4, -1:]: o.update(inds=np.array([-1]), vy=v.copy()),
           lambda m, v=c[4:5, -1:]: m.write_cart([4], v, [-1]))
    for kind in ('true', 'eccentric', 'mean'):
        op(f'read {kind}_anomaly',
           lambda o, a=kind + '_anomaly': [getattr(o, a), None][1],
           lambda m: None)
    op('propagate(1e-5)', lambda o: o.propagate(1e-5),
       lambda m: m.propagate(1e-5))
    return ops


def observe(ctx, orb, mod, hst, level):
    if mod.manual:
        # nothing is promised about agreement until updating is on again
        return None
    msg = hist.observe_both(ctx, orb, mod, hst, level)
    if msg is None and level <= ctx.task['getters']:
        msg = hist.observe_getters(ctx, orb, mod, hst, level)
    return msg


def run(task, ctx):
    if task['alpha'] == 'again':
        ops = rewrites(task['n'], task['deg'], task['typ'])
    else:
        names = dict(full=None, small=SMALL, tiny=TINY)[task['alpha']]
        ops = hist.alphabet(task['n'], task['deg'], names)
    orb, mod = hist.make(hist.KEP0[:, :task['n']], task['deg'], task['typ'],
                         task['direct'], task['auto'], via=task['via'])
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    msg = observe(ctx, orb, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    hist.explore(ctx, orb, mod, ops, task['depth'], observe,
                 first=task['first'])
