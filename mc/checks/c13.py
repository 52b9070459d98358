"""Read-only elements cannot be changed through any route."""
import copy
import numpy as np
import pyorb
from mc import hist

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = ('every history of permitted operations up to the stated depth x every '
        'public write route of the protected side (all properties, '
        'alternative parameterisations, every bulk-update form, add, copies '
        'and slices of the object): must raise AttributeError and leave every '
        'observable exactly as on an identical object where it was not tried')
ASSUMPTIONS = ['explicit recalculation is not a direct write and is allowed',
               'values in the domain of C10']

KEP_ATTR = ['kepler', 'a', 'e', 'i', 'omega', 'Omega', 'anom',
            'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
            'equinoctial', 'period', 'mean_motion']
CART_ATTR = ['cartesian', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'r', 'v',
             'velocity']


def observe(o):
    """Everything public, read on private copies in both orders."""
    out = []
    for order in (('cartesian', 'kepler'), ('kepler', 'cartesian')):
        p = hist.clone(o)
        for name in order + ('m', 'true_anomaly', 'eccentric_anomaly',
                             'mean_anomaly', 'equinoctial', 'period',
                             'velocity'):
            out.append(np.array(getattr(p, name)))
    p = hist.clone(o)
    return out, (p.type, len(p), p.direct_update, p.auto_update,
                 p.kepler_read_only, p.cartesian_read_only, p.degrees)


def equal(a, b):
    return a[1] == b[1] and all(
        x.shape == y.shape and hist.equal(x, y) for x, y in zip(a[0], b[0]))


def routes(side, n, deg, typ):
    """(name, attempt) for all ways of writing one side directly."""
    u = 180/np.pi if deg else 1.0
    k = hist._units(hist.KEP1[:, :n], deg)
    c = hist.carts(hist.KEP1, n)
    out = []

    def attr(name, val):
        def f(o):
            setattr(o, name, copy.copy(val))
        out.append((f'{name} =', f))

        def g(o):
            setattr(o, name, getattr(o, name))
        out.append((f'{name} = {name}', g))

        def h(o):
            exec(f'o.{name} += 0.125', dict(o=o))
        out.append((f'{name} +=', h))

    if side == 'kep':
        for name in KEP_ATTR:
            val = {'kepler': k}.get(name, np.full(n, 0.5))
            if name == 'equinoctial':
                val = np.array([[1.2, 0.1, 0.2, 0.3, 0.1, 2.0*u]]*n).T
                val = val[:, 0] if n == 1 else val
            attr(name, val)
        for t in ('true', 'eccentric', 'mean', 'MEAN '):
            if t.lower().strip() != typ:
                out.append((f'type={t}',
                            lambda o, t=t: setattr(o, 'type', t)))
        out.append(('propagate', lambda o: o.propagate(0.3)))
        out.append(('propagate -', lambda o: o.propagate(-0.3)))
        out.append(('add(kepler)', lambda o: o.add(1, kepler=k[:, :1])))
        out.append(('add(a,e)', lambda o: o.add(1, a=1.0, e=0.3)))
    else:
        for name in CART_ATTR:
            val = {'cartesian': c, 'r': c[:3], 'v': c[3:]}.get(
                name, np.full(n, 0.5))
            attr(name, val)
        out.append(('add(cartesian)', lambda o: o.add(1, cartesian=c[:, :1])))
        out.append(('add(x,vy)', lambda o: o.add(1, x=1.0, vy=0.3)))
    for nm, inds in (('', None), ('[0]', [0]), ('-1', -1),
                     ('slice', slice(0, 1)),
                     ('mask', np.arange(n) % 2 == 0)):
        kw = {} if inds is None else dict(inds=inds)
        sub = slice(None) if inds is None else inds
        if side == 'kep':
            out.append((f'update({nm} kepler)', lambda o, kw=kw, s=sub:
                        o.update(kepler=k[:, s].copy(), **kw)))
            for key in pyorb.Orbit.KEPLER:
                out.append((f'update({nm} {key})', lambda o, kw=kw, key=key:
                            o.update(**{key: 0.5}, **kw)))
            out.append((f'update({nm} m,a)', lambda o, kw=kw:
                        o.update(m=0.2, a=0.5, **kw)))
            out.append((f'update({nm} all)', lambda o, kw=kw:
                        o.update(**{x: 0.5 for x in pyorb.Orbit.KEPLER},
                                 **kw)))
        else:
            out.append((f'update({nm} cartesian)', lambda o, kw=kw, s=sub:
                        o.update(cartesian=c[:, s].copy(), **kw)))
            for key in pyorb.Orbit.CARTESIAN:
                out.append((f'update({nm} {key})', lambda o, kw=kw, key=key:
                            o.update(**{key: 0.5}, **kw)))
            out.append((f'update({nm} m,x)', lambda o, kw=kw:
                        o.update(m=0.2, x=0.5, **kw)))
            out.append((f'update({nm} all)', lambda o, kw=kw:
                        o.update(**{x: 0.5 for x in pyorb.Orbit.CARTESIAN},
                                 **kw)))
    return out


PRE = {'kep': ['cartesian', 'x', 'vy', 'update([0],x,vy)', 'velocity',
               'update([-1],cartesian)'],
       'cart': ['kepler', 'e', 'mean_anomaly', 'update([-1],a,e)',
                'propagate+', 'type=mean', 'update([0],kepler)'],
       'both': []}
COMMON = ['read cartesian', 'read kepler', 'copy', 'slice',
          'calculate_kepler()', 'calculate_cartesian()',
          'mode--', 'settle--', 'mode-A', 'modeDA']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for i, (typ, deg, n) in enumerate((('true', False, 1),
                                       ('mean', True, 2),
                                       ('eccentric', False, 2))):
        for direct, auto in ((True, True), (False, True), (False, False)):
            for side in ('kep', 'cart', 'both'):
                for how in ('attribute', 'constructor'):
                    deep = 2 if not q else (
                        2 if (how == 'attribute' and i == 1
                              and not direct) else 1)
                    out.append(dict(n=n, deg=deg, typ=typ, direct=direct,
                                    auto=auto, side=side, how=how,
                                    depth=deep))
    return out


def run(task, ctx):
    n, deg, typ, side = (task[k] for k in ('n', 'deg', 'typ', 'side'))
    kw = {}
    orb, mod = hist.make(hist.KEP0[:, :n], deg, typ, task['direct'],
                         task['auto'], via='cart' if side == 'kep'
                         else 'kepler')
    ro = dict(kepler_read_only=side in ('kep', 'both'),
              cartesian_read_only=side in ('cart', 'both'))
    if task['how'] == 'attribute':
        for k, v in ro.items():
            setattr(orb, k, v)
    else:
        given = {'kepler': orb.kepler} if side != 'kep' \
            else {'cartesian': orb.cartesian}
        if np.isnan(list(given.values())[0]).any():
            given = {}
        new = pyorb.Orbit(hist.M0, G=hist.G, num=n, m=orb.m, degrees=deg,
                          type=typ, direct_update=task['direct'],
                          auto_update=task['auto'], **given, **ro)
        for k, v in ro.items():
            if getattr(new, k) is not v:
                ctx.fail('constructor ignores a protection', option=k)
        if given and not task['direct'] and not task['auto']:
            # nothing converted: the other side is blank
            (mod.kep if side == 'kep' else mod.cart)[:] = np.nan
        orb = new
    names = PRE[side] + COMMON
    ops = hist.alphabet(n, deg, names)
    ctx.sample(task=task, routes=[r[0] for r in routes('kep', n, deg, typ)][:6])
    sides = ['kep', 'cart'] if side == 'both' else [side]

    def look(ctx, o, m, hst, level):
        want = observe(o)
        for s in sides:
            for name, attempt in routes(s, n, deg, m.typ):
                p = hist.clone(o)
                ctx.transitions += 1
                ctx.ev()
                try:
                    attempt(p)
                except AttributeError:
                    pass
                except ValueError as exc:
                    # two reasons to refuse
                    if not (m.direct and ' m,' in name):
                        return f'{name}: refused with {type(exc).__name__}'
                except Exception as exc:
                    # refused, but not as documented
                    return (f'{name}: refused with {type(exc).__name__}')
                else:
                    return f'{name}: not refused'
                if not equal(observe(p), want):
                    return f'{name}: refused but something changed'
        return None

    msg = look(ctx, orb, mod, None, 0)
    if msg:
        ctx.fail(msg, history=[])
    # type=... is the same type again: permitted, nothing changes
    p = hist.clone(orb)
    p.type = typ
    if not equal(observe(p), observe(orb)):
        ctx.fail('same type again changes something')
    hist.explore(ctx, orb, mod, ops, task['depth'], look)
    # the other side can still be written, and protection can be lifted
    def again(ctx, o, m, hst, level):
        return None if m.manual else hist.observe_both(ctx, o, m, hst, level)
    hist.explore(ctx, orb, mod, ops, task['depth'], again)
    for k in ro:
        setattr(orb, k, False)
    for attr, val in (('kepler', hist._units(hist.KEP1[:, :n], deg)),
                      ('cartesian', hist.carts(hist.KEP1, n))):
        setattr(orb, attr, val)
        if not hist.equal(getattr(orb, attr), val):
            ctx.fail('protection cannot be lifted', attribute=attr)
