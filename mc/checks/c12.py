"""With updating disabled nothing is converted until asked."""
import numpy as np
import pyorb
from mc import hist, ref

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('all operation sequences over the alphabet up to the stated depth on '
        'real Orbit objects with both updating modes off, in lockstep with a '
        'reference model; every write is wrapped in a bitwise comparison of '
        'the other representation; requested recalculations address every '
        'form of index')
ASSUMPTIONS = [
    'written values in the domain of C10',
    'recalculated values compared as states to 1e-6']

LOOK = hist.GETTERS + ['apoapsis', 'num']
SMALL = ['print', 'read all', 'cartesian', 'kepler', 'e', 'vy', 'propagate+', 'type=mean',
         'mean_anomaly', 'update([0],a,e)', 'update([-1],cartesian)',
         'velocity', 'calc cart int', 'calc kep mask', 'calc kep all',
         'calc cart [1:]', 'read kepler', 'copy']
CART = {'cartesian', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'r', 'v', 'velocity'}
KEP = set(pyorb.Orbit.KEPLER) | {
    'kepler', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
    'equinoctial', 'period', 'propagate+', 'propagate-', 'type=true',
    'type=eccentric', 'type=mean'}


def side(name):
    if name in CART or name.endswith((',cartesian)', ',x,vy)')):
        return 'cart'
    if name in KEP or name.endswith((',kepler)', ',a,e)')):
        return 'kep'
    return None


def wrap(op):
    """Bitwise: a write of one side leaves the other, and calculations leave
    the unaddressed orbits; reads and copies change nothing."""
    s = side(op.name)

    def real(o):
        c, k, m = o.cartesian, o.kepler, o.m.copy()
        res = op.real(o)
        p = res if isinstance(res, pyorb.Orbit) else o
        if s != 'cart' and not np.array_equal(c, p.cartesian, equal_nan=True):
            raise AssertionError('Cartesian elements changed')
        if s != 'kep' and not np.array_equal(k, p.kepler, equal_nan=True):
            raise AssertionError('Keplerian elements changed')
        if not np.array_equal(m, p.m):
            raise AssertionError('mass changed')
        return res
    return hist.Op(op.name, real, op.model)


def ops_for(n, deg, names=None):
    ops = [wrap(o) for o in hist.alphabet(n, deg)
           if not o.name.startswith(('mode', 'settle', 'calculate'))]
    forms = dict(all=slice(None), int=n - 1, neg=-1, last=np.array([n - 1]),
                 mask=np.arange(n) % 2 == 0, none=[],
                 nobody=np.zeros(n, dtype=bool), dup=[0, 0],
                 back=slice(None, None, -1))
    forms['[1:]'] = slice(1, None)
    for fn, inds in forms.items():
        for which in ('cart', 'kep'):
            def real(o, inds=inds, which=which):
                c, k = o.cartesian, o.kepler
                if which == 'cart':
                    o.calculate_cartesian(inds)
                else:
                    o.calculate_kepler(inds)
                other = np.ones(o.num, dtype=bool)
                other[inds] = False
                src = (k, o.kepler) if which == 'cart' \
                    else (c, o.cartesian)
                dst = (c, o.cartesian) if which == 'cart' \
                    else (k, o.kepler)
                if not np.array_equal(*src, equal_nan=True):
                    raise AssertionError('the source of a recalculation '
                                         'changed')
                if not np.array_equal(dst[0][:, other], dst[1][:, other],
                                      equal_nan=True):
                    raise AssertionError('a recalculation changed orbits it '
                                         'was not asked for')
            ops.append(hist.Op(
                f'calc {which} {fn}', real,
                lambda m, inds=np.array(inds, dtype=int)
                if isinstance(inds, list) else inds, which=which:
                m.calculate(which, inds)))
    ops.append(hist.Op('calc cart default', lambda o: o.calculate_cartesian(),
                       lambda m: m.calculate('cart')))
    ops.append(hist.Op('calc kep default', lambda o: o.calculate_kepler(),
                       lambda m: m.calculate('kep')))
    # nothing that only looks at the orbits converts anything
    ops.append(wrap(hist.Op('print', lambda o: [str(o), repr(o), len(o)][3:],
                            lambda m: None)))
    ops.append(wrap(hist.Op('read all', lambda o: [
        getattr(o, x) for x in LOOK][0:0], lambda m: None)))
    ops.append(wrap(hist.Op('iterate', lambda o: [
        (p.cartesian, p.kepler, str(p)) for p in o][0:0], lambda m: None)))
    if names:
        by = {o.name: o for o in ops}
        ops = [by[x] for x in names]
    return ops


def tasks(tier):
    q = tier == 'quick'
    out = []
    for typ, deg, n in (('true', False, 2), ('mean', True, 3), ('mean', False, 1),
                        ('eccentric', False, 2)):
        for start in ('both', 'cart', 'kep', 'disagree'):
            base = dict(n=n, deg=deg, typ=typ, start=start)
            nf = len(ops_for(n, deg))
            out += [dict(base, small=False, depth=2 if q else 3,
                         first=g.tolist())
                    for g in np.array_split(range(nf), 1 if q else 6)]
            out += [dict(base, small=True, depth=3 if q else 4,
                         first=[k]) for k in range(len(SMALL))
                    if not q or (start == 'disagree' and typ != 'eccentric')]
            # one deeper level over the operations that are not only reads
            out += [dict(base, small=True, drop=3, depth=5, first=[k])
                    for k in range(len(SMALL) - 3)
                    if not q and start in ('both', 'disagree') and n == 2]
    return out


def observe(ctx, orb, mod, hst, level):
    return hist.observe_both(ctx, orb, mod, hst, level) or (
        hist.observe_getters(ctx, orb, mod, hst, level)
        if level <= 1 else None)


def run(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ops = ops_for(n, deg, SMALL[task.get('drop', 0):] if task['small'] else None)
    start = task['start']
    orb, mod = hist.make(hist.KEP0[:, :n], deg, typ, start == 'both',
                         False, via='cart' if start == 'cart' else 'kepler')
    orb.direct_update = orb.auto_update = False
    mod.settle()
    mod.direct = mod.auto = False
    mod.lazy = mod.hidden = False
    if start == 'disagree':
        c = hist.carts(hist.KEP1, n)
        orb.cartesian = c
        mod.write_cart(range(6), c)
    elif start == 'cart':
        # never converted: nothing known about the other side
        mod.kep[:] = np.nan
        mod.stale[:] = 2
    elif start == 'kep':
        mod.cart[:] = np.nan
        mod.stale[:] = 1
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    msg = observe(ctx, orb, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    hist.explore(ctx, orb, mod, ops, task['depth'], observe,
                 first=task['first'])
