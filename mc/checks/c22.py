"""C22: a conversion that fails part-way is never remembered as done."""
import numpy as np
from .. import hist, fault, ref

PROPERTY = 'C22'
LEVEL = 'fault_enumeration'
RULE = ('every line executed by the conversion functions is a fault point: one '
        'execution per (pending state, operation that converts, fault point, '
        'kind of error), and per pair of fault points in two successive '
        'attempts; then both representations are read in both orders and '
        'compared with the reference model')
ASSUMPTIONS = ['an error is raised between two source lines of the conversion '
               'functions', 'updating on access']

PEND = ['kep', 'cart', 'mix', 'one-kep', 'one-cart', 'fresh']
READS = ['cartesian', 'kepler'] + hist.GETTERS
SOME = ['cartesian', 'kepler', 'x', 'v', 'a', 'anom', 'true_anomaly',
        'mean_anomaly', 'period', 'speed', 'equinoctial']
CALLS = {
    'calculate_cartesian()': lambda o: o.calculate_cartesian(),
    'calculate_kepler()': lambda o: o.calculate_kepler(),
    'calculate_cartesian([0])': lambda o: o.calculate_cartesian([0]),
    'calculate_kepler([1])': lambda o: o.calculate_kepler(np.array([1])),
    'calc_true_anomaly': lambda o: o.calc_true_anomaly(),
    'calc_mean_anomaly': lambda o: o.calc_mean_anomaly(),
    'calc_eccentric_anomaly': lambda o: o.calc_eccentric_anomaly(),
}
WRITES = ['type=true', 'type=eccentric', 'type=mean', 'propagate+', 'x', 'a',
          'anom', 'v', 'mean_anomaly', 'true_anomaly', 'eccentric_anomaly',
          'period', 'velocity', 'equinoctial', 'update([0],a,e)',
          'update([-1],x,vy)', 'update([0],kepler)']


def configs(tier):
    out = [(2, t, False) for t in ('true', 'eccentric', 'mean')]
    out += [(2, 'mean', True), (1, 'true', True)]
    if tier != 'quick':
        out += [(2, 'true', True), (2, 'eccentric', True), (1, 'mean', False),
                (3, 'true', False), (3, 'mean', False),
                (3, 'eccentric', True)]
    return out


def tasks(tier):
    out = []
    for cfg in configs(tier):
        for p in PEND:
            if cfg[0] == 1 and p in ('mix', 'one-kep', 'one-cart'):
                continue
            for part in ('reads', 'writes'):
                out.append(dict(cfg=cfg, pend=p, part=part,
                                hard=tier != 'quick'))
        if cfg[0] == 2:
            out.append(dict(cfg=cfg, pend='kep', part='double',
                            step=4 if tier == 'quick' else 1))
            out.append(dict(cfg=cfg, pend='cart', part='double',
                            step=4 if tier == 'quick' else 1))
    return out


def build(cfg, pend):
    n, typ, deg = cfg
    kep = hist.KEP0[:, [0, 2, 1][:n]]
    via = 'cartesian' if pend == 'cart' else 'kepler'
    orb, mod = hist.make(kep, deg=deg, typ=typ, direct=False, auto=True,
                         via=via)
    k1 = hist._units(hist.KEP1[:, :n], deg)
    c1 = hist.carts(hist.KEP1, n)
    if pend != 'fresh':
        # converted once, then written again: stale values are present
        orb.cartesian, orb.kepler
        mod.settle()
        mod.lazy = True
    if pend == 'kep':
        orb.kepler = k1.copy()
        mod.write_kep(range(6), k1)
    elif pend == 'cart':
        orb.cartesian = c1.copy()
        mod.write_cart(range(6), c1)
    elif pend == 'mix':
        orb.update(inds=[0], cartesian=c1[:, :1].copy())
        mod.write_cart(range(6), c1[:, :1], [0])
        orb.update(inds=[1], kepler=k1[:, 1:2].copy())
        mod.write_kep(range(6), k1[:, 1:2], [1])
    elif pend == 'one-kep':
        orb.update(inds=[1], kepler=k1[:, 1:2].copy())
        mod.write_kep(range(6), k1[:, 1:2], [1])
    elif pend == 'one-cart':
        orb.update(inds=[0], cartesian=c1[:, :1].copy())
        mod.write_cart(range(6), c1[:, :1], [0])
    return orb, mod


def after(ctx, orb, mods, case):
    """Later reads agree with (one of) the models."""
    msg = None
    for m in mods:
        msg = hist.observe_both(ctx, orb, m, None, 0)
        if msg is None:
            return True
    ctx.fail('after an interrupted conversion: ' + msg, **case)
    return False


def enumerate_faults(ctx, orb, call, mods, case, hard):
    """One execution per fault point of call on a copy of orb."""
    kinds = [fault.Fault] + ([fault.HardFault] if hard else [])
    total, err = fault.run(lambda: call(hist.clone(orb)), 0)
    if err is not None:
        ctx.fail('the operation fails without a fault', error=repr(err),
                 **case)
        return
    for n in range(1, total + 1):
        for exc in kinds:
            o = hist.clone(orb)
            _, err = fault.run(lambda: call(o), n, exc)
            ctx.ev()
            ctx.count('fault_points')
            c = dict(case, fault=str(err), point=n)
            ctx.outcome(case['op'], case['pend'], str(err))
            if err is None:
                ctx.count('swallowed')
            elif not isinstance(err, exc):
                # turned into another error: still an interrupted conversion
                ctx.count('translated')
            if not after(ctx, o, mods, c):
                if ctx.nfail > 40:
                    return
                continue
            if n % 5 == 0:
                # a second write after the interruption
                o2 = hist.clone(o)
                o2.auto_update = True
                fixed(ctx, o2, mods[0], c)


def fixed(ctx, o, mod, case):
    """Writing a whole representation after the fault."""
    n = mod.n
    k = hist._units(hist.KEP0[:, :n], mod.deg)
    m = mod.clone()
    typ = o.type
    m.typ = typ
    if typ != 'true':
        # same numbers, other meaning
        k[5] = k[5]/3
    try:
        m.write_kep(range(6), k)
    except hist.Invalid:
        return
    o.kepler = k
    after(ctx, o, [m], dict(case, then='kepler written'))


def run(task, ctx):
    cfg = tuple(task['cfg'])
    orb, mod = build(cfg, task['pend'])
    n, typ, deg = cfg
    base = dict(n=n, type=typ, degrees=deg, pend=task['pend'])
    part = task['part']
    if part == 'reads':
        for name in READS if task['hard'] or typ == 'eccentric' else SOME:
            enumerate_faults(ctx, orb, lambda o, x=name: getattr(o, x), [mod],
                             dict(base, op='read ' + name), task['hard'])
        for name, f in CALLS.items():
            if n == 1 and '[1]' in name:
                continue
            enumerate_faults(ctx, orb, f, [mod], dict(base, op=name),
                             task['hard'])
    elif part == 'writes':
        for op in hist.alphabet(n, deg, WRITES):
            new = mod.clone()
            try:
                op.model(new)
            except hist.Invalid:
                continue
            enumerate_faults(ctx, orb, op.real, [mod, new],
                             dict(base, op='write ' + op.name), task['hard'])
    else:
        # two attempts, each interrupted
        target = 'cartesian' if task['pend'] == 'kep' else 'kepler'
        for first in (target, 'period', 'calc'):
            def call(o):
                if first == 'calc':
                    (o.calculate_cartesian if target == 'cartesian'
                     else o.calculate_kepler)()
                else:
                    getattr(o, first)
            total, _ = fault.run(lambda: call(hist.clone(orb)), 0)
            for i in range(1, total + 1, task['step']):
                o = hist.clone(orb)
                fault.run(lambda: call(o), i)
                again, _ = fault.run(
                    lambda: getattr(hist.clone(o), target), 0)
                for j in range(1, again + 1, task['step']):
                    o2 = hist.clone(o)
                    _, err = fault.run(lambda: getattr(o2, target), j)
                    ctx.ev()
                    ctx.count('fault_pairs')
                    ctx.outcome('double', first, i, j)
                    if not after(ctx, o2, [mod],
                                 dict(base, op='twice ' + first,
                                      points=[i, j])):
                        if ctx.nfail > 40:
                            return
    ctx.sample(**base, op=part)
