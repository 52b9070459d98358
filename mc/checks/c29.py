"""C29: a refused request changes nothing."""
import copy
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from .. import hist, calls
from .c13 import observe, equal

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = ('every history of permitted operations up to the stated depth (all '
        'updating modes, anomaly types) x every unusable request from a table '
        'covering every public operation: must raise and leave everything '
        'observable, and the arguments, as before; followed by a usable '
        'request judged by the reference model; every conversion x malformed '
        'inputs')
ASSUMPTIONS = ['unusable: wrong shape, wrong type, mixed keys, unknown '
               'anomaly type, index out of range, protected elements']

PRE = ['cartesian', 'kepler', 'x', 'e', 'mean_anomaly', 'propagate+',
       'type=mean', 'type=eccentric', 'update([0],x,vy)', 'update([-1],a,e)',
       'update([0],kepler)', 'update([-1],cartesian)', 'velocity',
       'read cartesian', 'read kepler', 'copy', 'mode-A', 'mode--', 'modeDA']


def requests(n, deg, direct):
    """(name, attempt(orbit, *arguments), make arguments)."""
    out = []
    k = hist._units(hist.KEP1[:, :n], deg)
    c = hist.carts(hist.KEP1, n)
    bad = {
        'long': lambda: np.full(n + 1, 0.5),
        'long list': lambda: [0.5]*(n + 1),
        'matrix': lambda: np.full((2, n), 0.5),
        'cube': lambda: np.full((2, 3, n), 0.5),
        'text': lambda: 'x',
        'texts': lambda: np.array(['p', 'q'][:n] + ['r']*(n - 2)),
        'dict': lambda: {'a': 1.0},
        'object': lambda: object(),
    }
    if n > 1:
        bad['part text'] = lambda: ['2'] + ['b']*(n - 1)
        bad['part complex'] = lambda: [0.5]*(n - 1) + [1j]
        bad['part object'] = lambda: np.array([0.5]*(n - 1) + [{}],
                                              dtype=object)

    def put(name, f, *mk):
        out.append((name, f, mk))

    comps = pyorb.Orbit.KEPLER + pyorb.Orbit.CARTESIAN
    for name in comps + ['true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
                         'period', 'mean_motion', 'velocity']:
        for b, mk in bad.items():
            if b == 'part complex' and name not in comps:
                continue
            put(f'{name}={b}', lambda o, v, a=name: setattr(o, a, v), mk)
    vec = {
        'five': lambda: np.arange(1.0, 6), 'seven': lambda: np.arange(1.0, 8),
        'rows5': lambda: np.ones((5, n)), 'rows7': lambda: np.ones((7, n)),
        'cols': lambda: np.ones((6, n + 1)),
        'transposed': lambda: np.ones((n + 2, 6)),
        'cube': lambda: np.ones((6, n, 2)), 'text': lambda: 'abc',
        'texts': lambda: np.array(['a']*6), 'dict': lambda: {'a': 1},
        'ragged': lambda: [[1.0], [2.0, 3.0]], 'object': lambda: object(),
        'six texts': lambda: ['1', 'b', 'c', 'd', 'e', 'f'],
    }
    for side in ('cartesian', 'kepler'):
        for b, mk in vec.items():
            put(f'{side}={b}', lambda o, v, a=side: setattr(o, a, v), mk)
            put(f'update({side}={b})',
                lambda o, v, a=side: o.update(**{a: v}), mk)
            put(f'add({side}={b})',
                lambda o, v, a=side: o.add(n, **{a: v}), mk)
            if n > 1 and b not in ('cols', 'transposed'):
                put(f'update([0], {side}={b})',
                    lambda o, v, a=side: o.update(inds=[0], **{a: v}), mk)
            put(f'Orbit({side}={b})', lambda o, v, a=side: pyorb.Orbit(
                1.0, num=n, direct_update=direct, **{a: v}), mk)
    for side in ('r', 'v'):
        for b, mk in {
                'two': lambda: np.ones(2), 'four': lambda: np.ones(4),
                'rows': lambda: np.ones((2, n)),
                'cols': lambda: np.ones((3, n + 1)),
                'cube': lambda: np.ones((3, n, 2)), 'text': lambda: 'x',
                'dict': lambda: {}, 'texts': lambda: ['p', 'q', 'r'],
                'part text': lambda: ['1', 'q', 'r'],
        }.items():
            put(f'{side}={b}', lambda o, x, a=side: setattr(o, a, x), mk)
    for b, mk in {'five': lambda: np.ones(5), 'text': lambda: 'x',
                  'list': lambda: [1.0]*6, 'rows': lambda: np.ones((5, n)),
                  'cols': lambda: np.ones((6, n + 1))*0.1,
                  'cube': lambda: np.ones((6, n, 2))*.1}.items():
        put(f'equinoctial={b}', lambda o, x: setattr(o, 'equinoctial', x), mk)
    for t in ('foo', '', 'truely', 'True anomaly', 5, None, ['true'], 'mea'):
        put(f'type={t!r}', lambda o, v: setattr(o, 'type', v),
            lambda t=t: t)
    # keyed updates: one usable value next to an unusable one, in both orders
    for b, mk in bad.items():
        if b == 'texts':
            continue
        for good, other in (('a', 'e'), ('e', 'a'), ('i', 'anom'), ('x', 'vz'),
                            ('vy', 'x'), ('anom', 'omega')):
            put(f'update({good}, {other}={b})',
                lambda o, v, g=good, h=other: o.update(**{g: 0.7, h: v}), mk)
            put(f'update({other}={b}, {good})',
                lambda o, v, g=good, h=other: o.update(**{h: v, g: 0.7}), mk)
            put(f'update([0], {good}, {other}={b})',
                lambda o, v, g=good, h=other: o.update(
                    inds=[0], **{g: 0.7, h: v}), mk)
            put(f'add({good}, {other}={b})',
                lambda o, v, g=good, h=other: o.add(
                    n, **{g: 0.7, h: v}), mk)
            put(f'Orbit({good}, {other}={b})',
                lambda o, v, g=good, h=other: pyorb.Orbit(
                    1.0, num=n, **{g: 0.7, h: v}), mk)
        put(f'add(m={b})', lambda o, v: o.add(n, m=v), mk)
        put(f'add(m={b}, kepler)', lambda o, v, q: o.add(n, m=v, kepler=q),
            mk, lambda: k.copy())
        put(f'update(m={b}, x)', lambda o, v: o.update(m=v, x=0.7), mk)
        put(f'update(x, m={b})', lambda o, v: o.update(x=0.7, m=v), mk)
        put(f'Orbit(m={b})', lambda o, v: pyorb.Orbit(1.0, num=n, m=v), mk)
        put(f'propagate({b})', lambda o, v: o.propagate(v), mk)
    # mixed keys
    for kk, ck in itertools.product(pyorb.Orbit.KEPLER[::2] + ['e', 'anom'],
                                    ['x', 'vz', 'vy']):
        put(f'update({kk},{ck})', lambda o, a, b, p=kk, q=ck:
            o.update(**{p: a, q: b}), lambda: np.full(n, 0.5),
            lambda: np.full(n, 0.6))
        put(f'update([0],{ck},{kk})', lambda o, p=kk, q=ck:
            o.update(inds=[0], **{q: 0.5, p: 0.6}))
        put(f'add({kk},{ck})', lambda o, p=kk, q=ck:
            o.add(1, **{p: 0.5, q: 0.6}))
        put(f'add(2,{ck},{kk},m)', lambda o, p=kk, q=ck:
            o.add(2, m=0.1, **{q: 0.5, p: 0.6}))
        put(f'Orbit({kk},{ck})', lambda o, p=kk, q=ck:
            pyorb.Orbit(1.0, **{p: 0.5, q: 0.6}))
    # indices
    for idx in (n, -n - 1, 99, [0, n], [n, 0], np.array([n]),
                [0, -n - 1], [-n - 1, n - 1], (0, -n - 1), np.array([0, 0, n]), 'a', None,
                np.array([0.5]), 1.5, np.ones(n + 1, dtype=bool), {}, [[]]):
        if idx is None or (isinstance(idx, list) and idx == [[]]):
            continue
        name = repr(idx)
        mk = lambda idx=idx: copy.deepcopy(idx)
        put(f'update({name}, a)', lambda o, i: o.update(inds=i, a=0.7), mk)
        put(f'update({name}, x, vy)', lambda o, i: o.update(
            inds=i, x=0.7, vy=0.3), mk)
        put(f'update({name}, kepler)', lambda o, i, v: o.update(
            inds=i, kepler=v), mk, lambda: k[:, 0].copy())
        put(f'update({name}, cartesian)', lambda o, i, v: o.update(
            inds=i, cartesian=v), mk, lambda: c[:, 0].copy())
        put(f'orbit[{name}]', lambda o, i: o[i], mk)
        put(f'calculate_cartesian({name})',
            lambda o, i: o.calculate_cartesian(i), mk)
        put(f'calculate_kepler({name})', lambda o, i: o.calculate_kepler(i),
            mk)
        if not isinstance(idx, (dict,)):
            put(f'delete({name})', lambda o, i: o.delete(i), mk)
    put('add(-1)', lambda o: o.add(-1, a=1.0))
    put('add(-1, m)', lambda o: o.add(-1, m=0.5))
    put('add(text)', lambda o: o.add('x'))
    put('add(1.5)', lambda o: o.add(1.5))
    put('allocate(-1)', lambda o: o.allocate(-1))
    put('allocate(text)', lambda o: o.allocate('x'))
    put('allocate(1.5)', lambda o: o.allocate(1.5))
    put('Orbit(type)', lambda o: pyorb.Orbit(1.0, type='foo'))
    if direct:
        put('update(m)', lambda o: o.update(m=0.3))
        put('update(m,a)', lambda o: o.update(m=0.3, a=0.7))
        put('update([0],m,x)', lambda o: o.update(inds=[0], m=0.3, x=0.7))
    return out


def protected(n, deg):
    """Requests mixing protected and unprotected elements."""
    k = hist._units(hist.KEP1[:, :n], deg)
    return [
        ('a', 'kro', lambda o: setattr(o, 'a', 1.0)),
        ('update(a,e)', 'kro', lambda o: o.update(a=1.0, e=0.2)),
        ('update([0],x,a)', 'kro', lambda o: o.update([0], x=1.0, a=0.2)),
        ('add(a)', 'kro', lambda o: o.add(1, a=1.0)),
        ('add(kepler)', 'kro', lambda o: o.add(n, m=0.4, kepler=k)),
        ('type', 'kro', lambda o: setattr(
            o, 'type', 'mean' if o.type != 'mean' else 'true')),
        ('propagate', 'kro', lambda o: o.propagate(1.0)),
        ('equinoctial', 'kro', lambda o: setattr(
            o, 'equinoctial', o.equinoctial)),
        ('x', 'cro', lambda o: setattr(o, 'x', 1.0)),
        ('update(x,vy)', 'cro', lambda o: o.update(x=1.0, vy=0.2)),
        ('add(x)', 'cro', lambda o: o.add(2, x=1.0)),
        ('velocity', 'cro', lambda o: setattr(o, 'velocity', 1.0)),
    ]


def tasks(tier):
    out = []
    big = tier != 'quick'
    for n, deg, typ, mode in ((2, False, 'true', 'DA'), (2, False, 'mean', '-A'),
                              (1, False, 'true', '-A'), (2, True, 'eccentric',
                                                         '-A'),
                              (2, False, 'true', '--'), (3, True, 'mean',
                                                         'DA')):
        for p in [None] + PRE:
            if mode != '--' and p == 'modeDA' and not big:
                continue
            out.append(dict(kind='orbit', n=n, deg=deg, type=typ, mode=mode,
                            first=p, depth=2 if big else 1))
    out += [dict(kind='functions', deg=d) for d in (False, True)]
    return out


def run(task, ctx):
    if task['kind'] == 'functions':
        return functions(task, ctx)
    n, deg = task['n'], task['deg']
    mode = task['mode']
    D, A = mode[0] == 'D', mode[1] == 'A'
    orb, mod = hist.make(hist.KEP0[:, [0, 2, 1][:n]], deg=deg,
                         typ=task['type'], direct=D, auto=A)
    if mode == '--':
        orb.calculate_cartesian()
        mod.calculate('cart')
    names = PRE if n > 1 else [p for p in PRE]
    ops = {o.name: o for o in hist.alphabet(n, deg, names)}
    hists = [[task['first']]] if task['first'] else [[]]
    if task['depth'] > 1 and task['first']:
        hists += [[task['first'], q] for q in names]
    for h in hists:
        o, m = hist.clone(orb), mod.clone()
        try:
            for name in h:
                ops[name].model(m)
                r = ops[name].real(o)
                if isinstance(r, pyorb.Orbit):
                    o = r
        except hist.Invalid:
            ctx.count('pruned_outside_domain')
            continue
        ctx.states += 1
        attempts(ctx, o, m, h, task)
        if ctx.nfail > 60:
            return
    ctx.sample(**task)


def attempts(ctx, o, m, h, task):
    n, deg = m.n, m.deg
    before = observe(o)
    u = 180/np.pi if deg else 1.0
    follow = {x.name: x for x in hist.alphabet(n, deg, ['kepler', 'x', 'e'])}
    reqs = [(a, f, mk, None) for a, f, mk in requests(n, deg, m.direct)]
    reqs += [(a, f, (), side) for a, side, f in protected(n, deg)]
    for name, f, mk, side in reqs:
        t = hist.clone(o)
        if side == 'kro':
            t.kepler_read_only = True
        elif side == 'cro':
            t.cartesian_read_only = True
        ref_ = before if side is None else observe(t)
        args = [g() for g in mk]
        frozen = calls.freeze(args)
        ctx.ev()
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome(name, n, deg, m.typ, m.direct, m.auto)
        case = dict(request=name, history=h, n=n, degrees=deg, type=m.typ,
                    direct=m.direct, auto=m.auto)
        try:
            f(t, *args)
        except Exception:
            pass
        else:
            ctx.fail('an unusable request is accepted', **case)
            continue
        if calls.freeze(args) != frozen:
            ctx.fail('a refused request changes its arguments', **case)
        try:
            now = observe(t)
        except Exception as exc:
            ctx.fail('the orbit is unusable after a refused request',
                     error=repr(exc), **case)
            continue
        if not equal(ref_, now):
            ctx.fail('a refused request changes the orbit', **case)
            continue
        if side is None and not m.manual and not m.hidden:
            # a usable request still does what it should
            for fo in ('kepler', 'x') if name[:2] in ('up', 'ad') \
                    else ('x',):
                t2, m2 = hist.clone(t), m.clone()
                try:
                    follow[fo].model(m2)
                except hist.Invalid:
                    continue
                follow[fo].real(t2)
                msg = hist.observe_both(ctx, t2, m2, None, 0)
                if msg:
                    ctx.fail('after a refused request: ' + msg, then=fo,
                             **case)


def functions(task, ctx):
    deg = task['deg']
    kw = dict(degrees=deg)
    k = np.array([[1.2, 0.3, 0.4, 0.5, 0.6, 0.7]]*3).T
    c = calls.CART[:, :3].copy()
    mats = [('kep_to_cart', k, True), ('cart_to_kep', c, True),
            ('kep_to_equi', k, False), ('equi_to_kep', k*0.3, False),
            ('cart_to_equi', c, True), ('equi_to_cart', k*0.3, True)]
    for name, good, has_mu in mats:
        f = getattr(kepler, name)
        bad = {'list': good[:, 0].tolist(), 'lists': good.tolist(),
               'tuple': tuple(good[:, 0]), 'none': None, 'text': 'abc',
               'number': 1.0, 'five': good[:5, 0], 'rows5': good[:5],
               'rows3': good[:3], 'transposed': good.T.copy(),
               'empty': np.zeros(0), 'scalar': np.array(1.0)}
        if name not in ('kep_to_equi', 'equi_to_kep'):
            bad['seven'] = np.append(good[:, 0], 1.0)
            bad['rows7'] = np.vstack([good, good[:1]])
        for b, x in bad.items():
            frozen = calls.freeze([x])
            ctx.ev()
            ctx.outcome(name, b, deg)
            try:
                got = f(x, **kw, **(dict(mu=1.0) if has_mu else {}))
            except Exception:
                if calls.freeze([x]) != frozen:
                    ctx.fail('a refused conversion changes its argument',
                             f=name, bad=b)
                continue
            ctx.fail('a malformed input is converted', f=name, bad=b,
                     got=got, degrees=deg)
        if has_mu:
            for b, mu in {'long': np.ones(4), 'text': 'x',
                          'list of four': [1.0]*4}.items():
                x = good.copy()
                frozen = calls.freeze([x, mu])
                ctx.ev()
                ctx.outcome(name, 'mu', b, deg)
                try:
                    f(x, mu=mu, **kw)
                except Exception:
                    if calls.freeze([x, mu]) != frozen:
                        ctx.fail('a refused conversion changes its argument',
                                 f=name, bad='mu ' + b)
                    continue
                ctx.fail('a malformed gravitational parameter is accepted',
                         f=name, bad=b)
    for a, b in itertools.permutations(('true', 'eccentric', 'mean'), 2):
        f = getattr(kepler, f'{a}_to_{b}')
        for bad, (x, e) in {
                'lengths': (np.ones(3), np.full(2, 0.3)),
                'lengths mixed': (np.ones(3), np.array([0.3, 1.5])),
                'text': ('x', 0.3), 'text e': (1.0, 'x'),
                'texts': (np.array(['p', 'q']), np.array([0.1, 1.2])),
                'none': (None, 0.3), 'shapes': (np.ones((2, 3)),
                                                np.full((3, 3), 0.3)),
                'shapes hyperbolic': (np.ones((2, 3)), np.full((3, 3), 1.3)),
                'turned': (np.ones((2, 3)), np.full((3, 2), 0.3)),
                'turned hyperbolic': (np.ones((2, 3)), np.full((3, 2), 1.3)),
                'turned parabolic': (np.ones((2, 3)), np.ones((3, 2))),
                'flat': (np.ones((2, 2)), np.full(4, 0.3)),
                'folded': (np.ones(4), np.full((2, 2), 1.3)),
                'column': (np.ones(3), np.full((3, 1), 0.3)),
        }.items():
            frozen = calls.freeze([x, e])
            ctx.ev()
            ctx.outcome(f.__name__, bad, deg)
            try:
                got = f(x, e, **kw)
            except Exception:
                if calls.freeze([x, e]) != frozen:
                    ctx.fail('a refused conversion changes its argument',
                             f=f.__name__, bad=bad)
                continue
            ctx.fail('a malformed anomaly is converted', f=f.__name__,
                     bad=bad, got=got)
    for x, y in ((k, k[:, 0]), (k[:, 0], k), (k, k)):
        ctx.ev()
        try:
            kepler.kep_equivalent(x, y)
        except ValueError:
            continue
        ctx.fail('matrices of elements are compared')
    ctx.sample(deg=deg)
