"""C30: every way of entering the same orbit gives the same orbit."""
import itertools
import numpy as np
import pyorb
from pyorb import Orbit
from .. import hist, ref

PROPERTY = 'C30'
LEVEL = 'model_checking'
RULE = ('all 720 orders of assigning the six elements one property at a time '
        'x side x updating mode x number of orbits x starting content; all '
        'partitions of the six elements into keyed updates and assignments; '
        'all entry routes (constructor, bulk update, vector and array '
        'assignment, appended orbits, added one at a time, slices merged) x '
        'argument forms; the same values for all orbits at once; everything observable compared with the reference '
        'model and with each other')
ASSUMPTIONS = ['elements away from the borders between orbit kinds while '
               'partially assigned are not judged, only the final values']

MODES = {'DA': (True, True), 'D-': (True, False), '-A': (False, True),
         '--': (False, False)}
K = Orbit.KEPLER
C = Orbit.CARTESIAN


def tasks(tier):
    big = tier != 'quick'
    out = []
    for side in ('kep', 'cart'):
        for mode in MODES:
            for n, deg, typ in ((1, False, 'true'), (2, True, 'mean'),
                                (2, False, 'eccentric')):
                for start in ('blank', 'kep', 'cart'):
                    if mode in ('--', 'D-') and start == 'cart' and not big:
                        continue
                    out.append(dict(kind='orders', side=side, mode=mode, n=n,
                                    deg=deg, type=typ, start=start,
                                    step=1 if big or n == 1 else 3))
    for mode in MODES:
        for deg in (False, True):
            for typ in ('true', 'eccentric', 'mean'):
                out.append(dict(kind='routes', mode=mode, deg=deg, type=typ))
                out.append(dict(kind='common', mode=mode, deg=deg, type=typ))
                out.append(dict(kind='partitions', mode=mode, deg=deg,
                                type=typ, big=big))
    return out


def target(side, n, deg, typ, base=None):
    """The values to enter (n columns) and the model holding them."""
    kep = (hist.KEP0 if base is None else base)[:, [0, 2, 4, 1][:n]]
    k, c = hist._initial(np.ascontiguousarray(kep).tobytes(), n, deg, typ)
    return (k if side == 'kep' else c).copy()


def model(side, vals, n, deg, typ, mode, m):
    mod = hist.RefOrbit(n, deg, typ, *MODES[mode])
    mod.m = np.array(m, dtype=float)
    if side == 'kep':
        mod.write_kep(range(6), vals)
    else:
        mod.write_cart(range(6), vals)
    return mod


def blank(n, deg, typ, mode, **kw):
    D, A = MODES[mode]
    return Orbit(hist.M0, G=hist.G, num=n, degrees=deg, type=typ,
                 direct_update=D, auto_update=A, **kw)


def settle(orb, side, mode):
    """In manual mode nothing has been converted yet: ask for it."""
    if mode == '--':
        if side == 'kep':
            orb.calculate_cartesian()
        else:
            orb.calculate_kepler()


def judge(ctx, orb, side, mod, mode, **case):
    ctx.ev()
    o = hist.clone(orb)
    settle(o, side, mode)
    m = mod
    if mode == '--':
        m = mod.clone()
        m.calculate('cart' if side == 'kep' else 'kep')
    msg = hist.observe_both(ctx, o, m, None, 0)
    if msg:
        ctx.fail('entered values: ' + msg, side=side, mode=mode, **case)
        return False
    if not np.array_equal(o.m, m.m) or len(o) != m.n:
        ctx.fail('entered masses or number of orbits differ', side=side,
                 mode=mode, **case)
        return False
    return True


def run(task, ctx):
    globals()['run_' + task['kind']](task, ctx)


def run_orders(task, ctx):
    side, mode, n = task['side'], task['mode'], task['n']
    deg, typ = task['deg'], task['type']
    vals = target(side, n, deg, typ)
    names = K if side == 'kep' else C
    m = hist.MASS[:n]
    D, A = MODES[mode]
    if task['start'] == 'blank':
        start = blank(n, deg, typ, mode, m=m)
    else:
        # other values are present, conversions pending where possible
        start, _ = hist.make(hist.KEP0[:, [4, 0, 2][:n]]*0.9, deg=deg,
                             typ=typ, direct=D, auto=A,
                             via='kepler' if task['start'] == 'kep'
                             else 'cartesian')
    mod = model(side, vals, n, deg, typ, mode, start.m)
    for num, order in enumerate(itertools.permutations(range(6))):
        if num % task['step']:
            continue
        o = hist.clone(start)
        for r in order:
            v = vals[r].copy()
            setattr(o, names[r], float(v[0]) if n == 1 and num % 2 else v)
        ctx.states += 1
        ctx.transitions += 6
        ctx.traces += 1
        ctx.outcome(side, mode, n, task['start'], order)
        if not judge(ctx, o, side, mod, mode, order=[names[r] for r in order],
                     n=n, degrees=deg, type=typ, start=task['start']):
            if ctx.nfail > 20:
                return
        # the same keys, in this order, in one bulk update
        if num % 4 == 0:
            o = hist.clone(start)
            o.update(**{names[r]: vals[r].copy() for r in order})
            judge(ctx, o, side, mod, mode, route='update(keys)',
                  order=[names[r] for r in order], n=n, start=task['start'])
    ctx.sample(**task)


def routes(side, vals, n, deg, typ, mode, m):
    """(name, build) of every documented way to enter all orbits."""
    D, A = MODES[mode]
    full = 'kepler' if side == 'kep' else 'cartesian'
    names = K if side == 'kep' else C
    kw = dict(G=hist.G, degrees=deg, type=typ, direct_update=D,
              auto_update=A)
    keys = {x: vals[j] for j, x in enumerate(names)}
    out = []

    def put(name, f):
        out.append((name, f))

    def assign(v):
        def f():
            o = blank(n, deg, typ, mode, m=m)
            setattr(o, full, v)
            return o
        return f
    put('array', assign(vals.copy()))
    put('fortran array', assign(np.asfortranarray(vals)))
    put('nested list', assign(vals.tolist()))
    put('tuple of lists', assign(tuple(vals.tolist())))
    put('constructor array', lambda: Orbit(hist.M0, num=n, m=m,
                                           **{full: vals.copy()}, **kw))
    put('constructor nested list', lambda: Orbit(
        hist.M0, num=n, m=m, **{full: vals.tolist()}, **kw))
    put('constructor keys', lambda: Orbit(hist.M0, num=n, m=m, **keys, **kw))
    put('constructor key lists', lambda: Orbit(
        hist.M0, num=n, m=list(m), **{x: v.tolist() for x, v in keys.items()},
        **kw))

    def upd(**args):
        def f():
            o = blank(n, deg, typ, mode, m=m)
            o.update(**args)
            return o
        return f
    put('update array', upd(**{full: vals.copy()}))
    put('update list', upd(**{full: vals.tolist()}))
    put('update keys', upd(**keys))
    put('update slice', upd(inds=slice(None), **{full: vals.copy()}))
    put('update all indices', upd(inds=np.arange(n), **{full: vals.copy()}))
    put('update mask keys', upd(inds=np.ones(n, bool), **keys))

    def by_one(how):
        def f():
            o = blank(n, deg, typ, mode, m=m)
            order = range(n) if how != 'back' else range(n)[::-1]
            for j in order:
                if how == 'keys':
                    o.update(inds=[j], **{x: vals[r, j]
                                          for r, x in enumerate(names)})
                elif how == 'vector':
                    o.update(inds=[j], **{full: vals[:, j].copy()})
                elif how == 'int':
                    o.update(inds=j, **{full: vals[:, j].copy()})
                elif how == 'list':
                    o.update(inds=[j], **{full: vals[:, j].tolist()})
                else:
                    o.update(inds=[j], **{full: vals[:, j:j + 1].copy()})
            return o
        return f
    for how in ('keys', 'vector', 'int', 'list', 'column', 'back'):
        put('update one by one, ' + how, by_one(how))

    def added(how):
        def f():
            o = Orbit(hist.M0, num=0, **kw)
            for j in range(n):
                if how == 'keys':
                    o.add(1, m=m[j], **{x: vals[r, j]
                                        for r, x in enumerate(names)})
                elif how == 'vector':
                    o.add(1, m=m[j], **{full: vals[:, j].copy()})
                elif how == 'default':
                    o.add(m=m[j], **{full: vals[:, j:j + 1].copy()})
                elif how == 'list':
                    o.add(1, m=[m[j]], **{full: vals[:, j].tolist()})
            return o
        return f
    for how in ('keys', 'vector', 'default', 'list'):
        put('added one by one, ' + how, added(how))

    def together(first):
        def f():
            o = Orbit(hist.M0, num=first, **kw)
            if first:
                o.m[:] = m[:first]
                setattr(o, full, vals[:, :first].copy())
            if first % 2:
                o.add(n - first, m=m[first:], **{full: vals[:, first:].copy()})
            else:
                o.add(n - first, m=m[first:], **{
                    x: vals[r, first:] for r, x in enumerate(names)})
            return o
        return f
    for first in range(n):
        put(f'last {n - first} added', together(first))

    def grown():
        o = Orbit(hist.M0, num=0, **kw)
        o.add(n)
        o.m[:] = m
        setattr(o, full, vals.copy())
        return o
    put('grown, then assigned', grown)

    def allocated():
        o = Orbit(hist.M0, num=1, **kw)
        o.allocate(n)
        o.m[:] = m
        setattr(o, full, vals.copy())
        return o
    put('allocated, then assigned', allocated)

    def components():
        o = blank(n, deg, typ, mode, m=m)
        for r, x in enumerate(names):
            setattr(o, x, vals[r].copy())
        return o
    put('one property at a time', components)
    if side == 'cart':
        def halves(flip):
            def f():
                o = blank(n, deg, typ, mode, m=m)
                if flip:
                    o.v = vals[3:].copy()
                    o.r = vals[:3].copy()
                else:
                    o.r = vals[:3].copy()
                    o.v = vals[3:].copy()
                return o
            return f
        put('r then v', halves(False))
        put('v then r', halves(True))
        put('update r keys then v', lambda: _two(
            blank(n, deg, typ, mode, m=m), vals))
    else:
        def anomalies(kind, first):
            def f():
                o = blank(n, deg, typ, mode, m=m)
                for r in range(5):
                    setattr(o, names[r], vals[r].copy())
                setattr(o, kind + '_anomaly', _anom(vals, deg, typ, kind))
                return o
            return f
        for kind in ('true', 'eccentric', 'mean'):
            put(kind + ' anomaly last', anomalies(kind, False))

        def typed(t2):
            def f():
                o = blank(n, deg, t2, mode, m=m)
                v = vals.copy()
                v[5] = _anom(vals, deg, typ, t2)
                o.kepler = v
                o.type = typ
                return o
            return f
        for t2 in ('true', 'eccentric', 'mean'):
            put('entered as ' + t2, typed(t2))
    if n == 1:
        put('vector', assign(vals[:, 0].copy()))
        put('list', assign(vals[:, 0].tolist()))
        put('constructor vector', lambda: Orbit(
            hist.M0, m=m, **{full: vals[:, 0].copy()}, **kw))
        put('constructor list', lambda: Orbit(
            hist.M0, m=m[0], **{full: vals[:, 0].tolist()}, **kw))
        put('constructor scalars', lambda: Orbit(
            hist.M0, m=m[0], **{x: float(v[0]) for x, v in keys.items()},
            **kw))
        put('update vector', upd(**{full: vals[:, 0].copy()}))
        put('update scalars', upd(**{x: float(v[0])
                                     for x, v in keys.items()}))
        put('update 0 scalars', upd(inds=0, **{x: float(v[0])
                                               for x, v in keys.items()}))
    # switching the mode after entering in another one
    def late():
        o = Orbit(hist.M0, num=n, m=m, **dict(kw, direct_update=False,
                                              auto_update=True))
        setattr(o, full, vals.copy())
        o.cartesian, o.kepler
        o.direct_update, o.auto_update = D, A
        return o
    if mode != '--':
        put('entered on access, then switched', late)

    def early():
        o = Orbit(hist.M0, num=n, m=m, **dict(kw, direct_update=False,
                                              auto_update=False))
        for r, x in enumerate(names):
            setattr(o, x, vals[r].copy())
        o.direct_update, o.auto_update = D, A
        return o
    put('entered with updating off, then switched', early)
    return out


def _two(o, vals):
    o.update(x=vals[0], y=vals[1], z=vals[2])
    o.v = vals[3:]
    return o


def _anom(vals, deg, typ, kind):
    x = ref.ld(vals[5])
    if deg:
        x = ref.rad(x)
    y = np.array([ref.convert_anom(x[j:j + 1], ref.L(vals[1, j]), typ,
                                   kind)[0] for j in range(vals.shape[1])])
    return np.array(ref.deg(y) if deg else y, dtype=float)


def run_routes(task, ctx):
    mode, deg, typ = task['mode'], task['deg'], task['type']
    for side in ('kep', 'cart'):
        for n in (1, 2, 3, 4):
            for base in (hist.KEP0, hist.KEP1):
                vals = target(side, n, deg, typ, base)
                if side == 'cart' and (base[1, [0, 2, 4, 1][:n]] == 1).any():
                    continue
                m = hist.MASS[:n]
                mod = model(side, vals, n, deg, typ, mode, m)
                first = None
                for name, f in routes(side, vals, n, deg, typ, mode,
                                      np.array(m)):
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.outcome(side, n, mode, deg, typ, name)
                    md = mod
                    if name.endswith('anomaly last') or 'entered as' in name:
                        md = mod.clone()
                        md.kx[5] = False
                    try:
                        o = f()
                    except Exception as exc:
                        ctx.fail('a documented way of entering an orbit is '
                                 'refused', route=name, n=n, side=side,
                                 mode=mode, error=repr(exc))
                        continue
                    if not judge(ctx, o, side, md, mode, route=name, n=n,
                                 degrees=deg, type=typ):
                        continue
                    p = hist.clone(o)
                    settle(p, side, mode)
                    kep = p.kepler
                    if typ == 'true':   # a full turn is the same direction
                        kep[5] %= 360 if deg else 2*np.pi
                    now = [p.cartesian, kep, p.period,
                           p.equinoctial.reshape(6, -1)]
                    if first is None:
                        first = now
                    elif not all(hist.equal(x, y) or np.isnan(y).any()
                                 for x, y in zip(now, first)):
                        ctx.fail('two ways of entering the same orbit give '
                                 'different values', route=name, n=n,
                                 side=side, mode=mode)
    ctx.sample(**task)


def run_common(task, ctx):
    """The same values for all orbits at once, given only once."""
    mode, deg, typ = task['mode'], task['deg'], task['type']
    D, A = MODES[mode]
    kw = dict(G=hist.G, degrees=deg, type=typ, direct_update=D,
              auto_update=A)
    for side, n, col in itertools.product(('kep', 'cart'), (1, 2, 3, 5),
                                          (0, 1, 2)):
        one = target(side, 3, deg, typ)[:, col]
        vals = np.repeat(one[:, None], n, axis=1)
        full = 'kepler' if side == 'kep' else 'cartesian'
        names = K if side == 'kep' else C
        m = [0.25*(j + 1) for j in range(n)]
        mod = model(side, vals, n, deg, typ, mode, m)
        keys = {x: float(one[r]) for r, x in enumerate(names)}
        forms = {'vector': one.copy(), 'list': one.tolist(),
                 'column': one[:, None].copy(),
                 'list of lists': one[:, None].tolist(),
                 'matrix': vals.copy(), 'tuple': tuple(one.tolist()),
                 'view': np.repeat(one, 2)[::2]}

        def started(k):
            o = blank(n, deg, typ, mode, m=m)
            if k:
                # something else is there already
                setattr(o, full, target(side, 4, deg, typ, hist.KEP1)[:, [
                    (col + j) % 4 for j in range(n)]])
            return o
        plans = []
        for fname, v in forms.items():
            for k in (0, 1):
                def assigned(v=v, k=k):
                    o = started(k)
                    setattr(o, full, v)
                    return o

                def updated(v=v, k=k):
                    o = started(k)
                    o.update(**{full: v})
                    return o

                def sliced(v=v, k=k):
                    o = started(k)
                    o.update(inds=slice(0, n), **{full: v})
                    return o
                plans += [(f'assigned {fname}', assigned),
                          (f'updated {fname}', updated),
                          (f'updated slice {fname}', sliced)]

            def built(v=v):
                return Orbit(hist.M0, num=n, m=m, **{full: v}, **kw)

            def added(v=v):
                o = Orbit(hist.M0, num=0, **kw)
                o.add(n, m=m, **{full: v})
                return o
            plans += [(f'constructed {fname}', built),
                      (f'added {fname}', added)]

        def numbers(k):
            o = started(k)
            o.update(**keys)
            return o

        def properties(k):
            o = started(k)
            for x, v in keys.items():
                setattr(o, x, v)
            return o

        def extended():
            o = Orbit(hist.M0, num=0, **kw)
            o.add(n, m=m, **keys)
            return o
        plans += [('constructed numbers', lambda: Orbit(
            hist.M0, num=n, m=m, **keys, **kw)), ('added numbers', extended)]
        for k in (0, 1):
            plans += [('updated numbers', lambda k=k: numbers(k)),
                      ('properties', lambda k=k: properties(k))]
        for name, f in plans:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            ctx.outcome('common', side, n, col, mode, deg, typ, name)
            try:
                o = f()
            except Exception as exc:
                ctx.fail('values for all orbits are refused', route=name, n=n,
                         side=side, mode=mode, error=repr(exc))
                continue
            judge(ctx, o, side, mod, mode, route=name, n=n, degrees=deg,
                  type=typ)
    ctx.sample(**task)


def run_partitions(task, ctx):
    """Blocks of elements entered together, in sequence."""
    mode, deg, typ = task['mode'], task['deg'], task['type']
    n = 2
    for side in ('kep', 'cart'):
        vals = target(side, n, deg, typ)
        names = K if side == 'kep' else C
        m = hist.MASS[:n]
        mod = model(side, vals, n, deg, typ, mode, m)
        for cut in range(1, 64):
            one = [r for r in range(6) if cut >> r & 1]
            two = [r for r in range(6) if not cut >> r & 1]
            for how in ('update', 'update-index', 'mixed', 'constructor'):
                D, A = MODES[mode]
                if how == 'constructor':
                    o = Orbit(hist.M0, G=hist.G, num=n, m=m, degrees=deg,
                              type=typ, direct_update=D, auto_update=A,
                              **{names[r]: vals[r] for r in one})
                else:
                    o = blank(n, deg, typ, mode, m=m)
                    if how == 'update-index':
                        for j in (1, 0):
                            o.update(inds=[j], **{names[r]: vals[r, j]
                                                  for r in one})
                    else:
                        o.update(**{names[r]: vals[r].copy() for r in one})
                # looking at unfinished orbits does not matter
                if cut % 2 and mode != '--':
                    o.cartesian, o.kepler
                if how == 'mixed':
                    for r in two:
                        setattr(o, names[r], vals[r].copy())
                elif how == 'update-index':
                    for j in (0, 1):
                        o.update(inds=j, **{names[r]: vals[r, j]
                                            for r in two})
                else:
                    o.update(**{names[r]: vals[r].copy() for r in two})
                ctx.states += 1
                ctx.transitions += 2
                ctx.traces += 1
                ctx.outcome(side, mode, deg, typ, cut, how)
                judge(ctx, o, side, mod, mode, blocks=[one, two], how=how,
                      degrees=deg, type=typ)
                if ctx.nfail > 20:
                    return
    ctx.sample(**task)
