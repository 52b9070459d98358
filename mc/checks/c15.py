"""Copies, slices and iterators are faithful and independent."""
import copy
import pickle
import itertools
from functools import lru_cache
import numpy as np
import pyorb
from mc import hist

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('every history of operations up to the stated depth x every way of '
        'selecting orbits x every sequence of later operations on the '
        'selection and on the original, replayed from scratch on real '
        'objects (no state cloning, so that shared memory shows); every '
        'interleaving of two and three iterations; every property whose '
        'returned array is overwritten')
ASSUMPTIONS = ['values in the domain of C10']

SELECT = {
    'copy': (lambda o: o.copy(), lambda n: slice(None)),
    'copy.copy': (lambda o: copy.copy(o), lambda n: slice(None)),
    'copy.deepcopy': (lambda o: copy.deepcopy(o), lambda n: slice(None)),
    'pickle': (lambda o: pickle.loads(pickle.dumps(o)),
               lambda n: slice(None)),
    '[0]': (lambda o: o[0], lambda n: [0]),
    '[-1]': (lambda o: o[-1], lambda n: [n - 1]),
    '[1:]': (lambda o: o[1:], lambda n: slice(1, None)),
    '[:]': (lambda o: o[:], lambda n: slice(None)),
    '[::2]': (lambda o: o[::2], lambda n: slice(None, None, 2)),
    '[::-1]': (lambda o: o[::-1], lambda n: slice(None, None, -1)),
    '[list]': (lambda o: o[[len(o) - 1, 0]], lambda n: [n - 1, 0]),
    '[array]': (lambda o: o[np.array([0])], lambda n: [0]),
    '[mask]': (lambda o: o[np.arange(len(o)) % 2 == 0],
               lambda n: np.arange(n) % 2 == 0),
    '[none]': (lambda o: o[np.zeros(len(o), dtype=bool)],
               lambda n: np.zeros(n, dtype=bool)),
    'iter first': (lambda o: next(iter(o)), lambda n: [0]),
    'iter last': (lambda o: list(o)[-1], lambda n: [n - 1]),
    'np.int': (lambda o: o[np.int64(0)], lambda n: [0]),
}
DEEP = ['copy', '[1:]', 'iter first']
OTHER = [s for s in SELECT if s not in DEEP]
SETTINGS = ['type', 'degrees', 'G', 'M0', 'epoch', 'dtype', 'direct_update',
            'auto_update', 'kepler_read_only', 'cartesian_read_only',
            'solver_options']
PRE = ['cartesian', 'kepler', 'a', 'vy', 'mean_anomaly', 'propagate+',
       'type=mean', 'update([0],a,e)', 'update([-1],cartesian)',
       'read kepler', 'read cartesian', 'mode-A', 'settle--', 'modeD-']


@lru_cache(maxsize=None)
def later(n):
    """Operations that may disturb the other object."""
    ops = {o.name: o for o in hist.alphabet(n, False)} if n else {}
    out = []
    for name in ('cartesian', 'kepler', 'e', 'x', 'propagate+', 'type=mean',
                 'type=eccentric', 'mean_anomaly', 'velocity',
                 'update([0],kepler)', 'update([-1],x,vy)',
                 'calculate_cartesian()', 'calculate_kepler()'):
        if name in ops:
            out.append((name, ops[name].real))

    def setmode(o):
        o.direct_update = not o.direct_update
        o.auto_update = not o.auto_update
    out += [
        ('read', lambda o: (o.cartesian, o.kepler, o.mean_anomaly,
                            o.eccentric_anomaly, o.true_anomaly)),
        ('m in place', lambda o: o.m.__iadd__(0.5)),
        ('m =', lambda o: setattr(o, 'm', o.m*2)),
        ('solver tol', lambda o: o.solver_options.update(tol=1e-3,
                                                         max_iter=1)),
        ('mode', setmode),
        ('protect', lambda o: (setattr(o, 'kepler_read_only', True),
                               setattr(o, 'cartesian_read_only', True))),
        ('G', lambda o: setattr(o, 'G', 5.0)),
        ('M0', lambda o: setattr(o, 'M0', 9.0)),
        ('degrees', lambda o: setattr(o, 'degrees', True)),
        ('epoch', lambda o: setattr(o, 'epoch', 'later')),
        ('add', lambda o: o.add(1, a=1.0, e=0.1, i=0.1, omega=0.1,
                                Omega=0.1, anom=0.1)),
        ('allocate', lambda o: o.allocate(2)),
    ]
    if n:
        out.append(('delete', lambda o: o.delete(0)))
    return out


VALUES = ['m', 'cartesian', 'kepler', 'true_anomaly', 'eccentric_anomaly',
          'mean_anomaly', 'period', 'velocity']


def report(o, order=0):
    """Everything an object reports (brings it up to date)."""
    vals = VALUES if order == 0 else VALUES[:1] + VALUES[:0:-1]
    out = {k: np.array(getattr(o, k)) for k in vals}
    out['settings'] = {k: copy.deepcopy(getattr(o, k)) for k in SETTINGS}
    out['len'] = (len(o), o.num)
    return out


def same(a, b):
    for k in a:
        if k in ('settings', 'len'):
            if a[k] != b[k]:
                return k + ' ' + repr([x for x in a[k] if a[k][x] != b[k][x]]
                                      if k == 'settings' else '')
        elif a[k].shape != b[k].shape or not hist.equal(a[k], b[k]):
            return k
    return None


def pick(rep, idx):
    out = dict(rep)
    for k in VALUES:
        x = rep[k][..., idx]
        out[k] = x
    n = len(out['m'])
    out['len'] = (n, n)
    return out


CONF = [dict(direct=True, auto=True, typ='true', deg=False, n=3),
        dict(direct=False, auto=True, typ='mean', deg=False, n=3),
        dict(direct=False, auto=True, typ='eccentric', deg=False, n=2),
        dict(direct=False, auto=False, typ='true', deg=False, n=2),
        dict(direct=True, auto=False, typ='mean', deg=False, n=1)]


def build(conf, hst):
    via = 'cart' if not conf['direct'] and conf['auto'] else 'kepler'
    orb, mod = hist.make(hist.KEP0[:, :conf['n']], False, conf['typ'],
                         conf['direct'], conf['auto'], via=via)
    if not (conf['direct'] or conf['auto']):
        c = hist.carts(hist.KEP1, conf['n'])
        orb.cartesian = c
        mod.write_cart(range(6), c)
    orb.epoch = 'J2000'
    orb.solver_options['tol'] = 1e-11
    orb.solver_options['degree'] = 4
    ops = {o.name: o for o in hist.alphabet(conf['n'], False)}
    for name in hst:
        try:
            ops[name].model(mod)
        except hist.Invalid:
            return None, None
        ops[name].real(orb)
    return orb, mod


def tasks(tier):
    q = tier == 'quick'
    out = []
    for c in range(len(CONF)):
        for d in (0, 1) if q else (0, 1, 2):
            for h in itertools.product(PRE, repeat=min(d, 1)):
                if d == 0:
                    out += [dict(part='copies', conf=c, first=[], depth=0,
                                 pairs=True, sels=[s])
                            for s in SELECT
                            if not q or (s in DEEP and c in (0, 1, 3))]
                out += [dict(part='copies', conf=c, first=list(h), depth=d,
                             pairs=False if q or d > 1 else k == 0,
                             sels=list(x))
                        for k, x in enumerate((DEEP, OTHER) if d else (OTHER,))]
        out.append(dict(part='iter', conf=c, tier=tier))
        out.append(dict(part='arrays', conf=c))
    out.append(dict(part='settings'))
    return out


def copies(task, ctx):
    conf = CONF[task['conf']]
    for rest in itertools.product(PRE, repeat=max(0, task['depth'] - 1)):
        hst = task['first'] + list(rest)
        orb, mod = build(conf, hst)
        if orb is None:
            ctx.count('pruned_outside_domain')
            continue
        base = [report(build(conf, hst)[0], order) for order in (0, 1)]
        for sname in task['sels']:
            sel, idx = SELECT[sname]
            ix = idx(conf['n'])
            # faithful, whichever side is read first
            for order in (0, 1):
                orb, _ = build(conf, hst)
                sub = sel(orb)
                got = report(sub, order)
                msg = same(pick(base[order], ix), got)
                ctx.transitions += 1
                ctx.ev()
                if msg:
                    ctx.fail(f'{sname} is not faithful: {msg}', history=hst,
                             conf=conf)
                if same(base[order], report(orb, order)):
                    ctx.fail(f'{sname} changes the original', history=hst,
                             conf=conf)
            ctx.states += 1
            n = len(pick(base[0], ix)['m'])
            # independent: operations on one never show in the other
            lat_sub, lat_org = later(n), later(conf['n'])
            for who, ops, other in (('selection', lat_sub, 'original'),
                                    ('original', lat_org, 'selection')):
                seqs = [(o,) for o in ops]
                if task['pairs']:
                    seqs += list(itertools.product(ops, repeat=2))
                for seq in seqs:
                    orb, _ = build(conf, hst)
                    sub = sel(orb)
                    a, b = (sub, orb) if who == 'selection' else (orb, sub)
                    try:
                        for _, f in seq:
                            f(a)
                    except (ValueError, AttributeError, IndexError, TypeError):
                        pass    # does not fit this selection
                    ctx.transitions += len(seq)
                    ctx.ev()
                    want = base[0] if other == 'original' \
                        else pick(base[0], ix)
                    msg = same(want, report(b))
                    if msg:
                        ctx.fail(f'operating on the {who} ({sname}) changes '
                                 f'the {other}: {msg}', history=hst,
                                 later=[x for x, _ in seq], conf=conf)
                    ctx.traces += 1
            # both in turn: each ends as if alone
            if task['depth'] == 0 and task['pairs']:
                for (x, f), (y, g) in itertools.product(lat_sub, lat_org):
                    ends = []
                    for plan in ('sub', 'org', 'sub-org', 'org-sub'):
                        orb, _ = build(conf, hst)
                        sub = sel(orb)
                        try:
                            for who in plan.split('-'):
                                (f if who == 'sub' else g)(
                                    sub if who == 'sub' else orb)
                        except (ValueError, AttributeError, IndexError, TypeError):
                            ends = None
                            break
                        ends.append((report(sub), report(orb)))
                    ctx.ev()
                    ctx.transitions += 6
                    if ends is None:
                        continue
                    for k in (2, 3):
                        if same(ends[0][0], ends[k][0]) \
                                or same(ends[1][1], ends[k][1]):
                            ctx.fail('operations on original and selection '
                                     'interfere', selection=sname, on_sub=x,
                                     on_original=y, conf=conf)
                    ctx.traces += 1


def schedules(counts):
    """All interleavings of len(counts) iterators, each used that often."""
    if not any(counts):
        yield []
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for s in schedules(rest):
                yield [i] + s


def iterate(task, ctx):
    conf = CONF[task['conf']]
    n = conf['n']
    orb, _ = build(conf, [])
    want = [report(orb[j]) for j in range(n)]
    plans = [(n + 1,), (n + 1, n + 1)]
    if n == 2 or task['tier'] == 'thorough':
        plans.append((n + 1,)*3)
    for counts in plans:
        for sched in schedules(counts):
            orb, _ = build(conf, [])
            its = [None]*len(counts)
            pos = [0]*len(counts)
            bad = None
            for i in sched:
                if its[i] is None:
                    its[i] = iter(orb)
                try:
                    item = next(its[i])
                except StopIteration:
                    item = None
                ctx.transitions += 1
                if (item is None) != (pos[i] >= n):
                    bad = 'visits the wrong number of orbits'
                elif item is not None and not np.array_equal(
                        item.m, want[pos[i]]['m']):
                    bad = 'visits orbits out of order'
                pos[i] += 1
                if bad:
                    break
            ctx.ev()
            ctx.traces += 1
            ctx.states += 1
            if bad:
                ctx.fail('an iteration ' + bad + ' while others are in '
                         'progress', schedule=sched, conf=conf)
                return
    # nested loops, abandoned loops, loops with length and copies inside
    orb, _ = build(conf, [])
    seen = [(float(a.m[0]), float(b.m[0])) for a in orb for b in orb]
    if len(seen) != n*n:
        ctx.fail('nested iteration does not visit all pairs', got=seen)
    for stop in range(n):
        for j, item in enumerate(orb):
            if j == stop:
                break
        if [float(o.m[0]) for o in orb] != hist.MASS[:n]:
            ctx.fail('an abandoned iteration disturbs the next', stop=stop)
        it = iter(orb)
        for _ in range(stop):
            next(it)
        orb.copy(), orb[0], list(orb.copy())
        if [float(o.m[0]) for o in it] != hist.MASS[stop:n]:
            ctx.fail('copying disturbs an iteration', stop=stop)
    for j, item in enumerate(orb):
        msg = same(want[j], report(item))
        if msg:
            ctx.fail(f'iteration is not faithful: {msg}', orbit=j, conf=conf)
    # operations on the items do not reach the original
    ops = later(1)
    for name, f in ops:
        orb, _ = build(conf, [])
        before = report(build(conf, [])[0])
        for item in orb:
            f(item)
            ctx.transitions += 1
        ctx.ev()
        msg = same(before, report(orb))
        if msg:
            ctx.fail(f'operating on iterated orbits changes the original: '
                     f'{msg}', operation=name, conf=conf)


def arrays(task, ctx):
    """Arrays handed out are private."""
    conf = CONF[task['conf']]
    names = hist.GETTERS + ['cartesian', 'kepler', 'apoapsis']
    for name in names:
        for hst in [[]] + [[p] for p in PRE[:6]]:
            orb, _ = build(conf, hst)
            if orb is None:
                continue
            want = report(build(conf, hst)[0])
            first = getattr(orb, name)
            keep = np.array(first)
            ctx.ev()
            ctx.transitions += 1
            if isinstance(first, np.ndarray) and first.flags.writeable:
                first[...] = -77.0
            msg = same(want, report(orb))
            if msg:
                ctx.fail(f'writing into the array returned by {name} changes '
                         f'the orbit: {msg}', history=hst, conf=conf)
            second = getattr(orb, name)
            if not hist.equal(np.array(second), keep):
                ctx.fail(f'{name}: not a private copy', conf=conf)
            # and arrays already handed out stay as they are
            if conf['direct'] or conf['auto']:
                orb.cartesian = hist.carts(hist.KEP1, conf['n'])
                orb.kepler = hist._units(hist.KEP1[:, :conf['n']], False)
            if not hist.equal(np.array(second), keep):
                ctx.fail(f'{name}: later writes change the array handed out',
                         conf=conf)
    # arrays given are copied too
    for attr, val in (('cartesian', hist.carts(hist.KEP1, conf['n'])),
                      ('kepler', hist._units(hist.KEP1[:, :conf['n']],
                                             False)),
                      ('r', hist.carts(hist.KEP1, conf['n'])[:3]),
                      ('v', hist.carts(hist.KEP1, conf['n'])[3:])) + tuple(
                          (x, np.full(conf['n'], 0.4))
                          for x in pyorb.Orbit.KEPLER
                          + pyorb.Orbit.CARTESIAN):
        for how in ('attribute', 'update'):
            if how == 'update' and attr in ('r', 'v'):
                continue
            orb, _ = build(conf, [])
            mine = val.copy()
            if how == 'attribute':
                setattr(orb, attr, mine)
            else:
                orb.update(**{attr: mine})
            if not np.array_equal(mine, val):
                ctx.fail(f'{attr}: the given array was modified', how=how)
            want = report(hist.clone(orb))
            mine[...] = 55.0
            msg = same(want, report(orb))
            ctx.ev()
            if msg:
                ctx.fail(f'{attr}: the given array is kept, not copied',
                         how=how, conf=conf)


def settings(task, ctx):
    """Every combination of settings in every kind of copy."""
    select = {s: f for s, (f, _) in SELECT.items()}
    select['deepcopy'] = copy.deepcopy
    select['copy of a copy'] = lambda o: o.copy()[:].copy()
    flags = [(False, False), (False, True), (True, False), (True, True)]
    for (kro, cro), (D, A), typ, deg, dt, n in itertools.product(
            flags, flags, ('true', 'eccentric', 'mean'), (False, True),
            (np.float64, np.float32), (1, 3)):
        o = pyorb.Orbit(
            2.5, G=0.7, num=n, m=np.arange(1, n + 1)*0.25, type=typ,
            degrees=deg, dtype=dt, epoch=[2000, 1], direct_update=D,
            auto_update=A, solver_options=dict(
                tol=1e-11, max_iter=777, degree=4),
            kepler=hist._units(hist.KEP0[:, :n], deg),
            kepler_read_only=kro, cartesian_read_only=cro)
        want = {k: copy.deepcopy(getattr(o, k)) for k in SETTINGS}
        for name, f in select.items():
            ctx.ev()
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            c = f(o)
            for k, v in want.items():
                if getattr(c, k) != v or getattr(o, k) != v:
                    ctx.fail(f'{name}: {k} is not that of the original',
                             got=getattr(c, k), want=v, original=getattr(
                                 o, k), settings=want)
            if any(np.asarray(x).dtype != dt
                   for x in (c.m, c.kepler, c.cartesian)):
                ctx.fail(f'{name}: another precision', settings=want)


def run(task, ctx):
    ctx.sample(task=task)
    dict(copies=copies, iter=iterate, arrays=arrays, settings=settings)[task['part']](task, ctx)
