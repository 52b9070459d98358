"""Direct updating and updating on access are observationally equivalent."""
import numpy as np
import pyorb
from mc import hist

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = ('all operation sequences over the alphabet up to the stated depth, '
        'run in lockstep on identical Orbit objects: one converting on every '
        'write, one on access only, one on access only that is also read '
        'after every operation; after each operation all are read (on copies '
        'of their private state) and compared with each other; states merged '
        'only when all private states coincide')
ASSUMPTIONS = [
    'the written values stay in the domain of C10 (the reference model is '
    'used for pruning only)',
    'masses change only together with a write of elements',
    'agreement as states to 1e-6']

MODEOPS = ('mode', 'settle')
TINY = ['cartesian', 'e', 'y', 'vz', 'mean_anomaly', 'propagate-',
        'update([-1],a,e)', 'update([0],x,vy)', 'update(mask,kepler)',
        'update([1:],cartesian)', 'type=eccentric', 'calculate_kepler([last])',
        'calculate_cartesian([0])', 'velocity', 'add', 'delete0']


class Trio:
    def __init__(self, d, l, r):
        self.d, self.l, self.r = d, l, r

    @property
    def all(self):
        return (self.d, self.l, self.r)


def touch(o):
    o.cartesian
    o.kepler
    o.mean_anomaly


def lift(op):
    def real(t):
        out = []
        for o in t.all:
            res = op.real(o)
            out.append(res if isinstance(res, pyorb.Orbit) else o)
        touch(out[2])
        return Trio(*out)
    return hist.Op(op.name, real, op.model)


def tclone(t):
    return Trio(*[hist.clone(o) for o in t.all])


def tsnap(t):
    return b'#'.join(hist.snap(o) for o in t.all)


def pair_diff(a, b, mod):
    for name in ('cartesian', 'kepler'):
        x, y = a[name], b[name]
        if x.shape != y.shape:
            return f'{name} shapes'
        if hist.equal(x, y):
            continue
        for j in range(x.shape[1]):
            if name == 'cartesian':
                ok = hist.state_close(x[:, j], y[:, j], mod.mu(j))
            else:
                ok = hist.kep_close(x[:, j], y[:, j], np.zeros(6, dtype=bool),
                                    mod.mu(j), mod.deg, mod.typ)
            if not ok:
                return f'{name} of orbit {j}'
    if not np.array_equal(a['m'], b['m']) or a['type'] != b['type'] \
            or a['len'] != b['len']:
        return 'mass, type or length'
    return None


def read(o, order):
    out = dict(m=o.m.copy(), type=o.type, len=len(o))
    for name in order:
        out[name] = getattr(o, name)
    return out


def observe(ctx, t, mod, hst, level):
    ck, kc = ('cartesian', 'kepler'), ('kepler', 'cartesian')
    want = read(hist.clone(t.d), ck)
    for who, o, order in (('on access', t.l, ck), ('on access', t.l, kc),
                          ('on access, read in between', t.r, kc)):
        msg = pair_diff(read(hist.clone(o), order), want, mod)
        if msg:
            return (f'updating {who} and direct updating differ in {msg}')
    if level <= 1:
        for name in hist.GETTERS:
            x = np.asarray(getattr(hist.clone(t.d), name))
            y = np.asarray(getattr(hist.clone(t.l), name))
            if x.shape != y.shape or not hist.equal(x, y):
                if name in ('omega', 'Omega', 'anom', 'true_anomaly',
                            'mean_anomaly', 'eccentric_anomaly',
                            'mean_longitude', 'equinoctial'):
                    full = 360.0 if mod.deg else 2*np.pi
                    d = (x - y + full/2) % full - full/2
                    if (np.abs(d) < 1e-6*full).all():
                        continue
                return f'{name} read first differs'
    return None


def ops_for(n, deg, typ, names):
    ops = [o for o in hist.alphabet(n, deg)
           if not o.name.startswith(MODEOPS)]
    k = hist._units(hist.KEP1[:, 2:3], deg)
    u = 180/np.pi if deg else 1.0

    def madd(m):
        if m.n > n:
            raise hist.Invalid
        j = m.n
        m.add(1, m=0.25)
        m.write_kep(range(6), k, [j])

    def mdel(m):
        if m.n <= n:
            raise hist.Invalid
        m.delete(0)
    ops.append(hist.Op('add', lambda o: o.add(1, m=0.25, kepler=k.copy()),
                       madd))
    ops.append(hist.Op('delete0', lambda o: o.delete(0), mdel))
    # the values of the alphabet fit n orbits only
    out = []
    for op in ops:
        if op.name in ('add', 'delete0'):
            out.append(op)
            continue

        def model(m, op=op):
            if m.n != n and not op.name.startswith(
                    ('update([0]', 'propagate', 'type', 'calculate', 'read')):
                raise hist.Invalid
            return op.model(m)
        out.append(hist.Op(op.name, op.real, model))
    if names:
        by = {o.name: o for o in out}
        out = [by[x] for x in names]
    return [lift(o) for o in out]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for typ, deg, n in (('true', True, 2), ('mean', False, 3),
                        ('eccentric', False, 1)):
        for via in ('kepler', 'cart'):
            nf = len(ops_for(n, deg, typ, None))
            base = dict(n=n, deg=deg, typ=typ, via=via)
            if n > 1:
                out += [dict(base, names=False, depth=2 if q else 3,
                             first=g.tolist())
                        for g in np.array_split(range(nf), 4 if q else 24)]
                out += [dict(base, names=True, first=[k],
                             depth=3 if q else 5 if via == 'cart' else 4)
                        for k in range(len(TINY))
                        if not q or via == 'cart']
            else:
                out += [dict(base, names=False, depth=2,
                             first=list(range(nf)))]
    return out


def run(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ops = ops_for(n, deg, typ, TINY if task['names'] else None)
    d, mod = hist.make(hist.KEP0[:, :n], deg, typ, True, False,
                       via=task['via'])
    l, _ = hist.make(hist.KEP0[:, :n], deg, typ, False, True, via=task['via'])
    r, _ = hist.make(hist.KEP0[:, :n], deg, typ, False, True, via=task['via'])
    t = Trio(d, l, r)
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    msg = observe(ctx, t, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    hist.explore(ctx, t, mod, ops, task['depth'], observe,
                 first=task['first'], clone=tclone, snap=tsnap)
