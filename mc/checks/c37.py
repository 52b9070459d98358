"""An object holding many orbits behaves like many objects holding one."""
from functools import lru_cache
import numpy as np
import pyorb
from mc import hist, ref
from mc.checks.c34 import Duo

PROPERTY = 'C37'
LEVEL = 'model_checking'
RULE = ('every operation sequence up to the stated depth run in lockstep on '
        'one object holding N orbits of all kinds, on one holding them in '
        'another order, on two holding a part each, and on N objects holding '
        'one orbit each; all properties of every orbit compared after every '
        'operation')
ASSUMPTIONS = [
    'values agree to 1e-8, angles modulo a revolution where the anomaly '
    'type permits (vector and scalar evaluation may round differently)',
    'histories leaving the well-conditioned domain of the reference model '
    'are pruned']

TURN = {'i', 'omega', 'Omega', 'mean_longitude', 'true_anomaly'}
ANOM = {'anom', 'mean_anomaly', 'eccentric_anomaly'}
READ = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'r', 'v', 'a', 'e', 'i', 'omega',
        'Omega', 'anom', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
        'period', 'mean_motion', 'velocity', 'speed', 'periapsis',
        'apoapsis', 'mean_longitude', 'equinoctial', 'm']
K0 = np.concatenate([hist.KEP0, np.array(
    [[1.5, 0.05, 2.9, 3.0, 1.2, 5.5], [0.8, 1.2, 0.3, 0.4, 2.6, 0.8]]).T],
    axis=1)
K1 = np.concatenate([hist.KEP1, np.array(
    [[1.0, 1.4, 1.4, 3.3, 5.2, -0.7], [1.3, 0.3, 2.2, 5.1, 0.2, 2.8]]).T],
    axis=1)
MASS = hist.MASS + [0.25]
NMAX = 7


class Part:
    """A real object and the numbers of the orbits it holds, in order."""
    def __init__(self, orb, ids):
        self.orb, self.ids = orb, tuple(ids)


def carts(kep):
    return np.stack([np.array(
        ref.state(kep[:, [j]], hist.G*(hist.M0 + MASS[j])),
        dtype=float)[:, 0] for j in range(kep.shape[1])], axis=1)


@lru_cache(maxsize=None)
def initial(deg, typ):
    k = ref.ld(K0).copy()
    k[5] = np.array([ref.convert_anom(k[5, j:j + 1], k[1, j], 'true', typ)[0]
                     for j in range(NMAX)])
    if deg:
        k[2:] = ref.deg(k[2:])
    return k.astype(float), carts(K0)


def tables(deg, typ):
    u = 180/np.pi if deg else 1.0
    f = np.linspace(1.0, 1.2, NMAX)
    k1 = hist._units(K1, deg)
    c1 = carts(K1)*np.array([1.1, 0.9, 1, 1, 1.05, 1])[:, None]
    vals = dict(a=0.8*f, e=0.45*f, i=0.9*u*f, omega=3.0*u*f, Omega=1.3*u*f,
                anom=0.6*u*f, x=0.75*f, y=-0.6*f, z=0.3*f, vx=-0.5*f,
                vy=0.8*f, vz=-0.4*f)
    return u, f, k1, c1, vals


def at(o):
    return list(o.ids)


def ops_for(n, deg):
    u, f, k1, c1, vals = tables(deg, None)
    out = []

    def op(name, real, model):
        out.append((name, real, model))

    def sub(v, ids):
        return np.array(v)[..., list(ids)].copy()

    def setter(name, v, model):
        op(name, lambda p: setattr(p.orb, name, sub(v, p.ids)), model)

    setter('cartesian', c1,
           lambda m: m.write_cart(range(6), sub(c1, m.idl)))
    setter('kepler', k1, lambda m: m.write_kep(range(6), sub(k1, m.idl)))
    for r, name in enumerate(pyorb.Orbit.KEPLER):
        setter(name, vals[name], lambda m, r=r, v=vals[name]:
               m.write_kep([r], sub(v, m.idl)[None, :]))
    for r, name in enumerate(pyorb.Orbit.CARTESIAN):
        setter(name, vals[name], lambda m, r=r, v=vals[name]:
               m.write_cart([r], sub(v, m.idl)[None, :]))
    # one value for all
    for name, val in (('a', 1.25), ('e', 0.5), ('i', 0.8*u),
                      ('anom', 0.7*u), ('x', 1.1), ('vz', 0.35)):
        kep = name in pyorb.Orbit.KEPLER
        r = (pyorb.Orbit.KEPLER if kep else pyorb.Orbit.CARTESIAN).index(name)

        def model(m, r=r, val=val, kep=kep):
            (m.write_kep if kep else m.write_cart)(
                [r], np.full((1, m.n), val))
        op(f'{name} the same', lambda p, name=name, val=val:
           setattr(p.orb, name, val), model)
    op('mean_anomaly the same', lambda p: setattr(
        p.orb, 'mean_anomaly', np.full(len(p.ids), 0.6*u)),
        lambda m: m.set_anomaly('mean', 0.6*u))
    op('velocity the same', lambda p: setattr(p.orb, 'velocity', 1.05),
       lambda m: m.scale_velocity(1.05))
    op('period the same', lambda p: setattr(p.orb, 'period', 3.3),
       lambda m: m.set_period(3.3))
    setter('r', c1[:3]*0.9,
           lambda m: m.write_cart([0, 1, 2], sub(c1[:3]*0.9, m.idl)))
    setter('v', c1[3:]*1.1,
           lambda m: m.write_cart([3, 4, 5], sub(c1[3:]*1.1, m.idl)))
    for kind, x in (('true', 0.9), ('eccentric', 0.7), ('mean', 0.5)):
        v = x*u*f
        setter(kind + '_anomaly', v, lambda m, v=v, kind=kind:
               m.set_anomaly(kind, sub(v, m.idl)))
    equ = np.array(ref.equinoctial(
        np.array([[1.4, 0.25, 0.8, 1.0, 2.0, 3.0]]*NMAX).T), dtype=float)
    equ[0] *= f
    equ[1:3] *= 0.5*f
    equ[5] = (equ[5] + 0.1*np.arange(NMAX))*u
    op('equinoctial', lambda p: setattr(
        p.orb, 'equinoctial', sub(equ, p.ids)[
            :, slice(None) if len(p.ids) > 1 else 0]),
        lambda m: m.set_equinoctial(sub(equ, m.idl)))
    setter('period', 3.0*f, lambda m: m.set_period(sub(3.0*f, m.idl)))
    setter('mean_motion', (360.0 if deg else 2*np.pi)/(3.0*f),
           lambda m: m.set_period(sub(3.0*f, m.idl)))
    setter('velocity', 1.1*f, lambda m: m.scale_velocity(sub(1.1*f, m.idl)))
    mass = np.linspace(0.35, 0.05, NMAX)

    def settled(m):
        # whether a pending conversion took place before is not defined
        if m.lazy or m.hidden:
            raise hist.Invalid

    def setm(m):
        settled(m)
        m.m = sub(mass, m.idl)
        # nothing is recalculated: both representations stay
        for j in range(m.n):
            m.check(j)

    op('m', lambda p: setattr(p.orb, 'm', sub(mass, p.ids)), setm)

    def same(m):
        settled(m)
        m.m = np.full(m.n, 0.2)
        for j in range(m.n):
            m.check(j)
    op('m the same', lambda p: setattr(p.orb, 'm', np.full(len(p.ids), 0.2)),
       same)
    for name, dt in (('propagate+', 0.37), ('propagate-', -2.9)):
        op(name, lambda p, dt=dt: p.orb.propagate(dt),
           lambda m, dt=dt: m.propagate(dt))
    dts = np.linspace(-1.0, 2.0, NMAX)

    def prop(m):
        m.guard()
        m.defined('kep')
        a = m.clone()
        anoms = []
        for j, d in enumerate(sub(dts, m.idl)):
            b = a.clone()
            b.propagate(float(d))
            anoms.append(b.kep[5, j])
        m.write_kep([5], np.array(anoms)[None, :], exact=False)
    op('propagate each', lambda p: p.orb.propagate(sub(dts, p.ids)), prop)
    for typ in ('true', 'eccentric', 'mean'):
        op('type=' + typ, lambda p, typ=typ: setattr(p.orb, 'type', typ),
           lambda m, typ=typ: m.set_type(typ))
    op('calculate_cartesian()', lambda p: p.orb.calculate_cartesian(),
       lambda m: m.calculate('cart'))
    op('calculate_kepler()', lambda p: p.orb.calculate_kepler(),
       lambda m: m.calculate('kep'))
    # parts: orbits chosen by number, in the order of the object
    for js in ((0,), (n - 1,), (0, 2), (1, 3), tuple(range(1, n))):
        js = tuple(j for j in js if j < n)
        if not js:
            continue
        for nm, kw in (('kepler', dict(kepler=1.03*k1)),
                       ('cartesian', dict(cartesian=0.97*c1)),
                       ('a,e', dict(a=1.15*f, e=0.35*f)),
                       ('x,vy', dict(x=0.85*f, vy=0.65*f)),
                       ('m', dict(m=mass, kepler=0.98*k1))):
            def real(p, js=js, kw=kw):
                pos = [q for q, j in enumerate(p.ids) if j in js]
                if pos:
                    num = [p.ids[q] for q in pos]
                    p.orb.update(inds=pos, **{k: sub(v, num)
                                              for k, v in kw.items()})

            def model(m, js=js, kw=kw, nm=nm):
                pos = [q for q, j in enumerate(m.idl) if j in js]
                if not pos:
                    raise hist.Invalid
                num = [m.idl[q] for q in pos]
                if 'm' in kw:
                    # the other orbits are left as they are
                    settled(m)
                    x = m.m.copy()
                    x[pos] = mass[num]
                    m.m = x
                if nm in ('kepler', 'm'):
                    m.write_kep(range(6), sub(kw['kepler'], num), pos)
                elif nm == 'cartesian':
                    m.write_cart(range(6), sub(kw['cartesian'], num), pos)
                elif nm == 'a,e':
                    m.write_kep([0, 1], np.array([sub(kw['a'], num),
                                                  sub(kw['e'], num)]), pos)
                else:
                    m.write_cart([0, 4], np.array([sub(kw['x'], num),
                                                   sub(kw['vy'], num)]), pos)
            op(f'update {js} {nm}', real, model)
        for which in ('cartesian', 'kepler'):
            def real(p, js=js, which=which):
                pos = [q for q, j in enumerate(p.ids) if j in js]
                if pos:
                    getattr(p.orb, 'calculate_' + which)(np.array(pos))

            def model(m, js=js, which=which):
                pos = [q for q, j in enumerate(m.idl) if j in js]
                if not pos:
                    raise hist.Invalid
                m.calculate(which[:3].replace('car', 'cart'), pos)
            op(f'calculate_{which} {js}', real, model)
    op('copy', lambda p: p.orb.copy(), lambda m: None)
    for name in ('cartesian', 'kepler', 'mean_anomaly', 'equinoctial'):
        op('read ' + name, lambda p, name=name:
           [getattr(p.orb, name), None][1], lambda m: None)
    for d in (True, False):
        for a in (True, False):
            def real(p, d=d, a=a):
                p.orb.direct_update, p.orb.auto_update = d, a

            def model(m, d=d, a=a):
                if not (d or a):
                    settled(m)
                m.set_mode(d, a)
            op('mode' + ('D' if d else '-') + ('A' if a else '-'), real,
               model)
    op('read both', lambda p: [p.orb.cartesian, p.orb.kepler, None][2],
       lambda m: m.settle())
    # the number of orbits
    new = n

    def add(how):
        def real(p):
            # single objects: a new one is made by `lift`
            if how == 'massless':
                p.orb.add(num=1, **dict(zip(pyorb.Orbit.KEPLER,
                                            k1[:, new])))
            elif how == 'kepler':
                p.orb.add(num=1, m=MASS[new],
                          **dict(zip(pyorb.Orbit.KEPLER, k1[:, new])))
            else:
                p.orb.add(num=1, m=MASS[new],
                          **dict(zip(pyorb.Orbit.CARTESIAN, c1[:, new])))
            p.ids = p.ids + (new,)

        def model(m):
            if new in m.idl:
                raise hist.Invalid
            m.add(1, MASS[new] if how != 'massless' else 0.0)
            m.idl = m.idl + (new,)
            if how != 'cartesian':
                m.write_kep(range(6), k1[:, [new]], [m.n - 1])
            else:
                m.write_cart(range(6), c1[:, [new]], [m.n - 1])
        return real, model
    if new < NMAX:
        op('add kepler', *add('kepler'))
        op('add cartesian', *add('cartesian'))
        op('add massless', *add('massless'))
    for j in sorted({0, n - 1, n//2}):
        def real(p, j=j):
            q = [k for k in range(len(p.ids)) if p.ids[k] == j]
            if q:
                p.orb.delete(q)
                p.ids = tuple(k for k in p.ids if k != j)

        def model(m, j=j):
            if j not in m.idl or m.n == 1:
                raise hist.Invalid
            m.delete([m.idl.index(j)])
            m.idl = tuple(k for k in m.idl if k != j)
        op(f'delete {j}', real, model)
    return out


def build(ids, deg, typ, direct, auto, via):
    ids = list(ids)
    k, c = initial(deg, typ)
    o = pyorb.Orbit(hist.M0, G=hist.G, num=len(ids),
                    m=np.array(MASS)[ids], degrees=deg, type=typ,
                    direct_update=direct, auto_update=auto)
    if via == 'kepler':
        o.kepler = k[:, ids]
    else:
        o.cartesian = c[:, ids]
    return o


def readall(p, names):
    o = hist.clone(p.orb)
    out = {nm: np.array(getattr(o, nm)) for nm in names}
    if len(p.ids) == 1:
        # of one orbit as a plain vector
        out['equinoctial'] = out['equinoctial'].reshape(6, 1)
    return out


def agree(x, w, nm, closed, full):
    """Elementwise agreement of property nm of one orbit."""
    d = np.abs(x - w)
    if nm in TURN or (nm in ANOM and closed):
        d = np.abs(d - full*np.round(d/full))
        ok = d <= 1e-8*full
    elif nm in ANOM:
        ok = d <= 1e-8*full*(1 + np.abs(w)/full)
    elif nm == 'equinoctial':
        if not closed:
            return True
        ok = d <= 1e-8*(1 + np.abs(w))
        t = np.abs(d[5] - full*np.round(d[5]/full))
        ok[5] = t <= 1e-8*full
    else:
        # components of vectors may cancel
        ok = d <= 1e-8*(1 + np.abs(w))
    return bool(np.all(ok | (np.isnan(x) & np.isnan(w)) | (x == w)))


def observe(ctx, d, mod, hst, level):
    full = 360.0 if mod.deg else 2*np.pi
    rot = ctx.rot = (getattr(ctx, 'rot', 0) + 7) % len(READ)
    names = READ[rot:] + READ[:rot]
    single = {}
    for p in d.orbs:
        got = readall(p, names)
        for q, j in enumerate(p.ids):
            vals = {}
            for nm in names:
                x = got[nm]
                if x.ndim == 0 or x.shape[-1] != len(p.ids):
                    return f'{nm} of {len(p.ids)} orbits has the ' \
                           f'shape {x.shape}'
                vals[nm] = x[..., q]
            single.setdefault(j, []).append((p, vals))
    for j, views in single.items():
        # the last is the object that holds this orbit only
        p1, want = views[-1]
        assert len(p1.ids) == 1
        closed = bool(want['e'] < 1)
        for p, vals in views[:-1]:
            for nm in names:
                if not closed and nm in ('apoapsis',):
                    continue
                if not agree(vals[nm], want[nm], nm, closed, full):
                    return f'{nm} of an orbit depends on the other orbits ' \
                           f'in the object'
    # whole representations, taken from a part of the object
    many = d.orbs[0]
    for q in range(len(many.ids)):
        o = hist.clone(many.orb)[q]
        one = [p for p in d.orbs if p.ids == (many.ids[q],)][-1].orb
        one = hist.clone(one)
        if level % 2:
            k, k1, c, c1 = o.kepler, one.kepler, o.cartesian, one.cartesian
        else:
            c, c1, k, k1 = o.cartesian, one.cartesian, o.kepler, one.kepler
        if not hist.equal(c, c1):
            return 'the state of a selected orbit differs'
        for r, nm in enumerate(pyorb.Orbit.KEPLER):
            if not agree(k[r, 0], k1[r, 0], nm, bool(k1[1, 0] < 1), full):
                return f'{nm} of a selected orbit differs'
    return None


def run(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    direct, auto, via = task['direct'], task['auto'], task['via']
    groups = [range(n), task['perm'], range(n//2), range(n//2, n)] \
        + [[j] for j in range(n)]

    k0, mod = hist.make(K0[:, :n], deg, typ, direct, auto,
                        via=via)
    mod.idl = tuple(range(n))
    d = Duo([Part(build(g, deg, typ, direct, auto, via), g) for g in groups])
    # objects made up of a part of the orbits grow by the new one as well
    grows = [True, True, True, False] + [False]*n

    def lift(name, real, model):
        def both(d):
            out = []
            for k, p in enumerate(d.orbs):
                if name.startswith('add') and not grows[k]:
                    out.append(p)
                    continue
                if name.startswith('delete') and len(p.ids) == 1:
                    if p.ids[0] != int(name.split()[1]):
                        out.append(p)
                    continue
                res = real(p)
                out.append(Part(res, p.ids) if isinstance(res, pyorb.Orbit)
                           else p)
            if name.startswith('add'):
                o = pyorb.Orbit(hist.M0, G=hist.G, num=1,
                                m=0 if name == 'add massless' else MASS[n],
                                degrees=deg,
                                type=d.orbs[0].orb.type,
                                direct_update=d.orbs[0].orb.direct_update,
                                auto_update=d.orbs[0].orb.auto_update)
                if name != 'add cartesian':
                    o.kepler = hist._units(K1, deg)[:, [n]]
                else:
                    o.cartesian = tables(deg, typ)[3][:, [n]]
                out.append(Part(o, [n]))
            return Duo(out)
        return hist.Op(name, both, model)
    ops = [lift(*x) for x in ops_for(n, deg)]
    if task.get('ops'):
        assert set(task['ops']) <= {o.name for o in ops}, task['ops']
        ops = [o for o in ops if o.name in task['ops']]
    msg = observe(ctx, d, mod, None, 0)
    if msg:
        ctx.fail('initial: ' + msg)
    ctx.sample(task=task, ops=[o.name for o in ops][:8])
    hist.explore(ctx, d, mod, ops, task['depth'], observe,
                 first=task['first'],
                 clone=lambda d: Duo([Part(hist.clone(p.orb), p.ids)
                                      for p in d.orbs]),
                 snap=lambda d: b'#'.join(
                     hist.snap(p.orb) + repr(p.ids).encode()
                     for p in d.orbs))


DEEP = [['cartesian', 'a', 'update (0,) x,vy', 'calculate_kepler (2,)',
         'type=mean', 'delete 1', 'add kepler', 'propagate+', 'read both',
         'mode-A'],
        ['kepler', 'vx', 'update (0, 2) a,e', 'add cartesian', 'delete 0',
         'period', 'propagate each', 'type=eccentric', 'read kepler',
         'modeDA'],
        ['mean_anomaly', 'velocity', 'm', 'update (1, 2) m', 'delete 2',
         'mode--', 'equinoctial', 'calculate_cartesian (0,)', 'copy',
         'read both'],
        ['r', 'e the same', 'true_anomaly', 'update (2,) cartesian',
         'calculate_cartesian (1, 2)', 'type=true', 'add kepler', 'delete 1',
         'm', 'propagate-', 'mode-A']]


def tasks(tier):
    q = tier == 'quick'
    out = []
    cfg = [('true', False, True, True, 'kepler'),
           ('mean', True, False, True, 'cart'),
           ('eccentric', False, False, True, 'kepler'),
           ('mean', False, True, True, 'cart')]
    if not q:
        cfg += [('true', True, False, True, 'cart'),
                ('eccentric', True, True, True, 'cart'),
                ('true', False, True, False, 'cart'),
                ('mean', True, True, False, 'kepler')]
    for i, (typ, deg, direct, auto, via) in enumerate(cfg):
        for n, perm in ((2, [1, 0]), (3, [2, 0, 1]), (4, [2, 0, 3, 1])):
            # exact parabolas only from their elements
            if n != (2 if not q and i > 3 else 3 if via == 'cart' else 4):
                continue
            nf = len(ops_for(n, deg))
            out += [dict(n=n, deg=deg, typ=typ, direct=direct, auto=auto,
                         via=via, perm=perm, depth=2, first=x.tolist())
                    for x in np.array_split(range(nf), 8)]
    for i, (typ, deg, direct, auto, via) in enumerate(cfg):
        # as many orbits as there are elements
        n = 6
        out += [dict(n=n, deg=deg, typ=typ, direct=direct, auto=auto,
                     via='kepler', perm=[3, 0, 5, 2, 4, 1],
                     depth=1, first=None)]
        for k in ([i % 4] if q else range(4)):
            ops = DEEP[k]
            out += [dict(n=3, deg=deg, typ=typ, direct=direct, auto=auto,
                         via=via, perm=[1, 2, 0],
                         depth=3 if q or k != i % 4 else 4, ops=ops,
                         first=x.tolist())
                    for x in np.array_split(range(len(ops)),
                                            2 if q else len(ops))]
    return out
