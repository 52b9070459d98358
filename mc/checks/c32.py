"""C32: unknown values stay unknown and disturb nothing."""
import itertools
import numpy as np
from pyorb import Orbit, kepler
from .. import hist, ref
from ..hist import Op

PROPERTY = 'C32'
LEVEL = 'model_checking'
RULE = ('all reachable states of entering six elements one at a time, in any '
        'order and by single assignments, keyed and addressed updates, with '
        'reads, recalculations, anomaly type and updating mode switches in '
        'between (breadth first to closure) x side x orbit kind x settings; '
        'all operation sequences up to a depth on objects holding undefined '
        'orbits, against the same object without them; all patterns of '
        'undefined columns and rows in the array functions')
ASSUMPTIONS = ['derived quantities of incomplete orbits may be undefined or '
               'the value the complete orbit has',
               'the anomaly type is switched only while the anomaly is '
               'unknown, or together with the eccentricity it needs']

MODES = {'DA': (True, True), 'D-': (True, False), '-A': (False, True),
         '--': (False, False)}
K, C = Orbit.KEPLER, Orbit.CARTESIAN
KIND = {'ell': 0, 'hyp': 1, 'par': 3}
PATTERNS = [(0,), (1,), (0, 1), (0, 2), (1, 2), (1, 3)]   # complete columns


def tasks(tier):
    big = tier != 'quick'
    out = []
    for side in ('kep', 'cart'):
        for kind in KIND:
            for mode in MODES:
                for n in (1, 2):
                    sets = [(False, 'true'), (True, 'mean'),
                            (False, 'eccentric'), (True, 'true'),
                            (False, 'mean'), (True, 'eccentric')]
                    s = (list(KIND).index(kind) + list(MODES).index(mode)
                         + n + (side == 'kep'))
                    for t, (deg, typ) in enumerate(sets):
                        if not big and t != s % 6:
                            continue
                        out.append(dict(kind='enter', side=side, orbit=kind,
                                        mode=mode, n=n, deg=deg, type=typ,
                                        big=big))
    for mode in MODES:
        for typ in ('true', 'eccentric', 'mean'):
            for p, pat in enumerate(PATTERNS):
                for fill in ('blank', 'partial') if big or p % 2 else \
                        ('blank',):
                    if not big and (p + len(typ) + list(MODES).index(mode)) \
                            % 2:
                        continue
                    deg = (p + list(MODES).index(mode)) % 2 == 0
                    deep = big and fill == 'blank' and pat in ((1,), (0, 2))
                    for part in range(4) if deep else [None]:
                        out.append(dict(kind='beside', mode=mode, type=typ,
                                        pat=list(pat), fill=fill, deg=deg,
                                        part=part, depth=3 if deep else 2))
    for deg in (False, True):
        for name in ('state', 'anomaly', 'other'):
            out.append(dict(kind='columns', what=name, deg=deg,
                            n=5 if big else 4))
    return out


def run(task, ctx):
    globals()['run_' + task['kind']](task, ctx)


# ------------------------------------------------ entering piece by piece
class Entry:
    """What has been entered so far."""

    def __init__(self, side, target, deg, typ, mode, mass):
        self.side, self.deg, self.typ, self.mode = side, deg, typ, mode
        self.target = target          # per anomaly type: (kep, cart), (6, n)
        self.mass = mass
        self.mask = 0
        self.switched = self.after = 0
        self.converted = False        # asked for in manual mode

    def clone(self):
        o = Entry.__new__(Entry)
        o.__dict__.update(self.__dict__)
        return o

    def key(self):
        return repr((self.mask, self.typ, self.mode, self.converted,
                     self.switched, self.after)).encode()

    # for the explorer's messages
    n = property(lambda s: s.mass.size)
    direct = property(lambda s: MODES[s.mode][0])
    auto = property(lambda s: MODES[s.mode][1])


def known(mod):
    """Values of both representations that have to be reported; where the
    first orbit is incomplete they are undefined."""
    k, c = (x.copy() for x in mod.target[mod.typ])
    full = mod.mask == 63
    miss = [j for j in range(6) if not mod.mask >> j & 1]
    own, other = (k, c) if mod.side == 'kep' else (c, k)
    own[miss, 0] = np.nan
    if not full or mod.mode == '--' and not mod.converted:
        other[:, 0] = np.nan
    return k, c


DERIVED = ['true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'period',
           'speed', 'velocity', 'periapsis', 'mean_longitude']


def derived(mod, name, j):
    key = ('derived', name, j)
    if key not in mod.target:
        mod.target[key] = float(_derived(mod, name, j))
    return mod.target[key]


def _derived(mod, name, j):
    k, c = mod.target['true']
    k = k[:, j:j + 1].astype(np.longdouble)
    if mod.deg:
        k[2:] = ref.rad(k[2:])
    mu = hist.G*(hist.M0 + mod.mass[j])
    a, e, nu = k[0], k[1], k[5]
    back = ref.deg if mod.deg else (lambda x: x)
    if name.endswith('anomaly'):
        return back(ref.convert_anom(nu, e[0], 'true', name.split('_')[0]))[0]
    if name == 'mean_longitude':
        return back(ref.convert_anom(nu, e[0], 'true', 'mean')
                    + k[3] + k[4])[0]
    if name == 'period':
        return 2*ref.L(np.pi)*np.sqrt(a**3/mu)[0]
    if name in ('speed', 'velocity'):
        return ref.norm(c[3:, j:j + 1].astype(np.longdouble))[0]
    return a[0] if e[0] == 1 else (a*abs(1 - e))[0]


def observe_entry(ctx, orb, mod, h, level):
    k, c = known(mod)
    rows = dict(zip(K + C, list(k) + list(c)))
    rows.update(kepler=k, cartesian=c, r=c[:3], v=c[3:])
    seen = []
    for first in ('kepler', 'cartesian', 'a', 'anom', 'x', 'vz', 'r', 'v'):
        o = hist.clone(orb)
        for name in (first, 'kepler', 'cartesian'):
            got, want = getattr(o, name), rows[name]
            if got.shape != want.shape:
                return f'{name}: shape {got.shape}'
            un = np.isnan(want)
            if not np.array_equal(np.isnan(got), un):
                if (~np.isnan(got) & un).any():
                    return f'{name}: a number is reported for a value ' \
                           'that is not known'
                return f'{name}: a known value is not reported'
            if name in ('kepler', 'cartesian'):
                continue
        side = mod.side
        own = getattr(o, 'kepler' if side == 'kep' else 'cartesian')
        want = k if side == 'kep' else c
        g, w = own[:, 0], want[:, 0]
        d = np.abs(g - w)
        if side == 'kep':
            # the anomaly may have been converted
            full = 360.0 if mod.deg else 2*np.pi
            d[5] = min(d[5] % full, full - d[5] % full)
        if not np.all(np.isnan(w) | (d <= 1e-9*(1 + np.abs(w)))):
            return 'an entered value is reported wrongly'
        cart, kep = o.cartesian, o.kepler
        if any(np.array_equal(cart, a, equal_nan=True)
               and np.array_equal(kep, b, equal_nan=True) for a, b in seen):
            continue
        seen.append((cart, kep))
        for j in range(mod.n):
            mu = hist.G*(hist.M0 + mod.mass[j])
            if not np.isnan(c[:, j]).any() \
                    and not hist.state_close(cart[:, j], c[:, j], mu):
                return f'Cartesian elements of orbit {j}'
            if not np.isnan(k[:, j]).any() and not hist.kep_close(
                    kep[:, j], ref.ld(k[:, j]), np.zeros(6, dtype=bool), mu,
                    mod.deg, mod.typ):
                return f'Keplerian elements of orbit {j}'
    for name in DERIVED:
        o = hist.clone(orb)
        got = getattr(o, name)
        if got.shape != (mod.n,):
            return f'{name}: shape {got.shape}'
        for j in range(mod.n):
            want = derived(mod, name, j)
            done = not np.isnan(k[:, j]).any() and not np.isnan(c[:, j]).any()
            if np.isnan(got[j]) and not done:
                continue
            if name == 'periapsis' and not done and np.isnan(k[1, j]):
                return 'periapsis: a number without the eccentricity'
            d = abs(got[j] - want)
            if name.endswith(('anomaly', 'longitude')):
                full = 360.0 if mod.deg else 2*np.pi
                d = min(d % full, full - d % full)
            if not d <= 1e-6*(1 + abs(want)):
                return f'{name} of orbit {j} is wrong'
        if mod.mask != 63 and mod.side == 'cart' \
                and name != 'velocity' and not np.isnan(got[0]):
            return f'{name}: a number without a complete state'
    return None


def entry_ops(side, n, deg, big):
    names = K if side == 'kep' else C
    ops = []

    def put(j, how):
        def real(o, j=j, how=how):
            typ = o.type
            v = TARGETS[deg, n][typ][0 if side == 'kep' else 1][j]
            if how == 'set':
                setattr(o, names[j], v.copy())
            elif how == 'update':
                o.update(**{names[j]: float(v[0]) if n == 1 else v.copy()})
            else:
                o.update(inds=[0], **{names[j]: float(v[0])})

        def model(m, j=j):
            if m.mask >> j & 1:
                raise hist.Invalid
            m.mask |= 1 << j
            m.converted = False
        return Op(f'{how} {names[j]}', real, model)

    hows = ['set', 'update'] if n == 1 else ['update', 'inds'] if big \
        else ['inds']
    for j in range(6):
        for how in hows:
            ops.append(put(j, how))

    def read(name):
        return Op('read ' + name, lambda o: getattr(o, name) is None,
                  lambda m: None)
    ops += [read('kepler'), read('cartesian'), read('mean_anomaly'),
            read('speed')]

    def calc(which):
        def model(m):
            if n == 2 or m.mask == 63:
                m.switched += 1
            if m.mask != 63 or which == ('kep' if side == 'kep' else 'cart'):
                # nothing to calculate from, and never from an undefined side
                if m.mode == '--' and m.mask == 63 and not m.converted:
                    raise hist.Invalid
                return
            m.converted = True
        return Op('calculate ' + which,
                  lambda o: (o.calculate_cartesian() if which == 'cart'
                             else o.calculate_kepler()), model)
    ops += [calc('cart'), calc('kep')]

    def typ(t):
        def model(m):
            if side == 'kep' and m.mask >> 5 & 1 and not m.mask >> 1 & 1:
                raise hist.Invalid
            if t != m.typ and (n == 2 or m.mask >> 5 & 1 or m.mask == 63):
                m.switched += 1
            m.typ = t
        return Op('type=' + t, lambda o: setattr(o, 'type', t), model)
    ops += [typ(t) for t in ('true', 'eccentric', 'mean')]

    def mode(t):
        def model(m):
            if m.mode == '--' or t == m.mode:
                raise hist.Invalid
            m.mode = t

        def real(o):
            o.direct_update, o.auto_update = MODES[t]
        return Op('mode ' + t, real, model)
    ops += [mode(t) for t in ('DA', '-A')]

    # conversions of complete orbits round: only so many of them, and one
    # operation after the last value has been entered
    for p in ops:
        def model(m, plain=p.model):
            if m.mask == 63:
                if m.after:
                    raise hist.Invalid
                m.after = 1
            plain(m)
            if m.switched > 3 - n:
                raise hist.Invalid
        p.model = model
    return ops


TARGETS = {}


def targets(col, n, deg):
    kep = hist.KEP0[:, [col, 2][:n]]
    out = {}
    for t in Orbit.ANOMALY:
        k, c = hist._initial(np.ascontiguousarray(kep).tobytes(), n, deg, t)
        # the same state to the last bit, in every anomaly type
        out[t] = (k, out['true'][1] if out else c)
    return out


def run_enter(task, ctx):
    side, n, deg, typ = task['side'], task['n'], task['deg'], task['type']
    col = KIND[task['orbit']]
    D, A = MODES[task['mode']]
    tg = TARGETS[deg, n] = targets(col, n, deg)
    mass = np.array(hist.MASS[:n])
    o = Orbit(hist.M0, G=hist.G, num=n, m=mass, degrees=deg, type=typ,
              direct_update=D, auto_update=A)
    mod = Entry(side, tg, deg, typ, task['mode'], mass)
    if n == 2:
        # the second orbit is complete from the start
        k, c = tg[typ]
        if side == 'kep':
            o.update(inds=[1], kepler=k[:, 1:])
        else:
            o.update(inds=[1], cartesian=c[:, 1:])
        if task['mode'] == '--':
            (o.calculate_cartesian if side == 'kep'
             else o.calculate_kepler)()
    msg = observe_entry(ctx, o, mod, None, 0)
    if msg:
        ctx.fail('before anything is entered: ' + msg, **task)
    ops = entry_ops(side, n, deg, task['big'])
    if n == 2 and task['mode'] == '--':
        # values of the second orbit, written again, are pending
        ops = [p for p in ops if not p.name.startswith('update')]
    hist.explore(ctx, o, mod, ops, 60, observe_entry)
    # other ways in: some keys at construction, or with add, then the rest
    names = K if side == 'kep' else C
    vals = tg[typ][0 if side == 'kep' else 1]
    for mask in range(64):
        some = {names[j]: vals[j, :1].copy() for j in range(6)
                if mask >> j & 1}
        rest = {names[j]: vals[j, :1].copy() for j in range(6)
                if not mask >> j & 1}
        for route in ('new', 'add', 'inds'):
            for peek in (False, True):
                m2 = Entry(side, targets(col, 1, deg), deg, typ, task['mode'],
                           mass[:1])
                kw = dict(G=hist.G, degrees=deg, type=typ, direct_update=D,
                          auto_update=A)
                m2.mask = mask
                if route == 'new':
                    p = Orbit(hist.M0, m=mass[:1], **kw, **some)
                elif route == 'add':
                    p = Orbit(hist.M0, num=0, **kw)
                    p.add(num=1, m=mass[:1], **some)
                else:
                    p = Orbit(hist.M0, m=mass[:1], **kw)
                    p.update(inds=[0], **some)
                ctx.states += 1
                ctx.transitions += 1
                ctx.ev()
                msg = observe_entry(ctx, hist.clone(p), m2, None, 0)
                if not msg:
                    if peek:
                        p.cartesian, p.kepler
                    p.update(**rest)
                    m2.mask = 63
                    msg = observe_entry(ctx, p, m2, None, 1)
                if msg:
                    ctx.fail(msg, route=route, given=sorted(some), **task)
                    if ctx.nfail > 20:
                        return
    ctx.outcome(side, task['orbit'], task['mode'], n, deg, typ)
    ctx.sample(**task)


# ------------------------------------------------ beside undefined orbits
class Pair:
    """The same orbits without the undefined ones."""

    def __init__(self, orb, at, fill, modes, deg):
        self.orb, self.at, self.fill = orb, list(at), fill
        self.direct, self.auto = modes
        self.typ, self.deg, self.n = orb.type, deg, len(at)

    def clone(self):
        o = Pair.__new__(Pair)
        o.__dict__.update(self.__dict__)
        o.orb = hist.clone(self.orb)
        o.at = list(self.at)
        return o

    def key(self):
        return hist.snap(self.orb) + repr((self.at, self.fill)).encode()


def values_of(o):
    out = {}
    for name in ['cartesian', 'kepler'] + hist.GETTERS:
        out[name] = np.asarray(getattr(hist.clone(o), name))
    o = hist.clone(o)
    out['kepler again'], out['cartesian again'] = o.kepler, o.cartesian
    out['m'] = o.m
    return out


def observe_pair(ctx, orb, mod, h, level):
    big, small = values_of(orb), values_of(mod.orb)
    n, k = len(orb), len(mod.at)
    others = [j for j in range(n) if j not in mod.at]
    for name in big:
        g, w = big[name], small[name]
        if name == 'equinoctial':
            g, w = g.reshape(6, n), w.reshape(6, k)
        if g.shape[-1:] != (n,) or w.shape[-1:] != (k,):
            return f'{name}: shape {g.shape}, {w.shape}'
        gs = g[..., mod.at]
        if not np.array_equal(np.isnan(gs), np.isnan(w)) or not np.allclose(
                gs, w, rtol=1e-9, atol=1e-11, equal_nan=True):
            return f'{name} of an orbit depends on an undefined orbit ' \
                   'beside it'
        if name != 'm' and mod.fill == 'blank' \
                and not np.isnan(g[..., others]).all():
            return f'{name}: an undefined orbit reports a number'
    return None


def pair_ops(n, deg):
    """Operations on whole objects: columns of undefined orbits get NaN."""
    src = hist.KEP1[:, [1, 0, 3, 4]]
    k = hist._units(src, deg)
    ops = []

    def both(name, act):
        # act(orbit, columns of complete orbits among n or None)
        def real(o):
            act(o, STATE['at'], len(o))

        def model(m):
            STATE['at'] = list(m.at)
            act(m.orb, None, m.n)
            m.typ = m.orb.type
            m.direct, m.auto = m.orb.direct_update, m.orb.auto_update
            if name == 'equinoctial=':
                # undefined values leave some of the elements defined
                m.fill = 'partial'
        return Op(name, real, model)

    STATE = {}

    def spread(v, at, n):
        if at is None:
            return np.array(v[..., :n])
        out = np.full(v.shape[:-1] + (n,), np.nan)
        out[..., at] = v[..., :len(at)]
        return out

    def seta(attr, val, first=None):
        def act(o, at, n):
            x = spread(val, at, n)
            if attr == 'equinoctial' and n == 1:
                x = x.reshape(6)
            setattr(o, attr, x)
        ops.append(both(attr + '=', act))

    carts = hist.carts(src, 4)
    seta('kepler', k)
    seta('cartesian', carts)
    seta('r', carts[:3])
    seta('v', carts[3:])
    seta('x', carts[0])
    seta('vy', carts[4])
    seta('a', k[0])
    seta('e', np.array([0.3, 0.6, 0.1, 0.4]))
    seta('i', k[2])
    seta('anom', k[5])
    for t in Orbit.ANOMALY:
        seta(t + '_anomaly', k[5]*0.7)
    seta('period', np.array([2.0, 3.5, 5.0, 1.2]))
    seta('mean_motion', np.array([1.0, 0.7, 0.4, 2.0])*(57 if deg else 1))
    seta('velocity', np.array([0.9, 1.1, 0.8, 0.95]))
    kk = k.copy()
    kk[1] = [0.2, 0.3, 0.5, 0.1]
    seta('equinoctial', kepler.kep_to_equi(kk, degrees=deg))
    for t in Orbit.ANOMALY:
        ops.append(both('type=' + t, lambda o, at, n, t=t:
                        setattr(o, 'type', t)))
    for dt in (0.7, -3.0):
        ops.append(both(f'propagate({dt})', lambda o, at, n, dt=dt:
                        o.propagate(dt)))
    ops.append(both('calculate_cartesian()', lambda o, at, n:
                    o.calculate_cartesian()))
    ops.append(both('calculate_kepler()', lambda o, at, n:
                    o.calculate_kepler()))
    ops.append(both('read', lambda o, at, n: (o.kepler, o.cartesian)))
    for d, a in ((True, True), (False, True)):
        def act(o, at, n, d=d, a=a):
            o.direct_update, o.auto_update = d, a
        op = both(f'mode {d},{a}', act)
        plain = op.model

        def model(m, plain=plain):
            # leaving manual mode: which side wins is not at issue here
            if not (m.direct or m.auto):
                raise hist.Invalid
            plain(m)
        op.model = model
        ops.append(op)

    # operations that change which orbits there are
    def change(name, real, model):
        ops.append(Op(name, real, model))

    def appended(m):
        m.orb.add(num=1, m=0.3, kepler=k[:, :1].copy())
        m.at = m.at + [LEN[0]]
        m.n += 1

    LEN = [0]
    change('add(kepler)', lambda o: o.add(num=1, m=0.3,
                                          kepler=k[:, :1].copy()), appended)
    change('add()', lambda o: o.add(num=1), lambda m: None)
    change('copy', lambda o: o.copy(), lambda m: None)
    change('reverse', lambda o: o[::-1], None)
    return ops, LEN


def run_beside(task, ctx):
    pat, deg, typ = task['pat'], task['deg'], task['type']
    D, A = MODES[task['mode']]
    n = max(pat) + 2
    kep = hist.KEP0[:, [0, 1, 2, 3][:len(pat)]]
    small, _ = hist.make(kep, deg=deg, typ=typ, direct=D, auto=A)
    if task['mode'] == '--':
        small.calculate_cartesian()
    o = Orbit(hist.M0, G=hist.G, num=n, degrees=deg, type=typ,
              direct_update=D, auto_update=A)
    m = np.full(n, 0.2)
    m[pat] = small.m
    o.m = m
    o.update(inds=pat, kepler=small.kepler)
    if task['fill'] == 'partial':
        hole = [j for j in range(n) if j not in pat]
        o.update(inds=hole, e=0.4, anom=0.3)
    if task['mode'] == '--':
        o.calculate_cartesian()
    mod = Pair(small, pat, task['fill'], (D, A), deg)
    ops, LEN = pair_ops(n, deg)

    def rev(m):
        size = LEN[0]
        m.orb = m.orb[::-1]
        m.at = [size - 1 - j for j in m.at][::-1]
    [p for p in ops if p.name == 'reverse'][0].model = rev
    # the model has to know how many orbits the object holds
    for p in ops:
        plain = p.model

        def wrapped(m, plain=plain, name=p.name):
            LEN[0] = m.total
            out = plain(m)
            if name.startswith('add('):
                m.total += 1
            return out
        p.model = wrapped
    mod.total = n
    msg = observe_pair(ctx, o, mod, None, 0)
    if msg:
        ctx.fail(msg, history=[], **task)
    first = None
    if task['part'] is not None:
        first = [j for j in range(len(ops)) if j % 4 == task['part']]
    hist.explore(ctx, o, mod, ops, task['depth'], observe_pair, first=first)
    ctx.outcome(task['mode'], typ, tuple(pat), task['fill'], deg)
    ctx.sample(**task)


# -------------------------------------------------------- array functions
def run_columns(task, ctx):
    deg, n = task['deg'], task['n']
    u = 180/np.pi if deg else 1.0
    d = dict(degrees=deg)
    src = np.concatenate([hist.KEP0, hist.KEP1], axis=1)
    mus = np.array([1.0, 2.5, 0.3, 1.7, 1.1])
    what = task['what']
    kinds = list(itertools.product((0, 1, 3, 4), repeat=n)) if n <= 4 else \
        list(itertools.product((0, 1, 3), repeat=n))
    masks = [p for p in itertools.product((False, True), repeat=n)
             if any(p)]
    for cols in kinds:
        if what != 'state' and list(cols) != sorted(cols):
            continue
        kep = src[:, [c + (5 if (c + j) % 2 and c not in (1, 3) else 0)
                      for j, c in enumerate(cols)]]
        e = kep[1]
        kd = kep.copy()
        kd[2:] *= u
        mu = mus[:n]
        cart = kepler.kep_to_cart(kd, mu=mu, **d)
        closed = e < 1
        calls = []
        if what == 'state':
            calls = [('kep_to_cart', lambda x, mu: kepler.kep_to_cart(
                          x, mu=mu, **d), kd, True),
                     ('cart_to_kep', lambda x, mu: kepler.cart_to_kep(
                         x, mu=mu, **d), cart, True)]
            if closed.all():
                km = kd.copy()
                km[5] = kepler.true_to_mean(kd[5], e, **d)
                equi = kepler.kep_to_equi(km, **d)
                calls += [
                    ('kep_to_equi', lambda x, mu: kepler.kep_to_equi(
                        x, **d), km, False),
                    ('equi_to_kep', lambda x, mu: kepler.equi_to_kep(
                        x, **d), equi, False),
                    ('equi_to_cart', lambda x, mu: kepler.equi_to_cart(
                        x, mu=mu, **d), equi, True),
                    ('cart_to_equi', lambda x, mu: kepler.cart_to_equi(
                        x, mu=mu, **d), cart, True)]
            for name, f, data, has_mu in calls:
                want = f(data.copy(), mu.copy())
                for mask in masks:
                    for rows in [[j] for j in range(6)] + [list(range(6))]:
                        x = data.copy()
                        x[np.ix_(rows, np.flatnonzero(mask))] = np.nan
                        judge_columns(ctx, name, lambda: f(x, mu.copy()),
                                      want, mask, kinds=cols, rows=rows,
                                      degrees=deg,
                                      undef=name == 'kep_to_cart'
                                      and rows != [2] and rows != [4])
                    if has_mu:
                        mx = mu.copy()
                        mx[list(mask)] = np.nan
                        judge_columns(ctx, name + ' (mu)', lambda: f(
                            data.copy(), mx), want, mask, kinds=cols,
                            degrees=deg, undef=False)
        elif what == 'anomaly':
            nu = kd[5]
            E = kepler.true_to_eccentric(nu, e, **d)
            M = kepler.eccentric_to_mean(E, e, **d)
            for name, x in (('true_to_eccentric', nu),
                            ('eccentric_to_true', E),
                            ('eccentric_to_mean', E), ('true_to_mean', nu),
                            ('mean_to_eccentric', M), ('mean_to_true', M)):
                f = getattr(kepler, name)
                want = f(x, e, **d)
                for mask in masks:
                    mk = list(mask)
                    xa, ea = x.copy(), e.copy()
                    xa[mk] = np.nan
                    ea[mk] = np.nan
                    for tag, args in (('anomaly', (xa, e)), ('e', (x, ea)),
                                      ('both', (xa, ea))):
                        judge_columns(ctx, name, lambda: f(
                            *[a.copy() for a in args], **d), want, mask,
                            kinds=cols, undefined=tag, degrees=deg,
                            undef=True)
        else:
            mu = mus[:n]
            a = np.where(e > 1, -kep[0], kep[0])
            h = np.sqrt(mu*np.where(e == 1, 2*kep[0], a*(1 - e**2)))
            p = kd[5]
            r = h**2/(mu*(1 + e*np.cos(kep[5])))
            calls = [
                ('orbital_distance', lambda *q: kepler.orbital_distance(
                    *q, **d), (h, mu, e, p)),
                ('orbital_speed', kepler.orbital_speed,
                 (r, np.where(e == 1, np.inf, a), mu)),
                ('orbital_period', kepler.orbital_period, (kep[0], mu)),
                ('semi_major_axis', kepler.semi_major_axis, (kep[0], mu)),
                ('parabolic_total_angular_momentum',
                 kepler.parabolic_total_angular_momentum, (kep[0], mu)),
                ('euler_rotation_matrix',
                 lambda *q: kepler.euler_rotation_matrix(*q, **d),
                 (kd[2], kd[3], kd[4])),
                ('stumpff', lambda x: np.stack(kepler.stumpff(x)),
                 (kep[5],)),
                ('kepler_guess', kepler.kepler_guess,
                 (kep[5], np.where(e == 1, 0.5, e))),
            ]
            for name, f, args in calls:
                want = f(*[q.copy() for q in args])
                for mask in masks:
                    for which in range(len(args)):
                        x = [q.copy() for q in args]
                        x[which][list(mask)] = np.nan
                        judge_columns(ctx, name, lambda: f(*x), want, mask,
                                      kinds=cols, argument=which,
                                      degrees=deg, undef=name
                                      != 'euler_rotation_matrix')
    ctx.sample(**task)


def judge_columns(ctx, name, call, want, mask, undef, **case):
    ctx.ev()
    ctx.states += 1
    ctx.transitions += 1
    ctx.outcome(name, mask, undef, case.get('kinds'))
    mask = np.array(mask)
    try:
        got = call()
    except Exception as exc:
        ctx.fail(f'{name}: raises {type(exc).__name__} for undefined columns',
                 mask=mask, error=repr(exc), **case)
        return
    if got.shape != want.shape:
        ctx.fail(f'{name}: shape changes with undefined columns',
                 mask=mask, **case)
        return
    g, w = got[..., ~mask], want[..., ~mask]
    if not np.allclose(g, w, rtol=1e-11, atol=1e-12, equal_nan=True):
        ctx.fail(f'{name}: a column depends on undefined columns beside it',
                 mask=mask, got=g, want=w, **case)
    elif undef and not np.isnan(got[..., mask]).all():
        ctx.fail(f'{name}: a number is returned for an undefined column',
                 mask=mask, got=got[..., mask], **case)
