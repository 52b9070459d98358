"""Operation histories of Orbit objects against a reference model.

RefOrbit is an independent model of an Orbit: it stores both representations
of every orbit, remembers which one is out of date, and (unless updating is
disabled) brings them in line after every write.  An explorer runs every
sequence of operations from a finite alphabet, up to a depth, on the real
object and on the model in lockstep and compares what can be observed.
"""
import copy
import re
from functools import lru_cache
import numpy as np
import pyorb
from . import ref

L = np.longdouble
G, M0 = 2.0, 0.7
MASS = [0.1, 0.3, 0.6, 0.2, 0.45, 0.05]
TOL = 1e-6


# ------------------------------------------------------------------ model
@lru_cache(maxsize=200000)
def _to_state(kb, mu, deg, typ):
    k = np.frombuffer(kb, dtype=L).copy()[:, None]
    if deg:
        k[2:5] = ref.rad(k[2:5])
        if typ == 'true' or True:
            k[5] = ref.rad(k[5])
    k[5] = ref.convert_anom(k[5], k[1], typ, 'true')
    return ref.state(k, mu)[:, 0]


@lru_cache(maxsize=200000)
def _to_kep(cb, mu, deg, typ):
    c = np.frombuffer(cb, dtype=L).copy()[:, None]
    k = ref.canon(c, mu)
    k[5] = ref.convert_anom(k[5], k[1], 'true', typ)
    if deg:
        k[2:] = ref.deg(k[2:])
    return k[:, 0]


def to_state(kep, mu, deg, typ):
    return _to_state(np.ascontiguousarray(kep, dtype=L).tobytes(), float(mu),
                     deg, typ)


def to_kep(cart, mu, deg, typ):
    return _to_kep(np.ascontiguousarray(cart, dtype=L).tobytes(), float(mu),
                   deg, typ)


class Invalid(Exception):
    """The written values describe no orbit in the explored domain."""


class RefOrbit:
    def __init__(self, n, deg=False, typ='true', direct=True, auto=True):
        self.m = np.zeros(n)
        self.cart = np.full((6, n), np.nan, dtype=L)
        self.kep = np.full((6, n), np.nan, dtype=L)
        self.stale = np.zeros(n, dtype=int)   # 1: cart stale, 2: kep stale
        self.cx = np.zeros((6, n), dtype=bool)   # exactly as written
        self.kx = np.zeros((6, n), dtype=bool)
        self.deg, self.typ = deg, typ
        self.direct, self.auto = direct, auto
        self.kro = self.cro = False
        # conversions may be pending in the real object (updating on access),
        # and updating was switched off meanwhile: until it is on again, only
        # writes of whole representations have a defined meaning
        self.lazy = self.hidden = False

    def clone(self):
        o = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            o.__dict__[k] = v.copy() if isinstance(v, np.ndarray) else v
        return o

    def key(self):
        return b'|'.join([
            v.tobytes() + repr((v.shape,)).encode()
            if isinstance(v, np.ndarray) else repr(v).encode()
            for _, v in sorted(self.__dict__.items())])

    @property
    def n(self):
        return self.kep.shape[1]

    @property
    def manual(self):
        return not (self.direct or self.auto)

    def mu(self, j):
        return G*(M0 + float(self.m[j]))

    # -- domain
    def check(self, j):
        k = self.kep[:, j]
        if self.stale[j] != 2 and not np.isnan(k).any():
            a, e = k[0], k[1]
            if not (a > 1e-3 and a < 1e4 and e >= 0):
                raise Invalid
            if e != 1 and abs(e - 1) < 5e-3:
                raise Invalid
            if e < 1e-3 and e != 0:
                raise Invalid
            inc = ref.rad(k[2]) if self.deg else k[2]
            if not (0 <= inc <= ref.PI):
                raise Invalid
            if e >= 1:
                an = ref.rad(k[5]) if self.deg else k[5]
                if self.typ == 'true':
                    lim = ref.PI if e == 1 else np.arccos(-1/e)
                    if abs(ref.wrap(an)) > 0.97*lim:
                        raise Invalid
                elif abs(an) > 12:
                    raise Invalid
        c = self.cart[:, j]
        if self.stale[j] != 1 and not np.isnan(c).any():
            mu = self.mu(j)
            r, v, rn, h, en, ev = ref.invariants(c[:, None], mu)
            e = ref.norm(ev)[0]
            hn = ref.norm(h)[0]
            if rn[0] < 1e-3 or rn[0] > 1e5 \
                    or hn < 1e-2*rn[0]*ref.norm(v)[0]:
                raise Invalid
            # exactly parabolic states only arise from exact elements
            if abs(e - 1) < 5e-3 and not self.kep[1, j] == 1:
                raise Invalid

    # -- conversions
    def derive_cart(self, inds):
        for j in inds:
            if not np.isnan(self.kep[:, j]).any():
                self.cart[:, j] = to_state(self.kep[:, j], self.mu(j),
                                           self.deg, self.typ)
                self.cx[:, j] = False
                self.stale[j] = 0

    def derive_kep(self, inds):
        for j in inds:
            if not np.isnan(self.cart[:, j]).any():
                k = to_kep(self.cart[:, j], self.mu(j), self.deg, self.typ)
                if abs(k[1] - 1) < 1e-7:
                    # a parabola survives the round trip only as such
                    k = k.copy()
                    k[1] = 1
                self.kep[:, j] = k
                self.kx[:, j] = False
                self.stale[j] = 0

    def guard(self):
        if self.hidden:
            raise Invalid

    def sync(self, partial=False):
        if not self.manual:
            if not self.direct:
                self.lazy = True
            elif not partial:
                self.lazy = False
            self.derive_cart([j for j in range(self.n) if self.stale[j] == 1])
            self.derive_kep([j for j in range(self.n) if self.stale[j] == 2])

    def ids(self, inds):
        if inds is None:
            return list(range(self.n))
        return [int(j) for j in np.atleast_1d(np.arange(self.n)[inds])]

    def write_kep(self, rows, vals, inds=None, exact=True):
        js = self.ids(inds)
        if len(rows) < 6 or inds is not None:
            self.guard()
        vals = np.broadcast_to(ref.ld(vals), (len(rows), len(js)))
        for c, j in enumerate(js):
            for r, row in enumerate(rows):
                self.kep[row, j] = vals[r, c]
                self.kx[row, j] = exact
            self.stale[j] = 1
        for j in js:
            self.check(j)
        self.sync(inds is not None)

    def write_cart(self, rows, vals, inds=None, exact=True):
        js = self.ids(inds)
        if len(rows) < 6 or inds is not None:
            self.guard()
        vals = np.broadcast_to(ref.ld(vals), (len(rows), len(js)))
        for c, j in enumerate(js):
            for r, row in enumerate(rows):
                self.cart[row, j] = vals[r, c]
                self.cx[row, j] = exact
            self.stale[j] = 2
        for j in js:
            self.check(j)
        self.sync(inds is not None)
        for j in js:
            if self.stale[j] == 0:
                if self.kep[1, j] < 1e-3 or abs(self.kep[1, j] - 1) < 5e-3:
                    raise Invalid

    def set_mode(self, direct, auto):
        self.direct, self.auto = direct, auto
        if self.manual:
            self.hidden = self.hidden or self.lazy
        else:
            self.sync()
            # pending until the next access, even with direct updating
            self.lazy, self.hidden = True, False

    def settle(self):
        """Both representations have just been read."""
        if not self.manual:
            self.lazy = False

    def defined(self, which):
        if np.isnan(getattr(self, which)).any():
            raise Invalid

    def anomaly(self, kind, j, x=None):
        x = self.kep[5, j] if x is None else x
        if self.deg:
            x = ref.rad(x)
        y = ref.convert_anom(np.atleast_1d(x), self.kep[1, j], self.typ,
                             kind)[0]
        return ref.deg(y) if self.deg else y

    def set_anomaly(self, kind, vals):
        vals = np.broadcast_to(ref.ld(vals), (self.n,))
        self.defined('kep')
        out = []
        for j in range(self.n):
            x = ref.rad(vals[j]) if self.deg else vals[j]
            y = ref.convert_anom(np.atleast_1d(x), self.kep[1, j], kind,
                                 self.typ)[0]
            out.append(ref.deg(y) if self.deg else y)
        self.write_kep([5], np.array(out)[None, :], exact=kind == self.typ)

    def set_type(self, typ):
        self.guard()
        if typ != self.typ:
            self.defined('kep')
            new = [self.anomaly(typ, j) for j in range(self.n)]
            self.typ = typ
            self.kep[5] = new
            self.kx[5] = False

    def propagate(self, dt):
        self.guard()
        self.defined('kep')
        new = []
        for j in range(self.n):
            k = self.kep[:, j]
            x = ref.rad(k[5]) if self.deg else k[5]
            M = ref.convert_anom(np.atleast_1d(x), k[1], self.typ, 'mean')
            M = M + ref.mean_rate(k[0], k[1], self.mu(j))*L(dt)
            y = ref.convert_anom(M, k[1], 'mean', self.typ)[0]
            new.append(ref.deg(y) if self.deg else y)
        self.write_kep([5], np.array(new)[None, :], exact=False)

    def calculate(self, which, inds=None):
        self.guard()
        js = self.ids(inds)
        if which == 'cart':
            self.derive_cart(js)
        else:
            self.derive_kep(js)
            for j in js:
                if not self.kep[1, j] == 1 and (self.kep[1, j] < 1e-3 or abs(self.kep[1, j] - 1) < 5e-3):
                    raise Invalid

    def set_equinoctial(self, vals):
        v = ref.ld(vals).reshape(6, self.n)
        a, h, k, p, q, lam = v
        e = np.sqrt(h*h + k*k)
        inc = 2*np.arctan(np.sqrt(p*p + q*q))
        Om = ref.mod2pi(np.arctan2(p, q))
        ob = np.arctan2(h, k)
        om = ref.mod2pi(ob - Om)
        lam = ref.rad(lam) if self.deg else lam
        M = ref.mod2pi(lam - ob)
        an = np.array([ref.convert_anom(M[j:j + 1], e[j], 'mean',
                                        self.typ)[0] for j in range(self.n)])
        kep = np.stack([a, e, inc, om, Om, an])
        if self.deg:
            kep[2:] = ref.deg(kep[2:])
        self.write_kep(range(6), kep, exact=False)

    def scale_velocity(self, vals):
        self.defined('cart')
        v = self.cart[3:]
        vals = np.broadcast_to(ref.ld(vals), (self.n,))
        self.write_cart([3, 4, 5], v*(vals/ref.norm(v))[None, :], exact=False)

    def set_period(self, P):
        P = np.broadcast_to(ref.ld(P), (self.n,))
        mu = np.array([self.mu(j) for j in range(self.n)], dtype=L)
        a = np.cbrt((P/ref.TWOPI)**2*mu)
        self.write_kep([0], a[None, :], exact=False)

    def select(self, inds):
        o = self.clone()
        for k in ('m', 'stale'):
            setattr(o, k, np.atleast_1d(getattr(self, k)[inds]).copy())
        for k in ('cart', 'kep', 'cx', 'kx'):
            x = getattr(self, k)[:, inds]
            setattr(o, k, (x[:, None] if x.ndim == 1 else x).copy())
        return o

    def add(self, num, m=0.0):
        self.m = np.append(self.m, np.broadcast_to(float(m), (num,)))
        self.stale = np.append(self.stale, np.zeros(num, dtype=int))
        for k, f in (('cart', np.nan), ('kep', np.nan), ('cx', False),
                     ('kx', False)):
            x = getattr(self, k)
            setattr(self, k, np.append(x, np.full((6, num), f, dtype=x.dtype),
                                       axis=1))

    def delete(self, inds):
        keep = np.ones(self.n, dtype=bool)
        keep[inds] = False
        sel = self.select(keep)
        self.__dict__.update(sel.__dict__)

    def allocate(self, num):
        new = RefOrbit(num)
        for k in ('m', 'stale', 'cart', 'kep', 'cx', 'kx'):
            setattr(self, k, getattr(new, k))


# ------------------------------------------------------------------- real
@lru_cache(maxsize=None)
def _initial(kb, n, deg, typ):
    k = ref.ld(np.frombuffer(kb).reshape(6, n)).copy()
    k[5] = np.array([ref.convert_anom(k[5, j:j + 1], k[1, j], 'true', typ)[0]
                     for j in range(n)])
    if deg:
        k[2:] = ref.deg(k[2:])
    k = k.astype(float)
    c = np.stack([to_state(ref.ld(k[:, j]), G*(M0 + MASS[j]), deg, typ)
                  for j in range(n)], axis=1).astype(float)
    return k, c


def make(kep, deg=False, typ='true', direct=True, auto=True, dtype=None,
         via='kepler', **kw):
    """A real orbit and its model, holding the given elements (true anomaly
    in radians) expressed in the wanted unit and anomaly type."""
    kep = np.array(kep, dtype=float)
    n = kep.shape[1]
    m = np.array(MASS[:n])
    k, c = _initial(kep.tobytes(), n, deg, typ)
    if dtype is not None:
        kw['dtype'] = dtype
    orb = pyorb.Orbit(M0, G=G, num=n, m=m, degrees=deg, type=typ,
                      direct_update=direct, auto_update=auto, **kw)
    mod = RefOrbit(n, deg, typ, direct, auto)
    mod.m = m.copy()
    if via == 'kepler':
        orb.kepler = k.copy()
        mod.write_kep(range(6), k)
    else:
        orb.cartesian = c.copy()
        mod.write_cart(range(6), c)
    return orb, mod


def snap(orb):
    """Exact private state of a real orbit."""
    out = []
    for k, v in sorted(orb.__dict__.items()):
        if isinstance(v, np.ndarray):
            out.append((k, v.dtype.str, v.shape, v.tobytes()))
        else:
            out.append((k, repr(v)))
    return repr(out).encode()


PLAIN = (bool, int, float, str, bytes, type(None), type, np.dtype, np.generic)


def clone(orb):
    """Deep copy (copy.deepcopy of the attributes, with a fast path)."""
    memo = {}
    new = {}
    for k, v in orb.__dict__.items():
        if isinstance(v, PLAIN):
            new[k] = v
        elif type(v) is np.ndarray and v.flags.owndata:
            w = memo.get(id(v))
            if w is None:
                w = memo[id(v)] = v.copy()
            new[k] = w
        elif type(v) is dict and all(isinstance(x, PLAIN)
                                     for x in v.values()):
            w = memo.get(id(v))
            if w is None:
                w = memo[id(v)] = dict(v)
            new[k] = w
        else:
            new[k] = copy.deepcopy(v, memo)
    o = orb.__class__.__new__(orb.__class__)
    o.__dict__.update(new)
    return o


# ------------------------------------------------------------- comparison
def state_close(got, want, mu, tol=TOL):
    """Columns of two (6,) states agree, or are both undefined."""
    gn, wn = np.isnan(got), np.isnan(want)
    if wn.any() or gn.any():
        return bool((gn == wn).all()
                    and np.allclose(got[~gn].astype(float),
                                    want[~gn].astype(float), rtol=tol))
    got, want = ref.ld(got), ref.ld(want)
    r, v, rn, h, en, ev = ref.invariants(want[:, None], mu)
    hn = ref.norm(h)[0]
    vr = abs(np.sum(r*v, axis=0)[0])/rn[0]
    c = 1 + vr*rn[0]/hn
    vs = max(ref.norm(v)[0], L(mu)/hn)
    return bool(ref.norm((got - want)[:3, None])[0] <= tol*rn[0]*c
                and ref.norm((got - want)[3:, None])[0] <= tol*vs*c)


def kep_close(got, want, exact, mu, deg, typ, tol=TOL):
    gn, wn = np.isnan(got.astype(float)), np.isnan(want.astype(float))
    if (gn != wn).any():
        return False
    g, w = got.astype(float), want.astype(float)
    ok = ~exact | gn | (np.abs(g - w) <= 1e-12*np.abs(w))
    if not ok.all():
        return False
    if wn.any():
        return bool(np.allclose(g[~gn], w[~gn], rtol=tol))
    if typ == 'true' or g[1] < 1 or w[1] < 1:
        pass
    if not abs(g[1] - w[1]) <= tol*(1 + w[1]):
        return False
    if (g[1] == 1) != (w[1] == 1):
        return False
    return state_close(to_state(ref.ld(got), mu, deg, typ),
                       to_state(ref.ld(want), mu, deg, typ), mu, tol)


def near(got, want, exact):
    """Cheap sufficient test for agreement."""
    if got.shape != want.shape:
        return False
    w = want.astype(float)
    return bool((np.abs(got - w)
                 <= np.where(exact, 1e-12, 1e-9)*np.abs(w)).all())


def equal(a, b):
    return a.shape == b.shape and bool(
        ((a == b) | (np.isnan(a) & np.isnan(b))
         | (np.abs(a - b) <= 1e-9*np.abs(b) + 1e-9)).all())


def diff(cart, kep, mod, tol=TOL):
    """What of the observed values contradicts the model (None: nothing)."""
    if cart is not None and not near(cart, mod.cart, mod.cx):
        if cart.shape != mod.cart.shape:
            return f'cartesian shape {cart.shape}'
        for j in range(mod.n):
            want = mod.cart[:, j]
            ex = mod.cx[:, j]
            g = cart[:, j].astype(float)
            w = want.astype(float)
            if (ex & ~np.isnan(w)).any() and not np.all(
                    ~ex | (np.abs(g - w) <= 1e-12*np.abs(w))):
                return f'written Cartesian values of orbit {j}'
            if not state_close(cart[:, j], want, mod.mu(j), tol):
                return f'Cartesian elements of orbit {j}'
    if kep is not None and not near(kep, mod.kep, mod.kx):
        if kep.shape != mod.kep.shape:
            return f'kepler shape {kep.shape}'
        for j in range(mod.n):
            if not kep_close(kep[:, j], mod.kep[:, j], mod.kx[:, j],
                             mod.mu(j), mod.deg, mod.typ, tol):
                return f'Keplerian elements of orbit {j}'
    return None


# --------------------------------------------------------------- explorer
class Op:
    """One operation: name, effect on the real object, effect on the model.
    The model's effect may raise Invalid, which prunes the branch."""
    __slots__ = ('name', 'real', 'model', 'raises')

    def __init__(self, name, real, model, raises=None):
        self.name, self.real, self.model = name, real, model
        self.raises = raises

    def __repr__(self):
        return self.name


def path(node):
    out = []
    while node is not None:
        out.append(node[1])
        node = node[0]
    return [x for x in out[::-1] if x]


def explore(ctx, orb, mod, ops, depth, observe, first=None, seen=None,
            limit=40, clone=None, snap=None):
    """Breadth first over all operation sequences up to `depth`.  `first`
    restricts the first operation (for splitting into tasks).  `observe` gets
    (ctx, orb, mod, history, level) after every operation, on an object it may
    use up; it returns a message if something is wrong."""
    clone = clone or globals()['clone']
    snap = snap or globals()['snap']
    seen = set() if seen is None else seen
    level = [(orb, mod, None)]
    start = ctx.nfail
    for d in range(depth):
        nxt = []
        for orb, mod, node in level:
            for k, op in enumerate(ops):
                if d == 0 and first is not None and k not in first:
                    continue
                m2 = mod.clone()
                try:
                    # a model without an effect refuses the operation
                    refused = op.model(m2) == 'refused'
                except Invalid:
                    ctx.count('pruned_outside_domain')
                    continue
                o2 = clone(orb)
                hist = (node, op.name)
                err = None
                try:
                    res = op.real(o2)
                    if isinstance(res, type(o2)):
                        o2 = res
                except Exception as exc:
                    err = exc
                ctx.transitions += 1
                if (err is not None) != refused or (
                        refused and op.raises is not None
                        and not isinstance(err, op.raises)):
                    ctx.fail('operation ' + (
                        f'raises {type(err).__name__}' if err is not None
                        else 'is not refused'), op=op.name,
                        history=path(hist), error=repr(err))
                    continue
                key = snap(o2) + m2.key()
                if key in seen:
                    continue
                seen.add(key)
                ctx.states += 1
                ctx.ev()
                msg = observe(ctx, o2, m2, hist, d + 1)
                if msg is not None:
                    ctx.fail(msg, history=path(hist),
                             modes=dict(direct=m2.direct, auto=m2.auto,
                                        type=m2.typ, degrees=m2.deg,
                                        n=m2.n))
                    if ctx.nfail - start >= limit:
                        return
                    continue
                if d + 1 < depth:
                    nxt.append((o2, m2, hist))
        level = nxt
    ctx.traces += ctx.transitions


def observe_both(ctx, orb, mod, hist, level):
    """Cartesian first, Keplerian first, and again afterwards."""
    for order in ('ck', 'kc'):
        o = clone(orb)
        try:
            if order == 'ck':
                c = o.cartesian
                k = o.kepler
            else:
                k = o.kepler
                c = o.cartesian
            c2, k2 = o.cartesian, o.kepler
        except Exception as exc:
            return f'reading raises {type(exc).__name__}'
        msg = diff(c, k, mod)
        if msg:
            return f'wrong {msg} (read {order})'
        if not np.array_equal(c, c2, equal_nan=True) \
                or not np.array_equal(k, k2, equal_nan=True):
            return 'reading changes what is read later'
    return None


GETTERS = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'r', 'v',
           'a', 'e', 'i', 'omega', 'Omega', 'anom',
           'true_anomaly', 'eccentric_anomaly', 'mean_anomaly',
           'period', 'mean_motion', 'velocity', 'speed', 'periapsis',
           'mean_longitude', 'equinoctial']


def observe_getters(ctx, orb, mod, hist, level):
    """Every single property as the first thing read, consistent with the
    model's values."""
    base = clone(orb)
    c, k = base.cartesian, base.kepler
    n = mod.n
    rows = dict(x=c[0], y=c[1], z=c[2], vx=c[3], vy=c[4], vz=c[5], r=c[:3],
                v=c[3:], a=k[0], e=k[1], i=k[2], omega=k[3], Omega=k[4],
                anom=k[5])
    for name in GETTERS:
        o = clone(orb)
        got = np.asarray(getattr(o, name))
        again = np.asarray(getattr(o, name))
        if not np.array_equal(got, again, equal_nan=True):
            return f'reading {name} twice gives different values'
        if name in rows:
            want = rows[name]
            if got.shape != want.shape:
                return f'{name}: shape {got.shape}'
            if not equal(got, want):
                return f'{name} disagrees with the full state'
        if not equal(o.cartesian, c) or not equal(o.kepler, k):
            return f'values differ after reading {name}'
    if n == 1:
        o = clone(orb)
        text = str(o)
        for key, want in zip(pyorb.Orbit.KEPLER + pyorb.Orbit.CARTESIAN,
                             np.concatenate([k[:, 0], c[:, 0]])):
            got = re.findall(r'(?<![A-Za-z])' + key + r'\s*:\s*(\S+)', text)
            if len(got) != 1 or not np.allclose(
                    float(got[0]), float(want), rtol=1e-3, atol=1e-12,
                    equal_nan=True):
                return f'printed value of {key} is not the current one'
        if not equal(o.cartesian, c) or not equal(o.kepler, k):
            return 'values differ after printing'
    return None


# -------------------------------------------------------------- alphabets
KEP0 = np.array([[1.3, 0.3, 0.7, 1.1, 2.2, 4.0],
                 [1.1, 1.5, 1.0, 0.7, 5.0, -1.3],
                 [2.0, 0.6, 2.5, 5.0, 3.3, 1.0],
                 [0.6, 1.0, 0.5, 2.0, 3.9, -1.2],
                 [0.9, 0.2, 1.6, 4.0, 0.9, 2.5]]).T
KEP1 = np.array([[0.9, 0.55, 1.9, 4.2, 0.4, 1.9],
                 [1.7, 0.15, 0.4, 2.7, 1.0, 5.1],
                 [1.2, 1.8, 1.2, 0.3, 4.1, 0.9],
                 [1.4, 0.4, 2.1, 1.0, 5.5, 3.3],
                 [0.7, 1.0, 0.9, 5.8, 2.0, 1.5]]).T


def _units(kep, deg):
    k = np.array(kep, dtype=float)
    if deg:
        k[2:] *= 180/np.pi
    return k


def carts(kep, n):
    return np.stack([np.array(ref.state(kep[:, j:j + 1], G*(M0 + MASS[j])),
                              dtype=float)[:, 0] for j in range(n)], axis=1)


def alphabet(n, deg, names=None):
    """Operations on n orbits; all values differ from orbit to orbit."""
    ops = _alphabet(n, deg)
    if names is None:
        return list(ops)
    by = {o.name: o for o in ops}
    return [by[x] for x in names]


@lru_cache(maxsize=None)
def _alphabet(n, deg):
    u = 180/np.pi if deg else 1.0
    k1 = _units(KEP1[:, :n], deg)
    c1 = carts(KEP1, n)*np.array([1.1, 0.9, 1, 1, 1.05, 1])[:, None]
    f = np.linspace(1.0, 1.2, n)
    KN = pyorb.Orbit.KEPLER
    CN = pyorb.Orbit.CARTESIAN
    ops = []

    def op(name, real, model):
        ops.append(Op(name, real, model))

    def seta(attr, val):
        return lambda o: setattr(o, attr, np.copy(val))

    op('cartesian', seta('cartesian', c1), lambda m: m.write_cart(range(6), c1))
    op('kepler', seta('kepler', k1), lambda m: m.write_kep(range(6), k1))
    vals = dict(a=0.8*f, e=0.45*f, i=0.9*u*f, omega=3.0*u*f, Omega=1.3*u*f,
                anom=0.6*u*f, x=0.75*f, y=-0.6*f, z=0.3*f, vx=-0.5*f,
                vy=0.8*f, vz=-0.4*f)
    for r, name in enumerate(KN):
        op(name, seta(name, vals[name]),
           lambda m, r=r, v=vals[name]: m.write_kep([r], v[None, :]))
    for r, name in enumerate(CN):
        op(name, seta(name, vals[name]),
           lambda m, r=r, v=vals[name]: m.write_cart([r], v[None, :]))
    rv = c1[:3]*0.9
    vv = c1[3:]*1.1
    op('r', seta('r', rv), lambda m: m.write_cart([0, 1, 2], rv))
    op('v', seta('v', vv), lambda m: m.write_cart([3, 4, 5], vv))
    for kind in ('true', 'eccentric', 'mean'):
        val = {'true': 0.9, 'eccentric': 0.7, 'mean': 0.5}[kind]*u*f
        op(kind + '_anomaly', seta(kind + '_anomaly', val),
           lambda m, kind=kind, val=val: m.set_anomaly(kind, val))
    equ = np.array(ref.equinoctial(
        np.array([[1.4, 0.25, 0.8, 1.0, 2.0, 3.0]]*n).T
        * np.array([1, 1, 1, 1, 1, 1])[:, None]), dtype=float)
    equ[0] *= f
    equ[5] = (equ[5] + 0.1*np.arange(n))*u
    evals = equ if n > 1 else equ[:, 0]
    op('equinoctial', seta('equinoctial', evals),
       lambda m: m.set_equinoctial(equ))
    op('period', seta('period', 3.0*f), lambda m: m.set_period(3.0*f))
    op('velocity', seta('velocity', 1.1*f),
       lambda m: m.scale_velocity(1.1*f))
    op('propagate+', lambda o: o.propagate(0.37), lambda m: m.propagate(0.37))
    op('propagate-', lambda o: o.propagate(-2.9), lambda m: m.propagate(-2.9))
    for typ in ('true', 'eccentric', 'mean'):
        op('type=' + typ, lambda o, typ=typ: setattr(o, 'type', typ),
           lambda m, typ=typ: m.set_type(typ))
    op('calculate_cartesian()', lambda o: o.calculate_cartesian(),
       lambda m: m.calculate('cart'))
    op('calculate_kepler()', lambda o: o.calculate_kepler(),
       lambda m: m.calculate('kep'))
    op('calculate_cartesian([0])', lambda o: o.calculate_cartesian([0]),
       lambda m: m.calculate('cart', [0]))
    op('calculate_kepler([last])',
       lambda o: o.calculate_kepler(np.array([n - 1])),
       lambda m: m.calculate('kep', [n - 1]))
    for nm, inds in (('all', slice(None)), ('[0]', [0]),
                     ('[-1]', np.array([-1])), ('mask', None),
                     ('[1:]', slice(1, None)), ('int', n - 1)):
        if nm == 'mask':
            inds = np.arange(n) % 2 == 0
        js = np.atleast_1d(np.arange(n)[inds])
        kv, cv = 1.03*k1[:, js], 0.97*c1[:, js]
        if isinstance(inds, int):
            kv, cv = kv[:, 0], cv[:, 0]
        op(f'update({nm},kepler)',
           lambda o, i=inds, v=kv: o.update(inds=i, kepler=v.copy()),
           lambda m, i=inds, v=kv: m.write_kep(range(6), v.reshape(6, -1), i))
        op(f'update({nm},cartesian)',
           lambda o, i=inds, v=cv: o.update(inds=i, cartesian=v.copy()),
           lambda m, i=inds, v=cv: m.write_cart(range(6), v.reshape(6, -1), i))
        ka, ke = 1.15 + 0.1*js, 0.35 + 0.05*js
        cx, cv2 = 0.85 + 0.1*js, 0.65 + 0.05*js
        if isinstance(inds, int):
            ka, ke, cx, cv2 = [float(x[0]) for x in (ka, ke, cx, cv2)]
        op(f'update({nm},a,e)',
           lambda o, i=inds, x=ka, y=ke: o.update(inds=i, a=x, e=y),
           lambda m, i=inds, x=ka, y=ke:
           m.write_kep([0, 1], np.reshape([x, y], (2, -1)), i))
        op(f'update({nm},x,vy)',
           lambda o, i=inds, x=cx, y=cv2: o.update(inds=i, x=x, vy=y),
           lambda m, i=inds, x=cx, y=cv2:
           m.write_cart([0, 4], np.reshape([x, y], (2, -1)), i))
    op('copy', lambda o: o.copy(), lambda m: None)
    op('copy.copy', lambda o: copy.copy(o), lambda m: None)
    op('slice', lambda o: o[0:n], lambda m: None)
    op('read cartesian', lambda o: [o.cartesian, None][1], lambda m: None)
    op('read kepler', lambda o: [o.kepler, None][1], lambda m: None)
    op('read mean_anomaly', lambda o: [o.mean_anomaly, None][1],
       lambda m: None)
    for d in (True, False):
        for a in (True, False):
            def real(o, d=d, a=a):
                o.direct_update = d
                o.auto_update = a
            op('mode' + ('D' if d else '-') + ('A' if a else '-'), real,
               lambda m, d=d, a=a: m.set_mode(d, a))
    def real(o):
        o.cartesian, o.kepler
        o.direct_update = o.auto_update = False

    def model(m):
        m.settle()
        m.set_mode(False, False)
    op('settle--', real, model)
    return ops
