"""C20: published constants cannot be rebound or deleted."""
import itertools
import math
import sys
import numpy as np
import pyorb
from pyorb import const

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('all sequences of set and delete attempts up to length 2 over every '
        'published name and 3 over a subset, through every handle on the '
        'constants; published values re-read after each step')
ASSUMPTIONS = ['reference values: WGS-84, CODATA 2018 G, IAU au, exact c',
               'constants are changed through assignment and deletion only, '
               'not by editing the namespace dictionary']

VALUES = {
    'pi': math.pi, 'e': math.e, '_2pi': 2*math.pi, '_4pi': 4*math.pi,
    'c': 299792458.0, 'G': 6.6743e-11,
    'wgs84_a': 6378137.0, 'wgs84_invf': 298.257223563,
    'wgs84_f': 1/298.257223563, 'wgs84_omega': 7292115e-11,
    'wgs84_GM': 3986004.418e8, 'wgs84_M_earth': 3986004.418e8/6.6743e-11,
    'AU': 149597870700.0, 'M_sol': 1.98847e30, 'GM_sol': 1.32712440018e20,
}
for _p, _names in (('K', 'a e i om OM nu'), ('E', 'a h k p q lam')):
    for _j, _n in enumerate(_names.split()):
        VALUES[f'{_p}_{_n}'] = _j
PACKAGE = {'G': 'G', 'AU': 'AU', 'M_sol': 'M_sol', 'GM_sol': 'GM_sol',
           'GM_earth': 'wgs84_GM', 'M_earth': 'wgs84_M_earth'}
NAMES = sorted(VALUES)
SMALL = ['pi', 'G', 'K_a', 'K_e', 'GM_sol']


def ops(names):
    out = []
    for n in names:
        v = VALUES[n]
        for k, w in (('same', v), ('close', v + 1 if isinstance(v, int)
                                   else float(np.nextafter(v, np.inf))),
                     ('zero', -1.0), ('nan', float('nan')), ('str', 'x'),
                     ('none', None), ('float', float(v)),
                     ('negate', -v if v else 7), ('vector', [v])):
            out.append(('set', n, k, w))
        out.append(('del', n, '', None))
    return out


def tasks(tier):
    out = [dict(kind='values')]
    out += [dict(kind='pair', first=n) for n in NAMES]
    out += [dict(kind='deep', first=n, depth=3 if tier == 'quick' else 4)
            for n in SMALL]
    return out


def handles():
    return [const, pyorb.const, sys.modules['pyorb.const']]


def check(ctx, hist):
    for n, v in VALUES.items():
        got = getattr(const, n, None)
        if type(got) is not type(v) and not isinstance(got, np.floating) \
                or got != v:
            if isinstance(v, float) and isinstance(got, float) \
                    and abs(got - v) <= 1e-15*abs(v):
                ctx.fail('a published constant changed', name=n, got=got,
                     want=v, history=hist)
            return False
    return True


def step(ctx, h, op, hist):
    kind, name, how, val = op
    ctx.transitions += 1
    ctx.ev()
    same = kind == 'set' and not isinstance(val, (str, list)) \
        and val is not None and val == BEFORE[name]
    try:
        if kind == 'set':
            setattr(h, name, val)
        else:
            delattr(h, name)
    except Exception as exc:
        if same:
            ctx.fail('re-assigning the same value is refused', name=name,
                     value=val, history=hist, error=repr(exc))
        elif not isinstance(exc, TypeError):
            ctx.fail('refused with another error than the documented one',
                     name=name, value=val, history=hist, error=repr(exc))
        return
    if not same:
        ctx.fail('conflicting assignment or deletion accepted', name=name,
                 op=kind, value=val, history=hist)


BEFORE = {n: getattr(const, n, None) for n in VALUES}


def run(task, ctx):
    kind = task['kind']
    if kind == 'values':
        ctx.ev(len(VALUES) + len(PACKAGE))
        check(ctx, [])
        for n in VALUES:
            ctx.outcome(n)
        for p, n in PACKAGE.items():
            if getattr(pyorb, p) != getattr(const, n):
                ctx.fail('package level copy differs', name=p)
        for a, b, tol in [(const.wgs84_f*const.wgs84_invf, 1, 1e-14),
                          (const.wgs84_M_earth*const.G/const.wgs84_GM, 1,
                           1e-14),
                          (const.M_sol*const.G/const.GM_sol, 1, 1e-4),
                          (const._2pi/const.pi, 2, 1e-14),
                          (const._4pi/const.pi, 4, 1e-14)]:
            ctx.ev()
            if not abs(a - b) <= tol:
                ctx.fail('constants contradict each other', got=a, want=b)
        # defaults documented in terms of the constants
        kep = np.array([1.5e11, 0.2, 0.3, 0.4, 0.5, 0.6])
        for f in (pyorb.kep_to_cart, pyorb.equi_to_cart, pyorb.cart_to_kep,
                  pyorb.cart_to_equi):
            x = kep if 'cart_' not in f.__name__ else pyorb.kep_to_cart(kep)
            if f is pyorb.equi_to_cart:
                x = pyorb.kep_to_equi(kep)
            ctx.ev()
            if not np.allclose(f(x), f(x, mu=const.GM_sol), rtol=1e-14):
                ctx.fail('default gravitational parameter is not the Sun',
                         f=f.__name__)
        if pyorb.Orbit(1.0).G != const.G:
            ctx.fail('default gravitational constant is not the SI one')
        # the symbolic indices address the elements they name
        o = pyorb.Orbit(1.0, G=1.0, a=2.0, e=.1, i=.2, omega=.3, Omega=.4,
                        anom=.5)
        k = o.kepler[:, 0]
        for n, w in zip(('K_a', 'K_e', 'K_i', 'K_om', 'K_OM', 'K_nu'),
                        (o.a, o.e, o.i, o.omega, o.Omega, o.anom)):
            ctx.ev()
            if k[getattr(const, n)] != w[0]:
                ctx.fail('symbolic index addresses another element', name=n)
        ctx.sample(values=VALUES)
        return
    if kind == 'pair':
        seqs = ((a, b) for a in ops([task['first']]) for b in ops(NAMES))
        hs = [const]
    else:
        small = ops(SMALL)
        seqs = (s for s in itertools.product(small, repeat=task['depth'])
                if s[0][1] == task['first']) if task['depth'] == 3 else (
            s for s in itertools.product(
                *([ops([task['first']])] + [small[::2]]*(task['depth'] - 1))))
        hs = handles()
    fresh = 0
    for n, seq in enumerate(seqs):
        hist = []
        for j, op in enumerate(seq):
            h = hs[(n + j) % len(hs)]
            hist.append(list(op[:3]))
            step(ctx, h, op, hist)
        # (a step that was let through shows here at the latest)
        ctx.outcome(*[o[:3] for o in seq[:2]])
        if not check(ctx, hist):
            return
        if n % 400 == 0:
            # names added by the user are write-once as well
            fresh += 1
            name = f'user_{task["kind"]}_{task["first"]}_{fresh}'
            const_set = [(1.5, True), (1.5, True), (2.5, False)]
            for v, ok in const_set:
                try:
                    setattr(const, name, v)
                    if not ok:
                        ctx.fail('a constant was rebound', name=name)
                except TypeError:
                    if ok:
                        ctx.fail('a new constant was refused', name=name)
            try:
                delattr(const, name)
                ctx.fail('a constant was deleted', name=name)
            except TypeError:
                pass
            if getattr(const, name, None) != 1.5:
                ctx.fail('a user constant changed', name=name)
            check(ctx, hist)
    ctx.sample(sequence=[list(map(str, o)) for o in seq])
