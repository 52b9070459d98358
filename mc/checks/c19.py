"""C19: the gravitational constant in every system of units."""
import itertools
import numpy as np
import pyorb
from .. import ref, hist

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('full product of all spellings of all named units and a ladder of '
        'numeric units, over the three arguments; every unusable argument in '
        'every position; orbits of every kind described in every named system '
        'of units, in both directions of conversion and propagated')
ASSUMPTIONS = ['unit sizes: CODATA G, IAU 2012 au and parsec, Julian year, '
               'solar mass as published by the package']

MASS = {'kg': 1.0, 'g': 1e-3, 'Msol': 1.98847e30, 'Msun': 1.98847e30}
TIME = {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 31557600.0}
LEN = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'AU': 1.495978707e11,
       'pc': 3.08567758149137e16}
NUM = [1.0, 2.0, 1e-3, 0.1, 3.7e5, 1e12, 86400.0]
BAD = [1, 0, -3, None, [1.0], (1.0,), {}, b'kg', 1j, True, 'parsec', '', 'x',
       'kgs', 'sec', 'min', 'meter', 'mm', 'ms', 'Mearth', 'year', 'day',
       'yr', 'kk', 'mg', 'h ', np.float32(2.0), np.int64(2), np.array(1.0),
       'lb', 'ly', 'dd']
EXTRA = {0: ['kg', 'h', 'msun'], 1: ['m', 'y', 'au'], 2: ['m', 'kg', 'au']}


def spellings(name, mass):
    out = {name, name.lower(), name.upper(), name.capitalize(),
           name.swapcase()}
    if mass and name[0] == 'M':
        out |= {'M_' + name[1:], 'M ' + name[1:], 'm-' + name[1:],
                'M_' + name[1:].upper(), '_'.join(name.upper()),
                ' ' + name + ' '}
    return sorted(out)


def tasks(tier):
    out = [dict(kind='product', mass=m) for m in list(MASS) + ['num']]
    out += [dict(kind='bad'), dict(kind='forms')]
    out += [dict(kind='orbit', mass=m, length=l) for m in list(MASS) + [2.5e20]
            for l in list(LEN) + [1e7]]
    return out


def want(l, m, t):
    L = ref.L
    return L('6.6743e-11')*L(m)*L(t)**2/L(l)**3


def variants(tab, mass):
    out = [(s, v) for k, v in tab.items() for s in spellings(k, mass)]
    return out + [(x, x) for x in NUM]


def run(task, ctx):
    kind = task['kind']
    if kind == 'product':
        ms = [(s, MASS[task['mass']]) for s in spellings(task['mass'], True)] \
            if task['mass'] != 'num' else [(x, x) for x in NUM]
        for (m, mv), (l, lv), (t, tv) in itertools.product(
                ms, variants(LEN, False), variants(TIME, False)):
            w = want(lv, mv, tv)
            for g in (pyorb.get_G(l, m, t),
                      pyorb.get_G(length=l, mass=m, time=t),
                      pyorb.get_G(time=t, mass=m, length=l)):
                ctx.ev()
                if not abs(ref.L(g) - w) <= 1e-12*w:
                    ctx.fail('wrong gravitational constant', length=l, mass=m,
                             time=t, got=g, want=w)
            ctx.outcome(mv, lv, tv)
        ctx.sample(length='AU', mass=ms[0][0], time='y')
        # numeric units are equivalent to the named unit of that size
        return
    if kind == 'bad':
        good = [['m', 1.0, 'AU'], ['kg', 2.0, 'Msol'], ['s', 3.0, 'y']]
        for pos in range(3):
            for b in BAD + EXTRA[pos]:
                if pos == 1 and b in ('kg',):
                    continue
                if pos == 0 and b == 'm' or pos == 2 and b == 'h ':
                    continue
                for other in itertools.product(*[
                        good[q] for q in range(3) if q != pos]):
                    args = list(other)
                    args.insert(pos, b)
                    if isinstance(b, np.float32):
                        continue    # a float by numpy's, not Python's, rules
                    ctx.ev()
                    ctx.outcome('bad', pos, repr(b))
                    try:
                        got = pyorb.get_G(*args)
                    except TypeError:
                        continue
                    except Exception as exc:
                        ctx.fail('unknown unit refused with another error',
                                 args=args, error=repr(exc))
                        continue
                    ctx.fail('unknown unit accepted', args=args, got=got)
        for args in [('kg', 'm', 's'), ('s', 'kg', 'm'), ('m', 's', 'kg')]:
            ctx.ev()
            try:
                pyorb.get_G(*args)
                ctx.fail('units of another quantity accepted', args=args)
            except TypeError:
                pass
        return
    if kind == 'forms':
        # numpy double precision numbers are floats
        for x in NUM:
            ctx.ev()
            ctx.outcome('np', x)
            if pyorb.get_G(np.float64(x), np.float64(2.0), np.float64(3.0)) \
                    != pyorb.get_G(x, 2.0, 3.0):
                ctx.fail('numpy floats mean something else', x=x)
        # scaling laws
        for l, m, t in itertools.product(NUM, NUM, NUM):
            for n, f in ((0, -3), (1, 1), (2, 2)):
                a = [l, m, t]
                b = list(a)
                b[n] *= 7.0
                ctx.ev()
                q = ref.L(pyorb.get_G(*b))/ref.L(pyorb.get_G(*a))
                if abs(q/ref.L(7)**f - 1) > 1e-12:
                    ctx.fail('the constant does not scale with the units',
                             a=a, b=b, ratio=q)
        if abs(pyorb.get_G('m', 'kg', 's') - pyorb.G) > 1e-12*pyorb.G:
            ctx.fail('SI units do not give the SI constant')
        return
    # the same orbit described in this system of units
    m, l = task['mass'], task['length']
    mv, lv = MASS.get(m, m), LEN.get(l, l)
    from .. import lat
    M = 1.98847e30
    AU = 1.495978707e11
    for t in list(TIME) + [5.0e4]:
        tv = TIME.get(t, t)
        G = pyorb.get_G(l, m, t)
        for name, k in lat.kinds():
            ctx.ev(3)
            ctx.outcome(m, l, t, name)
            k = np.array(k)
            kep = k.copy()
            kep[0] *= AU
            GM = ref.L('6.6743e-11')*M*(1 + 0.25)
            for dt in (0.0, 4.0e6):
                kk = ref.propagate(kep[:, None], GM, dt)
                c = ref.state(kk, GM)
                o = pyorb.Orbit(M/mv, G=G, m=0.25*M/mv, a=kep[0]/lv, e=k[1],
                                i=k[2], omega=k[3], Omega=k[4], anom=k[5])
                if dt:
                    o.propagate(dt/tv)
                got = ref.ld(o.cartesian)*lv
                got[3:] /= ref.L(tv)
                if not hist.state_close(got[:, 0], c[:, 0], GM, 1e-7):
                    ctx.fail('the same orbit moves differently in other '
                             'units', units=[l, m, t], orbit=name, dt=dt,
                             got=got[:, 0], want=c[:, 0])
            # and back to elements
            c = ref.state(kep[:, None], GM)
            cu = (c/lv*np.array([1]*3 + [tv]*3, dtype=ref.L)[:, None])
            o = pyorb.Orbit(M/mv, G=G, m=0.25*M/mv,
                            cartesian=cu.astype(float))
            got = o.kepler[:, 0]
            if not (abs(got[0]*lv - kep[0]) < 1e-6*kep[0]
                    and abs(got[1] - k[1]) < 1e-6):
                ctx.fail('the same orbit has different elements in other '
                         'units', units=[l, m, t], orbit=name, got=got,
                         want=kep)
    ctx.sample(units=[l, m, 'y'])
