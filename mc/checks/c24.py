"""C24: Stumpff functions match their series."""
from decimal import Decimal, getcontext
import numpy as np
from pyorb import kepler
from .. import ref

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('ladder of 60 (quick) or 240 (thorough) mantissas per decade over |x| from 1e-300 to 1e4 (-5e5 and 4e6 in coarser steps), both '
        'signs, plus a dense regular grid and neighbours of 0, 1 and the '
        'squares of multiples of pi; scalar, integer, vector (in two orders) '
        'and matrix forms; c0..c3 each and together; oracle: the defining '
        'series in 120 or more digits of decimal arithmetic')
ASSUMPTIONS = ['-709.7**2 <= x <= 4e6 (cosh overflows beyond)']
EPS = 2.0**-52


_memo = {}


def series(k, x):
    if (k, x) not in _memo:
        _memo[k, x] = _series(k, x)
    return _memo[k, x]


def _series(k, x):
    # the terms grow to exp(sqrt(x)) before they shrink
    root = abs(float(x))**0.5
    getcontext().prec = 120 + (int(0.9*root) if x > 0 else 0)
    x = Decimal(x)
    t = Decimal(1)
    for j in range(2, k + 1):
        t /= j
    s, j = t, 0
    while True:
        t = -t*x/((k + 2*j + 1)*(k + 2*j + 2))
        s += t
        j += 1
        if j > 3 + root and abs(t) < Decimal(10)**-70*max(abs(s), Decimal(10)**-12):
            return s


def points(tier):
    m = 60 if tier == 'quick' else 240
    out = [0.0, -0.0]
    for d in list(range(-300, -20, 40)) + list(range(-20, 4)):
        for j in range(m):
            x = 10.0**(d + j/m)
            out += [x, -x]
    out += list(np.linspace(-60, 60, 601 if tier == 'quick' else 12001))
    # to the largest arguments with a finite result, and far beyond pi
    out += [-s*s for s in range(101, 711, 3 if tier == 'quick' else 1)]
    out += [-709.7**2, -705.0**2, -700.5**2]
    out += [s*s for s in (101, 150, 333.3, 512, 999.9, 2e3)]
    for c in [1.0, 0.5, 2.0, 4.0] + [(n*np.pi)**2 for n in range(1, 6)] \
            + [(n*np.pi/2)**2 for n in range(1, 8, 2)]:
        out += [c, np.nextafter(c, 0), np.nextafter(c, 1e9), -c,
                -np.nextafter(c, 0), -np.nextafter(c, 1e9)]
    return [float(x) for x in out]


def tasks(tier):
    n = len(points(tier))
    step = 200 if tier == 'quick' else 2000
    return [dict(tier=tier, lo=j, hi=min(n, j + step))
            for j in range(0, n, step)]


def scale(k, x):
    """Natural size of c_k, above its value near the zeros."""
    if x <= 0:
        return abs(float(series(k, x)))
    s = np.sqrt(x)
    return max(min([1, 1/s, 2/x, 1/x][k], [1, 1, 0.5, 1/6][k]),
               abs(float(series(k, x))))


def tol(k, x):
    s = np.sqrt(abs(x))
    return 16*EPS*(1 + s)*scale(k, x)


def run(task, ctx):
    xs = points(task['tier'])[task['lo']:task['hi']]
    F = [kepler.stumpff0, kepler.stumpff1, kepler.stumpff2, kepler.stumpff3]
    arr = np.array(xs)
    want = [[series(k, x) for x in xs] for k in range(4)]
    tols = [[tol(k, x) for x in xs] for k in range(4)]

    def judge(k, j, got, form):
        ctx.ev()
        g = float(got)
        err = abs(Decimal(g) - want[k][j]) if np.isfinite(g) else None
        if err is None or float(err) > tols[k][j]:
            ctx.fail('Stumpff function differs from its series', k=k,
                     x=xs[j], got=g, want=float(want[k][j]), form=form)
            return False
        return True

    for k, f in enumerate(F):
        v = f(arr.copy())
        rev = f(arr[::-1].copy())
        mat = f(np.stack([arr, arr]))
        if v.shape != arr.shape or mat.shape != (2, arr.size):
            ctx.fail('result has another shape than the argument', k=k)
            continue
        for j, x in enumerate(xs):
            ctx.outcome(k, x)
            judge(k, j, v[j], 'vector')
            judge(k, j, rev[len(xs) - 1 - j], 'reversed vector')
            judge(k, j, mat[1, j], 'matrix')
            s = f(x)
            if np.shape(s) != ():
                ctx.fail('scalar gives an array', k=k, x=x)
            else:
                judge(k, j, s, 'scalar')
            one = f(np.array([x]))
            judge(k, j, one[0], 'one element')
            if x == int(x) and abs(x) < 1e5:
                judge(k, j, f(int(x)), 'integer')
                judge(k, j, f(np.array([int(x), 3]))[0], 'integers')
        if ctx.nfail > 40:
            return
    both = kepler.stumpff(arr.copy())
    if len(both) != 4:
        ctx.fail('not all four functions are returned')
    else:
        for k in range(4):
            for j in range(len(xs)):
                judge(k, j, both[k][j], 'together')
    # recurrence  c_k(x) + x c_{k+2}(x) = 1/k!
    for j, x in enumerate(xs):
        c = [float(both[k][j]) for k in range(4)]
        for k in (0, 1):
            ctx.ev()
            lhs = ref.L(c[k]) + ref.L(x)*ref.L(c[k + 2])
            t = tols[k][j] + abs(x)*tols[k + 2][j]
            if not abs(lhs - 1) <= t + 4*EPS:
                ctx.fail('recurrence between c_k and c_(k+2) violated', k=k,
                         x=x, got=lhs)
    e = kepler.stumpff(np.zeros(0))
    if any(x.shape != (0,) for x in e):
        ctx.fail('empty argument gives another shape')
    n = kepler.stumpff(np.array([np.nan, 1.0]))
    if any(not np.isnan(x[0]) or np.isnan(x[1]) for x in n):
        ctx.fail('NaN is not kept apart')
    ctx.sample(x=xs[:3])
