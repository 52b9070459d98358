"""C27: the element equivalence test never equates different orbits."""
import itertools
import numpy as np
from pyorb import kepler
from .. import ref, lat

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('all ordered pairs of element vectors: same size and shape class with '
        'every pair of orientations from a full angle grid; every pair of '
        'classes (size, eccentricity, inclination) with a coarser angle grid; '
        'perturbation ladder in each element; oracle: distance of the '
        'reference states')
ASSUMPTIONS = ['angles in radians; e <= 0.97 or e >= 1.5 or exactly one, or one of the '
               'two exactly one: elsewhere the position is too sensitive to e '
               'for a tolerance on the elements']

E = [0.0, 5e-10, 1e-8, 8e-4, 0.05, 0.3, 0.97, 1.0, 1.5]
I = [0.0, 2e-9, 1e-6, 0.5, np.pi/2, 2.6, np.pi, -0.5, -1e-10]
A = [1.0, 1.5e11, 3e-10]
ANG = [0.0, 0.5, 1.0, 2.0, 4.5]
RATIO = 3.0
NU = [0.0, 0.5, 1.0, 1.5, -0.5]
LADDER = [1e-14, 1e-12, 1e-10, 1e-9, 3e-9, 1e-8, 2e-8, 1e-7, 1e-6, 5e-6,
          9.99e-6, 1e-5, 1.001e-5, 2e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5]


def tasks(tier):
    big = tier != 'quick'
    out = [dict(kind='angles', e=e, i=i, big=big) for e in E for i in I]
    out += [dict(kind='classes', e=e, i=i, big=big) for e in E for i in I]
    out += [dict(kind='several'), dict(kind='sizes'), dict(kind='parabola')]
    out += [dict(kind='ladder', base=j) for j in range(len(lat.kinds()))]
    return out


def distance(k1, k2):
    """Relative distance of the states, scaled by conditioning."""
    mu = 1.0 if 1e-3 < k1[0] < 1e6 else 1.327e20
    c = ref.state(np.stack([k1, k2]).T, mu)
    er, ev = ref.state_err(c[:, :1], c[:, 1:], mu, np.array(k2)[:, None])
    sp = ref.norm(c[3:])[1]
    return float(max(er[0], ev[0]))


def slack(k1, k2):
    """Distance of states whose elements agree to 1e-5 of their values."""
    size = 1 + np.maximum(abs(k1[2:]), abs(k2[2:])).sum()
    e = max(k1[1], k2[1])
    if e == 1:
        return 2e-3
    return RATIO*(1e-5*size + min(e, 1e-8))*(1 + e)/abs(1 - e)


def must(k1, k2):
    """Equivalence promised: identical, or differing only in a split."""
    if np.array_equal(k1, k2):
        return 'identical'
    if k1[0] != k2[0] or k1[1] != k2[1] or k1[2] != k2[2]:
        return None
    circ = k1[1] < ref.E_LIM
    planar = abs(k1[2]) <= ref.I_LIM
    s1, s2 = list(k1[3:]), list(k2[3:])
    if circ and planar:
        if abs(sum(s1) - sum(s2)) < 1e-12:
            return 'circular and planar'
    elif circ:
        if s1[1] == s2[1] and abs(s1[0] + s1[2] - s2[0] - s2[2]) < 1e-12:
            return 'circular'
    elif planar:
        if s1[2] == s2[2] and abs(s1[0] + s1[1] - s2[0] - s2[1]) < 1e-12:
            return 'planar'
    return None


def judge(ctx, k1, k2):
    a1, a2 = k1.copy(), k2.copy()
    got = kepler.kep_equivalent(a1, a2)
    ctx.ev()
    if got not in (True, False):
        ctx.fail('the answer is not a truth value', k1=k1, k2=k2, got=got)
    if not (np.array_equal(a1, k1) and np.array_equal(a2, k2)):
        ctx.fail('arguments modified', k1=k1, k2=k2)
    why = must(k1, k2)
    if why and not got:
        ctx.fail(f'equal orbits declared different ({why})', k1=k1, k2=k2)
    if got and not why:
        d = distance(k1, k2)
        if not d < slack(k1, k2):
            ctx.fail('different orbits declared equivalent', k1=k1, k2=k2,
                     distance=d)
    return bool(got)


def run_several(task, ctx):
    """Several orbits at once: refused, or the answer for all of them."""
    vs = [np.array(v) for v in (
        [1.0, 0.3, 0.5, 1.0, 2.0, 3.0], [1.0, 0.3, 0.5, 1.0, 2.0, 3.5],
        [1.0, 0.0, 0.5, 1.0, 2.0, 3.0], [1.0, 0.0, 0.5, 2.0, 2.0, 2.0],
        [1.0, 0.3, 0.0, 1.0, 2.0, 3.0], [1.2, 0.3, 0.5, 1.0, 2.0, 3.0])]
    for n in (1, 2, 3):
        for left in itertools.combinations(range(len(vs)), n):
            for right in itertools.product(range(len(vs)), repeat=n):
                x = np.array([vs[j] for j in left]).T
                y = np.array([vs[j] for j in right]).T
                for k1, k2 in ((x, y), (x, y[:, 0]), (x[:, 0], y)):
                    ctx.ev()
                    try:
                        got = kepler.kep_equivalent(k1.copy(), k2.copy())
                    except Exception:
                        ctx.count('refused')
                        continue
                    ctx.count('answered')
                    a, b = (q.reshape(6, -1) for q in (k1, k2))
                    m = max(a.shape[1], b.shape[1])
                    d = [distance(a[:, j % a.shape[1]], b[:, j % b.shape[1]])
                         for j in range(m)]
                    # one answer for all of them, or one each
                    if np.any(np.broadcast_to(got, (m,))
                              & ~(np.array(d) < 2e-3)):
                        ctx.fail('different orbits declared equivalent '
                                 '(several at once)', k1=k1, k2=k2, got=got)
    ctx.outcome('several')
    ctx.sample(k1=vs[0], k2=vs[1])


def run(task, ctx):
    kind = task['kind']
    if kind == 'several':
        return run_several(task, ctx)
    if kind == 'sizes':
        # any unit of length
        for a in 10.0**np.arange(-30, 31, 3):
            for name, base in lat.kinds():
                u = np.array([a, *base[1:]])
                for f in (1.0, 1 + 1e-12, 1 + 1e-9, 1.001, 1.1, 2.0, 1e3, 1e9):
                    v = u.copy()
                    v[0] *= f
                    x, y = judge(ctx, u, v), judge(ctx, v, u)
                    ctx.outcome(name, a, f, x)
                    if x != y:
                        ctx.fail('the answer is not symmetric', k1=u, k2=v)
                    if x and f > 1 + 1e-4:
                        ctx.fail('the answer depends on the unit of length',
                                 k1=u, k2=v, got=x)
        ctx.sample(k1=u, k2=v)
        return
    if kind == 'parabola':
        for i, nu, d, s in itertools.product(
                I, NU, LADDER[2:-2] + [2.3e-16], (1, -1)):
            u = np.array([1.0, 1.0, i, 0.5, 1.0, nu])
            v = u.copy()
            v[1] += s*d
            if v[1] == 1:
                continue
            x, y = judge(ctx, u, v), judge(ctx, v, u)
            ctx.outcome('parabola', i, nu, d, s)
            if x != y:
                ctx.fail('the answer is not symmetric', k1=u, k2=v)
        ctx.sample(k1=u, k2=v)
        return
    if kind == 'ladder':
        name, base = lat.kinds()[task['base']]
        base = np.array(base)
        for el in itertools.product(range(6), repeat=2):
            for d1, d2 in itertools.product(LADDER, repeat=2):
                for s in (1, -1):
                    k = base.copy()
                    k[el[0]] += d1*max(1, abs(base[el[0]]))
                    if el[1] != el[0]:
                        k[el[1]] += s*d2*max(1, abs(base[el[1]]))
                    elif s < 0 or d1 != d2:
                        continue
                    if k[1] < 0 or not abs(k[2]) <= np.pi + 1e-3 \
                            or (k[1] != 1 and abs(k[1] - 1) < 5e-3):
                        continue
                    if base[1] >= 1 and (el[0] in (1, 5) or el[1] in (1, 5)) \
                            and max(d1, d2) > 0.05:
                        continue
                    ctx.outcome(name, el, d1, d2, s)
                    x = judge(ctx, base, k)
                    y = judge(ctx, k, base)
                    if x != y:
                        ctx.fail('the answer is not symmetric', k1=base, k2=k)
        ctx.sample(base=base)
        return
    if kind == 'angles':
        nus = NU + ([2.5, 4.0] if task['big'] and task['e'] < 1 else [])
        ang = ANG + [0.25] if task['big'] else ANG[:4]
        for a in A if task['big'] else A[:1]:
            vs = [np.array([a, task['e'], task['i'], om, Om, nu])
                  for om in ang for Om in ang for nu in nus]
            res = np.array([[judge(ctx, u, v) for v in vs] for u in vs])
            if not (res == res.T).all():
                j, k = np.argwhere(res != res.T)[0]
                ctx.fail('the answer is not symmetric', k1=vs[j], k2=vs[k])
            for j in range(len(vs)):
                ctx.outcome(a, task['e'], task['i'], j, res[j].sum())
        ctx.sample(k1=vs[1], k2=vs[-1])
        return
    angs = [(0.0, 0.0, 0.0), (1.0, 0.5, 0.5), (0.5, 1.0, 0.5),
            (0.5, 0.5, 1.0), (2.0, 0.0, -0.5), (0.0, 2.0, -0.5)]
    if task['big']:
        angs += [(0.0, 0.0, 1.5), (4.5, 2.0, 1.0), (1.5, 0.0, 0.0)]
    for e2, i2, f in itertools.product(E, I, (1.0, 1.1, 0.5, 1.00000001) if task['big']
                                   else (1.0, 1.1)):
        for x, y in itertools.product(angs, repeat=2):
            u = np.array([1.0, task['e'], task['i'], *x])
            v = np.array([f, e2, i2, *y])
            a, b = judge(ctx, u, v), judge(ctx, v, u)
            if a != b:
                ctx.fail('the answer is not symmetric', k1=u, k2=v)
            ctx.outcome(task['e'], task['i'], e2, i2, f, a)
    ctx.sample(k1=u, k2=v)
