"""C23: concurrent calls on shared inputs do not interfere."""
import copy
import itertools
import numpy as np
import pyorb
from pyorb import kepler
from .. import calls, hist, lat, ref, sched

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('all ordered pairs of jobs (conversion calls on shared input arrays; '
        'operations on Orbit objects derived from one another), every '
        'schedule with one preemption and, for pairs of short jobs, schedules '
        'with two; a preemption point is every executed source line of the '
        'package (for Orbit operations the first two and the last execution '
        'of each source line, every fourth of them in the quick tier); states = schedules executed, transitions = source lines '
        'executed under the scheduler')
ASSUMPTIONS = ['threads are preempted between source lines of the package '
               '(numpy calls on small arrays hold the interpreter lock)',
               'two threads, at most two preemptions (three in the thorough '
               'tier for short jobs)']

SEL = [0, 8, 10, 12]          # elliptic, circular planar, parabolic, hyperbolic


class Shared:
    """Input arrays given to both threads."""

    def __init__(self):
        k = calls.K[:, [0, 10, 12]]
        kc = calls.K[:, [0, 7]]
        self.kep = k.copy()
        self.kepd = lat.todeg(k)
        self.closed = kc.copy()
        self.closedd = lat.todeg(kc)
        self.cart = calls.CART[:, [0, 10, 12]].copy()
        self.cartc = calls.CART[:, [0, 7]].copy()
        self.equ = np.array(ref.equinoctial(kc), dtype=float)
        self.equd = self.equ.copy()
        self.equd[5] *= 180/np.pi
        self.mu = np.array([1.0, 2.0, 1.5])
        self.nu = np.array([4.0, -1.2, -1.3])
        self.nud = np.degrees(self.nu)
        self.e = np.array([0.3, 1.0, 1.5])
        self.opts = dict(tol=1e-12, max_iter=5000, degree=5)
        self.x = np.array([-2.0, 0.0, 0.5, 7.0])
        self.ang = np.array([0.3, 1.0])
        self.k1 = k[:, 0].copy()
        self.k2 = k[:, 0] + 0.01

    def all(self):
        return [v for _, v in sorted(self.__dict__.items())]


JOBS = {
    'kep_to_cart': lambda s: kepler.kep_to_cart(s.kep, mu=s.mu),
    'kep_to_cart/deg': lambda s: kepler.kep_to_cart(s.kepd, mu=s.mu,
                                                    degrees=True),
    'kep_to_cart/col': lambda s: kepler.kep_to_cart(s.kepd[:, 1], mu=2.0,
                                                    degrees=True),
    'cart_to_kep': lambda s: kepler.cart_to_kep(s.cart, mu=s.mu),
    'cart_to_kep/deg': lambda s: kepler.cart_to_kep(s.cart, mu=2.0,
                                                    degrees=True),
    'kep_to_equi/deg': lambda s: kepler.kep_to_equi(s.closedd, degrees=True),
    'kep_to_equi': lambda s: kepler.kep_to_equi(s.closed),
    'equi_to_kep/deg': lambda s: kepler.equi_to_kep(s.equd, degrees=True),
    'cart_to_equi/deg': lambda s: kepler.cart_to_equi(s.cartc, mu=1.0,
                                                      degrees=True),
    'equi_to_cart/deg': lambda s: kepler.equi_to_cart(s.equd, mu=1.0,
                                                      degrees=True),
    'true_to_mean/deg': lambda s: kepler.true_to_mean(s.nud, s.e,
                                                      degrees=True),
    'true_to_eccentric': lambda s: kepler.true_to_eccentric(s.nu, s.e),
    'eccentric_to_true/deg': lambda s: kepler.eccentric_to_true(
        s.nud, s.e, degrees=True),
    'eccentric_to_mean': lambda s: kepler.eccentric_to_mean(s.nu, s.e),
    'mean_to_true/deg': lambda s: kepler.mean_to_true(
        s.nud, s.e, solver_options=s.opts, degrees=True),
    'mean_to_eccentric': lambda s: kepler.mean_to_eccentric(
        s.nu, s.e, solver_options=s.opts),
    'mean_to_eccentric/loose': lambda s: kepler.mean_to_eccentric(
        s.nu, s.e, solver_options=dict(tol=1e-2, max_iter=2, degree=3)),
    'laguerre': lambda s: kepler.laguerre_solve_kepler(1.0, 1.2, 0.5),
    'kepler_guess': lambda s: kepler.kepler_guess(s.nu[[0, 2]], s.e[[0, 2]]),
    'euler': lambda s: kepler.euler_rotation_matrix(s.ang, s.ang, s.ang,
                                                    degrees=True),
    'rot': lambda s: [kepler.rot_mat_x(.3), kepler.rot_mat_y(.4),
                      kepler.rot_mat_z(.5)],
    'stumpff': lambda s: kepler.stumpff(s.x),
    'kep_equivalent': lambda s: kepler.kep_equivalent(s.k1, s.k2),
    'elliptic_radius': lambda s: kepler.elliptic_radius(s.nud, 1.0, s.e,
                                                        degrees=True),
    'orbital_distance': lambda s: kepler.orbital_distance(
        1.0, s.mu, s.e, s.nud, degrees=True),
    'get_G': lambda s: pyorb.get_G('AU', 'Msol', 'y'),
}
SHORT = ['kep_to_equi/deg', 'equi_to_kep/deg', 'true_to_eccentric',
         'eccentric_to_true/deg', 'eccentric_to_mean', 'stumpff',
         'orbital_distance', 'euler', 'kep_equivalent']


def put(o, name, val):
    setattr(o, name, val)


OPS = {
    'read cartesian': lambda o: None,
    'kepler=': lambda o: put(o, 'kepler',
                             hist.KEP1[:, [0, 1]][:, :o.num]),
    'x=': lambda o: put(o, 'x', 0.8),
    'type=mean': lambda o: put(o, 'type', 'mean'),
    'propagate': lambda o: o.propagate(0.4),
    'update': lambda o: o.update(inds=[0], a=1.2, e=0.4),
    'add': lambda o: o.add(1, a=1.0, e=.1, i=.2, omega=.3, Omega=.4, anom=.5),
    'delete': lambda o: o.delete([0]),
    'options': lambda o: o.solver_options.update(tol=1e-2, max_iter=1),
    'mean_anomaly=': lambda o: put(o, 'mean_anomaly', 1.0),
    'm=': lambda o: o.m.__setitem__(slice(None), 0.9),
    'flags': lambda o: (put(o, 'degrees', True), put(o, 'kepler_read_only',
                                                     True)),
}
DERIVE = {
    'copy': lambda o: o.copy(),
    'slice': lambda o: o[0:2],
    'element': lambda o: o[1],
    'iter': lambda o: next(iter(o)),
    'copy.copy': lambda o: copy.copy(o),
}


QUICK = [('copy', 'true', True), ('copy', 'mean', False),
         ('slice', 'mean', True), ('element', 'true', False),
         ('iter', 'mean', True), ('copy.copy', 'true', True)]


def tasks(tier):
    big = tier != 'quick'
    out = [dict(kind='pairs', first=a, depth=1) for a in JOBS]
    out += [dict(kind='pairs', first=a, depth=2, step=1 if big else 2)
            for a in SHORT]
    for a in ('kep_to_cart/deg', 'cart_to_kep/deg', 'mean_to_true/deg',
              'kep_to_cart', 'cart_to_kep'):
        out.append(dict(kind='pairs', first=a, depth=2,
                        step=2 if big else 6))
    if big:
        out += [dict(kind='pairs', first=a, depth=3, step=3) for a in SHORT]
    for d in DERIVE:
        for typ in ('true', 'mean'):
            for lazy in (True, False):
                if not big and (d, typ, lazy) not in QUICK:
                    continue
                out.append(dict(kind='orbits', derive=d, type=typ, lazy=lazy,
                                big=big))
    return out[::-1]


def plans(na, nb, depth, step=1):
    """Segments of every schedule with exactly `depth` preemptions."""
    if depth == 1:
        for k in range(0, na + 1, step):
            yield [(0, k), (1, None)]
        for k in range(0, nb + 1, step):
            yield [(1, k), (0, None)]
    elif depth == 2:
        for k in range(1, na + 1, step):
            for l in range(1, nb + 1, step):
                yield [(0, k), (1, l), (0, None)]
                yield [(1, l), (0, k), (1, None)]
    else:
        for k in range(1, na + 1, step):
            for l in range(1, nb + 1, step):
                for k2 in range(1, na - k + 1, step):
                    yield [(0, k), (1, l), (0, k2), (1, None)]


def run(task, ctx):
    if task['kind'] == 'orbits':
        return run_orbits(task, ctx)
    a = task['first']
    depth = task['depth']
    seconds = list(JOBS) if depth == 1 else [a]
    if depth == 2 and a in SHORT:
        seconds = [b for b in SHORT if b >= a]
    s = Shared()
    frozen = calls.freeze(s.all())
    want = {b: JOBS[b](s) for b in seconds + [a]}
    if calls.freeze(s.all()) != frozen:
        ctx.fail('inputs modified by a call alone', job=a)
        return
    n = {b: sched.lines(lambda: JOBS[b](s)) for b in set(seconds + [a])}
    for b in seconds:
        if depth == 1 and b < a and b not in (a,):
            continue        # both orders are among the schedules
        for plan in plans(n[a], n[b], depth, task.get('step', 1)):
            r = sched.Run([lambda: JOBS[a](s), lambda: JOBS[b](s)],
                          plan).go()
            ctx.ev()
            ctx.states += 1
            ctx.transitions += sum(r.lines)
            ctx.traces += 1
            case = dict(jobs=[a, b], schedule=[list(p) for p in plan])
            for t, name in ((0, a), (1, b)):
                if r.errors[t] is not None:
                    ctx.fail('a concurrent call raises', thread=t,
                             error=repr(r.errors[t]), **case)
                elif not calls.same(r.results[t], want[name]):
                    ctx.fail('a concurrent call gives another result',
                             thread=t, got=r.results[t], want=want[name],
                             **case)
            if calls.freeze(s.all()) != frozen:
                ctx.fail('shared inputs changed', **case)
                s = Shared()
            if ctx.nfail > 20:
                return
        ctx.outcome(a, b, depth, n[a], n[b])
        ctx.outcomes.update((a, b, depth, j) for j in range(
            min(n[a] + n[b], 400)))
    ctx.sample(jobs=[a, seconds[-1]], lines=[n[a], n[seconds[-1]]])


def final(o):
    """Everything observable of an orbit, in fixed order."""
    c = o.cartesian
    k = o.kepler
    return [c, k, o.m.copy(), o.mean_anomaly, o.num, o.type,
            o.degrees, o.kepler_read_only, dict(o.solver_options).__repr__()]


def same_state(a, b):
    return all(calls.same(x, y, 1e-9) if isinstance(x, np.ndarray)
               else x == y for x, y in zip(a, b))


def start(task):
    o, _ = hist.make(hist.KEP0[:, [0, 1]], typ=task['type'],
                     direct=not task['lazy'], auto=True,
                     solver_options=dict(tol=1e-6))
    if task['lazy']:
        o.cartesian, o.kepler
        o.x = o.x*1.01         # conversions pending
    return o, DERIVE[task['derive']](o)


def run_orbits(task, ctx):
    names = list(OPS)

    def job(o, op):
        def go():
            OPS[op](o)
            return final(o)
        return go

    alone = {}
    for op in names:
        for side in (0, 1):
            pair = start(task)
            alone[op, side] = (sched.points(job(pair[side], op)),
                               job(start(task)[side], op)())
    lead = ['propagate', 'options'] \
        if not task['big'] else names
    step = 1 if task['big'] else 4
    for a, b in itertools.product(names, names):
        if a not in lead and b not in lead:
            continue
        pa, pb = alone[a, 0][0], alone[b, 1][0]
        for plan in [[(0, k), (1, None)] for k in pa[::step]] \
                + [[(1, k), (0, None)] for k in pb[::step]]:
            o, d = start(task)
            r = sched.Run([job(o, a), job(d, b)], plan).go()
            ctx.ev()
            ctx.states += 1
            ctx.transitions += sum(r.lines)
            ctx.traces += 1
            case = dict(ops=[a, b], derive=task['derive'],
                        schedule=[list(p) for p in plan],
                        type=task['type'], lazy=task['lazy'])
            for t, op in ((0, a), (1, b)):
                if r.errors[t] is not None:
                    ctx.fail('an operation raises when run concurrently',
                             thread=t, error=repr(r.errors[t]), **case)
                elif not same_state(r.results[t], alone[op, t][1]):
                    ctx.fail('an operation on a derived orbit interferes',
                             thread=t, got=r.results[t],
                             want=alone[op, t][1], **case)
            if ctx.nfail > 20:
                return
        ctx.outcomes.update(('o', a, b, task['derive'], task['type'], j)
                            for j in range(len(pa) + len(pb)))
    ctx.sample(ops=[a, b], derive=task['derive'])
