"""An orbit neither changes nor holds on to the values it is given."""
import copy
import itertools
import numpy as np
import pyorb
from mc import hist, ref

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = ('every operation that takes values (constructor, bulk update, add, '
        'every property, propagation, deletion, recalculation), with every '
        'argument in every form (array, Fortran ordered, strided or reversed '
        'view, read-only, list, tuple, integer, other precision), in every '
        'unit, anomaly type, updating mode and number of orbits, followed by '
        'every single later operation of an alphabet; the arguments are '
        'compared bit for bit after each step, the orbit is compared after '
        'the arguments have been overwritten')
ASSUMPTIONS = ['m, M0, G, epoch, degrees and solver_options are plain '
               'attributes: assigning to them after construction is not '
               'covered',
               'lists and tuples are not given to the properties that compute '
               'with the value before storing it (anomalies, period, mean '
               'motion, velocity, equinoctial elements, time step)']

G, M0 = hist.G, hist.M0
K, C = pyorb.Orbit.KEPLER, pyorb.Orbit.CARTESIAN


def same_bits(a, b):
    if isinstance(a, np.ndarray):
        return (isinstance(b, np.ndarray) and a.dtype == b.dtype
                and a.shape == b.shape and a.flags.writeable
                == b.flags.writeable and a.tobytes() == b.tobytes())
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) \
            and all(same_bits(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) \
            and all(same_bits(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a)


def frozen(x):
    """An independent copy that same_bits accepts."""
    if isinstance(x, np.ndarray):
        y = x.copy()
        y.flags.writeable = x.flags.writeable
        return y
    return copy.deepcopy(x)


def strided(x):
    big = np.full(x.shape[:-1] + (2*x.shape[-1],), np.pi, dtype=x.dtype)
    big[..., ::2] = x
    return big[..., ::2]


def reverse(x):
    return x[..., ::-1].copy()[..., ::-1]


def readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def nested(x, kind):
    return kind(nested(y, kind) for y in x) if np.ndim(x) else float(x)


FORMS = {
    'array': np.copy,
    'fortran': lambda x: np.array(x, order='F'),
    'strided': strided,
    'reversed': reverse,
    'readonly': readonly,
    'float32': lambda x: x.astype(np.float32),
    'longdouble': lambda x: x.astype(np.longdouble),
    'list': lambda x: nested(x, list),
    'tuple': lambda x: nested(x, tuple),
}


def overwrite(x):
    """Spoil an argument, as its owner may."""
    if isinstance(x, np.ndarray):
        x.flags.writeable = True
        x[...] = 1 if x.dtype.kind in 'iub' else 12345.678
    elif isinstance(x, list):
        for j in range(len(x)):
            if isinstance(x[j], (list, np.ndarray)):
                overwrite(x[j])
            else:
                x[j] = 12345.678
    elif isinstance(x, dict):
        for k in x:
            x[k] = 3


def look(o):
    """Everything an orbit reports."""
    out = [o.num, o.type, o.degrees, o.epoch, o.M0, o.G, o.m.copy(),
           dict(o.solver_options), str(o.dtype), o.auto_update,
           o.direct_update]
    out += [o.cartesian, o.kepler]
    out += [o.true_anomaly, o.eccentric_anomaly, o.mean_anomaly]
    return out


def same_look(a, b):
    def one(x, y):
        if isinstance(x, np.ndarray):
            return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        return x == y
    return all(one(x, y) for x, y in zip(a, b))


def values(n, deg, typ):
    """Values for every operation (true anomaly written as typ's)."""
    u = 180/np.pi if deg else 1.0
    k = hist.KEP1[:, :n].copy()
    k[5] = [float(ref.convert_anom(k[5, j:j + 1], k[1, j], 'true', typ)[0])
            for j in range(n)]
    if deg:
        k[2:] *= u
    c = hist.carts(hist.KEP1, n)
    q = np.array(ref.equinoctial(np.array(
        [[1.4, 0.25, 0.8, 1.0, 2.0, 3.0]]*n).T), dtype=float)
    q[0] *= np.linspace(1, 1.2, n)
    q[5] *= u
    return k, c, q


def operations(n, deg, typ):
    """name -> (arguments {name: array}, call(orbit, args) -> orbit)"""
    k, c, q = values(n, deg, typ)
    u = 180/np.pi if deg else 1.0
    f = np.linspace(1.0, 1.2, n)
    m = np.array(hist.MASS[:n])
    out = {}

    def seta(name, val):
        def call(o, a):
            setattr(o, name, a['value'])
            return o
        out[name] = (dict(value=np.asarray(val, dtype=float)), call)

    for j, name in enumerate(K):
        seta(name, k[j])
    for j, name in enumerate(C):
        seta(name, c[j])
    seta('kepler', k)
    seta('cartesian', c)
    seta('r', c[:3])
    seta('v', c[3:])
    if n == 1:
        for name, val in (('kepler', k), ('cartesian', c)):
            seta(name, val[:, 0])
            out[name + ' vector'] = out[name]
            seta(name, val)
        out['r vector'] = (dict(value=c[:3, 0].copy()), out['r'][1])
        out['v vector'] = (dict(value=c[3:, 0].copy()), out['v'][1])
    seta('equinoctial', q if n > 1 else q[:, 0])
    # integers, and numbers that stay on a closed orbit
    for t, x in (('true', 0.9), ('eccentric', 0.7), ('mean', 0.5)):
        seta(t + '_anomaly', x*u*f)
    seta('period', 3.0*f)
    seta('mean_motion', 1.3*u*f)
    seta('velocity', 1.1*f)

    def call(o, a):
        o.propagate(a['dt'])
        return o
    out['propagate'] = (dict(dt=0.4*f), call)

    def upd(inds, keys, rows):
        def call(o, a):
            a = dict(a)
            o.update(inds=a.pop('inds'), **a)
            return o
        js = np.arange(n)[inds]
        args = {x: y[..., js] if np.ndim(y) else y for x, y in rows.items()}
        args['inds'] = inds
        return args, call
    mask = np.arange(n) % 2 == 0
    for nm, inds in (('index', np.array([n - 1])), ('mask', mask),
                     ('negative', np.arange(-1, -n - 1, -1)),
                     ('mixed', np.unique([0, -1 if n > 1 else 0])[::-1])):
        out[f'update {nm} kepler'] = upd(inds, None, dict(kepler=k))
        out[f'update {nm} cartesian'] = upd(inds, None, dict(cartesian=c))
        out[f'update {nm} elements'] = upd(
            inds, None, {x: k[j] for j, x in enumerate(K)})
        out[f'update {nm} state'] = upd(
            inds, None, {x: c[j] for j, x in enumerate(C)})

    def add(o, a):
        o.add(num=n, **a)
        return o
    out['add kepler'] = (dict(kepler=k, m=m), add)
    out['add cartesian'] = (dict(cartesian=c, m=m), add)
    out['add elements'] = ({**{x: k[j] for j, x in enumerate(K)}, 'm': m},
                           add)
    out['add state'] = ({**{x: c[j] for j, x in enumerate(C)}, 'm': m}, add)

    def new(o, a):
        return pyorb.Orbit(M0, G=G, num=n, degrees=deg, type=typ,
                           auto_update=o.auto_update,
                           direct_update=o.direct_update, **a)
    opt = dict(tol=1e-11, max_iter=4000)
    out['new kepler'] = (dict(kepler=k, m=m, solver_options=opt), new)
    out['new cartesian'] = (dict(cartesian=c, m=m, solver_options=dict()),
                            new)
    out['new elements'] = ({**{x: k[j] for j, x in enumerate(K)}, 'm': m,
                            'solver_options': dict(degree=4)}, new)
    out['new state'] = ({**{x: c[j] for j, x in enumerate(C)}, 'm': m}, new)

    def dele(o, a):
        o.delete(a['inds'])
        return o
    if n > 1:
        out['delete'] = (dict(inds=np.array([0])), dele)
        out['delete last'] = (dict(inds=np.array([-1])), dele)
    if n > 2:
        out['delete mixed'] = (dict(inds=np.array([-1, 0])), dele)
        out['delete twice'] = (dict(inds=np.array([1, 0, -2])), dele)

    def calc(which):
        def call(o, a):
            getattr(o, 'calculate_' + which)(a['inds'])
            return o
        return call
    for w in ('kepler', 'cartesian'):
        out['calculate ' + w] = (dict(inds=mask), calc(w))
        out['calculate negative ' + w] = (
            dict(inds=np.arange(-1, -n - 1, -1)), calc(w))

    def get(o, a):
        return o[a['inds']]
    out['select'] = (dict(inds=mask), get)
    out['select negative'] = (dict(inds=np.array([-1, 0, -n])), get)
    out['select index'] = (dict(inds=np.array([n - 1, 0])), get)
    return out


def formed(args, form):
    out = {}
    for name, x in args.items():
        if isinstance(x, dict):
            out[name] = dict(x)
        elif name == 'inds':
            out[name] = {'list': x.tolist(), 'tuple': x.tolist()}.get(
                form, readonly(x) if form == 'readonly'
                else strided(x) if form == 'strided' else x.copy())
        else:
            out[name] = FORMS[form](np.asarray(x, dtype=float))
    return out


def is_arith(name):
    """Setters that compute with the value before storing it: sequences
    that are not arrays are outside their documented use."""
    return name in ('propagate', 'velocity', 'period', 'mean_motion',
                    'equinoctial') or name.endswith('_anomaly')


def tasks(tier):
    out = []
    for n, deg, typ in itertools.product((1, 2, 3), (False, True),
                                         ('true', 'eccentric', 'mean')):
        if tier == 'quick' and (deg != (typ == 'mean')) and n != 2:
            continue
        for direct, auto in ((True, True), (True, False), (False, True),
                             (False, False)):
            out.append(dict(n=n, deg=deg, typ=typ, direct=direct, auto=auto,
                            tier=tier))
    return out


def make(task):
    o, _ = hist.make(hist.KEP0[:, :task['n']]*1.0, task['deg'], task['typ'],
                     True, True)
    o.direct_update, o.auto_update = task['direct'], task['auto']
    return o


def run(task, ctx):
    n, deg, typ = task['n'], task['deg'], task['typ']
    ops = operations(n, deg, typ)
    later = hist.alphabet(n, deg)
    base = make(task)
    # a change may be pending when the operation starts
    pend = hist.clone(base)
    pend.update(inds=[0], x=0.9*base.x[0])
    pend2 = hist.clone(base)
    pend2.update(inds=[n - 1], a=1.1*base.a[n - 1])
    for name, (args, call) in ops.items():
        for start, orb in (('settled', base), ('state pending', pend),
                           ('elements pending', pend2)):
            plain = formed(args, 'array')
            try:
                want = look(call(hist.clone(orb), plain))
            except Exception as exc:
                ctx.fail('operation refused', op=name, start=start,
                         error=repr(exc), **task)
                continue
            for form in FORMS:
                if form in ('list', 'tuple') and is_arith(name):
                    continue
                given = formed(args, form)
                kept = {x: frozen(y) for x, y in given.items()}
                case = dict(op=name, form=form, start=start, **task)
                ctx.ev()
                ctx.states += 1
                ctx.transitions += 1
                o = hist.clone(orb)
                try:
                    o = call(o, given)
                except Exception as exc:
                    ctx.fail('operation refused for this form of argument',
                             error=repr(exc), **case)
                    continue
                if not check_args(ctx, given, kept, 'operation', case):
                    continue
                got = look(hist.clone(o))
                loose = form == 'float32'
                if not loose and not near_look(got, want, form):
                    ctx.fail('the result depends on the form of the '
                             'argument', **case)
                    continue
                # later operations leave the arguments alone
                if form in ('array', 'fortran', 'strided') and \
                        start == 'settled' and (o.num == n):
                    for op in later:
                        if task['tier'] == 'quick' and form != 'array' \
                                and op.name not in FEW:
                            continue
                        p = o
                        keepers = {x: y for x, y in given.items()}
                        p = hist.clone(o) if not shared(o, keepers) else o
                        ctx.transitions += 1
                        try:
                            op.real(p)
                        except Exception:
                            pass
                        if not check_args(ctx, given, kept,
                                          'later ' + op.name, case):
                            break
                # neither does the orbit notice what happens to them
                if any(shared(o, {x: y}) for x, y in given.items()
                       if isinstance(y, np.ndarray)):
                    ctx.fail('the orbit holds on to an argument', **case)
                    continue
                for y in given.values():
                    overwrite(y)
                if not same_look(look(o), got):
                    ctx.fail('changing the argument afterwards changes the '
                             'orbit', **case)
            if ctx.nfail > 30:
                return
    ctx.traces = ctx.transitions
    ctx.sample(**task)


FEW = ('a', 'x', 'kepler', 'cartesian', 'velocity', 'propagate+',
       'update([0],a,e)', 'update([0],x,vy)', 'type=mean')


def shared(o, given):
    for v in o.__dict__.values():
        for y in given.values():
            if isinstance(v, np.ndarray) and isinstance(y, np.ndarray) \
                    and np.shares_memory(v, y):
                return True
            if isinstance(v, dict) and v is y:
                return True
    return False


def check_args(ctx, given, kept, what, case):
    for x in given:
        if not same_bits(given[x], kept[x]):
            ctx.fail('an argument is changed', by=what, argument=x,
                     before=kept[x], after=given[x], **case)
            return False
    return True


def near_look(got, want, form):
    for x, y in zip(got, want):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.allclose(
                    x.astype(float), y.astype(float), rtol=1e-9, atol=1e-9,
                    equal_nan=True):
                return False
        elif x != y:
            return False
    return True
