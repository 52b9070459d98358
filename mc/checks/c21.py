"""C21: the degree-aware wrapper converts exactly the declared angles."""
import itertools
import numpy as np
from pyorb.unit import angle_units
from .. import ref

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('full product of declared positions, declared keywords, declared '
        'outputs and default unit with every call shape (number of positional '
        'arguments, set of keywords, unit given or not) and argument kind; '
        'all pairs of calls on one wrapped function')
ASSUMPTIONS = ['arguments declared by position are given by position, and '
               'those declared by name are given by name, or left out']

POS = 3
KEYS = ('p', 'q')
DEFAULT = object()


def subsets(x):
    return [list(s) for n in range(len(x) + 1)
            for s in itertools.combinations(x, n)]


KINDS = {
    'float': lambda j: 30.0 + 40.0*j,
    'int': lambda j: 30 + 45*j,
    'neg': lambda j: -200.0 - j,
    'vector': lambda j: np.array([0.0, 90.0, -45.0 + j]),
    'ints': lambda j: np.array([0, 90, 45 + j]),
    'matrix': lambda j: np.arange(6.0).reshape(2, 3)*50 + j,
    'f32': lambda j: np.array([10.0, 20.0 + j], dtype=np.float32),
    'one': lambda j: np.array([15.0 + 20*j]),
    'zero-d': lambda j: np.array(25.0 + 20*j),
    'nested': lambda j: np.array([[[60.0 + j]]]),
    'empty': lambda j: np.zeros(0),
    'readonly': lambda j: _ro(np.array([10.0, 20.0 + j])),
    'strided': lambda j: np.arange(20.0)[j::3],
    'scalar': lambda j: np.float64(77.0 + j),
}


def _ro(x):
    x.flags.writeable = False
    return x


def build(inds, keys, outs, default, form, log, ret):
    def f(a=DEFAULT, b=DEFAULT, c=DEFAULT, p=DEFAULT, q=DEFAULT):
        log.append((a, b, c, p, q))
        return ret()
    w = angle_units(
        None if inds is None else form(inds),
        None if keys is None else form(keys),
        None if outs is None else outs if outs is True else form(outs),
        **({} if default is None else dict(degrees=default)))
    return w(f)


def shapes(small=False):
    """(number of positional arguments, keywords given)."""
    for n in range(POS + 1):
        for ks in subsets(KEYS):
            yield n, ks
    # non-angle positions may also be given by name
    yield 2, ['c']
    yield 2, ['c', 'q']
    yield 0, ['a', 'b', 'c', 'p', 'q']


def tasks(tier):
    out = [dict(kind='single', form=f, arg=a)
           for f in ('list', 'tuple')
           for a in (KINDS if f == 'list' or tier != 'quick'
                     else ['vector', 'float'])]
    out += [dict(kind='pair', default=d) for d in (None, False, True)]
    out += [dict(kind='ends', default=d) for d in (None, False, True)]
    return out


FORM = {'list': list, 'tuple': tuple}


def rad(x):
    return ref.rad(np.asarray(x, dtype=float))


def deg(x):
    return ref.deg(np.asarray(x, dtype=float))


def near(got, want, x):
    tol = 3e-7 if getattr(x, 'dtype', None) == np.float32 else 4e-15
    got = np.asarray(got)
    if got.shape != np.shape(want):
        return False
    return bool(np.all(np.abs(ref.ld(got) - want)
                       <= tol*np.abs(want) + 1e-300))


def exact(got, want):
    return got is want or (
        type(got) is type(want)
        and getattr(got, 'dtype', None) == getattr(want, 'dtype', None)
        and np.array_equal(got, want))


NAMES = 'abcpq'


def call(ctx, w, log, inds, keys, outs, default, n, ks, unit, mk, ret, hist):
    """One call; compares what the function received and what came back."""
    ctx.ev()
    # arguments declared by position cannot be given by name
    args = [mk(j) for j in range(n)]
    kw = {k: mk(NAMES.index(k)) for k in ks}
    before = [np.array(x) for x in args] + [np.array(x) for x in kw.values()]
    dg = bool(default) if unit is None else unit
    extra = {} if unit is None else dict(degrees=unit)
    del log[:]
    case = dict(inds=inds, keys=keys, outs=outs, default=default,
                positional=n, keywords=ks, degrees=unit, history=hist)
    try:
        got = w(*args, **kw, **extra)
    except Exception as exc:
        ctx.fail('a valid call is refused', error=repr(exc), **case)
        return
    if len(log) != 1:
        ctx.fail('the function is not called once', **case)
        return
    for j, name in enumerate(NAMES):
        rec = log[0][j]
        given = args[j] if j < n else kw.get(name, DEFAULT)
        if given is DEFAULT:
            if rec is not DEFAULT:
                ctx.fail('an omitted argument was supplied', arg=name, **case)
            continue
        angle = (j < n and j in (inds or [])) \
            or (j >= n and name in (keys or []))
        if dg and angle:
            if not near(rec, rad(given), given):
                ctx.fail('a declared angle is not received in radians',
                         arg=name, got=rec, given=given, **case)
        elif not exact(rec, given):
            ctx.fail('an argument is changed on the way', arg=name, got=rec,
                     given=given, **case)
    for x, y in zip(args + list(kw.values()), before):
        if not np.array_equal(x, y):
            ctx.fail('the caller\'s argument is modified', **case)
    want = ret()
    if not dg or outs is None or want is None:
        ok = got is None if want is None else (
            isinstance(got, (tuple, list)) and len(got) == len(want)
            and all(exact(g, v) for g, v in zip(got, want))
            if isinstance(want, (tuple, list)) else exact(got, want))
    elif outs is True:
        if isinstance(want, (tuple, list)):
            ok = len(got) == len(want) and all(
                near(g, deg(v), v) for g, v in zip(got, want))
        else:
            ok = near(got, deg(want), want)
    else:
        ok = len(got) == len(want) and all(
            near(g, deg(v), v) if j in outs
            else exact(g, v)
            for j, (g, v) in enumerate(zip(got, want)))
    if not ok:
        ctx.fail('the outputs are not in the caller\'s unit', got=got,
                 returned=want, **case)


def run(task, ctx):
    if task['kind'] == 'single':
        mk = KINDS[task['arg']]
        form = FORM[task['form']]
        rets = {'tuple': lambda: (mk(1), mk(0), mk(2)),
                'one': lambda: mk(1),
                'none': lambda: None}
        if task['arg'] in ('vector', 'float'):
            rets['list'] = lambda: [mk(1), mk(0), mk(2)]
        for inds in [None] + subsets(range(POS)):
            for keys in [None] + subsets(KEYS):
                for rn, ret in rets.items():
                    outss = [None, True] if rn != 'tuple' and rn != 'list' \
                        else [None] + subsets(range(3))
                    for outs in outss:
                        for default in (None, False, True):
                            log = []
                            w = build(inds, keys, outs, default, form, log,
                                      ret)
                            for n, ks in shapes():
                                for unit in (None, True, False):
                                    if any(NAMES.index(k) in (inds or [])
                                           for k in ks if k in 'abc'):
                                        continue
                                    ctx.outcome(inds, keys, outs, default, n,
                                                ks, unit, rn)
                                    call(ctx, w, log, inds, keys, outs,
                                         default, n, ks, unit, mk, ret, [])
                            if ctx.nfail > 50:
                                return
        ctx.sample(inds=[0, 2], keys=['q'], outs=[1], arg=task['arg'])
        return
    if task['kind'] == 'ends':
        # outputs declared and keywords given in any order
        mk = KINDS['vector']
        ret = lambda: (mk(1), mk(0), mk(2))
        for inds, outs in itertools.product(
                [None] + subsets(range(POS)),
                [None, True, [2, 0], [2, 1, 0], (1, 2)]):
            log = []

            def f(a=DEFAULT, b=DEFAULT, c=DEFAULT, **kw):
                log.append((a, b, c, kw.get('p', DEFAULT),
                            kw.get('q', DEFAULT)))
                return ret()
            for keys in [None] + subsets(KEYS):
                w = angle_units(inds, keys, outs,
                                **({} if task['default'] is None
                                   else dict(degrees=task['default'])))(f)
                for ks in ([], ['p'], ['q'], ['p', 'q'], ['q', 'p']):
                    for n, unit in itertools.product(range(POS + 1),
                                                     (None, True, False)):
                        ctx.outcome('ends', inds, keys, outs, n, ks, unit)
                        call(ctx, w, log, inds, keys, outs, task['default'],
                             n, ks, unit, mk, ret, [])
        ctx.sample(outs=[2, 0])
        return
    # histories of calls of one wrapped function
    mk = KINDS['vector']
    ret = lambda: (mk(1), mk(0), mk(2))
    for inds, keys, outs in itertools.product(
            [None, [0], [0, 2], [2]], [None, ['p'], ['p', 'q']],
            [None, [0], [1, 2]]):
        log = []
        w = build(inds, keys, outs, task['default'], list, log, ret)
        calls = [(n, ks, u) for n, ks in ((1, []), (3, ['p']), (3, ['p', 'q']),
                                          (0, ['q']))
                 for u in (None, True, False)]
        for seq in itertools.product(calls, repeat=3):
            for j, (n, ks, u) in enumerate(seq):
                call(ctx, w, log, inds, keys, outs, task['default'], n, ks, u,
                     mk, ret, [list(map(str, s)) for s in seq[:j]])
            ctx.outcome('pair', inds, keys, outs, seq)
        # a failing call changes nothing
        def bad(*a, **k):
            raise KeyError('x')
        b = angle_units(inds, keys, outs)(bad)
        x = mk(0)
        try:
            b(x, degrees=True)
            ctx.fail('an exception is swallowed')
        except KeyError:
            pass
        if not np.array_equal(x, mk(0)):
            ctx.fail('the caller\'s argument is modified by a failing call')
    ctx.sample(sequence='all triples of calls')
