"""Purity of the conversion functions."""
import contextlib
import gc
import os
import sys
import warnings
import numpy as np
import pyorb
from pyorb import kepler
from mc import calls

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('every call of a finite alphabet (all functions x orbit kinds x units '
        'x argument forms) on fresh and on read-only arguments, and every '
        'ordered pair (thorough: also every pair followed by a third call of '
        'a covering set) of calls; state = values of all arguments and '
        'results alive; a distinct case is a call or a call sequence')
ASSUMPTIONS = ['repeated calls may differ in the last bits (1e-12), nothing '
               'else']


def tasks(tier):
    n = len(calls.table())
    m = len(calls.table(small=True))
    step = max(1, n//16)
    out = [dict(part='single', lo=i, hi=min(n, i + step))
           for i in range(0, n, step)]
    step = max(1, m//32)
    out += [dict(part='pairs', lo=i, hi=min(m, i + step), tier=tier)
            for i in range(0, m, step)]
    return out


def process():
    """State of the process that belongs to the user."""
    st = np.random.get_state()
    return repr((np.geterr(), np.geterrcall(), np.get_printoptions(),
                 st[0], st[1].tobytes(), st[2:], warnings.filters,
                 os.getcwd(), sorted(os.environ.items()), sys.getrecursionlimit(),
                 gc.isenabled()))


def single(ctx, label, f, make):
    ours = process()
    args, kw = make()
    before = calls.freeze([args, kw])
    res = f(*args, **kw)
    base = calls.freeze(res)
    ctx.sample(call=label)
    if calls.freeze([args, kw]) != before:
        ctx.fail('argument modified', call=label)
    for a in calls.arrays([args, kw]):
        for r in calls.arrays(res):
            if np.may_share_memory(a, r) and a.size and r.size:
                ctx.fail('result shares memory with an argument', call=label)
    ra = calls.arrays(res)
    for i in range(len(ra)):
        for j in range(i):
            if np.may_share_memory(ra[i], ra[j]) and ra[i].size:
                ctx.fail('results share memory', call=label)
    # the same call again, on the same arguments
    res2 = f(*args, **kw)
    if not calls.same(res2, res):
        ctx.fail('repeated call gives another result', call=label,
                 first=res, second=res2)
    if calls.freeze(res) != base:
        ctx.fail('later call changed an earlier result', call=label)
    for a in calls.arrays(res):
        for r in calls.arrays(res2):
            if np.may_share_memory(a, r) and a.size:
                ctx.fail('results of two calls share memory', call=label)
    # scribbling over a result must not matter to the library
    for r in calls.arrays(res2):
        if r.flags.writeable:
            r[...] = 7
    res3 = f(*args, **kw)
    if not calls.same(res3, res):
        ctx.fail('writing into a result changes later results', call=label)
    # read-only arguments
    args, kw = make()
    for a in calls.arrays([args, kw]):
        a.flags.writeable = False
    try:
        res4 = f(*args, **kw)
    except ValueError as exc:
        ctx.fail('read-only argument refused', call=label, error=str(exc))
    else:
        if not calls.same(res4, res):
            ctx.fail('read-only arguments give another result', call=label)
    # the process is left as it was, and its settings do not matter
    if process() != ours:
        ctx.fail('settings of the process changed', call=label)
    args, kw = make()
    with np.errstate(all='warn'), np.printoptions(precision=2), \
            warnings.catch_warnings():
        warnings.simplefilter('always')
        with open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
            res6 = f(*args, **kw)
    if not calls.same(res6, res):
        ctx.fail('settings of the process change the result', call=label)
    # non-contiguous and unaligned-in-cache views of a larger buffer
    args, kw = make()
    bufs = []

    def view(a):
        if not isinstance(a, np.ndarray):
            return a
        buf = np.full(tuple(2*s + 1 for s in a.shape), -3.25, dtype=a.dtype)
        v = buf[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        bufs.append((buf, buf.copy()))
        return v
    args = [view(a) for a in args]
    kw = {k: view(v) for k, v in kw.items()}
    res5 = f(*args, **kw)
    if not calls.same(res5, res):
        ctx.fail('views give another result', call=label)
    for buf, keep in bufs:
        if not np.array_equal(buf, keep, equal_nan=True):
            ctx.fail('memory around an argument modified', call=label)
    # one object given for several arguments
    args, kw = make()
    alias = list(args)
    done = False
    for i in range(len(alias)):
        for j in range(i):
            if isinstance(alias[i], np.ndarray) \
                    and isinstance(alias[j], np.ndarray) \
                    and alias[i].shape == alias[j].shape:
                fresh = list(args)
                fresh[i] = fresh[j].copy()
                ali = list(args)
                ali[i] = ali[j]
                want = f(*[a.copy() if isinstance(a, np.ndarray) else a
                           for a in fresh], **kw)
                got = f(*ali, **kw)
                done = True
                if not calls.same(got, want):
                    ctx.fail('aliased arguments give another result',
                             call=label)
    ctx.ev(7 + done)
    ctx.states += 7
    ctx.transitions += 7
    ctx.traces += 1


def run(task, ctx):
    if task['part'] == 'single':
        for label, f, make in calls.table()[task['lo']:task['hi']]:
            single(ctx, label, f, make)
            ctx.outcome(label)
        return
    tab = calls.table(small=True)
    base = []
    for label, f, make in tab:
        args, kw = make()
        base.append(f(*args, **kw))
    prepared = [make() for _, _, make in tab]
    keep = [calls.freeze(list(p)) for p in prepared]
    third = range(0, len(tab), 16) if task['tier'] == 'thorough' else ()
    glob = {k: repr(v) for k, v in vars(kepler).items()
            if isinstance(v, (int, float, str, list, dict, tuple))
            and not k.startswith('__')}
    for i in range(task['lo'], task['hi']):
        li, fi, mi = tab[i]
        for j in range(len(tab)):
            lj, fj, mj = tab[j]
            ctx.outcome(i, j)
            fi(*prepared[i][0], **prepared[i][1])
            r = fj(*prepared[j][0], **prepared[j][1])
            ctx.ev(2, 2)
            ctx.states += 2
            ctx.transitions += 2
            ctx.traces += 1
            if not calls.same(r, base[j]):
                ctx.fail('result depends on an earlier call', earlier=li,
                         call=lj, got=r, want=base[j])
            for k in third:
                lk, fk, mk = tab[k]
                r = fk(*prepared[k][0], **prepared[k][1])
                ctx.ev()
                ctx.states += 1
                ctx.transitions += 1
                if not calls.same(r, base[k]):
                    ctx.fail('result depends on earlier calls',
                             earlier=[li, lj], call=lk)
        for j in range(len(tab)):
            if calls.freeze(list(prepared[j])) != keep[j]:
                ctx.fail('arguments changed over a sequence of calls',
                         call=tab[j][0])
                return
    now = {k: repr(v) for k, v in vars(kepler).items()
           if isinstance(v, (int, float, str, list, dict, tuple))
           and not k.startswith('__')}
    for k in glob:
        if k in ('e_lim', 'i_lim') and glob[k] != now.get(k):
            ctx.fail('module limits changed', name=k)
