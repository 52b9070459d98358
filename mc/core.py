"""Checker runtime: task pool, counters, evidence, verdict.

A check module enumerates `tasks(tier)` (JSON-able descriptions that partition
the explored space) and explores one of them in `run(task, ctx)`.  The union of
the tasks is the whole bounded space; every task is run on every invocation, so
the enumeration is complete whenever the command finishes.
"""
import os
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
import sys
import json
import time
import signal
import hashlib
import traceback
import importlib
import warnings
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the override is for developing the checks (mutation runs) only
REPO = os.environ.get('PYORB_MC_REPO', '/repo')
MAX_FAIL = 20


def load_pyorb():
    """Import the code under test from /repo's working tree."""
    sys.path.insert(0, REPO)
    import pyorb
    got = os.path.realpath(pyorb.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'pyorb imported from {got}, not from {REPO}')
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    return pyorb


HANG = 'an operation does not terminate'


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, task=None):
        self.task = task
        self.evaluations = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.nfail = 0
        self.info = {}

    def ev(self, n=1, nontrivial=None):
        self.evaluations += int(n)
        self.nontrivial += int(n if nontrivial is None else nontrivial)

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(
            repr(key).encode(), digest_size=8).digest())

    def sample(self, **case):
        if len(self.samples) < 2:
            self.samples.append(clean(case))

    def count(self, name, n=1):
        self.info[name] = self.info.get(name, 0) + int(n)

    def fail(self, msg, sig=None, **case):
        self.nfail += 1
        if len(self.fails) < MAX_FAIL:
            self.fails.append(dict(
                msg=msg, sig=sig or msg, case=clean(case), task=self.task))

    def result(self):
        return dict(
            evaluations=self.evaluations, nontrivial=self.nontrivial,
            states=self.states, transitions=self.transitions,
            traces=self.traces, outcomes=self.outcomes,
            samples=self.samples, fails=self.fails, nfail=self.nfail,
            info=self.info)


def clean(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [clean(v) for v in x]
    if isinstance(x, np.ndarray):
        return clean(x.tolist()) if x.dtype != np.longdouble \
            else clean(x.astype(float).tolist())
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)


_MOD = None
_LIMIT = 600


def _alarm(sig, frame):
    raise Hang()


def run_task(task):
    ctx = Ctx(task)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIMIT)
    try:
        _MOD.run(task, ctx)
    except Hang:
        ctx.fail(f'no result within {_LIMIT} s (an operation does not '
                 'terminate, or is far slower than on the original code)',
                 sig=HANG, where=traceback.format_exc(limit=-6))
    except Exception as exc:
        # anything the harness expects to be refused is caught in place
        ctx.fail(f'unexpected {type(exc).__name__}: {exc}',
                 where=traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
    return ctx.result()


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                rest = line[len('known: '):]
                head, what = rest.split(' :: ', 1)
                f = dict(p.split('=', 1) for p in head.split(' ', 1))
                if f['property'] == prop:
                    out.append((f['sig'], what))
    return out


def main(argv):
    global _MOD, _LIMIT
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_pyorb()
    _MOD = importlib.import_module('mc.checks.' + pid.lower())
    _LIMIT = 300 if tier == 'quick' else 2400
    deadline = t0 + (800 if tier == 'quick' else 6 * 3600)
    tasks = list(_MOD.tasks(tier))
    tot = Ctx()
    info = {}
    done = 0
    with mp.get_context('fork').Pool(
            min(int(os.environ.get('PYORB_MC_JOBS', 8)), max(1, len(tasks)))) as pool:
        results = pool.imap_unordered(run_task, tasks, chunksize=1)
        while done < len(tasks):
            try:
                res = results.next(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                tot.fail('exploration did not finish: operations are far '
                         'slower than on the original code')
                break
            done += 1
            for k in ('evaluations', 'nontrivial', 'states', 'transitions',
                      'traces', 'nfail'):
                setattr(tot, k, getattr(tot, k) + res[k])
            tot.outcomes |= res['outcomes']
            tot.fails += res['fails']
            if len(tot.samples) < 6:
                tot.samples += res['samples'][:1]
            for k, v in res['info'].items():
                info[k] = info.get(k, 0) + v
            if any(f['sig'] == HANG for f in res['fails']):
                break       # every further task may hang as well
        pool.terminate()
    known = known_findings(pid)
    seen_known = set()
    new = []
    for f in tot.fails:
        hit = [k for k in known if k[0] == f['sig']]
        if hit:
            seen_known.add(hit[0])
        else:
            new.append(f)
    cov = dict(
        evaluations=tot.evaluations,
        distinct_nontrivial=len(tot.outcomes) if tot.outcomes
        else tot.nontrivial,
        rule=_MOD.RULE,
        samples=tot.samples or [{'task': clean(t)} for t in tasks[:2]],
        exhaustive=done == len(tasks),
        tasks=done,
        **info)
    if _MOD.LEVEL == 'model_checking':
        cov.update(states=tot.states, transitions=tot.transitions,
                   traces_validated_against_impl=tot.traces)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=_MOD.LEVEL, coverage=cov,
        assumptions=list(_MOD.ASSUMPTIONS),
        wall_s=round(time.time() - t0, 3), violations=len(new))
    outd = os.path.join(HERE, 'evidence')
    if REPO != '/repo':
        outd = os.environ['PYORB_MC_OUT']
    os.makedirs(outd, exist_ok=True)
    with open(os.path.join(outd, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for sig, what in known:
        print(f'KNOWN-FINDING: property={pid} {what}')
    line = (f'{pid} {tier}: evaluations={tot.evaluations} '
            f'distinct={cov["distinct_nontrivial"]} ')
    if _MOD.LEVEL == 'model_checking':
        line += (f'states={tot.states} transitions={tot.transitions} '
                 f'traces={tot.traces} ')
    print(line + f'tasks={len(tasks)} wall={ev["wall_s"]}s')
    if not new:
        return 0
    outd = os.path.join(HERE, 'replays') if REPO == '/repo' else outd
    os.makedirs(outd, exist_ok=True)
    seen = set()
    for f in new:
        key = (f['msg'], json.dumps(f['task'], sort_keys=True, default=str))
        if f['msg'] in seen:
            continue
        seen.add(f['msg'])
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
        path = os.path.join(outd, f'{pid}-{h}.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, **f), fh, indent=1, default=str)
        print(f'  {f["msg"]}: {json.dumps(f["case"])[:600]}')
        print(f'VIOLATION property={pid} replay={path}')
        if len(seen) >= 5:
            break
    print(f'{pid}: {tot.nfail} failing cases, {len(new)} recorded')
    return 1


def replay(path):
    global _MOD, _LIMIT
    rec = json.load(open(path))
    load_pyorb()
    _MOD = importlib.import_module('mc.checks.' + rec['property'].lower())
    _LIMIT = 3000
    res = run_task(rec['task'])
    print(json.dumps(rec['case'], indent=1)[:4000])
    hit = [f for f in res['fails'] if f['msg'] == rec['msg']]
    print('recorded:', rec['msg'])
    print('replayed task: %d failing cases, %d with this message'
          % (res['nfail'], len(hit)))
    if hit:
        print(f'VIOLATION property={rec["property"]} replay={path}')
        return 1
    return 1 if res['nfail'] else 0


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    from mc import core
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(sys.argv[2]))
    sys.exit(core.main(sys.argv[1:]))
