"""Explorer, reporting and replay.

A check is a module with
    ID, TITLE, BOUND      strings
    cases(tier)           -> iterable of JSON-able cases, enumerated exhaustively
                             within the stated bound, simplest first
    run(case, ctx)        -> executes the case on the real code; raises
                             Violation (or anything else: the code under test
                             crashed) when the property is broken.
ctx.step() counts an operation of the real code compared with the oracle,
ctx.state(x) registers a canonical state / observed outcome (deduplicated).
"""
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QOSY_ROOT', '/repo')
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '240'))
MEMORY = int(float(os.environ.get('MC_MEMORY_GB', '3.5')) * 2 ** 30)
TOTAL_DEADLINE = int(os.environ.get('MC_DEADLINE', '840'))


def _pin_arpack():
    """ARPACK starts from a random vector whose seed depends on what the
    process did before: pin it, so that every case runs the same way."""
    import numpy as np
    import scipy.sparse.linalg as ssla

    def pinned(f):
        def g(A, *a, **kw):
            if kw.get('v0') is None and len(a) < 5:
                kw['v0'] = 1.0 + np.sin(np.arange(1, A.shape[0] + 1))
            return f(A, *a, **kw)
        return g
    ssla.eigsh = pinned(ssla.eigsh)
    ssla.eigs = pinned(ssla.eigs)


_pin_arpack()


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg.format(*args) if args else msg, key=key)


class Ctx:
    def __init__(self):
        self.steps = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.tier = 'quick'

    def step(self, n=1):
        self.steps += n

    def state(self, x):
        h = hashlib.blake2b(repr(x).encode(), digest_size=8).digest()
        self.states.add(h)

    def outcome(self, x):
        self.outcomes[str(x)] += 1


_MOD = None
_TIER = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _init(modname, tier):
    global _MOD, _TIER
    _TIER = tier
    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter('ignore')
    sys.stdout = open(os.devnull, 'w')
    # unbounded growth ends as a MemoryError of the case, not of the machine
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run_one(mod, case, ctx):
    """-> None or a violation dict"""
    timeout = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)
    try:
        signal.alarm(timeout)
        try:
            mod.run(case, ctx)
        finally:
            signal.alarm(0)
        return None
    except Violation as e:
        return {'case': case, 'message': str(e), 'key': e.key, 'trace': traceback.format_exc(limit=-4)}
    except CaseTimeout:
        return {'case': case, 'message': 'no answer within %d s (normally well under a second): '
                'the operation does not terminate' % timeout, 'key': None, 'trace': ''}
    except (MemoryError, RecursionError, Exception) as e:
        return {'case': case, 'message': 'unexpected exception %s: %s' % (type(e).__name__, e),
                'key': None, 'trace': traceback.format_exc(limit=-6)}


MAXV = 5


def _chunk(cases):
    ctx = Ctx()
    ctx.tier = _TIER
    viol = []
    n = 0
    for c in cases:
        n += 1
        v = run_one(_MOD, c, ctx)
        if v is not None:
            viol.append(v)
            if len(viol) >= MAXV:
                break
    return n, ctx.steps, ctx.states, ctx.outcomes, viol


def _chunks(gen, size):
    gen = iter(gen)
    while True:
        c = list(itertools.islice(gen, size))
        if not c:
            return
        yield c


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    real_stdout = sys.stdout
    modname = 'checks.' + prop
    evidence_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    try:
        os.remove(evidence_path)
    except FileNotFoundError:
        pass
    violations = []
    mod = None
    try:
        import qosy
        if not os.path.abspath(qosy.__file__).startswith(os.path.abspath(REPO) + os.sep):
            print('harness error: qosy imported from', qosy.__file__)
            return 2
    except Exception:
        violations.append({'case': None, 'message': 'qosy cannot be imported', 'key': None,
                           'trace': traceback.format_exc()})
    total = steps = 0
    states = set()
    outcomes = collections.Counter()
    samples = []
    capped = False
    if not violations:
        mod = importlib.import_module(modname)
        nproc = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
        size = getattr(mod, 'CHUNK', 16)

        def gen():
            for c in mod.cases(tier):
                if len(samples) < 3:
                    samples.append(c)
                yield c
        ctxm = mp.get_context('fork')
        pool = ctxm.Pool(nproc, _init, (modname, tier))
        workers = {p.pid for p in pool._pool}
        try:
            # bounded submission so that an early violation stops the run
            pending = collections.deque()
            src = _chunks(gen(), size)
            done = False
            while True:
                while not done and len(pending) < 4 * nproc:
                    c = next(src, None)
                    if c is None:
                        done = True
                        break
                    pending.append(pool.apply_async(_chunk, (c,)))
                if not pending:
                    break
                left = TOTAL_DEADLINE - (time.time() - t0)
                if left <= 0:
                    capped = True
                    break
                try:
                    n, s, st, oc, v = pending[0].get(timeout=min(left, 5))
                except mp.TimeoutError:
                    if left > 5 and {p.pid for p in pool._pool} != workers:
                        violations.append({'case': None, 'message': 'a process that runs the cases died', 'key': None, 'trace': ''})
                        break
                    continue
                pending.popleft()
                total += n
                steps += s
                states |= st
                outcomes.update(oc)
                violations.extend(v)
                if len(violations) >= MAXV:
                    break
        finally:
            pool.terminate()
            pool.join()

    known = [k for k in load_known() if k['property'] == prop]
    fresh, seen_known = [], {}
    for v in violations:
        hit = next((k for k in known if v['key'] is not None and k['key'] == v['key']), None)
        if hit:
            seen_known[hit['key']] = hit
        else:
            fresh.append(v)
    for k in known:
        if k['key'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), file=real_stdout)
    rc = 0
    if fresh:
        rc = 1
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh[:MAXV]):
            h = hashlib.sha1(json.dumps([v['case'], v['message']], default=str).encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (prop, h))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, **v}, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path), file=real_stdout)
            print('   case: %s' % (json.dumps(v['case'], default=str)[:400]), file=real_stdout)
            print('   %s' % v['message'][:1000], file=real_stdout)
    elif capped:
        print('harness: the time cap of %d s was reached before the enumeration finished'
              % TOTAL_DEADLINE, file=real_stdout)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': len(states), 'transitions': steps,
              'traces_validated_against_impl': total,
              'exhaustive': bool(not capped and not fresh),
              'bound': getattr(mod, 'BOUND', {}).get(tier, '') if mod else '',
              'distinct_observed_outcomes': len(outcomes),
              'outcome_histogram': dict(outcomes.most_common(12)),
              'method': 'every case of the bounded space is executed on the real code and compared '
                        'with the reference model step by step; states = distinct canonical states or '
                        'results observed, transitions = operations of the real code compared, '
                        'traces = complete cases/histories executed',
              'samples': samples or [None]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    with open(evidence_path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: cases=%d transitions=%d states=%d outcomes=%d violations=%d %.1fs%s'
          % (prop, tier, total, steps, len(states), len(outcomes), len(fresh), time.time() - t0,
             ' CAPPED' if capped else ''), file=real_stdout)
    if capped and not fresh:
        # an incomplete enumeration is not an answer
        return 0 if tier == 'thorough' else 3
    return rc


def replay(path):
    """Re-execute one recorded case, without the explorer."""
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('checks.' + r['property'])
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter('ignore')
    ctx = Ctx()
    ctx.tier = r.get('tier', 'quick')
    v = run_one(mod, r['case'], ctx)
    if v is None:
        print('replay: property %s holds on this case' % r['property'])
        return 0
    print('replay: property %s is broken on this case: %s\n%s' % (r['property'], v['message'], v['trace']))
    return 1
