"""Bounded exhaustive exploration of the real code, checked in lockstep against reference models.

A check module (``mc/checks/cNN.py``) provides

``LEVEL``, ``BOUND`` (text), ``ASSUMPTIONS`` (list)
``cases(tier)``
    every member of the outermost enumerated dimension, as JSON-serialisable values, simplest first
``run(case, ctx, tier)``
    explores everything below one case on the real code. It reports what it explores to ``ctx`` and disagreements
    with ``ctx.violation``. An exception which escapes is a disagreement too: no code path that a case takes may raise,
    unless the check itself expects it.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from collections import deque

REPO = os.environ.get('MC_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
STOP_AFTER_S = 300  # Once something was found, a run is cut short after this long
LOOK = int(os.environ.get('MC_LOOK', '0'))
CASE_LIMIT_S = 60 if LOOK else 400  # A single case takes well below 20 s on the original code


def _canon(x):
    """A hashable form of any value. Floats are kept to 9 digits so that round-off does not split states"""
    import numpy as np
    if isinstance(x, np.ndarray):
        return (x.shape,) + tuple(_canon(v) for v in x.ravel().tolist())
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return 'nan'
        return '%.8e' % (x + 0.0) if abs(x) > 1e-14 else '0'
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), _canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(_canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(str(v) for v in x))
    return x if isinstance(x, (int, str, bool, bytes, type(None))) else str(x)


def inner(*things):
    """Everything that objects hold, including which arrays share memory, in a form that is equal for objects with the same future

    Used to merge histories. Equal values are not enough for that, as an object may remember something that shows only later.
    """
    import numpy as np
    buffers, seen = {}, {}

    def walk(x):
        if isinstance(x, (int, float, complex, str, bool, bytes, type(None), np.generic)):
            return x if not isinstance(x, np.generic) else x.item()
        if isinstance(x, np.ndarray):
            root = x
            while isinstance(root.base, np.ndarray):
                root = root.base
            where = buffers.setdefault(root.__array_interface__['data'][0] if root.size else id(root), len(buffers))
            return 'array', where, x.dtype.str, x.flags.writeable, x.shape, [walk(v) for v in x.ravel().tolist()]
        if id(x) in seen:
            return 'again', seen[id(x)][0]
        seen[id(x)] = len(seen), x  # Keeps it alive
        if isinstance(x, dict):
            return 'dict', [(str(k), walk(v)) for k, v in x.items()]
        if isinstance(x, (set, frozenset)):
            return 'set', sorted(str(v) for v in x)
        if isinstance(x, (list, tuple)):
            return type(x).__name__, [walk(v) for v in x]
        if callable(x) and hasattr(x, '__qualname__'):
            return x.__qualname__, walk(getattr(x, '__self__', None))
        held = dict(getattr(x, '__dict__', None) or {})
        held.update(getattr(x, '__pydantic_private__', None) or {})
        return type(x).__name__, [(k, walk(v)) for k, v in sorted(held.items())]
    return walk(things)


def digest(*key) -> bytes:
    return hashlib.blake2b(repr(_canon(key)).encode(), digest_size=8).digest()


class Ctx:
    """What has been explored so far"""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.samples = []
        self.violations = []

    def state(self, *key) -> bool:
        """Record a state. Returns whether it is new"""
        d = digest(*key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """An execution of the implementation was compared with the reference from start to end"""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(digest(*key))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=_jsonable)))

    def violation(self, key, message, detail=None):
        """Report a disagreement

        Args:
            key: Identifies the failing input or history
            message: What is wrong
            detail: Anything useful for understanding it
        """
        if len(self.violations) < 20:
            self.violations.append({'key': str(key), 'message': str(message)[:2000],
                                    'detail': json.loads(json.dumps(detail, default=_jsonable))})

    def close(self, key, what, got, want, rtol=1e-9, atol=1e-12, detail=None) -> bool:
        """Compare two arrays. Both the shape and the values must agree"""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            self.violation(key, f'{what}: result is not numeric ({e!r})', detail)
            return False
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violation(key, f'{what}: shape {g.shape}, expected {w.shape}', detail)
            return False
        scale = np.abs(w).max(initial=0.) if w.size else 0.
        if not np.allclose(g, w, rtol=rtol, atol=atol + rtol * 1e-3 * scale, equal_nan=True):
            self.violation(key, f'{what}: got {g.tolist()}, expected {w.tolist()}', detail)
            return False
        return True

    def equal(self, key, what, got, want, detail=None) -> bool:
        if got != want:
            self.violation(key, f'{what}: got {got!r}, expected {want!r}', detail)
            return False
        return True

    def dump(self):
        return (self.states, self.outcomes, self.transitions, self.traces, self.counts, self.samples, self.violations)

    def merge(self, other):
        states, outcomes, transitions, traces, counts, samples, violations = other
        self.states |= states
        self.outcomes |= outcomes
        self.transitions += transitions
        self.traces += traces
        for k, v in counts.items():
            self.count(k, v)
        self.samples = (self.samples + samples)[:5]
        self.violations += violations


def _jsonable(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (set, frozenset)):
        return sorted(str(v) for v in x)
    return repr(x)


def bfs(ctx, root, ops, build, invariant, canon, depth):
    """Explore every history of operations up to a depth, merging histories which reach the same state

    Args:
        root: Label of the starting point, part of every state
        ops: Callable which lists the operations enabled in a (impl, ref) pair
        build: Replays a history on a fresh (implementation, reference) pair. Returns the pair, or None if the
            replay has already reported a violation
        invariant: Checks a pair
        canon: State of a pair, as a hashable. Only histories with the same futures may share it
        depth: Longest history
    """
    start = build([])
    if start is None:
        return
    invariant([], start)
    seen = {digest(canon(start))}
    ctx.state(root, canon(start))
    frontier = deque([[]])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        here = build(hist)
        if here is None:
            continue
        for op in ops(here):
            nxt = build(hist + [op])
            ctx.transition()
            if nxt is None:
                continue
            invariant(hist + [op], nxt)
            ctx.trace()
            key = canon(nxt)
            d = digest(key)
            ctx.state(root, key)
            if d not in seen:
                seen.add(d)
                frontier.append(hist + [op])


class _Timeout(Exception):
    pass


def _alarm(*_):
    raise _Timeout()


def _load(pid):
    return importlib.import_module(f'mc.checks.{pid.lower()}')


def _run_case(args):
    pid, index, case, tier = args
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S if tier == 'quick' else 3600)
    try:
        _load(pid).run(case, ctx, tier)
    except _Timeout:
        ctx.violation('no-answer', f'no answer within the time limit for case {case!r}')
    except Exception as e:
        frames = [f for f in traceback.extract_tb(e.__traceback__)]
        inside = any(f.filename.startswith(REPO) for f in frames)
        ctx.violation(f'raised {type(e).__name__}', ''.join(traceback.format_exception(e))[-3000:],
                      {'inside_code_under_test': inside})
    finally:
        signal.alarm(0)
    for v in ctx.violations:
        v['case'] = json.loads(json.dumps(case, default=_jsonable))
        v['index'] = index
    return ctx.dump()


def known_findings(pid):
    """Read the list of findings which were not repaired: "finding: property=<id> key=<key> :: <what fails>" """
    out = {}
    with open(os.path.join(ROOT, 'known_findings.txt')) as fp:
        for line in fp:
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=None)
    parser.add_argument('--replay')
    parser.add_argument('--workers', type=int, default=int(os.environ.get('MC_WORKERS', '8')))
    args = parser.parse_args()
    pid = args.property
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.monotonic()

    total = Ctx()
    n_cases = 0
    known = known_findings(pid)

    def enough():
        """Whether there is no point in going on: the outcome is known, and the rest may take very long"""
        late = time.monotonic() - start > STOP_AFTER_S
        return (LOOK or late) and any(v['key'] not in known for v in total.violations)

    try:
        mod = _load(pid)
        if args.replay:
            with open(args.replay) as fp:
                rec = json.load(fp)
            todo = [rec['case']]
            tier = rec.get('tier', tier)
        else:
            todo = list(mod.cases(tier))
        jobs = [(pid, i, c, tier) for i, c in enumerate(todo)]
        if LOOK:  # Used to try changes of the code quickly: every so many cases, up to the first violation
            jobs = jobs[::max(1, min(LOOK, len(jobs) // 8))]
        n_cases = len(jobs)
        if args.workers <= 1 or len(jobs) == 1:
            for job in jobs:
                total.merge(_run_case(job))
                if enough():
                    break
        else:
            chunk = max(1, min(16, len(jobs) // (args.workers * 8)))
            with mp.get_context('fork').Pool(args.workers) as pool:
                for res in pool.imap_unordered(_run_case, jobs, chunksize=chunk):
                    total.merge(res)
                    if enough():
                        pool.terminate()
                        break
    except Exception as e:  # The code does not even load, or its constants are unusable
        total.violation(f'setup raised {type(e).__name__}', ''.join(traceback.format_exception(e))[-3000:])
        total.violations[-1].update(case=None, index=-1)
        mod = None

    total.violations.sort(key=lambda v: (v['index'], v['key']))
    fresh, seen = [], set()
    for v in total.violations:
        if v['key'] in known:
            seen.add(v['key'])
        else:
            fresh.append(v)
    for key in sorted(seen):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')

    wall = time.monotonic() - start
    coverage = {
        'states': len(total.states), 'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'rule': getattr(mod, 'RULE', 'a state is the observable condition of the code under test after an operation; '
                                     'distinct ones differ in it beyond the 9th digit'),
        'distinct_outcomes': len(total.outcomes),
        'cases': n_cases, 'exhaustive': not enough(), 'bound': getattr(mod, 'BOUND', {}).get(tier, '') if mod else '',
        'samples': total.samples or [{'note': 'none'}],
    }
    coverage.update({f'n_{k}': v for k, v in sorted(total.counts.items())})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': coverage, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
        'wall_s': round(wall, 3), 'violations': len(fresh)
    }
    if not args.replay and not LOOK:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1, default=_jsonable)

    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join('replays', f'{pid}.json')
        if not args.replay and not LOOK:
            with open(os.path.join(ROOT, path), 'w') as fp:
                json.dump({'property': pid, 'tier': tier, 'case': v['case'], 'key': v['key'], 'message': v['message'],
                           'detail': v['detail'], 'how': f'./check {pid} --replay {path}',
                           'others': [{'key': o['key'], 'message': o['message'][:300]} for o in fresh[1:20]]},
                          fp, indent=1, default=_jsonable)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  {v["key"]}: {v["message"]}'[:2500])
        print(f'  ({len(fresh)} reported in total)')
        sys.stdout.flush()
        os._exit(1)
    print(f'OK property={pid} tier={tier} cases={n_cases} states={len(total.states)} transitions={total.transitions} '
          f'traces={total.traces} outcomes={len(total.outcomes)} wall={wall:.1f}s')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    # Run as the importable module so that check modules and the driver share one Ctx class
    from mc.core import main as _main
    _main()
