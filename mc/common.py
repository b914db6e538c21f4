# -*- coding: utf-8 -*-
"""
Shared machinery of the checks: bounded exhaustive exploration driver, counters,
violation / known-finding bookkeeping, replay artefacts and evidence files.

Every check module in mc/checks exposes:

  PROPERTY   id of the property it decides
  LEVEL      evidence level
  RULE       how cases are made / what makes one non trivial
  shards(tier)            -> list of JSON-able shard descriptions (the whole bounded space)
  run_shard(shard, st)    -> explores one shard exhaustively, reporting into Stats `st`
  replay(case, st)        -> re-runs one recorded case, reporting into `st`
  (optional) ASSUMPTIONS, BOUNDS(tier)
"""
import collections
import concurrent.futures
import contextlib
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE_DIR = os.path.join(VERIF, 'evidence')
REPLAY_DIR = os.path.join(VERIF, 'evidence', 'replay')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')
REPO = os.environ.get('LGR_REPO', '/repo')
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))      # stop at the first violation (doc/mutate.py)
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

MAX_VIOLATIONS_PER_SHARD = 20
MAX_SAMPLES = 6


def quiet_logging():
    """No handler of ours prints anything; levels are left alone (the code under test logs by itself)."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    logging.lastResort = None


def digest(obj):
    """Stable 64-bit digest of a JSON-able/hashable observation."""
    return hashlib.blake2b(repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest()


class Stats(object):
    """Counters measured during an exploration."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.evaluations = 0
        self.states = set()          # digests of distinct model states visited
        self.transitions = 0         # model transitions taken
        self.traces = 0              # complete behaviours replayed on the implementation and compared
        self.outcomes = set()        # digests of distinct non-trivial observations
        self.counters = collections.Counter()
        self.samples = []
        self.violations = []         # list of dict(key=, what=, case=)
        self.n_violations = 0
        self.capped = False
        self.stopped = False

    # -- reporting -------------------------------------------------------------------------
    def state(self, obj):
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, obj):
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(obj)

    def violation(self, key, what, case):
        """
        :param key: stable identifier of the failing input/history class (matched against known findings).
        :param what: human text.
        :param case: JSON-able description sufficient for replay().
        """
        self.n_violations += 1
        if len(self.violations) < MAX_VIOLATIONS_PER_SHARD:
            self.violations.append({'key': key, 'what': what, 'case': case})

    def merge(self, o):
        self.evaluations += o.evaluations
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes |= o.outcomes
        self.counters.update(o.counters)
        for s in o.samples:
            self.sample(s)
        self.violations.extend(o.violations)
        self.n_violations += o.n_violations
        self.capped = self.capped or o.capped


class DoesNotTerminate(Exception):
    pass


class StopShard(Exception):
    """What is left of the exploration is given up (after a violation which makes it pointless or endless)."""


# CPU seconds for one shard (ordinary ones take seconds): code which hangs is reported instead of hanging the check.
SHARD_CPU = {'quick': 200, 'thorough': 5400}


@contextlib.contextmanager
def cpu_limit(seconds):
    """
    Bound the CPU time (not wall time: a loaded machine raises no alarm) of one case, so that code which does not
    terminate is reported instead of hanging the check. The limit is orders of magnitude above a normal case.
    """
    def on_alarm(signum, frame):
        raise DoesNotTerminate('more than %s s of CPU time' % seconds)
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def expect(st, cond, key, what, case):
    st.evaluations += 1
    if not cond:
        st.violation(key, what, case)
    return cond


def _run_one(args):
    modname, shard, tier = args
    quiet_logging()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    mod = importlib.import_module(modname)
    st = Stats(tier)
    def on_alarm(signum, frame):
        raise DoesNotTerminate('more than %s s of CPU time' % SHARD_CPU[tier])
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, SHARD_CPU[tier])
    try:
        mod.run_shard(shard, st)
    except StopShard:
        st.stopped = st.capped = True
    except Exception as e:   # the harness itself does not raise: an escape is an unexpected exception of the code
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f for f in tb if f.filename.startswith(REPO + '/')]
        if isinstance(e, (MemoryError, OSError)):
            raise
        # also when it shows up in the harness: what the code returned is then not what it is asked for
        st.violation('crash:%s:%s' % (type(e).__name__, os.path.basename((where or tb)[-1].filename)),
                     'unexpected exception: %s' % traceback.format_exc(limit=-6),
                     {'shard': shard})
        st.stopped = st.capped = isinstance(e, DoesNotTerminate)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return st


def explore(mod, tier):
    from mc import lgrspec
    lgrspec.icu_db()                      # loaded once, before the workers are forked
    import lgr.core                       # noqa
    import lgr.parser.xml_parser          # noqa
    total = Stats(tier)
    shards = mod.shards(tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    # The seed only rotates the order in which shards are handed out: the space explored is the same.
    if shards:
        k = seed % len(shards)
        shards = shards[k:] + shards[:k]
    jobs = [(mod.__name__, s, tier) for s in shards]
    if WORKERS <= 1 or len(jobs) <= 1:
        for j in jobs:
            total.merge(_run_one(j))
            if total.violations and FAILFAST:
                break
    else:
        ctx = multiprocessing.get_context('fork')
        # ProcessPoolExecutor: a worker that dies breaks the pool (error exit) instead of hanging it
        with concurrent.futures.ProcessPoolExecutor(min(WORKERS, len(jobs)), mp_context=ctx) as pool:
            futures = [pool.submit(_run_one, j) for j in jobs]
            for fut in concurrent.futures.as_completed(futures):
                if fut.cancelled():
                    continue
                res = fut.result()
                total.merge(res)
                if res.stopped or (res.violations and FAILFAST):
                    for f in futures:
                        f.cancel()
    total.counters['shards'] = len(jobs)
    return total


def load_known(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(x) for x in o), key=repr)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def write_replay(prop, v):
    os.makedirs(REPLAY_DIR, exist_ok=True)
    h = hashlib.sha1(json.dumps(jsonable(v), sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAY_DIR, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'key': v['key'], 'what': v['what'], 'case': jsonable(v['case'])}, f,
                  indent=1, sort_keys=True)
    return path


def main(prop, tier):
    quiet_logging()
    t0 = time.time()
    mod = importlib.import_module('mc.checks.%s' % prop)
    st = explore(mod, tier)
    wall = time.time() - t0

    known = load_known(prop)
    hit, fresh = {}, []
    for v in sorted(st.violations, key=lambda v: (len(json.dumps(jsonable(v['case']))), v['key'], v['what'])):
        k = next((k for k in known if k['key'] == v['key']), None)
        if k is not None:
            hit.setdefault(k['key'], (k, v))
        else:
            fresh.append(v)

    coverage = {
        'states': len(st.states),
        'transitions': st.transitions,
        'traces_validated_against_impl': st.traces,
        'evaluations': st.evaluations,
        'distinct_nontrivial': len(st.outcomes),
        'rule': mod.RULE,
        'samples': jsonable(st.samples),
        'exhaustive': not st.capped,
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, '') if isinstance(getattr(mod, 'BOUNDS', None), dict) else '',
        'counters': dict(sorted(st.counters.items())),
    }
    ev = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or '1'),
        'level': mod.LEVEL,
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(fresh),
    }
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    tmp = os.path.join(EVIDENCE_DIR, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVIDENCE_DIR, '%s.json' % prop))

    print('%s tier=%s states=%d transitions=%d traces=%d evaluations=%d outcomes=%d wall=%.1fs%s' % (
        prop, tier, len(st.states), st.transitions, st.traces, st.evaluations, len(st.outcomes), wall,
        ' CAPPED' if st.capped else ''))
    for key, (k, v) in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fresh:
        shown = 0
        seen = set()
        for v in fresh:
            if v['key'] in seen and shown >= 5:
                continue
            seen.add(v['key'])
            path = write_replay(prop, v)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s' % (v['key'], v['what'][:1500]))
            shown += 1
            if shown >= 10:
                break
        print('%d violating evaluation(s), %d shown' % (st.n_violations, shown))
        return 1
    return 0


def replay_main(path):
    quiet_logging()
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module('mc.checks.%s' % rec['property'])
    st = Stats('quick')
    case = rec['case']
    if isinstance(case, dict) and set(case) == {'shard'}:
        st = _run_one((mod.__name__, case['shard'], 'quick'))
    else:
        mod.replay(case, st)
    for v in st.violations:
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        print('  [%s] %s' % (v['key'], v['what']))
    if not st.violations:
        print('replay of %s: property held' % path)
    return 1 if st.violations else 0
