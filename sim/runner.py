"""Seeded search: generate plans, execute them, report, minimise, replay."""

import argparse
import collections
import contextlib
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from sim.rng import Rng, derive
from sim import sut


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known-findings.txt')

RUN_CPU_LIMIT = 60          # CPU seconds for one simulated run
MEM_LIMIT = 6 << 30
MIN_WALL = 90               # minimisation effort
MIN_TRIES = 600

# We need real time for our own bookkeeping, whatever gets patched.
monotonic = time.monotonic
process_time = time.process_time


class Violation(Exception):

    def __init__(self, kind, detail=None):
        super(Violation, self).__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class Hang(BaseException):
    pass


class Deadlock(BaseException):

    """The run waits for something that nobody will ever do."""


class Ctx:

    """What a simulated run records about itself."""

    def __init__(self):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.steps = 0
        self.simtime = 0.0
        self.trivial = False
        self.trace = None       # what the schedule turned out to be
        self._digest = hashlib.sha256()
        self.verbose = False

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n

    def faults_from(self, fired):
        for k, v in fired.items():
            self.fault(k, v)

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def state(self, *parts):
        h = hashlib.sha256(repr(parts).encode('utf-8', 'replace')).digest()
        self.states.add(h[:8])

    def note(self, *items):
        """Append to the event log, of which we keep a digest."""
        data = repr(items).encode('utf-8', 'backslashreplace')
        if self.verbose:
            sys.stderr.write('  %s\n' % data.decode('utf-8')[:2000])
        self._digest.update(data)

    @property
    def digest(self):
        return self._digest.hexdigest()[:32]


def check(cond, kind, *detail):
    if not cond:
        raise Violation(kind, detail)


def brief(x, limit=1500):
    r = repr(x)
    if len(r) > limit:
        r = r[:limit] + '...'
    return r


def _on_alarm(_signum, _frame):
    raise Hang()


STALL = 3.0
_watch = {'waiting': 0, 'last': 0.0, 'stalls': 0}


@contextlib.contextmanager
def waiting():
    _watch['waiting'] += 1
    try:
        yield
    finally:
        _watch['waiting'] -= 1


def _watch_out():
    _watch['stalls'] = _watch['waiting'] = 0
    signal.signal(signal.SIGALRM, _on_tick)
    signal.setitimer(signal.ITIMER_REAL, STALL, STALL)


def _on_tick(_signum, _frame):
    # Nothing here waits in real time, other than for children.
    now = process_time()
    idle = now - _watch['last'] < 0.02 and not _watch['waiting']
    _watch['last'] = now
    _watch['stalls'] = _watch['stalls'] + 1 if idle else 0
    if _watch['stalls'] >= 2:
        raise Deadlock()


def execute(module, plan, verbose=False):
    """Execute one plan in this process. Returns a plain dictionary."""
    ctx = Ctx()
    ctx.verbose = verbose
    violation = error = None
    if getattr(module, 'valid', None) is not None and not module.valid(plan):
        raise RuntimeError('invalid plan')
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL,
                     getattr(module, 'CPU_LIMIT', RUN_CPU_LIMIT))
    _watch_out()
    try:
        try:
            module.run(plan, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        violation = (e.kind, brief(e.detail))
        if verbose:
            traceback.print_exc()
    except Hang:
        violation = ('hang', 'more than %s CPU seconds: %s' % (
            RUN_CPU_LIMIT, traceback.format_exc()[-1500:]))
    except Deadlock:
        violation = ('deadlock', traceback.format_exc()[-1500:])
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        if sut.in_sut(e.__traceback__):
            violation = ('exception:%s' % type(e).__name__, tb[-3000:])
        else:
            error = tb
        if verbose:
            traceback.print_exc()
    if violation:
        ctx.note('violation', violation[0])
    return {
        'violation': violation, 'error': error, 'digest': ctx.digest,
        'faults': dict(ctx.faults), 'probes': dict(ctx.probes),
        'states': ctx.states, 'steps': ctx.steps, 'simtime': ctx.simtime,
        'trivial': ctx.trivial, 'trace': ctx.trace if violation else None,
    }


def jsonable(plan):
    return json.loads(json.dumps(plan))


def make_plan(module, seed, index, tier):
    r = Rng(seed, module.ID, index)
    return jsonable(module.gen(r, index, tier))


###############################################################################
# Isolated execution: every batch runs in a child forked from a pristine
# parent, so that no state leaks from one batch to another, and any violation
# can be reproduced from the plans of its own batch alone.


def _child_setup():
    gc.enable()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


def forked(func, wall=600.0, cpu=None):
    """Run `func` in a forked child; return ``(result, how it died)``."""
    sys.stdout.flush()
    sys.stderr.flush()
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            _child_setup()
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            _watch_out()
            data = pickle.dumps(func())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with waiting():
        return _collect(r, pid, wall)


def _collect(r, pid, wall):
    chunks = []
    deadline = monotonic() + wall
    died = None
    while True:
        left = deadline - monotonic()
        ready = select.select([r], [], [], max(0, left))[0] if left > 0 \
            else []
        if not ready:
            os.kill(pid, signal.SIGKILL)
            died = 'wall'
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    (_, status) = os.waitpid(pid, 0)
    if died is None and status != 0:
        if os.WIFSIGNALED(status):
            died = 'signal %d' % os.WTERMSIG(status)
        else:
            died = 'exit %d' % os.WEXITSTATUS(status)
    if died is None:
        return (pickle.loads(b''.join(chunks)), None)
    return (None, died)


def run_sequence(module, plans, verbose=False):
    """Run plans one after another in one fresh child."""
    def func():
        return [execute(module, p, verbose) for p in plans]
    limit = getattr(module, 'CPU_LIMIT', RUN_CPU_LIMIT)
    (results, died) = forked(func, cpu=limit * len(plans) + 60)
    if died is None:
        return results
    if died == 'wall':
        return [{'violation': None, 'error': 'wall-clock timeout',
                 'digest': '', 'faults': {}, 'probes': {}, 'states': set(),
                 'steps': 0, 'simtime': 0, 'trivial': True}]
    # A child that dies (CPU limit, crash inside the interpreter) has been
    # killed by what it was running.
    return [{'violation': ('died', died), 'error': None, 'digest': '',
             'faults': {}, 'probes': {}, 'states': set(), 'steps': 0,
             'simtime': 0, 'trivial': True}]


class Shared:

    """The lowest batch with a violation so far, shared between workers."""

    def __init__(self):
        self.m = mmap.mmap(-1, 8)
        self.set(1 << 60)

    def get(self):
        return struct.unpack('q', self.m[:8])[0]

    def set(self, v):
        self.m[:8] = struct.pack('q', v)


def worker(module, seed, tier, n_runs, batch_size, w, n_workers, stop):
    agg = {'runs': 0, 'nontrivial': 0, 'faults': collections.Counter(),
           'probes': collections.Counter(), 'states': set(), 'digests': {},
           'distinct': set(), 'steps': 0, 'simtime': 0.0, 'violations': [],
           'errors': []}
    n_batches = (n_runs + batch_size - 1) // batch_size
    for b in range(w, n_batches, n_workers):
        if b > stop.get():
            break
        lo = b * batch_size
        hi = min(n_runs, lo + batch_size)

        def func():
            out = []
            for i in range(lo, hi):
                plan = make_plan(module, seed, i, tier)
                res = execute(module, plan)
                out.append(res)
            return out
        limit = getattr(module, 'CPU_LIMIT', RUN_CPU_LIMIT)
        (results, died) = forked(func, wall=600,
                                 cpu=limit * (hi - lo) + 60)
        if died is not None:
            if died == 'wall':
                agg['errors'].append((lo, 'wall-clock timeout'))
                continue
            # Find out which one it was.
            for i in range(lo, hi):
                res = run_sequence(
                    module, [make_plan(module, seed, i, tier)])[-1]
                if res['violation'] or res['error']:
                    break
            if not (res['violation'] or res['error']):
                res = {'violation': ('died', died), 'error': None}
            if res['violation']:
                agg['violations'].append((i, lo, res['violation']))
                stop.set(min(stop.get(), b))
            else:
                agg['errors'].append((i, res['error']))
            continue
        for i, res in zip(range(lo, hi), results):
            agg['runs'] += 1
            agg['faults'].update(res['faults'])
            agg['probes'].update(res['probes'])
            agg['states'] |= res['states']
            agg['steps'] += res['steps']
            agg['simtime'] += res['simtime']
            if not res['trivial']:
                agg['nontrivial'] += 1
                agg['distinct'].add(res['digest'][:16])
            if i % 97 == 0:
                agg['digests'][i] = res['digest']
            if res['error']:
                agg['errors'].append((i, res['error']))
            if res['violation']:
                agg['violations'].append((i, lo, res['violation']))
                stop.set(min(stop.get(), b))
                break
    return agg


def run_all(module, seed, tier, n_runs, n_workers):
    stop = Shared()
    batch_size = getattr(module, 'BATCH', 8)
    pids = []
    for w in range(n_workers):
        (r, wr) = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                agg = worker(module, seed, tier, n_runs, batch_size, w,
                             n_workers, stop)
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(agg, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        pids.append((pid, r))
    total = None
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        (_, status) = os.waitpid(pid, 0)
        if status != 0 or not data:
            raise RuntimeError('worker died with status %r' % status)
        agg = pickle.loads(data)
        if total is None:
            total = agg
        else:
            for k, v in agg.items():
                if isinstance(v, (set, collections.Counter, dict)):
                    if isinstance(v, set):
                        total[k] |= v
                    else:
                        total[k].update(v)
                else:
                    total[k] += v
    total['violations'].sort()
    total['errors'].sort()
    return total


###############################################################################
# Minimisation.


def _paths(node, path=()):
    """All (path, value) in a JSON document, outermost first."""
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node):
            for x in _paths(node[k], path + (k,)):
                yield x
    elif isinstance(node, list):
        for i, v in enumerate(node):
            for x in _paths(v, path + (i,)):
                yield x


def _get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def _replaced(doc, path, value):
    if not path:
        return value
    doc = json.loads(json.dumps(doc))
    node = doc
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = value
    return doc


def _list_name(path):
    for p in reversed(path):
        if isinstance(p, str):
            return p
    return ''


def candidates(module, doc):
    lists = getattr(module, 'SHRINK_LISTS', ())
    ints = getattr(module, 'SHRINK_INTS', ())
    strs = getattr(module, 'SHRINK_STRS', ())
    opts = getattr(module, 'SHRINK_OPTS', ())
    for path, node in list(_paths(doc)):
        name = _list_name(path)
        if isinstance(node, list) and node and name in lists and \
                path and path[-1] == name:
            n = len(node)
            step = n
            while step >= 1:
                i = 0
                while i < n:
                    yield _replaced(doc, path, node[:i] + node[i + step:])
                    i += step
                step //= 2
        elif isinstance(node, dict):
            for k in sorted(node):
                if k in opts:
                    new = dict(node)
                    del new[k]
                    yield _replaced(doc, path, new)
        elif isinstance(node, bool):
            pass
        elif isinstance(node, int) and name in ints and node > 0:
            for v in (0, 1, node // 2, node - 1):
                if v < node:
                    yield _replaced(doc, path, v)
        elif isinstance(node, str) and name in strs and node:
            n = len(node)
            step = n
            while step >= 1:
                i = 0
                while i < n:
                    yield _replaced(doc, path, node[:i] + node[i + step:])
                    i += step
                step //= 2


def minimise(module, plans, kind):
    """`plans` run in sequence; the last one shows the violation."""
    deadline = monotonic() + MIN_WALL
    tries = [0]

    def fails(ps):
        tries[0] += 1
        res = run_sequence(module, ps)[-1]
        return bool(res['violation']) and res['violation'][0] == kind

    def exhausted():
        return monotonic() > deadline or tries[0] > MIN_TRIES

    if len(plans) > 1 and fails(plans[-1:]):
        plans = plans[-1:]
    while len(plans) > 1 and not exhausted():
        for i in range(len(plans) - 1):
            if fails(plans[:i] + plans[i + 1:]):
                plans = plans[:i] + plans[i + 1:]
                break
        else:
            break
    if not fails(plans):
        return plans, False, tries[0]
    if hasattr(module, 'explicit'):
        # Make the decisions of the scheduler part of the plan.
        trace = run_sequence(module, plans)[-1].get('trace')
        if trace is not None:
            ps = plans[:-1] + [jsonable(module.explicit(plans[-1], trace))]
            if fails(ps):
                plans = ps
    progress = True
    while progress and not exhausted():
        progress = False
        for which in range(len(plans)):
            for cand in candidates(module, plans[which]):
                if exhausted():
                    break
                valid = getattr(module, 'valid', None)
                if valid is not None:
                    try:
                        if not valid(cand):
                            continue
                    except Exception:
                        continue
                ps = plans[:which] + [cand] + plans[which + 1:]
                if fails(ps):
                    plans = ps
                    progress = True
                    break
    return plans, True, tries[0]


###############################################################################
# Known findings.


def known_findings(prop):
    """Lines like ``finding: property=C01 kind=<kind> match=<text> # ...``."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            body, _, descr = line[len('finding:'):].partition(' # ')
            fields = {}
            for part in body.split():
                (k, _, v) = part.partition('=')
                fields[k] = v
            if fields.get('property') == prop:
                out.append((fields, descr))
    return out


def is_known(violation, known):
    for fields, _ in known:
        if fields.get('kind') == violation[0] and \
                fields.get('match', '') in (violation[1] or ''):
            return True
    return False


###############################################################################
# Modes.


def do_replay(path):
    with open(path) as f:
        doc = json.load(f)
    module = load(doc['property'])
    results = run_sequence(module, doc['plans'])
    res = results[-1]
    if res['error']:
        sys.stderr.write(res['error'])
        return 2
    if not res['violation']:
        print('replay: no violation (property=%s)' % doc['property'])
        return 0
    same = res['violation'][0] == doc['violation']['kind'] and \
        res['digest'] == doc['violation'].get('digest', res['digest'])
    print('replay: %s %s' % (res['violation'][0],
                             'reproduced exactly' if same else
                             '(recorded: %s)' % doc['violation']['kind']))
    print(res['violation'][1])
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1


def load(prop):
    sut.load(sim_locks=prop == 'C10')
    module = importlib.import_module('sim.props.%s' % prop.lower())
    if hasattr(module, 'setup'):
        module.setup()
    gc.collect()
    gc.freeze()
    return module


def do_check(prop, tier, seed, workers, n_runs, index):
    started = monotonic()
    module = load(prop)
    if n_runs is None:
        n_runs = module.RUNS[tier]

    if index is not None:
        plan = make_plan(module, seed, index, tier)
        print(json.dumps(plan, indent=1)[:20000])
        res = run_sequence(module, [plan], verbose=True)[-1]
        print({k: v for k, v in res.items() if k not in ('states',)})
        return 1 if res['violation'] else 0

    total = run_all(module, seed, tier, n_runs, workers)
    search_s = monotonic() - started

    known = known_findings(prop)
    fresh = [v for v in total['violations'] if not is_known(v[2], known)]
    exit_code = 0
    n_violations = len(fresh)
    violation_doc = None

    if fresh:
        (i, lo, (kind, detail)) = fresh[0]
        plans = [make_plan(module, seed, k, tier) for k in range(lo, i + 1)]
        (small, reproduced, tries) = minimise(module, plans, kind)
        final = run_sequence(module, small)[-1]
        if reproduced and final['violation']:
            (kind, detail) = final['violation']
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d-%d.json' % (prop, seed, i))
        violation_doc = {
            'property': prop, 'seed': seed, 'index': i, 'tier': tier,
            'violation': {'kind': kind, 'detail': detail,
                          'digest': final['digest']},
            'minimised': reproduced, 'minimisation_runs': tries,
            'plans': small,
        }
        with open(path, 'w') as f:
            json.dump(violation_doc, f, indent=1)
        env = dict(os.environ)
        fresh_run = subprocess.run(
            [sys.executable, '-s', os.path.join(HERE, 'check.py'),
             '--replay', path], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE)
        print('violation: run %d of seed %d: %s' % (i, seed, kind))
        print(detail)
        print('minimised in %d runs; replay in a fresh process: %s' % (
            tries, 'reproduced' if fresh_run.returncode == 1
            else 'NOT reproduced (exit %d)' % fresh_run.returncode))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        exit_code = 1
    elif total['errors']:
        for i, e in total['errors'][:3]:
            sys.stderr.write('harness error in run %d:\n%s\n' % (i, e))
        exit_code = 2

    for fields, descr in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, descr))

    # Re-run a sample from scratch, and compare the event logs.
    rechecked = mismatched = 0
    if exit_code == 0:
        sample = sorted(total['digests'])[:: max(
            1, len(total['digests']) // 4)][:5]
        batch_size = getattr(module, 'BATCH', 8)
        for i in sample:
            lo = i - i % batch_size
            plans = [make_plan(module, seed, k, tier)
                     for k in range(lo, i + 1)]
            res = run_sequence(module, plans)[-1]
            rechecked += 1
            if res['digest'] != total['digests'][i]:
                mismatched += 1
        if mismatched:
            sys.stderr.write('%d of %d rechecked runs diverged\n' %
                             (mismatched, rechecked))

    wall = monotonic() - started
    samples = [make_plan(module, seed, k, tier) for k in range(2)]
    samples = [json.dumps(p)[:3000] for p in samples]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(total['distinct']),
            'rule': module.RULE,
            'samples': samples,
            'seeds': total['runs'],
            'simulated_runs_per_hour': int(
                total['runs'] / max(search_s, 1e-9) * 3600),
            'simulated_time_covered_s': round(total['simtime'], 3),
            'simulated_steps': total['steps'],
            'step_meaning': getattr(module, 'STEP', 'oracle evaluations'),
            'faults_injected': dict(sorted(total['faults'].items())),
            'rare_conditions_hit': dict(sorted(total['probes'].items())),
            'distinct_states': len(total['states']),
            'state_measure': getattr(module, 'STATE', ''),
            'real_components': module.REAL,
            'stub_components': module.STUB,
            'workers': workers,
            'determinism_rechecks': rechecked,
            'determinism_mismatches': mismatched,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': n_violations,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d runs, %d distinct non-trivial, %d states, %.1f s, '
          'faults: %s' % (
              prop, tier, total['runs'], len(total['distinct']),
              len(total['states']), wall,
              json.dumps(evidence['coverage']['faults_injected'])))
    return exit_code


def do_selftest(props, seed, n):
    """Same seeds, other worker counts, another hash seed: same event logs."""
    bad = 0
    for prop in props:
        module = load(prop)
        out = {}
        for w in (1, 3, 8):
            out[w] = run_all_digests(module, seed, n, w)
        # And in a fresh interpreter under another PYTHONHASHSEED.
        env = dict(os.environ, VERIF_HASHSEED='4242')
        env.pop('VERIF_REEXEC', None)
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, 'check.py'), '--digests',
             prop, '--runs', str(n), '--seed', str(seed)],
            env=env, stdout=subprocess.PIPE)
        out['hashseed'] = json.loads(r.stdout.decode('ascii')) \
            if r.returncode == 0 else None
        ref = out[1]
        diffs = {str(k): sum(1 for a, b in zip(ref, v or []) if a != b)
                 if v is not None and len(v) == len(ref) else -1
                 for k, v in out.items()}
        print('%s: %d runs, divergences: %s' % (prop, len(ref), diffs))
        bad += sum(1 for v in diffs.values() if v)
    return 1 if bad else 0


def run_all_digests(module, seed, n, workers):
    batch = getattr(module, 'BATCH', 8)
    n_batches = (n + batch - 1) // batch

    def part(w):
        out = {}
        for b in range(w, n_batches, workers):
            plans = [make_plan(module, seed, i, 'quick')
                     for i in range(b * batch, min(n, (b + 1) * batch))]
            for k, res in enumerate(run_sequence(module, plans)):
                out[b * batch + k] = res['digest'] + str(res['violation'])
                if res['error']:
                    out[b * batch + k] += res['error']
        return out
    pids = []
    sys.stdout.flush()
    for w in range(workers):
        (r, wr) = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(part(w), f)
            finally:
                os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    res = {}
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            res.update(pickle.load(f))
        os.waitpid(pid, 0)
    return [res[i] for i in sorted(res)]


def all_props():
    d = os.path.join(HERE, 'sim', 'props')
    return sorted(n[:-3].upper() for n in os.listdir(d)
                  if n.startswith('c') and n.endswith('.py') and
                  n[1:3].isdigit())


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument('props', nargs='*')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--workers', type=int,
                   default=len(os.sched_getaffinity(0)))
    p.add_argument('--runs', type=int)
    p.add_argument('--index', type=int)
    p.add_argument('--replay')
    p.add_argument('--selftest', action='store_true')
    p.add_argument('--digests', action='store_true')
    args = p.parse_args(argv)
    sys.setrecursionlimit(1000)
    if args.replay:
        return do_replay(args.replay)
    props = [x.upper() for x in args.props]
    if args.selftest:
        return do_selftest(props or all_props(), args.seed,
                           args.runs or 64)
    if args.digests:
        module = load(props[0])
        print(json.dumps(run_all_digests(module, args.seed, args.runs, 2)))
        return 0
    worst = 0
    for prop in props:
        worst = max(worst, do_check(prop, args.tier, args.seed, args.workers,
                                    args.runs, args.index))
    return worst
