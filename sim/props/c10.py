"""C10: threads checking at the same time get the same results."""

from sim import capture, interrupt, observe, threads, traffic
from sim.clock import CLOCK
from sim.props import c09
from sim.rng import Rng
from sim.runner import check, forked


ID = 'C10'
RUNS = {'quick': 520, 'thorough': 16000}
BATCH = 1
RULE = ('A run computes the notices and both reports of some generated '
        'exchanges (with many values in common) in a pristine process each; '
        'then lets two to four simulated threads check and report fresh '
        'copies of them, possibly with the caches filled beforehand to '
        'just below their limit, switching between threads at points chosen '
        'by a seeded policy (random, priority-based with few switches, or '
        'stopping a thread at one instruction of one function until all the '
        'others are done or stopped), down to single bytecode instructions in functions that '
        'touch shared state; and finally checks and reports everything again '
        'in one thread. All results must equal the pristine ones. '
        'Non-trivial if there was a switch in the middle of a task.')
REAL = ['the whole of httpolice except inputs and command line',
        'Python threads (of which only the one chosen by the simulator '
        'runs)', 'lxml, dominate, bitstring']
STUB = ['thread scheduler', 'locks (if httpolice has any)', 'clock',
        'size of the parser cache (lowered in some runs)']
STATE = 'distinct schedules (sequences of switches)'
STEP = 'points where a switch was possible'
SHRINK_LISTS = ('switches', 'headers', 'trailers', 'resps', 'fill', 'threads',
                'tasks', 'nexts')
SHRINK_STRS = ('body',)
SHRINK_INTS = ('n',)
SHRINK_OPTS = ('memo',)


def setup():
    capture.setup()
    threads.codes()


REPORTS = [['text'], ['html'], ['text', 'html'], ['html', 'text'], ['html'],
           ['html', 'html']]


def gen_policy(r):
    if r.chance(0.5):
        return {'kind': 'park', 'picks': [
            [r.weighted([(8, threads.HOT), (2, threads.WARM),
                         (1, threads.COLD)]),
             round(r.random(), 4), round(r.random(), 5),
             r.pick([0, 0, 0.9999, round(r.random(), 5)])]
            for _ in range(r.pick([1, 4, 8, 16, 16]))]}
    if r.chance(0.5):
        return {'kind': 'focus', 'p': r.pick([0.002, 0.01, 0.05, 0.2, 0.5]),
                'one_in': r.pick([2, 4, 8, 16])}
    if r.chance(0.5):
        return {'kind': 'random',
                'cold': r.pick([0, 0.0003, 0.003, 0.02]),
                'hot': r.pick([0.0005, 0.003, 0.02, 0.1, 0.3])}
    return {'kind': 'priorities', 'depth': r.pick([1, 2, 3, 5]),
            'horizon': r.pick([100, 1000, 5000, 20000]),
            'hot_only': r.chance(0.6)}


def gen(r, i, tier):
    targets = [traffic.gen(r, mutate=r.chance(0.8))]
    for _ in range(r.randrange(0, 4)):
        targets.append(c09.relative(r, r.pick(targets)) if r.chance(0.6)
                       else traffic.gen(r))
    n = r.weighted([(5, 2), (3, 3), (2, 4)])
    ts = []
    for _ in range(n):
        ts.append({'tasks': [{'k': r.randrange(len(targets)),
                              'reports': r.pick(REPORTS)}
                             for _ in range(r.pick([1, 1, 2, 3]))]})
    if r.chance(0.4):
        # One that only fills the caches, with values of its own.
        ts[-1] = {'tasks': [], 'filler': {'n': r.pick([1, 2, 4]),
                                          'seed': r.randrange(10 ** 6)}}
    plan = {'targets': targets, 'threads': ts, 'schedule': gen_policy(r),
            'opcodes': r.chance(0.7), 'lines': r.chance(0.12), 'rng': r.randrange(10 ** 9),
            'fill': [{'n': r.pick([1, 5, 11, 12, 13, 14]),
                      'seed': r.randrange(10 ** 6)}]
            if r.chance(0.4) else [],
            'warm': [r.randrange(len(targets))] if r.chance(0.3) else []}
    if r.chance(0.8 if plan['schedule']['kind'] == 'park' else 0.5):
        plan['memo'] = r.pick([7, 8, 10, 20, 60])
    return plan


def valid(plan):
    n = len(plan['targets'])
    return len(plan['threads']) >= 1 and \
        all(c09.messages(e) for e in plan['targets']) and \
        all(t['k'] < n for th in plan['threads'] for t in th['tasks'])


def explicit(plan, trace):
    return dict(plan, schedule=trace)


def run(plan, ctx):
    import httpolice
    from httpolice import parse
    used = sorted(set(t['k'] for th in plan['threads'] for t in th['tasks']))
    CLOCK.reset(1500000000)
    expected = {k: c09.baseline(plan['targets'][k]) for k in used}
    if 'memo' in plan and hasattr(parse, 'MEMO_LIMIT'):
        parse.MEMO_LIMIT = plan['memo']
        ctx.fault('tiny parser cache')
    for op in plan['fill']:
        for spec in c09.filler(op['seed'], op['n']):
            httpolice.check_exchange(traffic.to_api(spec))
        ctx.fault('cache filled', op['n'])
    for k in plan['warm']:
        httpolice.check_exchange(traffic.to_api(plan['targets'][k]))

    def task(t, exch):
        httpolice.check_exchange(exch)
        out = {'ids': observe.notice_ids(exch)}
        for kind in t['reports']:
            out.setdefault(kind, []).append(c09.report(kind, exch))
        return out

    def thread(tasks, op):
        if op is not None:
            others = [traffic.to_api(e)
                      for e in c09.filler(op['seed'], op['n'])]

            def fill():
                for x in others:
                    httpolice.check_exchange(x)
                return []
            return fill
        exchanges = [traffic.to_api(plan['targets'][t['k']]) for t in tasks]

        def func():
            return [task(t, x) for t, x in zip(tasks, exchanges)]
        return func

    spec = plan['schedule']
    if spec['kind'] == 'park' and 'points' not in spec:
        spec = dict(spec, points=choose_points(
            spec['picks'], [thread(th['tasks'], th.get('filler'))
                            for th in plan['threads']]))
    policy = threads.make_policy(spec, len(plan['threads']),
                                 Rng(plan['rng'], 'schedule'))
    sched = threads.Scheduler(policy, plan['opcodes'], plan['lines'])
    results = sched.run([thread(th['tasks'], th.get('filler'))
                         for th in plan['threads']])
    ctx.trace = sched.explicit(spec.get('base', spec))
    ctx.steps += sched.steps
    ctx.fault('thread switch', len(sched.trace_log))
    ctx.probe('switches in code that touches shared state',
              sched.hot_switches)
    ctx.trivial = not sched.trace_log
    ctx.state(sched.trace_log, sched.nexts)
    ctx.note(sched.trace_log, sched.nexts, sched.steps)

    for t, (th, res) in enumerate(zip(plan['threads'], results)):
        if res[0] == 'exception':
            check(res[1] != 'Deadlock', 'deadlock', t, res[2])
        check(res[0] == 'ok', 'thread-fails', t, res[1:])
        for task_, out in zip(th['tasks'], res[1]):
            compare(expected[task_['k']], out, 'in-thread', t)
    # Nothing is left behind.
    for k in used:
        out = task({'reports': ['html', 'text', 'html']},
                   traffic.to_api(plan['targets'][k]))
        compare(expected[k], out, 'afterwards', k)


def choose_points(picks, funcs):
    """Where threads that do this stop for the others."""
    def profile(only, starts):
        def func():
            tables = []
            for t, f in enumerate(funcs):
                with interrupt.Profile(only[t], starts) as p:
                    f()
                tables.append(p.table())
            return tables
        (tables, died) = forked(func)
        check(died is None, 'profile-died', died)
        return tables

    tables = profile([None] * len(funcs), True)
    chosen = []
    for i, (kind, function, place, event) in enumerate(picks):
        t = i % len(tables)
        some = [x for x in tables[t] if x[0] == kind] or tables[t]
        some = some + 3 * [x for x in some if x[1] in threads.SHARED]
        if some:
            name = some[int(function * len(some))][1]
            chosen.append((t, name, place, event))
    tables = profile([set(c[1] for c in chosen if c[0] == t)
                      for t in range(len(funcs))], False)
    points = []
    for t, name, place, event in chosen:
        for _, other, places in tables[t]:
            if other == name:
                (where, n) = places[int(place * len(places))]
                points.append([t, list(name), where, int(event * n)])
    return points


def compare(want, got, when, who):
    check(got['ids'] == want['ids'], '%s-notices-differ' % when, who,
          want['ids'], got['ids'])
    for kind in ('text', 'html'):
        for data in got.get(kind, []):
            check(data == want[kind], '%s-report-differs' % when, who, kind,
                  c09.diff(want[kind], data))
