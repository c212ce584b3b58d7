"""C11: an interrupted check does not poison later checks."""

import sys

from sim import capture, interrupt, observe, threads, traffic
from sim.clock import CLOCK
from sim.props import c09
from sim.runner import Ctx, check, forked


ID = 'C11'
RUNS = {'quick': 350, 'thorough': 40000}
BATCH = 1
RULE = ('A run computes the notices and both reports of some generated '
        'exchanges in a pristine process each. Then, in one process, cold '
        'or warmed up, it interrupts checks and reports of them with an '
        'exception (KeyboardInterrupt, MemoryError, ones of its own) raised '
        'before a bytecode instruction chosen among all those that the '
        'operation executes and where the interpreter can raise it '
        '(choosing the function first, with a preference for those that use '
        'shared containers, then the place in it, then the occasion, so '
        'that rare ones get their share), or by exhausting the stack or the '
        'memory at the n-th allocation; after each interruption, the same exchange object (if '
        'it was being reported), equal exchanges and other ones are checked '
        'and reported, and must give what they gave in their pristine '
        'process. Non-trivial if an interruption happened.')
REAL = ['the whole of httpolice except inputs and command line',
        'lxml, dominate, bitstring']
STUB = ['sources of asynchronous exceptions (sys.monitoring, '
        '_testcapi.set_nomemory)', 'clock']
STATE = 'distinct (operation, function interrupted, exception) triples'
STEP = 'reports and checks compared'
SHRINK_LISTS = ('targets', 'interruptions', 'headers', 'trailers', 'resps',
                'warm', 'then')
SHRINK_STRS = ('body',)
SHRINK_INTS = ('depth',)


def setup():
    capture.setup()
    threads.codes()


WHAT = ['check', 'check', 'check', 'text', 'html']


def gen(r, i, tier):
    targets = [traffic.gen(r, mutate=r.chance(0.8))]
    for _ in range(r.pick([0, 1, 1, 2])):
        targets.append(c09.relative(r, r.pick(targets)) if r.chance(0.7)
                       else traffic.gen(r))
    for e in targets:
        if r.chance(0.3):
            # Something that takes much of the stack.
            m = r.pick(c09.messages(e))
            depth = r.pick([5, 15, 30, 60])
            m['headers'].insert(
                r.randrange(len(m['headers']) + 1),
                [r.pick(['Via', 'User-Agent', 'Server', 'X-Foo']),
                 '1.1 a ' + '(' * depth + 'x' + ')' * depth])
    n = len(targets)
    ints = []
    for _ in range(r.pick([1, 2, 3, 5, 8])):
        how = r.weighted([(6, 'point'), (1.5, 'stack'), (1.5, 'memory')])
        op = {'k': r.randrange(n), 'what': r.pick(WHAT), 'how': how,
              'then': [[r.randrange(n), r.pick([['html'], ['text'], []])]
                       for _ in range(r.pick([0, 1, 1, 2]))]}
        if how == 'point':
            op.update({'exc': r.weighted(
                [(3, 'KeyboardInterrupt'), (2, 'MemoryError'),
                 (1, 'Timeout'), (1, 'Killed'), (0.5, 'SystemExit')]),
                'kind': r.weighted([(8, threads.HOT), (2, threads.WARM),
                                    (2, threads.COLD),
                                    (1, threads.LIBRARY)]),
                'shared': r.chance(0.35),
                'function': round(r.random(), 4),
                'place': round(r.random(), 5),
                'event': r.pick([0, 0, 0.9999, round(r.random(), 5),
                                 round(r.random(), 5)])})
        elif how == 'stack':
            op['depth'] = r.pick([r.randrange(1, 30), r.randrange(1, 120),
                                  r.randrange(1, 500)])
        else:
            op['allocation'] = round(r.random(), 4)
            op['lasting'] = r.pick([1, 1, 2, 10, 1000])
        ints.append(op)
    return {'targets': targets, 'interruptions': ints,
            'warm': [r.randrange(n) for _ in range(r.pick([0, 0, 0, 1, 3]))]}


def valid(plan):
    n = len(plan['targets'])
    return all(c09.messages(e) for e in plan['targets']) and \
        bool(plan['interruptions']) and all(
            op['k'] < n and all(k < n for k, _ in op['then'])
            for op in plan['interruptions']) and \
        all(k < n for k in plan['warm'])


def operation(what, exch):
    import httpolice
    if what == 'check':
        httpolice.check_exchange(exch)
    else:
        c09.report(what, exch)


def choose_point(op, exch):
    """Where this operation, done now, would be interrupted."""
    def func():
        with interrupt.Profile(exc=op['exc']) as p:
            operation(op['what'], exch)
        return p.table()
    (table, died) = forked(func)
    check(died is None, 'operation-died', op['what'], died)
    some = op['shared'] and [x for x in table if x[1] in threads.SHARED] or \
        [x for x in table if x[0] == op['kind']] or table
    (_, name, places) = some[int(op['function'] * len(some))]
    (place, n) = places[int(op['place'] * len(places))]
    return name, place, int(op['event'] * n)


def at_depth(left, func):
    """Run with only about this much of the stack left."""
    def used():
        n = 0
        frame = sys._getframe(1)
        while frame is not None:
            n += 1
            frame = frame.f_back
        return n

    def down(n):
        if n > 0:
            down(n - 1)
        else:
            func()
    down(max(0, sys.getrecursionlimit() - used() - left - 2))


def interrupt_memory(op, exch):
    """In C, exceptions for lack of memory may come from anywhere."""
    import _testcapi
    n = int(2 ** (6 + op['allocation'] * 12))
    # Code that is not prepared for it may crash, which is not our business:
    # see first.
    def attempt():
        fired = False
        _testcapi.set_nomemory(n, n + op['lasting'])
        try:
            operation(op['what'], exch)
        except MemoryError:
            fired = True
        except BaseException:
            fired = True
        finally:
            _testcapi.remove_mem_hooks()
        return fired
    (fired, died) = forked(attempt)
    if died is not None:
        return None
    return attempt()


def run(plan, ctx):
    if any(op['how'] == 'memory' for op in plan['interruptions']):
        # C code that is not prepared for it may also crash later.
        (_, died) = forked(lambda: attempt(plan))
        if died is not None and died.startswith('signal'):
            ctx.probe('interpreter crashes after lack of memory')
            ctx.trivial = True
            return
    body(plan, ctx)


def attempt(plan):
    try:
        body(plan, Ctx())
    except Exception:
        pass            # We'll see that again.


def body(plan, ctx):
    import httpolice
    # The wreckage of objects whose construction was interrupted.
    sys.unraisablehook = lambda _: None
    CLOCK.reset(1500000000)
    expected = [c09.baseline(e) for e in plan['targets']]
    for k in plan['warm']:
        httpolice.check_exchange(traffic.to_api(plan['targets'][k]))
    ctx.trivial = True

    def compare(k, exch, kinds, when):
        want = expected[k]
        ids = observe.notice_ids(exch)
        check(ids == want['ids'], 'notices-differ', when, k, want['ids'],
              ids)
        ctx.steps += 1
        for kind in kinds:
            data = c09.report(kind, exch)
            check(data == want[kind], 'report-differs', when, k, kind,
                  c09.diff(want[kind], data))
            ctx.steps += 1

    for op in plan['interruptions']:
        exch = traffic.to_api(plan['targets'][op['k']])
        if op['what'] != 'check':
            httpolice.check_exchange(exch)
        where = None
        if op['how'] == 'point':
            (name, place, n) = choose_point(op, exch)
            where = name[2]
            with interrupt.Injector(name, place, n,
                                    interrupt.KINDS[op['exc']]) as inj:
                try:
                    operation(op['what'], exch)
                    how = 'swallowed'
                except BaseException as e:
                    if not inj.fired or \
                            not isinstance(e, interrupt.KINDS[op['exc']]):
                        how = type(e).__name__
                    else:
                        how = 'raised'
            if inj.fired:
                ctx.fault(op['exc'])
                ctx.trivial = False
            else:
                how = 'missed'
        elif op['how'] == 'stack':
            try:
                at_depth(op['depth'], lambda: operation(op['what'], exch))
                how = 'done'
            except RecursionError:
                how = 'raised'
                ctx.trivial = False
            ctx.fault('stack nearly exhausted')
        else:
            fired = interrupt_memory(op, exch)
            if fired is None:
                how = 'would crash'
                ctx.probe('interpreter crashes without memory')
            elif fired:
                how = 'raised'
                ctx.fault('failing allocation')
                ctx.trivial = False
            else:
                how = 'done'
        ctx.probe('%s: %s' % (op['how'], how))
        ctx.note(op['what'], op['how'], where, how)
        ctx.state(op['what'], where, op.get('exc', op['how']), how)
        if op['what'] != 'check':
            compare(op['k'], exch, ['html', 'text'], 'same object')
        del exch
        for k, kinds in op['then'] + [[op['k'], ['text', 'html']]]:
            exch = traffic.to_api(plan['targets'][k])
            httpolice.check_exchange(exch)
            compare(k, exch, kinds, 'equal exchange')
    for k in range(len(expected)):
        exch = traffic.to_api(plan['targets'][k])
        httpolice.check_exchange(exch)
        compare(k, exch, ['html', 'text'], 'in the end')
