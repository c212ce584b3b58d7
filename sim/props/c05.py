"""C05: how input bytes arrive never changes the report."""

from sim import observe, proto, traffic, work
from sim.clock import CLOCK
from sim.props import c04
from sim.runner import Violation, check
from sim.simfs import FS


ID = 'C05'
RUNS = {'quick': 4500, 'thorough': 300000}
BATCH = 12
RULE = ('A run lays out a capture (intact or damaged, of any format, often '
        'larger than a buffer) and runs the command-line tool on it first '
        'with every read returning all that was asked for, then under 3-5 '
        'generated schedules (one byte at a time, fixed and random short '
        'reads, reads that end exactly at or next to line and message '
        'boundaries, buffers from one byte to 64 KiB). All must give the '
        'same bytes on standard output and error and the same exit status. '
        'Non-trivial if some read was short or a buffer was refilled.')
REAL = c04.REAL
STUB = c04.STUB
STATE = 'distinct (format, schedule, buffer size, number of reads) shapes'
STEP = 'runs of the command-line tool'
SHRINK_LISTS = c04.SHRINK_LISTS + ('ios',)
SHRINK_INTS = c04.SHRINK_INTS + ('len',)
SHRINK_STRS = c04.SHRINK_STRS
SHRINK_OPTS = ('buffer',)
setup = c04.setup


def gen(r, i, tier):
    p = traffic.pool()
    rr = r.stream('input')
    while True:
        plan = c04.gen(rr, i, tier)
        # What takes long to check gives few schedules.
        if plan['kind'] != 'nasty':
            break
    plan.pop('io', None)
    plan['output'] = r.weighted([(4, 'text'), (1, 'html')])
    if plan['kind'] in ('proto', 'traffic') and r.chance(0.4):
        pad(r, p, plan)
    total = size(plan)
    plan['ios'] = []
    for k in range(r.randrange(3, 6)):
        io_ = work.gen_io(r, total)
        if io_['sched']['mode'] == 'full' and 'buffer' not in io_:
            io_['buffer'] = r.pick([1, 2, 3, 7, 16, 61, 509, 4093]) \
                if total < 20000 else r.pick([64, 509, 4093])
        io_['order'] = 0
        plan['ios'].append(io_)
    return plan


def pad(r, p, plan):
    """Make it larger than a buffer."""
    for c in plan['conns']:
        if 'proto' in c:
            es = c['proto']['exchanges']
            for e in es:
                for m in [e['req']] + e['resps']:
                    if m and r.chance(0.4):
                        m['headers'].append(
                            ['X-Pad', 'p' * (r.pick([8192, 4096, 512]) +
                                             r.randrange(-60, 60))])
        elif 'exchanges' in c:
            for e in c['exchanges']:
                for m in [e['req']] + e['resps']:
                    if m and r.chance(0.4):
                        m['headers'].insert(
                            0, ['X-Pad', 'p' * (r.pick([8192, 4096]) +
                                                r.randrange(-99, 99))])


def size(plan):
    n = 0
    for c in plan.get('conns', []):
        (a, b) = c04.conn_bytes(c)
        n += len(a) + len(b)
    for h in plan.get('hars', []):
        n += len(c04.har_bytes(h))
    for _, data in plan.get('extra', []):
        n += len(data)
    return n


def valid(plan):
    return c04.valid(plan) and bool(plan['ios'])


def one(plan, ctx, io_):
    FS.reset()
    CLOCK.reset()
    work.apply_io(io_)
    from sim.runner import Ctx
    paths = c04.place(plan, ctx or Ctx())
    res = observe.run_cli(['-i', plan['format'], '-o', plan['output']] +
                          paths)
    return res, dict(FS.fired)


def run(plan, ctx):
    (base, _) = one(plan, ctx, {'order': 0})
    ctx.note(base.key(), repr(base.exc))
    ctx.trivial = True
    for io_ in plan['ios']:
        (res, fired) = one(plan, None, io_)
        fired.pop('listdir_shuffled', None)
        ctx.faults_from(fired)
        if io_.get('buffer'):
            ctx.fault('odd buffer size')
        ctx.steps += 1
        ctx.trivial = ctx.trivial and not fired and not io_.get('buffer')
        n_reads = sum(FS.opens.values())
        ctx.state(plan['format'], io_['sched']['mode'],
                  io_['sched'].get('k'), io_.get('buffer'),
                  fired.get('short_read', 0), n_reads)
        check(res.status == base.status, 'exit-status', io_, base.status,
              res.status, base.err, res.err)
        check(repr(res.exc) == repr(base.exc), 'exception', io_,
              repr(base.exc), repr(res.exc))
        check(res.err == base.err, 'stderr', io_, base.err, res.err)
        if res.key() != base.key():
            raise Violation('report', (io_, differ(base.key()[1],
                                                   res.key()[1])))


def differ(a, b):
    i = 0
    n = min(len(a), len(b))
    while i < n and a[i] == b[i]:
        i += 1
    return (i, a[max(0, i - 100):i + 200], b[max(0, i - 100):i + 200])
