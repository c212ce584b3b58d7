"""C01: complete connections are reported exactly as sent."""

from sim import observe, proto, work
from sim.rng import Rng
from sim.runner import Violation, check
from sim.simfs import FS


ID = 'C01'
RUNS = {'quick': 16000, 'thorough': 600000}
BATCH = 24
RULE = ('A run simulates 1-3 HTTP/1.x connections between peers whose '
        'messages are generated (the ground truth), serialises them into '
        'capture files of one of six formats, and delivers them to the real '
        'input code under a generated read schedule and buffer size. It is '
        'non-trivial if at least two messages or a body were transferred; '
        'distinct runs are counted by the digest of everything observed.')
REAL = ['httpolice.inputs.streams', 'httpolice.framing1', 'httpolice.stream',
        'httpolice.header/parse (framing headers)', 'httpolice.codings',
        'io.BufferedReader']
STUB = ['file system (in-memory, scheduled reads)',
        'HTTP peers (message generator)']
STATE = 'distinct (format, framing kinds, statuses, codings, schedule) shapes'
SHRINK_LISTS = ('conns', 'exchanges', 'resps', 'headers', 'trailers',
                'chunks', 'fold', 'tcodings')
SHRINK_INTS = ('len',)
SHRINK_OPTS = ('io', 'buffer', 'chunk_style', 'style', 'te_pos')


def gen(r, i, tier):
    fmt = r.weighted([(3, 'streams'), (3, 'combined'), (2, 'tcpflow'),
                      (2, 'tcpick'), (2, 'req-stream'), (2, 'resp-stream')])
    n = r.weighted([(8, 1), (2, 2), (1, 3)])
    return {'format': fmt,
            'conns': [work.gen_connection(r.stream('conn%d' % k), fmt)
                      for k in range(n)],
            'io': work.gen_io(r.stream('io'))}


def valid(plan):
    for c in plan['conns']:
        if not c['exchanges']:
            return False
        for e in c['exchanges']:
            if e['req'] is None and not e['resps']:
                return False
    return bool(plan['conns'])


def shape(plan):
    out = [plan['format'], plan.get('io', {}).get('sched', {}).get('mode'),
           plan.get('io', {}).get('buffer')]
    for c in plan['conns']:
        for e in c['exchanges']:
            for m in [e['req']] + e['resps']:
                if m:
                    out.append((m.get('framing'), m.get('status'),
                                m.get('method') if m.get('method') in
                                ('HEAD', 'CONNECT') else '',
                                tuple(m.get('tcodings', [])),
                                bool(m.get('trailers'))))
    return out


def run(plan, ctx):
    FS.reset()
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    datas, truths, names = [], [], []
    for k, c in enumerate(plan['conns']):
        (a, b) = work.stream_names(fmt, k)
        (ib, ob, truth, layout) = proto.build(c['exchanges'], c['tail'],
                                              a, b)
        datas.append((ib, ob))
        names.append((a, b))
        if fmt in ('tcpflow', 'tcpick'):
            # A connection with nothing in one direction is still recorded.
            pass
        truths.append(truth)
        msgs = sum(1 for t in truth for m in [t['req']] + t['resps'] if m)
        ctx.probe('messages', msgs)
        _boundary_probes(layout, ctx)
    paths = work.place(fmt, datas)
    observed = [observe.exchange(e) for e in observe.read_input(fmt, paths)]
    ctx.faults_from(FS.fired)
    ctx.note(observed)
    ctx.steps += len(observed)
    ctx.state(*shape(plan))
    groups = work.split_by_connection(observed, names)
    check(not groups[None], 'stray-exchange', groups[None])
    for k, truth in enumerate(truths):
        compare(truth, groups[k], plan, k)
    ctx.trivial = sum(len(a) + len(b) for a, b in datas) < 60


def compare(truth, got, plan=None, k=None):
    for j, t in enumerate(truth):
        check(j < len(got), 'exchange-missing', j, t)
        compare_exchange(t, got[j])
    check(len(got) == len(truth), 'exchange-extra', got[len(truth):])


def compare_exchange(t, g):
    check((t['req'] is None) == (g['req'] is None), 'request-pairing', t, g)
    if t['req'] is not None:
        compare_message(t['req'], g['req'], 'request')
    check(len(t['resps']) == len(g['resps']), 'response-pairing', t, g)
    for a, b in zip(t['resps'], g['resps']):
        compare_message(a, b, 'response')
    check(t['box'] == g['box'], 'connection-notices', t['box'], g['box'])


def compare_message(t, g, what):
    for key in ('remark', 'method', 'target', 'status', 'version', 'reason',
                'headers', 'trailers', 'body'):
        check(t.get(key) == g.get(key), '%s-%s' % (what, key), t.get(key),
              g.get(key))
    # Every framing notice is there for a reason, and exactly once per place.
    ids = [n[0] for n in g['notices']]
    check(sorted(set(ids)) == t['notices'], '%s-notices' % what,
          t['notices'], g['notices'])


def _boundary_probes(layout, ctx):
    for side in ('in', 'out'):
        for start, head, end in layout[side]:
            if head % proto.BUFFER == 0:
                ctx.probe('heading ends at a buffer boundary')
            if end % proto.BUFFER == 0:
                ctx.probe('message ends at a buffer boundary')
            if end - start > proto.BUFFER:
                ctx.probe('message longer than a buffer')
