"""C02: a capture cut off at any byte yields only what was really sent."""

from sim import observe, proto, refmodel, work
from sim.props import c01
from sim.rng import Rng
from sim.runner import Violation, check
from sim.simfs import FS


ID = 'C02'
RUNS = {'quick': 1000, 'thorough': 60000}
BATCH = 8
RULE = ('A run simulates one connection and crashes its capture again and '
        'again: at every byte of either or both directions if it is small, '
        'else at a generated sample biased to the edges of lines, chunks, '
        'messages and buffers. Each crashed capture is parsed by the real '
        'code and compared to the ground truth (messages wholly captured) '
        'and to a reference framing model (everything else). Distinct runs '
        'are counted by the digest of everything observed.')
REAL = c01.REAL
STUB = c01.STUB + ['reference framing model (oracle only)']
STATE = 'distinct (framing kind, part of the message that was cut) pairs'
STEP = 'crashed captures checked'
SHRINK_LISTS = ('exchanges', 'resps', 'headers', 'trailers', 'chunks',
                'fold', 'tcodings', 'cuts')
SHRINK_INTS = ('len',)
SHRINK_OPTS = ('io', 'buffer', 'chunk_style', 'style', 'te_pos')
FORMATS = ('streams', 'combined')


def gen(r, i, tier):
    fmt = r.weighted([(4, 'streams'), (3, 'combined'), (1, 'req-stream'),
                      (1, 'resp-stream')])
    conn = work.gen_connection(r.stream('conn'), fmt,
                               n=r.weighted([(4, 1), (3, 2), (1, 3)]))
    (ib, ob, _, layout) = proto.build(conn['exchanges'], conn['tail'])
    if fmt == 'req-stream':
        ob = b''
    elif fmt == 'resp-stream':
        ib = b''
    cuts = []
    # A run parses at most about half a megabyte in total.
    limit = max(24, min(240, 400000 // (len(ib) + len(ob) + 1)))
    if len(ib) <= limit // 3:
        cuts += [[n, len(ob)] for n in range(len(ib) + 1)]
    else:
        cuts += [[n, len(ob)] for n in points(r, ib, layout['in'],
                                               limit // 3)]
    if len(ob) <= limit // 3:
        cuts += [[len(ib), n] for n in range(len(ob) + 1)]
    else:
        cuts += [[len(ib), n] for n in points(r, ob, layout['out'],
                                               limit // 3)]
    for a, b in zip(points(r, ib, layout['in'], limit // 3),
                    points(r, ob, layout['out'], limit // 3)):
        cuts.append([a, b])
    return {'format': fmt, 'conn': conn, 'cuts': cuts,
            'io': work.gen_io(r.stream('io'), (len(ib) + len(ob)) * len(cuts) // 4)}


def points(r, data, layout, n):
    from sim.damage import starts_of_lines
    marks = [x for m in layout for x in m] + starts_of_lines(data) + \
        [k * proto.BUFFER for k in range(1, len(data) // proto.BUFFER + 1)]
    out = []
    for _ in range(n):
        if r.chance(0.7):
            p = r.pick(marks) + r.randrange(-2, 3)
        else:
            p = r.randrange(len(data) + 1)
        out.append(min(max(p, 0), len(data)))
    return out


def run(plan, ctx):
    fmt = plan['format']
    conn = plan['conn']
    (a, b) = work.stream_names(fmt, 0)
    (ib, ob, truth, layout) = proto.build(conn['exchanges'], conn['tail'],
                                          a, b)
    for icut, ocut in plan['cuts']:
        one_cut(plan, ctx, fmt, a, b, ib, ob, icut, ocut, truth, layout)
    ctx.trivial = not plan['cuts']


def one_cut(plan, ctx, fmt, a, b, ib, ob, icut, ocut, truth, layout):
    FS.reset()
    work.apply_io(plan.get('io', {}))
    (ci, co) = (ib[:icut], ob[:ocut])
    if fmt == 'req-stream':
        co = None
    elif fmt == 'resp-stream':
        ci = None
    paths = work.place(fmt, [(ci, co)])
    observed = [observe.exchange(e) for e in observe.read_input(fmt, paths)]
    ctx.faults_from(FS.fired)
    ctx.note(icut, ocut, observed)
    ctx.steps += 1
    if icut < len(ib):
        ctx.fault('inbound capture cut off')
    if ocut < len(ob):
        ctx.fault('outbound capture cut off')
    where(ctx, layout, icut, ocut, plan)

    # What the ground truth says.
    complete = 0
    for j, e in enumerate(plan['conn']['exchanges']):
        t = truth[j]
        if fmt != 'resp-stream' and layout['in'][j][2] > icut:
            break
        first = sum(len(x['resps']) for x in plan['conn']['exchanges'][:j])
        ends = [layout['out'][first + k][2] for k in range(len(e['resps']))]
        if ends and ends[-1] > ocut:
            break
        complete += 1
    if truth_applies(plan):
        for j in range(complete):
            check(j < len(observed), 'complete-exchange-missing',
                  icut, ocut, j)
            c01.compare_exchange(truth[j], observed[j])
        partial(plan, ctx, fmt, icut, ocut, truth, layout, complete,
                observed)

    # What the reference model says.
    try:
        expected = refmodel.exchanges(ci, co, a, b)
    except refmodel.Ambiguous:
        ctx.probe('skipped: decoders differ on damaged data')
        return
    compare(expected, observed, (icut, ocut))


def truth_applies(plan):
    return True


def partial(plan, ctx, fmt, icut, ocut, truth, layout, j, observed):
    """The first exchange that was not captured completely."""
    exchanges = plan['conn']['exchanges']
    if j >= len(exchanges) or fmt == 'resp-stream':
        return
    (start, head, end) = layout['in'][j]
    if icut < head:
        return
    if any(r['status'] == 101 for e in exchanges[:j] for r in e['resps']):
        return
    check(j < len(observed), 'partial-exchange-missing', icut, ocut, j)
    g = observed[j]
    t = truth[j]['req']
    check(g['req'] is not None, 'partial-request-missing', icut, ocut)
    for key in ('remark', 'method', 'target', 'version', 'headers'):
        check(g['req'][key] == t[key], 'partial-request-' + key, t, g['req'])
    if icut >= end:
        check(g['req']['body'] == t['body'], 'partial-request-body', t, g)
    else:
        check(g['req']['body'] == {'unavailable': True},
              'cut-body-presented', t['body'], g['req']['body'])
        ids = [n[0] for n in g['req']['notices']]
        check(1004 in ids or 1005 in ids, 'cut-body-not-announced', g)
        for n in g['req']['notices']:
            if n[0] in (1004, 1005):
                check(head <= n[2] <= icut, 'cut-position', n, head, icut)
    # Responses captured completely are there, in order.
    first = sum(len(x['resps']) for x in exchanges[:j])
    for k, tr in enumerate(truth[j]['resps']):
        (_, rhead, rend) = layout['out'][first + k]
        framing = exchanges[j]['resps'][k].get('framing')
        if rend > ocut:
            if k < len(g['resps']):
                body = g['resps'][k]['body']
                if framing != 'close':
                    check(body == {'unavailable': True},
                          'cut-body-presented', tr['body'], body)
            break
        check(k < len(g['resps']), 'complete-response-missing', j, k)
        c01.compare_message(tr, g['resps'][k], 'response')


def compare(expected, observed, what):
    exp = [refmodel.normal(e) for e in expected]
    obs = [refmodel.normal(e) for e in observed]
    for j, (x, y) in enumerate(zip(exp, obs)):
        if x != y:
            raise Violation('model-mismatch', (what, j, diff(x, y)))
    check(len(exp) == len(obs), 'model-count', what, len(exp), len(obs),
          exp[len(obs):], obs[len(exp):])


def diff(x, y, path=''):
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y)):
            d = diff(x.get(k), y.get(k), path + '/' + k)
            if d:
                return d
        return None
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            d = diff(p, q, path + '/%d' % i)
            if d:
                return d
        return None
    if x != y:
        return (path, 'expected', x, 'observed', y)
    return None


def where(ctx, layout, icut, ocut, plan):
    for side, cut in (('in', icut), ('out', ocut)):
        for k, (start, head, end) in enumerate(layout[side]):
            if start < cut < end:
                part = 'heading' if cut < head else 'body'
                ctx.probe('cut in %s %s' % (side, part))
                ctx.state(side, part, k, cut - start if cut < head
                          else cut - head)
                return
        ctx.probe('cut between messages')
