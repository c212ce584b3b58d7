"""C03: damaged streams: the undamaged prefix stands, then parsing stops."""

from sim import damage, observe, proto, refmodel, work
from sim.props import c01, c02
from sim.runner import check
from sim.simfs import FS


ID = 'C03'
RUNS = {'quick': 24000, 'thorough': 800000}
BATCH = 24
RULE = ('A run simulates one or two connections, damages one or both '
        'directions of them with 1-5 segment- or byte-level faults (biased to '
        'line starts, chunk sizes and message edges), parses the result with '
        'the real code, and compares every exchange, notice, stream name and '
        'byte offset with a reference model of RFC 7230 framing. Non-trivial '
        'if a fault changed the bytes; distinct by digest of observations.')
REAL = c01.REAL
STUB = c01.STUB + ['capture tap with segment faults',
                   'reference framing model (oracle only)']
STATE = 'distinct sets of framing notices raised, with message counts'
SHRINK_LISTS = ('conns', 'exchanges', 'resps', 'headers', 'trailers',
                'chunks', 'fold', 'tcodings', 'in_ops', 'out_ops')
SHRINK_INTS = ('len', 'n', 'pos')
SHRINK_OPTS = ('io', 'buffer', 'chunk_style', 'style', 'te_pos')


def gen(r, i, tier):
    fmt = r.weighted([(4, 'streams'), (3, 'combined'), (1, 'req-stream'),
                      (1, 'resp-stream')])
    conns = []
    for k in range(r.weighted([(6, 1), (1, 2)])):
        c = work.gen_connection(r.stream('conn%d' % k), fmt,
                                n=r.weighted([(3, 1), (3, 2), (2, 3),
                                              (1, 5)]))
        (ib, ob, _, layout) = proto.build(c['exchanges'], c['tail'])
        rr = r.stream('ops%d' % k)
        sides = rr.pick([('in',), ('out',), ('out',), ('in', 'out')])
        if fmt == 'req-stream':
            sides = ('in',)
        elif fmt == 'resp-stream':
            sides = ('out',)
        c['in_ops'] = damage.gen_ops(rr, ib, layout['in']) \
            if 'in' in sides else []
        c['out_ops'] = damage.gen_ops(rr, ob, layout['out']) \
            if 'out' in sides else []
        conns.append(c)
    return {'format': fmt, 'conns': conns, 'io': work.gen_io(r.stream('io'))}


def run(plan, ctx):
    FS.reset()
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    datas, names = [], []
    changed = False
    for k, c in enumerate(plan['conns']):
        (a, b) = work.stream_names(fmt, k)
        (ib, ob, truth, layout) = proto.build(c['exchanges'], c['tail'],
                                              a, b)
        di = damage.apply_ops(ib, c['in_ops'], ctx)
        do = damage.apply_ops(ob, c['out_ops'], ctx)
        if fmt == 'combined' and (work.MARK_IN in di or
                                  work.MARK_OUT in di):
            return
        changed = changed or (di, do) != (ib, ob)
        datas.append((di, do))
        names.append((a, b))
    paths = work.place(fmt, datas)
    observed = [observe.exchange(e) for e in observe.read_input(fmt, paths)]
    ctx.faults_from(FS.fired)
    ctx.note(observed)
    ctx.steps += len(observed)
    ctx.trivial = not changed
    groups = work.split_by_connection(observed, names)
    check(not groups[None], 'stray-exchange', groups[None])
    for k, (di, do) in enumerate(datas):
        (a, b) = names[k]
        try:
            expected = refmodel.exchanges(di if a else None,
                                          do if b else None, a, b)
        except refmodel.Ambiguous:
            ctx.probe('skipped: decoders differ on damaged data')
            continue
        c02.compare(expected, groups[k], k)
        ids = sorted({n[0] for e in expected
                      for n in e['box'] +
                      [x for m in [e['req']] + e['resps'] if m
                       for x in m['notices']]})
        for x in ids:
            ctx.probe('notice %d' % x)
        ctx.state(ids, len(expected))
