"""C19: oversized declared bodies are refused without being read."""

import resource

from sim import observe, proto, refmodel, work
from sim.clock import CLOCK
from sim.props import c01, c02
from sim.proto import b
from sim.runner import Violation, check
from sim.simfs import FS, Sparse


ID = 'C19'
RUNS = {'quick': 8000, 'thorough': 300000}
BATCH = 8
RULE = ('A run replaces the body of a message of a generated connection by '
        'one that is declared to be around or above one gibibyte (as one '
        'length or as a sum of chunks), with up to gigabytes of it really '
        'there (a sparse file), under a limited address space and generated '
        'read schedules. It watches every read of the stream, and compares '
        'all exchanges, sizes and notices with the reference framing model; '
        'a few runs really transfer a whole gibibyte. Non-trivial if a body '
        'was declared too long.')
REAL = c01.REAL + ['memory allocator (limited by RLIMIT_AS)']
STUB = c01.STUB + ['reference framing model (oracle only)']
STATE = 'distinct (format, side, framing, size class, bytes present) tuples'
STEP = 'exchanges compared'
SHRINK_LISTS = ('conns', 'exchanges', 'resps', 'headers', 'trailers',
                'chunks', 'fold', 'tcodings', 'pieces')
SHRINK_INTS = ('len', 'present')
SHRINK_OPTS = ('io', 'buffer', 'chunk_style', 'style', 'te_pos', 'other')
ASSUMPTIONS = ['What fills an oversized body does not matter, as it is not '
               'to be looked at; simulated ones are decoys followed by '
               'zeros.']

GIB = 1 << 30
SIZES = [GIB + 1, GIB + 1, GIB + 2, GIB + 8192, 2 * GIB - 1, 2 * GIB,
         4 * GIB - 1, 4 * GIB, 4 * GIB + 5, 1 << 40, (1 << 63) - 1, 1 << 63,
         (1 << 64) + 10, 10 ** 25, 10 ** 40]
FITTING = [GIB, GIB, GIB - 1, GIB // 2, GIB - 8192]
DECOY = (b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n'
         b'GET /decoy HTTP/1.1\r\nHost: x\r\n\r\n0\r\n\r\n')
REAL_EVERY = 1600


def gen(r, i, tier):
    if i % REAL_EVERY == 5:
        return {'kind': 'real', 'what': r.pick(
            ['length', 'length', 'chunks', 'chunks-fit']),
            'side': r.pick(['in', 'out'])}
    fmt = r.weighted([(4, 'streams'), (2, 'tcpflow'), (1, 'tcpick'),
                      (1, 'combined'), (1, 'req-stream'), (1, 'resp-stream')])
    conns = []
    for k in range(r.weighted([(6, 1), (2, 2)])):
        rr = r.stream('conn%d' % k)
        c = work.gen_connection(rr, fmt, n=rr.weighted(
            [(2, 1), (3, 2), (2, 3), (1, 6)]))
        sides = rr.pick([('in',), ('out',), ('out',), ('in', 'out')])
        c['huge'] = {}
        for side in sides:
            c['huge'][side] = gen_huge(rr)
        conns.append(c)
    return {'kind': 'search', 'format': fmt, 'conns': conns,
            'io': work.gen_io(r.stream('io'), 20001)}


def gen_huge(r):
    size = r.pick(SIZES) if r.chance(0.8) else r.pick(FITTING)
    how = r.weighted([(4, 'length'), (4, 'chunks')])
    h = {'message': r.randrange(100), 'how': how, 'size': size, 'pieces': []}
    if how == 'chunks':
        h['pieces'] = [r.pick([1, 5, 100, 8192])
                       for _ in range(r.pick([0, 0, 1, 2, 3]))]
        h['upper'] = r.chance(0.3)
        h['zeros'] = r.pick([0, 0, 0, 3, 30])
        h['ext'] = r.pick(['', '', '', ';a=b', ' '])
        if r.chance(0.15):
            # The declared length is overridden.
            h['other'] = 'Content-Length: %d' % r.pick([5, GIB + 1])
        if r.chance(0.1):
            h['te'] = 'gzip, chunked'
    else:
        h['zeros'] = r.pick([0, 0, 0, 2, 20])
    h['present'] = r.pick([0, 1, 5, 300, 20000]) if r.chance(0.4) \
        else r.pick([3 * GIB, 1 << 41])
    return h


def valid(plan):
    if plan['kind'] == 'real':
        return True
    return bool(plan['conns']) and all(c['exchanges'] for c in plan['conns'])


def enlarge(data, layout, h):
    """Returns (the stream up to what is oversized, the length of its tail)."""
    (start, head, _) = layout[h['message'] % len(layout)]
    heading = data[start:head]
    lines = heading.split(b'\n')            # the last one is empty
    keep = [x for x in lines[:-2] if not x.lower().startswith(
        (b'content-length:', b'transfer-encoding:'))]
    out = data[:start] + b'\n'.join(keep) + b'\n'
    if h['how'] == 'length':
        return out + b'Content-Length: %s%d\r\n\r\n' % (
            b'0' * h['zeros'], h['size'])
    if 'other' in h:
        out += b(h['other']) + b'\r\n'
    out += b'Transfer-Encoding: %s\r\n\r\n' % b(h.get('te', 'chunked'))
    size = h['size']
    for n in h['pieces']:
        out += b'%x\r\n' % n + b'p' * n + b'\r\n'
        size -= n
    return out + b'0' * h['zeros'] + \
        (b'%X' if h.get('upper') else b'%x') % size + b(h['ext']) + b'\r\n'


def notices_of(exchanges):
    for e in exchanges:
        for m in ([e['req']] if e['req'] else []) + e['resps']:
            for n in m['notices']:
                yield n


def address_space():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def run(plan, ctx):
    FS.reset()
    CLOCK.reset()
    if plan['kind'] == 'real':
        run_real(plan, ctx)
        return
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    buffer_size = plan.get('io', {}).get('buffer') or 8192
    names, modelled, limits, sparse = [], [], {}, {}
    datas = []
    refused = False
    fitting = False
    for k, c in enumerate(plan['conns']):
        (a, b_) = work.stream_names(fmt, k)
        names.append((a, b_))
        (ib, ob, _, layout) = proto.build(c['exchanges'], c['tail'], a, b_)
        streams = {'in': ib, 'out': ob}
        edge = {}
        for side, h in sorted(c['huge'].items()):
            if not layout[side]:
                continue
            streams[side] = enlarge(streams[side], layout[side], h)
            edge[side] = len(streams[side])
        # Does anything beyond the edge matter? Ask the model, with some
        # bytes there.
        short = {}
        for side in ('in', 'out'):
            short[side] = streams[side]
            if side in edge and c['huge'][side]['present']:
                short[side] += (DECOY + b'\0' * 30000)[
                    :c['huge'][side]['present']]
        model = refmodel.exchanges(short['in'] if a else None,
                                   short['out'] if b_ else None, a, b_)
        sizes = [n[1] for n in notices_of(model) if n[0] == 1298]
        for side in edge:
            h = c['huge'][side]
            mine = h['size'] > GIB and h['size'] in sizes and len(
                [x for s_, x in c['huge'].items()
                 if x['size'] == h['size']]) == sizes.count(h['size'])
            if h['size'] <= GIB:
                fitting = True
            if mine:
                refused = True
                ctx.fault('body declared too long (%s)' % h['how'])
                ctx.state(fmt, side, h['how'], SIZES.index(h['size']),
                          h['present'] > 30000, len(h['pieces']))
                if fmt != 'combined':
                    path = a if side == 'in' else b_
                    limits[path] = edge[side]
                    if h['present'] > 30000:
                        sparse[path] = h['present']
        modelled.append(model)
        datas.append((short['in'], short['out']))

    paths = work.place(fmt, datas)
    for path, n in sparse.items():
        ctx.fault('body really long')
        FS.files[path] = Sparse(FS.files[path], n)

    def on_event(ev):
        if ev[0] == 'read' and ev[1] in limits:
            end = ev[2] + ev[3]
            one = max(buffer_size, min(FS.own_buffer, 65536))
            if end > limits[ev[1]] + one:
                raise Violation('oversized-body-read',
                                (ev, limits[ev[1]], one))
    FS.on_event = on_event
    old = resource.getrlimit(resource.RLIMIT_AS)
    if not fitting:
        n = address_space() + (400 << 20)
        if old[0] == resource.RLIM_INFINITY or n < old[0]:
            resource.setrlimit(resource.RLIMIT_AS, (n, old[1]))
            ctx.fault('address space limited')
    try:
        raw = observe.read_input(fmt, paths)
        observed = [observe.exchange(e) for e in raw]
    finally:
        FS.on_event = None
        resource.setrlimit(resource.RLIMIT_AS, old)
    ctx.faults_from(FS.fired)
    ctx.note(observed)
    ctx.steps += len(observed)
    ctx.trivial = not refused
    groups = work.split_by_connection(observed, names)
    check(not groups[None], 'stray-exchange', groups[None])
    for k, model in enumerate(modelled):
        c02.compare(model, groups[k], k)
    if refused and ctx.steps % 4 == 0:
        page = observe.html_report(raw)
        for model in modelled:
            for n in notices_of(model):
                if n[0] == 1298:
                    check(b'%d' % n[1] in page, 'size-not-reported', n)


def run_real(plan, ctx):
    """A whole gibibyte, for real."""
    what = plan['what']
    is_in = plan['side'] == 'in'
    start = b'POST / HTTP/1.1\r\nHost: x\r\n' if is_in \
        else b'HTTP/1.1 200 OK\r\n'
    half = GIB // 2

    class Chunks(Sparse):

        """Two chunks of half a gibibyte each, and then another."""

        def __init__(self, head, last):
            size = b'%x\r\n' % half
            self.parts = [(head + size, 0), (b'', half),
                          (b'\r\n' + size, 0), (b'', half),
                          (b'\r\n' + last, 0)]
            self.n = sum(len(d) + z for d, z in self.parts)

        def __len__(self):
            return self.n

        def __getitem__(self, x):
            (lo, hi, _) = x.indices(self.n)
            out, pos = [], 0
            for d, z in self.parts:
                n = len(d) + z
                i, j = max(lo - pos, 0), min(hi - pos, n)
                if i < j:
                    out.append(d[i:j] if d else b'\0' * (j - i))
                pos += n
            return b''.join(out)

    if what == 'length':
        data = Sparse(start + b'Content-Length: %d\r\n\r\n' % GIB, GIB)
    else:
        head = start + b'Transfer-Encoding: chunked\r\n\r\n'
        data = Chunks(head, b'1\r\nx\r\n0\r\n\r\n' if what == 'chunks'
                      else b'0\r\n\r\n')
    FS.set_schedule({'mode': 'fixed', 'k': 1 << 20})
    fmt = 'req-stream' if is_in else 'resp-stream'
    FS.add('/simfs/huge', data)
    found = observe.read_input(fmt, ['/simfs/huge'])
    # There may be a note on unparsed data.
    check(sum(1 for e in found if e.request or e.responses) == 1,
          'real-count', len(found))
    msg = found[0].request if is_in else found[0].responses[0]
    ids = [c.id for c in msg.notices]
    if what == 'chunks':
        check(not isinstance(msg.body, bytes) and 1298 in ids,
              'real-oversized-body', ids, type(msg.body))
    else:
        check(isinstance(msg.body, bytes) and len(msg.body) == GIB and
              msg.body[:4] == msg.body[-4:] == b'\0' * 4 and
              not set(ids) & observe.FRAMING, 'real-body-refused', ids,
              type(msg.body))
    ctx.fault('whole gibibyte transferred (%s)' % what)
    ctx.steps += 1
    ctx.note(what, fmt, ids)
    ctx.state('real', what, fmt)
