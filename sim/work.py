"""Laying out simulated connections as capture files in each input format."""

from sim import observe, proto
from sim.rng import Rng
from sim.simfs import FS, PREFIX


TWO_SIDED = ('streams', 'combined', 'tcpflow', 'tcpick')
FORMATS = TWO_SIDED + ('req-stream', 'resp-stream')
MARK_IN = proto.MARK_IN
MARK_OUT = proto.MARK_OUT


def gen_io(r, volume=0):
    """How the operating system delivers input bytes.

    `volume` is the number of bytes to be read in the whole run; tiny reads
    are only simulated when there are not too many of them.
    """
    io_ = {'sched': {'mode': r.weighted([(3, 'full'), (2, 'one'),
                                         (2, 'fixed'), (4, 'rand')]),
                     'seed': r.randrange(1 << 30)},
           'order': r.randrange(1 << 30)}
    if io_['sched']['mode'] == 'fixed':
        io_['sched']['k'] = r.pick([2, 3, 5, 7, 16, 63, 64, 100, 1000, 4095,
                                    4096, 8191])
    tiny = volume > 20000
    if tiny and io_['sched']['mode'] == 'one':
        io_['sched'] = {'mode': 'rand', 'seed': r.randrange(1 << 30)}
    if tiny and io_['sched'].get('k', 1000) < 63:
        io_['sched']['k'] += 60
    if r.chance(0.5):
        io_['buffer'] = r.pick([1, 2, 3, 5, 16, 17, 64, 100, 512, 4096, 8191,
                                8193, 65536])
        if tiny:
            io_['buffer'] = max(io_['buffer'], 64)
    return io_


def volume(datas):
    return sum(len(x or b'') for pair in datas for x in pair)


def apply_io(io_):
    FS.set_schedule(io_.get('sched', {'mode': 'full'}))
    FS.buffer_size = io_.get('buffer')
    FS.order_seed = io_.get('order')


def ip(n):
    return u'%03d.%03d.%03d.%03d' % (10, (n >> 16) & 255, (n >> 8) & 255,
                                     n & 255)


def file_names(fmt, k, conn=None):
    """Paths of the (inbound, outbound) files of connection number `k`."""
    conn = conn or {}
    if fmt == 'tcpflow':
        client = conn.get('client', u'%s-%05d' % (ip(k + 1), 40000 + k))
        server = conn.get('server', u'%s-%05d' % (ip(0), 80))
        (t1, t2) = conn.get('times', (1500000000 + k, 1500000000 + k))
        d = conn.get('dir', PREFIX + '/flow')
        return (u'%s/%d-%s-%s-0' % (d, t1, client, server),
                u'%s/%d-%s-%s-0' % (d, t2, server, client))
    if fmt == 'tcpick':
        client = conn.get('client', u'172.16.0.%d' % (k % 250))
        server = conn.get('server', u'54.175.219.8')
        d = conn.get('dir', PREFIX + '/pick')
        n = conn.get('counter', k)
        svc = conn.get('service', 'http')
        return (u'%s/tcpick_%06d_%s_%s_%s.clnt.dat' % (d, n, client, server,
                                                      svc),
                u'%s/tcpick_%06d_%s_%s_%s.serv.dat' % (d, n, client, server,
                                                      svc))
    return (u'%s/c%d.in' % (PREFIX, k), u'%s/c%d.out' % (PREFIX, k))


def stream_names(fmt, k, conn=None):
    """What the streams will be called in the report."""
    if fmt == 'combined':
        path = u'%s/c%d' % (PREFIX, k)
        return (path + u' (inbound)', path + u' (outbound)')
    (a, b) = file_names(fmt, k, conn)
    if fmt == 'req-stream':
        return (a, None)
    if fmt == 'resp-stream':
        return (None, b)
    return (a, b)


def place(fmt, datas, conns=None):
    """Put captured bytes into files; returns the command-line paths.

    `datas` is a list of ``(inbound, outbound)``; `None` means no such file.
    """
    paths = []
    for k, (ib, ob) in enumerate(datas):
        conn = conns[k] if conns else None
        (a, b) = file_names(fmt, k, conn)
        if fmt == 'combined':
            path = u'%s/c%d' % (PREFIX, k)
            preamble = (conn or {}).get('preamble', u'test\r\n')
            FS.add(path, preamble.encode('utf-8') + MARK_IN + (ib or b'') +
                   MARK_OUT + (ob or b''))
            paths.append(path)
            continue
        if ib is not None and fmt != 'resp-stream':
            FS.add(a, ib)
            if fmt in ('streams', 'req-stream'):
                paths.append(a)
        if ob is not None and fmt != 'req-stream':
            FS.add(b, ob)
            if fmt in ('streams', 'resp-stream'):
                paths.append(b)
        if fmt in ('tcpflow', 'tcpick'):
            d = a.rsplit('/', 1)[0]
            if d not in paths:
                paths.append(d)
    return paths


def sniffable(exchanges):
    """Make sure that the direction can be told from the first lines."""
    for e in exchanges[:1]:
        if e.get('req') and not e['req']['version'].startswith('HTTP/1.'):
            e['req']['version'] = 'HTTP/1.1'
        for resp in e['resps'][:1]:
            if not resp['version'].startswith('HTTP/1.'):
                resp['version'] = 'HTTP/1.1'


def gen_connection(r, fmt, n=None):
    one_sided = fmt in ('req-stream', 'resp-stream')
    (exchanges, tail) = proto.gen_exchanges(r, n, switches=not one_sided)
    if fmt == 'req-stream':
        for e in exchanges:
            e['resps'] = []
            if e['req']['method'] == 'CONNECT':
                pass        # without a response, we don't switch
        tail = [None, None]
    elif fmt == 'resp-stream':
        for e in exchanges:
            # A responses' only capture is ambiguous after HEAD and CONNECT.
            req = e['req']
            if req['method'] in ('HEAD', 'CONNECT'):
                req['method'] = 'GET'
                for resp in e['resps']:
                    resp.pop('cl_value', None)
                    if resp['status'] >= 200 and \
                            resp['status'] not in proto.BODYLESS and \
                            'framing' not in resp:
                        resp['framing'] = 'cl'
        for e in exchanges:
            e['req'] = None
        tail = [None, None]
    if fmt in ('tcpflow', 'tcpick'):
        sniffable(exchanges)
    if fmt == 'combined' or r.chance(0.02):
        for e in exchanges:
            for m in [e['req']] + e['resps']:
                if m and m.get('body', {}).get('len', 0) >= 60 and \
                        'cl_text' not in m and r.chance(0.2):
                    m['body']['kind'] = 'mark-in' if m is e['req'] else 'marks'
    return {'exchanges': exchanges, 'tail': tail}


def owner(exch, names):
    """Which connection does this observed exchange belong to?"""
    for m in ([exch['req']] if exch['req'] else []) + exch['resps']:
        for k, pair in enumerate(names):
            for name in pair:
                if name is not None and m['remark'] is not None and \
                        m['remark'].startswith(u'from %s, ' % name):
                    return k
        return None
    for n in exch['box']:
        for k, pair in enumerate(names):
            for name in pair:
                if name is not None and name in n[1:]:
                    return k
        return None
    return None


def split_by_connection(observed, names):
    """Group observed exchanges; `None` holds those that fit nowhere."""
    out = dict((k, []) for k in range(len(names)))
    out[None] = []
    for e in observed:
        if 'bad' in e:
            out[None].append(e)
            continue
        out[owner(e, names)].append(e)
    return out
