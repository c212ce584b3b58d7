"""C06: directories of captured streams are paired and oriented correctly."""

from sim import observe, proto, refmodel, work
from sim.props import c02
from sim.proto import b
from sim.runner import Violation, check
from sim.simfs import FS, PREFIX


ID = 'C06'
RUNS = {'quick': 18000, 'thorough': 600000}
BATCH = 24
RULE = ('A run lets a simulated sniffer (tcpflow or tcpick) record several '
        'connections between few hosts (so that addresses, ports, counters '
        'and timestamps collide where they may) into one to three '
        'directories, in any listing order, losing some sides, leaving some '
        'empty, mixing in non-HTTP traffic and, sometimes, file names that '
        'must be refused. Non-trivial if at least two files were recorded.')
REAL = ['httpolice.inputs.streams (recombination, sniffing, merging)',
        'httpolice.framing1', 'httpolice.stream']
STUB = ['file system', 'sniffer and peers (generators)']
STATE = 'distinct sets of (format, sides, orientation, outcome) shapes'
STEP = 'connections checked'
SHRINK_LISTS = ('conns', 'exchanges', 'resps', 'headers', 'trailers',
                'chunks', 'fold', 'tcodings')
SHRINK_INTS = ('len',)
SHRINK_OPTS = ('io', 'bad')

HOSTS = ['010.000.000.001', '010.000.000.002', '127.000.000.001', '::1',
         'fe80::1']
PHOSTS = ['10.0.0.1', '10.0.0.2', '127.0.0.1', 'localhost', '::1',
          'a.example']
PORTS = ['00080', '08080', '40000', '40001', '00443']
JUNK = ['\x16\x03\x01\x02\x00\x01\x00', 'SSH-2.0-OpenSSH\r\n', 'x', '\r\n',
        'GET / HTTP/2.0\r\n\r\n', 'GET /', 'HTTP/1.1', 'HTTP/2.0 200 OK\r\n',
        '\0' * 30, 'GET  / HTTP/1.1\r\n\r\n', ' HTTP/1.1 200 OK\r\n\r\n',
        'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n', 'GET / HTTP/1.1 \x80\r\n',
        'HTTP/1.1 20 OK\r\n\r\n', 'ICY 200 OK\r\n\r\n']
BAD = {
    'tcpflow': ['010.000.000.001.40000-010.000.000.002.00080', 'x.txt',
                '.DS_Store', '1500000000-010.000.000.001-40000-0',
                'tcpick_000001_a_b_http.clnt.dat', 'report.xml.1',
                '99999999999999999-1.1.1.1-1-2.2.2.2-2-0'],
    'tcpick': ['tcpick_10.0.0.1_10.0.0.2_http.clnt.dat', 'x', 'report.xml',
               'tcpick_000001_a_b_http.both.dat', 'alerts.txt',
               '1500000000-010.000.000.001-40000-010.000.000.002-00080-0',
               'tcpick_x_a_b_http.serv.dat']}
SIDES = [(10, 'ok'), (1.5, 'missing'), (1, 'empty'), (1, 'junk')]


def gen(r, i, tier):
    fmt = r.pick(['tcpflow', 'tcpick'])
    dirs = r.weighted([(3, 1), (2, 2), (1, 3)])
    n = r.weighted([(1, 1), (3, 2), (3, 3), (2, 5), (0.5, 12)])
    seen = set()
    conns = []
    while len(conns) < n:
        d = r.randrange(dirs)
        if fmt == 'tcpflow':
            client = '%s-%s' % (r.pick(HOSTS), r.pick(PORTS))
            server = '%s-%s' % (r.pick(HOSTS), r.pick(PORTS))
            if client == server:
                continue
            key = (d, frozenset([client, server]))
            counter = None
        else:
            client = r.pick(PHOSTS)
            server = r.pick(PHOSTS)
            counter = r.pick([0, 1, 2, 3, 9, 10, 11, 99, 100, 999999, 1000000])
            key = (d, counter, client, server)
        if key in seen:
            if r.chance(0.1):
                n -= 1
            continue
        seen.add(key)
        c = work.gen_connection(r, fmt, r.weighted([(5, 1), (2, 2), (1, 3)]))
        t = 1500000000 + r.randrange(3)
        c.update({'dirno': d, 'client': client, 'server': server,
                  'times': [t, t + r.pick([0, 0, 1, -1])],
                  'in': r.weighted(SIDES), 'out': r.weighted(SIDES),
                  'swap': r.chance(0.3), 'n': r.randrange(2)})
        if c['in'] == c['out'] == 'missing':
            c['out'] = 'ok'
        if counter is not None:
            c['counter'] = counter
            c['service'] = r.pick(['http', '80', 'www-http', 'https', 'a_b'])
            if '_' in c['service']:
                c['service'] = 'http'
        c['junk'] = [r.pick(JUNK), r.pick(JUNK)]
        conns.append(c)
    plan = {'format': fmt, 'dirs': dirs, 'conns': conns,
            'io': work.gen_io(r.stream('io'), 20000),
            'ignored': fmt == 'tcpflow' and r.chance(0.3)}
    if r.chance(0.12):
        if r.chance(0.5):
            plan['bad'] = {'name': r.pick(BAD[fmt])}
        else:
            plan['bad'] = {'dup': r.randrange(len(conns)),
                           'side': r.randrange(2)}
    return plan


def valid(plan):
    return bool(plan['conns']) and (
        'dup' not in plan.get('bad', {}) or
        plan['bad']['dup'] < len(plan['conns']))


def names(fmt, c):
    """(client-to-server file, server-to-client file)"""
    d = '%s/d%d' % (PREFIX, c['dirno'])
    if fmt == 'tcpflow':
        return ['%s/%d-%s-%s-%d' % (d, c['times'][0], c['client'],
                                    c['server'], c['n']),
                '%s/%d-%s-%s-%d' % (d, c['times'][1], c['server'],
                                    c['client'], c['n'])]
    return ['%s/tcpick_%06d_%s_%s_%s.%s.dat' % (
        d, c['counter'], c['client'], c['server'], c['service'], x)
        for x in ('clnt', 'serv')]


def duplicate(fmt, c, side):
    """Another name for the same stream."""
    c = dict(c)
    if fmt == 'tcpflow':
        c['times'] = [t + 5 for t in c['times']]
        return names(fmt, c)[side]
    c['service'] += 'x'
    return names(fmt, c)[side]


def run(plan, ctx):
    FS.reset()
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    for d in range(plan['dirs']):
        FS.mkdir('%s/d%d' % (PREFIX, d))
    expected, pairs = [], []
    n_files = 0
    for c in plan['conns']:
        (a, o) = names(fmt, c)
        if c['swap']:
            # The sniffer may know nothing about who is the client.
            (a, o) = (o, a)
        (ib, ob, _, _) = proto.build(c['exchanges'], c['tail'], a, o)
        datas = []
        for which, data, junk in ((c['in'], ib, c['junk'][0]),
                                  (c['out'], ob, c['junk'][1])):
            if which == 'ok':
                datas.append(data)
            else:
                ctx.fault('one side of a connection is ' + which)
                datas.append({'missing': None, 'empty': b'',
                              'junk': b(junk)}[which])
        for path, data in zip((a, o), datas):
            if data is not None:
                FS.add(path, data)
                n_files += 1
        (di, do) = datas
        exp = []
        if di is None or do is None:
            exp.append({'req': None, 'resps': [],
                        'box': [[1278, a if do is None else o]]})
        if c['in'] != 'ok' and c['out'] != 'ok':
            exp.append({'req': None, 'resps': [], 'box': [
                [1279] + sorted([a if di is not None else '(none)',
                                 o if do is not None else '(none)'])]})
            ctx.probe('connection is not HTTP')
        else:
            try:
                exp += refmodel.exchanges(
                    di, do, a if di is not None else None,
                    o if do is not None else None)
            except refmodel.Ambiguous:
                exp = None
        expected.append(exp)
        pairs.append((a, o))
        ctx.state(fmt, c['in'], c['out'], c['swap'], n_files > 2)
    for d in range(plan['dirs']):
        if plan.get('ignored'):
            for x in ('report.xml', 'alerts.txt'):
                FS.add('%s/d%d/%s' % (PREFIX, d, x), b'GET / HTTP/1.1\r\n')
            ctx.probe('tcpflow report present')
    bad = plan.get('bad')
    if bad:
        if 'name' in bad:
            path = '%s/d%d/%s' % (PREFIX, plan['dirs'] - 1, bad['name'])
            FS.add(path, b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n')
            ctx.fault('unrecognised file name')
        else:
            c = plan['conns'][bad['dup']]
            side = bad['side']
            if names(fmt, c)[side] not in FS.files:
                side = 1 - side
            path = duplicate(fmt, c, side)
            FS.add(path, b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n')
            ctx.fault('ambiguous file name')
    dirs = ['%s/d%d' % (PREFIX, d) for d in range(plan['dirs'])]
    from httpolice import inputs
    error = None
    observed = []
    try:
        for e in inputs.formats[fmt](dirs):
            observed.append(observe.exchange(e))
    except inputs.InputError as e:
        error = str(e)
    ctx.faults_from(FS.fired)
    ctx.note(observed, error)
    ctx.steps += len(plan['conns'])
    ctx.trivial = n_files < 2
    if bad:
        check(error is not None, 'bad-name-accepted', path)
        ctx.probe('refused')
        return
    check(error is None, 'refused', error)
    groups = work.split_by_connection(observed, pairs)
    check(not groups[None], 'stray-exchange', groups[None])
    for k, exp in enumerate(expected):
        if exp is None:
            continue
        for e in groups[k]:
            e['box'] = [n[:1] + sorted(n[1:]) if n[0] == 1279 else n
                        for n in e['box']]
        c02.compare(exp, groups[k], (k, pairs[k]))
    # Every file has been read; sniffing reads again.
    for path in FS.files:
        if path.rsplit('/', 1)[1] in ('report.xml', 'alerts.txt'):
            check(path not in FS.opens, 'ignored-file-read', path)
