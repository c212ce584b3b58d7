"""C21: an exchange is checked the same however it gets in."""

import re

from sim import damage, observe, traffic, work
from sim.clock import CLOCK
from sim.props import c04
from sim.runner import check
from sim.simfs import FS, PREFIX


ID = 'C21'
RUNS = {'quick': 4000, 'thorough': 300000}
BATCH = 24
RULE = ('A run captures one simulated connection (from a corpus, generated, '
        'or with nasty values; intact, damaged or cut off) in several of the '
        'stream formats, with independent read schedules, buffer sizes '
        'and listing orders, and through the Python API: every message that '
        'was understood is built anew from its parts. The notices and both '
        'reports on every exchange must be the same, except for the names of '
        'files and, through the API, the notices about the capture itself. '
        'Non-trivial if an exchange with a notice was compared.')
REAL = ['the whole of httpolice, except for HAR and the command line']
STUB = ['file system', 'clock', 'HTTP peers and capture software '
        '(generators)']
STATE = 'distinct (formats, set of notice IDs) outcomes'
STEP = 'exchanges compared'
SHRINK_LISTS = c04.SHRINK_LISTS + ('ways',)
SHRINK_INTS = c04.SHRINK_INTS
SHRINK_STRS = c04.SHRINK_STRS
SHRINK_OPTS = ('io', 'buffer')
SUFFIXES = {u'': u'http', u'.https': u'https', u'.noscheme': None,
            u'.http': u'http', u'.HTTPS': u'http', u'https': u'http',
            u'.noscheme.x': u'http', u'.https.x': u'http'}

setup = c04.setup


def gen(r, i, tier):
    p = traffic.pool()
    kind = r.weighted([(3, 'corpus'), (6, 'traffic'), (1, 'nasty'),
                       (3, 'proto')])
    c = {}
    if kind == 'corpus':
        (name, c['in'], c['out']) = r.pick(p.corpus['conns'])
    elif kind == 'proto':
        c['proto'] = work.gen_connection(r.stream('conn'), 'streams')
    else:
        c['exchanges'] = [traffic.gen(r) for _ in
                          range(r.weighted([(3, 1), (2, 2), (1, 4)]))]
        for e in c['exchanges']:
            for m in [e['req']] + e['resps']:
                if m and kind == 'nasty':
                    c04.gen_nasty_message(r, p, m)
                if m and r.chance(0.5):
                    m['chunked'] = True
                    if r.chance(0.3):
                        m['tcodings'] = r.pick([
                            ['gzip'], ['deflate'], ['gzip', 'deflate'],
                            ['x-gzip'], ['foo'], ['chunked'], ['identity']])
                    if r.chance(0.4):
                        m['headers'].append(['Trailer', r.pick(
                            ['X-Foo', 'Server-Timing', 'ETag', ''])])
                    if r.chance(0.3):
                        m['trailers'] = m.get('trailers', []) + [
                            list(traffic._header(r, p, m is e['req']))]
    (ib, ob) = c04.conn_bytes(c)
    (c['in_ops'], c['out_ops']) = ([], [])
    if r.chance(0.3):
        c['in_ops'] = damage.gen_ops(r, ib, []) if r.chance(0.6) else []
        c['out_ops'] = damage.gen_ops(r, ob, []) if r.chance(0.6) else []
    ways = [{'format': f, 'io': work.gen_io(r.stream('io' + f), 30000)}
            for f in work.FORMATS]
    r.shuffle(ways)
    plan = {'conns': [c], 'ways': ways[:r.randrange(2, 6)],
            'suffix': r.pick(sorted(SUFFIXES)),
            'swap': r.chance(0.5), 'reports': r.chance(0.4)}
    return plan


def valid(plan):
    return len(plan['conns']) == 1 and len(plan['ways']) >= 1


RESPONSE = re.compile(br'HTTP/1\.[0-9] [0-9]{3} ')
REQUEST = re.compile(br'[^ ]+ [^ ]+ HTTP/1\.[0-9]\Z')


def looks_like(data):
    line = data.partition(b'\n')[0]
    if RESPONSE.match(line):
        return 'response'
    if REQUEST.match(line.rstrip()):
        return 'request'
    return None


def place(way, plan, ib, ob):
    """Returns paths, names of the two streams, and the scheme."""
    fmt = way['format']
    FS.reset()
    CLOCK.reset(1500000000.0)
    work.apply_io(way.get('io', {}))
    if fmt == 'combined':
        path = PREFIX + u'/c0' + plan['suffix']
        FS.add(path, b'test\r\n' + work.MARK_IN + ib + work.MARK_OUT + ob)
        return ([path], (path + u' (inbound)', path + u' (outbound)'),
                SUFFIXES[plan['suffix']])
    conn = {}
    if plan.get('swap'):
        # Which of the files comes first in the order of names.
        conn = {'client': {'tcpflow': u'010.000.000.009-40000',
                           'tcpick': u'99.0.0.1'}.get(fmt),
                'server': {'tcpflow': u'010.000.000.001-00080',
                           'tcpick': u'11.0.0.1'}.get(fmt)}
    paths = work.place(fmt, [(ib, ob)], [conn])
    return (paths, work.stream_names(fmt, 0, conn), u'http')


def rebuild(exch, scheme):
    """The same exchange, as a user of the library would have it."""
    import httpolice
    req = exch.request
    if req is not None:
        req = httpolice.Request(
            scheme, req.method, req.target, req.version,
            [(e.name, e.value) for e in req.header_entries], req.body,
            [(e.name, e.value) for e in req.trailer_entries],
            remark=req.remark)
    resps = [httpolice.Response(
        m.version, m.status, m.reason,
        [(e.name, e.value) for e in m.header_entries], m.body,
        [(e.name, e.value) for e in m.trailer_entries], remark=m.remark)
        for m in exch.responses]
    return httpolice.Exchange(req, resps)


def seen(exch, names, reports, bare=False):
    import httpolice
    if bare:
        exch.silence(sorted(observe.FRAMING))
    httpolice.check_exchange(exch)
    e = observe.exchange(exch, _notices)
    out = [e]
    if reports:
        # The order of notices on one message is unspecified: reading headers
        # for other purposes (such as merging by time) can advance some.
        text = observe.text_report([exch]).decode('utf-8')
        html = observe.html_body(observe.html_report([exch])).decode('utf-8')
        out.append(sorted(_rename(text, names).split(u'\n')))
        out.append(sorted(re.split(u'(?=<)', _rename(html, names))))
    # File names are nobody's business.
    return _rename(out, names)


def _notices(obj):
    return sorted((observe.complaint_data(c) for c in obj.complaints), key=str)


def _rename(x, names):
    if isinstance(x, str):
        for i, name in enumerate(names):
            x = x if name is None else x.replace(name, u'stream%d' % i)
        return x
    if isinstance(x, list):
        return [_rename(y, names) for y in x]
    if isinstance(x, dict):
        return dict((k, _rename(v, names)) for k, v in x.items())
    return x


def run(plan, ctx):
    (c,) = plan['conns']
    (ib, ob) = c04.conn_bytes(c)
    ib = damage.apply_ops(ib, c.get('in_ops', []))
    ob = damage.apply_ops(ob, c.get('out_ops', []))
    ctx.trivial = True
    sides = (looks_like(ib), looks_like(ob))
    sniffable = sides[0] != 'response' and 'response' in sides or \
        sides == ('request', None)
    base = {}
    ids = set()
    ways = []
    for way in plan['ways']:
        fmt = way['format']
        if fmt in ('tcpflow', 'tcpick') and not sniffable:
            continue
        if fmt == 'combined' and work.MARK_OUT in ib:
            continue
        (paths, names, scheme) = place(way, plan, ib, ob)
        exchanges = observe.read_input(fmt, paths)
        ctx.faults_from(FS.fired)
        FS.fired.clear()
        twins = [rebuild(e, scheme) for e in exchanges]
        whole = [seen(e, names, plan['reports']) for e in exchanges]
        ctx.note(whole)
        ways.append((fmt, scheme))
        # The same in every format (and under every scheme).
        key = (scheme, fmt not in work.TWO_SIDED and fmt)
        known = base.setdefault(key, (fmt, whole))
        check(len(known[1]) == len(whole), 'number-of-exchanges', known[0],
              fmt, len(known[1]), len(whole))
        for j, (x, y) in enumerate(zip(known[1], whole)):
            check(x == y, 'format-matters', known[0], fmt, j, x, y)
            ctx.steps += 1
        # And through the API.
        again = observe.read_input(fmt, paths)
        for j, (exch, twin) in enumerate(zip(again, twins)):
            if exch.request is None and not exch.responses:
                continue
            x = seen(exch, names, plan['reports'], bare=True)
            y = seen(twin, names, plan['reports'], bare=True)
            check(x == y, 'api-differs', fmt, j, x, y)
            ctx.steps += 1
            for m in [x[0]['req']] + x[0]['resps']:
                if m:
                    ids.update(n[0] for n in m['notices'])
    if ids and ways:
        ctx.trivial = False
    ctx.state(sorted(ways, key=str), sorted(ids))
