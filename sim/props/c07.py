"""C07: merging concurrent connections loses and reorders nothing."""

import datetime
import json

from sim import clock, observe, work
from sim.clock import EPOCH
from sim.runner import check
from sim.simfs import FS, PREFIX


ID = 'C07'
RUNS = {'quick': 14000, 'thorough': 500000}
BATCH = 24
RULE = ('A run lets a world of 1-40 concurrent connections exchange messages '
        'at simulated times, with Date and Age headers as origin servers, '
        'caches and hosts with wrong clocks write them (present, missing, '
        'malformed, in three date formats, jumping back and forth, equal '
        'between connections, overflowing), records it as tcpflow, tcpick, '
        'streams, req-stream or resp-stream files, some one-sided, and '
        'compares the order of the merged exchanges with a small independent '
        'model of the merge; or as combined or HAR files, which come one '
        'after the other. Non-trivial if there are at least two '
        'connections and three exchanges.')
REAL = ['httpolice.inputs.streams (merge, recombination)',
        'httpolice.framing1', 'httpolice.syntax (Date, Age)']
STUB = ['file system', 'sniffer, peers and their clocks (generators)']
STATE = 'distinct (format, connection that comes next, kind of date) windows'
STEP = 'exchanges placed'
SHRINK_LISTS = ('conns', 'exchanges', 'interim')
SHRINK_INTS = ('req_t', 'resp_t', 'hint', 'age')
SHRINK_OPTS = ('req_date', 'date', 'age', 'io', 'side', 'badage', 'zone',
               'short')

SEQUENTIAL = ('combined', 'har')
BASE = 1500000000
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
BAD_DATES = ['', 'yesterday', '1500000000', 'Fri, 14 Jul 2017 02:40:00',
             'Fri, 14 Jul 2017 24:60:00 GMT', 'Thu, 30 Feb 2017 02:40:00 GMT',
             '2017-07-14T02:40:00Z', 'Fri, 14 Jul 2017 02:40:00 UTC',
             'Fri Jul 14 02:40:00 2017 GMT', 'Fri, 00 Jul 2017 02:40:00 GMT']
BAD_AGES = ['', '-1', '1.5', 'x', '1s', '0x10', '1 2']


def date_str(t, kind, r):
    d = EPOCH + datetime.timedelta(seconds=t)
    wd = d.weekday()
    if r is not None and r.chance(0.1):
        wd = (wd + 1) % 7       # a wrong day of week means nothing
    mon = MONTHS[d.month - 1]
    if kind == 'asctime':
        return '%s %s %2d %02d:%02d:%02d %04d' % (
            DAYS[wd][:3], mon, d.day, d.hour, d.minute, d.second, d.year)
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        DAYS[wd][:3], d.day, mon, d.year, d.hour, d.minute, d.second)


def gen_date(r, t):
    """A Date header: ``[text, seconds or None]``."""
    kind = r.weighted([(8, 'imf'), (1.5, 'asctime'), (1.5, 'bad')])
    if kind == 'bad':
        return [r.pick(BAD_DATES), None]
    if r.chance(0.04):
        t = r.pick([-62135596800 + 5, 253402300799, 253402300700, 0,
                    BASE - 10 ** 9])
    return [date_str(t, kind, r), t]


def gen(r, i, tier):
    fmt = r.weighted([(5, 'tcpflow'), (2, 'tcpick'), (2, 'streams'),
                      (1, 'req-stream'), (1.5, 'resp-stream'),
                      (0.8, 'combined'), (0.5, 'har')])
    n = r.weighted([(1, 1), (4, 2), (4, 3), (2, 6), (0.4, 40)])
    p_date = r.pick([0.2, 0.5, 0.9, 1])
    p_req_date = r.pick([0, 0.1, 0.5])
    p_age = r.pick([0, 0.2, 0.6])
    grain = r.pick([1, 1, 5, 60])       # small: many ties
    span = r.pick([3, 20, 100])
    conns = []
    starts = list(range(0, span + n))
    r.shuffle(starts)
    for k in range(n):
        start = starts[k] * grain
        t = BASE + start + r.pick([0, 0, 0, 1, -1, 30, -30])
        c = {'hint': BASE + start, 'late': r.pick([0, 0, 0, 1, 7]),
             'first': r.randrange(2), 'exchanges': []}
        skew = r.weighted([(6, 0), (1, 3600), (1, -3600), (1, 7)])
        for j in range(r.weighted([(1, 1), (3, 2), (3, 4), (1, 9)])):
            t += r.pick([0, 0, 1, 1, 2, 5]) * grain
            e = {}
            if r.chance(p_req_date):
                e['req_date'] = gen_date(r, t)
            if r.chance(p_date):
                e['date'] = gen_date(r, t + skew)
                if r.chance(p_age):
                    if r.chance(0.15):
                        e['badage'] = r.pick(BAD_AGES)
                    else:
                        e['age'] = r.weighted([
                            (5, r.randrange(30)), (3, r.pick([0, 3600])),
                            (1, r.pick([10 ** 9, 10 ** 12, 2 ** 63,
                                        10 ** 11, 10 ** 30]))])
            if r.chance(0.1):
                e['interim'] = [gen_date(r, t - 3) if r.chance(0.6) else
                                None for _ in range(r.randrange(1, 3))]
            if r.chance(0.1):
                t -= r.pick([1, 10]) * grain        # clock stepped back
            c['exchanges'].append(e)
        if fmt in ('tcpflow', 'tcpick') and r.chance(0.12):
            c['side'] = r.pick(['in', 'out'])
        conns.append(c)
    plan = {'format': fmt, 'conns': conns,
            'dirs': r.weighted([(3, 1), (1, 2)]),
            'io': work.gen_io(r.stream('io'), 20000)}
    if fmt == 'tcpick' and r.chance(0.5):
        plan['short'] = True        # counters without leading zeros
    if r.chance(0.3):
        plan['zone'] = r.pick([14 * 3600, -12 * 3600, 5 * 3600 + 45 * 60])
    return plan


def valid(plan):
    hints = [c['hint'] for c in plan['conns']]
    return bool(plan['conns']) and all(
        c['exchanges'] for c in plan['conns']) and \
        len(set(hints)) == len(hints)


def build(k, c):
    ib, ob = [], []
    for j, e in enumerate(c['exchanges']):
        ib.append('GET /%d-%d HTTP/1.1\r\nHost: a.example\r\n' % (k, j))
        if 'req_date' in e:
            ib.append('Date: %s\r\n' % e['req_date'][0])
        ib.append('\r\n')
        for d in e.get('interim', []):
            ob.append('HTTP/1.1 102 Processing\r\n')
            if d is not None:
                ob.append('Date: %s\r\n' % d[0])
            ob.append('\r\n')
        ob.append('HTTP/1.1 204 No Content\r\nX-Id: /%d-%d\r\n' % (k, j))
        if 'date' in e:
            ob.append('Date: %s\r\n' % e['date'][0])
        if 'age' in e:
            ob.append('Age: %d\r\n' % e['age'])
        elif 'badage' in e:
            ob.append('Age: %s\r\n' % e['badage'])
        ob.append('\r\n')
    return ''.join(ib).encode('ascii'), ''.join(ob).encode('ascii')


def har(k, c):
    entries = []
    for j, e in enumerate(c['exchanges']):
        (rh, sh) = ([['Host', 'a.example']], [['X-Id', '/%d-%d' % (k, j)]])
        if 'req_date' in e:
            rh.append(['Date', e['req_date'][0]])
        if 'date' in e:
            sh.append(['Date', e['date'][0]])
        if 'age' in e:
            sh.append(['Age', '%d' % e['age']])
        when = EPOCH + datetime.timedelta(seconds=c['hint'] - j)
        entries.append({
            'startedDateTime': when.strftime('%Y-%m-%dT%H:%M:%S.000Z'),
            'request': {
                'method': 'GET', 'url': 'http://a.example/%d-%d' % (k, j),
                'httpVersion': 'HTTP/1.1', 'bodySize': 0,
                'headers': [{'name': n, 'value': v} for n, v in rh]},
            'response': {
                'status': 204, 'statusText': 'No Content',
                'httpVersion': 'HTTP/1.1', 'bodySize': 0,
                'content': {'size': 0},
                'headers': [{'name': n, 'value': v} for n, v in sh]}})
    return json.dumps({'log': {'creator': {'name': 'x', 'version': '1'},
                               'version': '1.2', 'entries': entries}}
                      ).encode('ascii')


MAX_T = 253402300799


def times(c, has_req, has_resp):
    """Label and time of every exchange of a connection."""
    out = []
    for j, e in enumerate(c['exchanges']):
        resps = []
        if has_resp:
            resps = [[d, None] for d in e.get('interim', [])]
            resps.append([e.get('date'), e.get('age')])
        t = None
        if has_req and e.get('req_date') and e['req_date'][1] is not None:
            t = e['req_date'][1]
        else:
            for (d, age) in resps:
                if d is not None and d[1] is not None:
                    t = d[1]
                    if age is not None and t + age <= MAX_T:
                        t += age
                    break
        out.append((j, t))
    return out


def model(conns, watch=None):
    """`conns` is a list of (hint, [(label, time or None)]).

    `watch` is called with the connections that are under way at any moment.
    """
    pos = [h for (h, _) in conns]
    cur = [None] * len(conns)       # index of the exchange loaded
    done = [not seq for (_, seq) in conns]
    order = []
    while not all(done):
        live = [i for i in range(len(conns)) if not done[i]]
        unknown = [i for i in live if pos[i] is None]
        if unknown:
            i = unknown[0]
        else:
            i = min(live, key=lambda x: (pos[x], x))
        seq = conns[i][1]
        here = pos[i]
        if cur[i] is None:
            cur[i] = 0
            t = seq[0][1]
            if t is None:
                t = here
            if here is None or t > here:
                pos[i] = t
                continue
        if watch is not None:
            watch([k for k in range(len(conns))
                   if cur[k] is not None and not done[k]])
        order.append((i, seq[cur[i]][0]))
        cur[i] += 1
        if cur[i] == len(seq):
            done[i] = True
        else:
            t = seq[cur[i]][1]
            pos[i] = here if t is None else t
    return order


def label(e, boxes):
    if e.get('bad'):
        return 'bad'
    ids = [e['req']['target']] if e['req'] is not None else []
    for resp in e['resps']:
        for n, v in resp['headers']:
            if n == 'X-Id':
                ids.append(v)
    if ids:
        return ids[0] if len(set(ids)) == 1 else 'mixed %r' % (ids,)
    if e['box'] and e['box'][0][0] == 1278:
        return boxes.get(e['box'][0][1], e['box'])
    return 'stray %r' % (e,)


def place(plan, ctx):
    """Lay out the files; returns paths, connections as given to the merge
    (or `None` if that is not well defined) and names of boxes."""
    fmt = plan['format']
    conns = plan['conns']
    boxes = {}
    paths = []
    given = []              # (sort key, hint, sequence, k)
    for k, c in enumerate(conns):
        (ib, ob) = build(k, c)
        has_req = fmt != 'resp-stream' and c.get('side') != 'out'
        has_resp = fmt != 'req-stream' and c.get('side') != 'in'
        hint = None
        d = '%s/d%d' % (PREFIX, k % plan['dirs'])
        if fmt == 'tcpflow':
            ts = [c['hint'], c['hint'] + c['late']]
            if c['first']:
                ts.reverse()
            client = '010.000.%03d.%03d-40000' % (k // 100, k % 100)
            server = '010.001.000.001-00080'
            a = '%s/%d-%s-%s-0' % (d, ts[0], client, server)
            o = '%s/%d-%s-%s-0' % (d, ts[1], server, client)
            hint = min(([ts[0]] if has_req else []) +
                       ([ts[1]] if has_resp else []))
            key = (k % plan['dirs'], hint)
        elif fmt == 'tcpick':
            a, o = ['%s/tcpick_%s_%s_%s_http.%s.dat' % (
                d, ('%d' if plan.get('short') else '%06d') % (c['hint'] - BASE),
                '10.0.0.1', 'a.example', x)
                for x in ('clnt', 'serv')]
            key = (k % plan['dirs'], c['hint'])
        elif fmt in SEQUENTIAL:
            a = '%s/%d%s' % (PREFIX, k, ['', '.https', '.noscheme'][c['hint'] % 3])
            has_resp = False
            key = (0, k)
            ib = work.MARK_IN + ib + work.MARK_OUT + ob if \
                fmt == 'combined' else har(k, c)
        else:
            a = '%s/%d.in' % (PREFIX, k)
            o = '%s/%d.out' % (PREFIX, k)
            key = (0, k)
        if has_req:
            FS.add(a, ib)
        if has_resp:
            FS.add(o, ob)
        seq = [('/%d-%d' % (k, j), t)
               for (j, t) in times(c, has_req, has_resp)]
        if 'side' in c:
            lost = a if has_req else o
            boxes[lost] = '1278 %d' % k
            seq.insert(0, (boxes[lost], None))
            ctx.fault('one side of a connection is lost')
        if fmt not in ('tcpflow', 'tcpick'):
            paths += ([a] if has_req else []) + ([o] if has_resp else [])
        given.append((key, hint, seq, k))
        for e in c['exchanges']:
            for d_ in [e.get('req_date'), e.get('date')]:
                if d_ is None:
                    ctx.fault('no Date')
                elif d_[1] is None:
                    ctx.fault('malformed Date')
            if e.get('age', 0) > 10 ** 8:
                ctx.fault('huge Age')
    if fmt in ('tcpflow', 'tcpick'):
        paths = ['%s/d%d' % (PREFIX, n) for n in range(plan['dirs'])]
        for p in paths:
            FS.mkdir(p)
        # Streams of one directory may be given in either order if they start
        # at the same time: leave such cases to other properties.
        given.sort()
        keys = [g[0] for g in given]
        if len(set(keys)) != len(keys):
            return (paths, None, boxes)
    return (paths, given, boxes)


def run(plan, ctx):
    FS.reset()
    clock.set_zone(plan.get('zone', 0))
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    conns = plan['conns']
    (paths, given, boxes) = place(plan, ctx)
    if given is None:
        ctx.trivial = True
        return
    if fmt in SEQUENTIAL:
        order = [(i, lab) for i, g in enumerate(given) for (lab, _) in g[2]]
    else:
        order = model([(g[1], g[2]) for g in given])
    expected = [lab for (_, lab) in order]
    observed = [label(observe.exchange(e), boxes)
                for e in work_input(fmt, paths)]
    ctx.note([g[1:3] for g in given], observed)
    ctx.faults_from(FS.fired)
    if plan.get('zone'):
        ctx.fault('other time zone')
    ctx.steps += len(observed)
    for w in zip([i for (i, _) in order], [i for (i, _) in order][1:]):
        ctx.state(fmt, w[1] - w[0], len(given))
    ctx.trivial = len(conns) < 2 or len(expected) < 3
    check(sorted(observed) == sorted(expected), 'lost-or-duplicated',
          observed, expected)
    for k in range(len(conns)):
        check([x for x in observed if owner(x) == k] ==
              [x for x in expected if owner(x) == k],
              'order-within-connection', observed)
    check(observed == expected, 'order-by-time', observed, expected)
    switches = sum(1 for (x, y) in zip(order, order[1:]) if x[0] != y[0])
    ctx.probe('switches between connections', switches)


def owner(x):
    if x.startswith('/'):
        return int(x[1:].split('-')[0])
    if x.startswith('1278 '):
        return int(x.split()[1])
    return None


def work_input(fmt, paths):
    from httpolice import inputs
    return inputs.formats[fmt](paths)
