"""C14: reports stream, with bounded look-ahead and memory."""

import gc

from sim import observe, work
from sim.clock import CLOCK
from sim.props import c07
from sim.runner import Violation, check
from sim.simfs import DirectSink, FS, PREFIX, SimStdout
import json


ID = 'C14'
RUNS = {'quick': 1800, 'thorough': 150000}
BATCH = 8
RULE = ('A run records 1-12 connections of up to 150 exchanges with bodies '
        'of up to 300 KB (or several combined or HAR files), reads them '
        'under a generated schedule of short reads and buffer sizes, and '
        'observes every read and every byte written: when the report on an '
        'exchange appears, its connection must not have been read beyond the '
        'next exchange and a buffer, later files of a sequential format must '
        'not have been opened, and few exchanges may be alive. Non-trivial '
        'if at least three exchanges were reported.')
REAL = ['the whole of httpolice, from command-line arguments to report',
        'io.BufferedReader', 'reference counting and garbage collector']
STUB = ['file system', 'standard output', 'clock',
        'HTTP peers and capture software (generators)']
STATE = 'distinct (format, exchanges alive, share of input read) triples'
STEP = 'exchanges reported'
SHRINK_LISTS = ('conns', 'exchanges')
SHRINK_INTS = ('req', 'resp')
SHRINK_OPTS = ('io', 'chunked')

FORMATS = [(3, 'streams'), (3, 'tcpflow'), (1, 'tcpick'), (1, 'req-stream'),
           (1, 'resp-stream'), (2, 'combined'), (2, 'har')]
BASE = c07.BASE


def gen(r, i, tier):
    fmt = r.weighted(FORMATS)
    n = r.weighted([(4, 1), (3, 2), (2, 4), (0.5, 12)])
    big = r.chance(0.4)
    conns = []
    for k in range(n):
        m = r.weighted([(2, r.randrange(1, 4)), (5, r.randrange(3, 12)),
                        (0.3, 150 // n + 1)])
        es = []
        for j in range(m):
            e = {'req': 0, 'resp': 0}
            for side in ('req', 'resp'):
                if r.chance(0.5):
                    e[side] = r.pick([1, 100, 8192, 8191, 16384]) if big \
                        else r.randrange(1, 400)
                    if big and r.chance(0.1):
                        e[side] = r.randrange(300000)
            if r.chance(0.3):
                e['chunked'] = True
            es.append(e)
        conns.append({'exchanges': es, 'step': r.pick([0, 1, 60])})
    plan = {'format': fmt, 'conns': conns,
            'output': r.pick(['text', 'html']),
            'io': work.gen_io(r, 10 ** 6 if big else 30000)}
    if r.chance(0.5):
        plan['io'].pop('buffer', None)
    return plan


def valid(plan):
    return bool(plan['conns']) and all(c['exchanges'] for c in plan['conns'])


def message(first, headers, n, chunked):
    out = [first] + headers
    body = b'x' * n
    if chunked:
        out += ['Transfer-Encoding: chunked', '', '']
        head = '\r\n'.join(out).encode('ascii')
        step = max(1, n // 3)
        for i in range(0, n, step):
            part = body[i : i + step]
            head += b'%x\r\n%s\r\n' % (len(part), part)
        return head + b'0\r\n\r\n'
    out += ['Content-Length: %d' % n, '', '']
    return '\r\n'.join(out).encode('ascii') + body


def build(k, c):
    """Both streams, and where every exchange ends in each."""
    ib, ob, ends = b'', b'', []
    t = BASE + 7 * k
    for j, e in enumerate(c['exchanges']):
        t += c['step']
        date = 'Date: ' + c07.date_str(t, 'imf', None)
        # Both have something to be reported.
        ib += message('POST /%d-%d HTTP/1.1' % (k, j),
                      ['Host: a.example', 'Max-Forwards: x'], e['req'],
                      e.get('chunked'))
        ob += message('HTTP/1.1 200 m%d-%d-' % (k, j),
                      [date, 'Age: x'], e['resp'], e.get('chunked'))
        ends.append((len(ib), len(ob)))
    return ib, ob, ends


def har(k, c):
    entries = []
    for j, e in enumerate(c['exchanges']):
        entries.append({
            'request': {'method': 'GET', 'url': 'http://a.example/%d-%d' % (
                k, j), 'httpVersion': 'HTTP/1.1', 'headers': [
                    {'name': 'Host', 'value': 'a.example'},
                    {'name': 'Max-Forwards', 'value': 'x'}],
                'bodySize': 0},
            'response': {'status': 200, 'statusText': 'm%d-%d-' % (k, j),
                         'httpVersion': 'HTTP/1.1',
                         'headers': [{'name': 'Age', 'value': 'x'}],
                         'bodySize': e['resp'],
                         'content': {'size': e['resp'],
                                     'text': 'x' * e['resp']}}})
    return json.dumps({'log': {'version': '1.2', 'creator': {
        'name': 'x', 'version': '1'}, 'entries': entries}}).encode('ascii')


def run(plan, ctx):
    import httpolice
    FS.reset()
    CLOCK.reset()
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    conns = plan['conns']
    datas, ends, files = [], [], {}
    paths = []
    for k, c in enumerate(conns):
        (ib, ob, end) = build(k, c)
        datas.append((ib, ob))
        ends.append(end)
        if fmt == 'har':
            paths.append(FS.add('%s/%d.har' % (PREFIX, k), har(k, c)))
            files[k] = [paths[-1]]
        elif fmt == 'combined':
            files[k] = ['%s/c%d' % (PREFIX, k)]
        else:
            files[k] = list(work.file_names(fmt, k))
    if fmt != 'har':
        paths = work.place(fmt, datas)
    buffer_size = plan.get('io', {}).get('buffer') or 8192

    # How far every file has been read.
    position = {}
    opened = set()

    def on_event(ev):
        if ev[0] == 'open':
            opened.add(ev[1])
            position[ev[1]] = 0
        elif ev[0] == 'read':
            position[ev[1]] = max(position.get(ev[1], 0), ev[2] + ev[3])
    FS.on_event = on_event

    waiting = {}
    for k, c in enumerate(conns):
        for j in range(len(c['exchanges'])):
            what = 'm%d-%d-'
            if fmt == 'req-stream':
                what = 'POST /%d-%d\n' if plan['output'] == 'text' \
                    else '>/%d-%d<'
            what = what % (k, j)
            waiting[(k, j)] = what.encode('ascii')
    total = len(waiting)
    nexts = [0] * len(conns)
    n_bytes = sum(len(d) for d in FS.files.values())
    tail = [b'']
    worst = [0]
    sample = [0]
    bound = 2 * len(conns) + 4

    def on_write(data):
        seen = tail[0] + data
        tail[0] = seen[-64:]
        for k in range(len(conns)):
            while nexts[k] < len(conns[k]['exchanges']):
                j = nexts[k]
                if waiting[(k, j)] not in seen:
                    break
                nexts[k] += 1
                appeared(k, j)

    def appeared(k, j):
        ctx.steps += 1
        if fmt in ('combined', 'har'):
            later = [p for q in range(k + 1, len(conns)) for p in files[q]
                     if p in opened]
            check(not later, 'later-file-touched', (k, j), later)
        else:
            e = ends[k]
            (ie, oe) = e[min(j + 1, len(e) - 1)]
            for path, limit in zip(files[k], (ie, oe)):
                if path in position:
                    # The code may choose any reasonable buffer size.
                    one = max(buffer_size, min(FS.own_buffer, 65536))
                    check(position[path] <= limit + one,
                          'read-too-far', (k, j), path, position[path],
                          limit, one)
        sample[0] += 1
        if sample[0] % stride == 0:
            gc.collect()
            alive = sum(1 for o in gc.get_objects()
                        if isinstance(o, httpolice.Exchange))
            worst[0] = max(worst[0], alive)
            check(alive <= bound, 'exchanges-pile-up', alive, bound, (k, j))
            ctx.state(fmt, alive,
                      sum(position.values()) * 8 // max(1, n_bytes))

    stride = max(1, total // 12)
    stdout = SimStdout(DirectSink(on_write=on_write))
    res = observe.run_cli(['-i', fmt, '-o', plan['output']] + paths, stdout)
    if res.exc is not None:
        if isinstance(res.exc, Violation):
            raise res.exc
        raise Violation('exception:%s' % type(res.exc).__name__,
                        repr(res.exc))
    check(res.status == 0, 'status', res.status, res.err)
    check(nexts == [len(c['exchanges']) for c in conns], 'not-reported',
          nexts)
    ctx.note(fmt, nexts, len(observe.normal_html(res.out)), worst[0], sorted(position.items()),
             plan['io'])
    ctx.faults_from({k: v for k, v in FS.fired.items()})
    ctx.probe('exchanges alive at once (sum over runs)', worst[0])
    ctx.trivial = total < 3
