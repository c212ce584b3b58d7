"""C20: a capture that is still being written is like one that was cut off."""

from sim import observe, proto, refmodel, work
from sim.props import c01, c02
from sim.runner import Violation, check
from sim.simfs import FS


ID = 'C20'
RUNS = {'quick': 25000, 'thorough': 1200000}
BATCH = 60
RULE = ('A run simulates one connection whose capture is still being written '
        'while it is read: each file has some size when first opened, and '
        'may grow, by any amount, right after any read that found its end. '
        'What the real code reports must be what a reference framing model '
        'gives for that connection cut off at one of the sizes the files '
        'had. Non-trivial if a file grew.')
REAL = c01.REAL
STUB = c01.STUB + ['reference framing model (oracle only)']
STATE = ('distinct (format, part of a message where each side ended first, '
         'number of ends found, outcome) combinations')
STEP = 'captures read while they grew'
SHRINK_LISTS = ('exchanges', 'resps', 'headers', 'trailers', 'chunks',
                'fold', 'tcodings', 'in_sizes', 'out_sizes')
SHRINK_INTS = ('len',)
SHRINK_OPTS = ('io', 'buffer', 'chunk_style', 'style', 'te_pos')


def first_line(fmt, data):
    """The direction must be known from the start."""
    return data.find(b'\n') + 1 if fmt in ('tcpflow', 'tcpick') else 0


def sizes(r, data, layout, least):
    if r.chance(0.15):
        return [len(data)]
    n = r.pick([2, 2, 3, 4, 6])
    points = sorted(max(x, least)
                    for x in c02.points(r, data, layout, n))
    if r.chance(0.6):
        points[-1] = len(data)
    out = []
    for x in points:
        out += [x] * r.pick([1, 1, 1, 2, 3])
    return out


def gen(r, i, tier):
    fmt = r.weighted([(5, 'streams'), (1, 'combined'), (1, 'req-stream'),
                      (2, 'resp-stream'), (2, 'tcpflow'), (1, 'tcpick')])
    conn = work.gen_connection(r.stream('conn'), fmt,
                               n=r.weighted([(3, 1), (3, 2), (1, 3)]))
    (ib, ob, _, layout) = proto.build(conn['exchanges'], conn['tail'])
    if fmt == 'req-stream':
        ob = b''
    elif fmt == 'resp-stream':
        ib = b''
    return {'format': fmt, 'conn': conn,
            'in_sizes': sizes(r, ib, layout['in'], first_line(fmt, ib)),
            'out_sizes': sizes(r, ob, layout['out'], first_line(fmt, ob)),
            'io': work.gen_io(r.stream('io'), len(ib) + len(ob))}


def valid(plan):
    if not plan['conn']['exchanges'] or not all(
            plan[k] and plan[k] == sorted(plan[k])
            for k in ('in_sizes', 'out_sizes')):
        return False
    (ib, ob, _, _) = proto.build(plan['conn']['exchanges'],
                                 plan['conn']['tail'])
    return all(plan[k][0] >= first_line(plan['format'], data)
               for k, data in (('in_sizes', ib), ('out_sizes', ob)))


def run(plan, ctx):
    FS.reset()
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    conn = plan['conn']
    (a, b) = work.stream_names(fmt, 0)
    (ib, ob, _, layout) = proto.build(conn['exchanges'], conn['tail'], a, b)
    (ci, co) = (ib, ob)
    if fmt == 'req-stream':
        co = None
    elif fmt == 'resp-stream':
        ci = None
    paths = work.place(fmt, [(ci, co)])
    files = work.file_names(fmt, 0)
    in_sizes = sorted(set(plan['in_sizes'])) \
        if ci is not None else [None]
    out_sizes = sorted(set(plan['out_sizes'])) \
        if co is not None else [None]
    if fmt == 'combined':
        # One file; its inbound part has already been written.
        path = paths[0]
        whole = len(FS.files[path])
        FS.growth[path] = [whole - len(ob) + n for n in plan['out_sizes']]
        in_sizes = [len(ib)]
    else:
        for f, key in zip(files, ('in_sizes', 'out_sizes')):
            if f in FS.files:
                FS.growth[f] = list(plan[key])
    observed = [observe.exchange(e) for e in observe.read_input(fmt, paths)]
    ctx.faults_from(FS.fired)
    ctx.note(observed, FS.ends)
    ctx.steps += 1
    ctx.trivial = not FS.fired.get('file_grew_at_its_end')
    outcome = 'none'
    boxes = [n[0] for e in observed if 'bad' not in e for n in e['box']]
    ctx.state(fmt, part(layout['in'], plan['in_sizes'][0]),
              part(layout['out'], plan['out_sizes'][0]), len(FS.ends),
              sorted(set(boxes)))
    if fmt != 'combined':
        # A combined file is read as a whole before anything is parsed, which
        # may well take more than one look at its end.
        check(not FS.past_end, 'read-past-the-end', FS.past_end)
    got = [refmodel.normal(e) for e in observed]
    closest = None
    for m in out_sizes:
        for k in in_sizes:
            try:
                expected = [refmodel.normal(e) for e in refmodel.exchanges(
                    None if k is None else ib[:k],
                    None if m is None else ob[:m], a, b)]
            except refmodel.Ambiguous:
                ctx.probe('skipped: decoders differ on damaged data')
                return
            if expected == got:
                outcome = 'as cut'
                ctx.probe('as if cut off')
                if (k, m) == (in_sizes[-1], out_sizes[-1]):
                    ctx.probe('as if complete')
                return
            if closest is None or agreement(expected, got) > \
                    agreement(closest[1], got):
                closest = ((k, m), expected)
    (which, expected) = closest
    try:
        c02.compare(expected, got, which)
    except Violation as e:
        raise Violation('like-no-cut', e.detail)
    check(False, 'like-no-cut', outcome)


def agreement(expected, got):
    n = 0
    for x, y in zip(expected, got):
        if x != y:
            break
        n += 1
    return n


def part(layout, size):
    for k, (start, head, end) in enumerate(layout):
        if start < size < end:
            return (k, 'heading' if size < head else 'body')
    return 'between'
