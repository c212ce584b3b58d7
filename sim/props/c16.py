"""C16: every input file is closed, and few are open at once."""

from sim import capture, observe, work
from sim.props import c07
from sim.runner import Violation, check
from sim.simfs import DirectSink, FS, SimRawSink, SimStdout


ID = 'C16'
RUNS = {'quick': 14000, 'thorough': 500000}
BATCH = 24
RULE = ('Half of the runs merge 1-40 concurrent connections as in C07, many '
        'of them not overlapping in time, under a limit on open files that '
        'is exactly what the merge needs according to the reference model. '
        'The other half process a capture of any format (intact or damaged) '
        'until a chosen end: normal, an I/O error on open, read or listing, '
        'a failing output, an exception in the consumer, or a caller who '
        'stops after any number of exchanges (closing or just dropping the '
        'iterator). Non-trivial if at least one file was opened.')
REAL = ['the whole of httpolice, from command-line arguments to report',
        'io.BufferedReader, io.TextIOWrapper']
STUB = ['file system (counts open files)', 'standard output and error',
        'clock', 'HTTP peers and capture software (generators)']
STATE = 'distinct (format, kind of end, most files open at once) triples'
STEP = 'files opened'
SHRINK_LISTS = capture.SHRINK_LISTS + c07.SHRINK_LISTS
SHRINK_INTS = capture.SHRINK_INTS + ('take', 'fail_at') + c07.SHRINK_INTS
SHRINK_STRS = capture.SHRINK_STRS
SHRINK_OPTS = ('io',) + c07.SHRINK_OPTS
setup = capture.setup

ENDS = [(2, 'normal'), (3, 'fault'), (2, 'sink'), (2, 'close'), (2, 'drop'),
        (1, 'throw'), (1, 'consumer')]


def gen(r, i, tier):
    if r.chance(0.5):
        plan = c07.gen(r, i, tier)
        plan['kind'] = 'merge'
        if r.chance(0.6):
            # Connections one after another.
            plan['format'] = 'tcpflow'
            t = c07.BASE
            for c in plan['conns']:
                c['hint'] = t
                c['late'] = 0
                for e in c['exchanges']:
                    t += r.randrange(0, 3)
                    for k in ('req_date', 'date'):
                        if e.get(k) and e[k][1] is not None:
                            e[k] = [c07.date_str(t, 'imf', None), t]
                    e.pop('age', None)
                    e['interim'] = []
                t += r.pick([1, 1, 5])
            r.shuffle(plan['conns'])
        return plan
    plan = {'kind': 'end', 'capture': capture.gen(
        r.stream('input'), i, tier, damaged=r.chance(0.4)),
        'end': r.weighted(ENDS), 'take': r.weighted([
            (3, 0), (3, 1), (2, 2), (1, r.randrange(8))]),
        'io': work.gen_io(r, 20000)}
    plan['io']['order'] = 0
    plan['capture'].pop('io', None)
    if plan['end'] == 'fault':
        capture.reset(plan['capture'], {'order': 0})
        paths = capture.place(plan['capture'], _Null())
        files = sorted(FS.files)
        dirs = sorted(p for p in paths if p in FS.dirs)
        if not files:
            plan['end'] = 'normal'
            return plan
        path = r.pick(files)
        kind = r.weighted([(4, 'read_error'), (3, 'open_error'),
                           (1 if dirs else 0, 'listdir_error')])
        f = {'kind': kind, 'path': path, 'errno': 'EIO'}
        if kind == 'read_error':
            f['offset'] = r.randrange(len(FS.files[path]) + 1)
        elif kind == 'listdir_error':
            f['path'] = r.pick(dirs)
        if kind != 'listdir_error' and r.chance(0.5):
            f['nth' if kind == 'open_error' else 'nth_open'] = \
                r.randrange(1, 3)
        plan['fault'] = f
    elif plan['end'] == 'sink':
        plan['fail_at'] = r.pick([0, 1, r.randrange(300), r.randrange(30000)])
    return plan


class _Null:

    def fault(self, *_):
        pass


def valid(plan):
    if plan['kind'] == 'merge':
        return c07.valid(plan)
    return capture.valid(plan['capture'])


class Stop(Exception):
    pass


def files_of(paths):
    n = 0
    for p in paths:
        n += len(FS.dirs[p]) if p in FS.dirs else 1
    return n


def run(plan, ctx):
    if plan['kind'] == 'merge':
        run_merge(plan, ctx)
    else:
        run_end(plan, ctx)


def watch_files(ctx):
    def on_event(ev):
        if ev[0] != 'read':
            ctx.note(ev)
    FS.on_event = on_event


def finish(ctx, fmt, end):
    ctx.steps += sum(FS.opens.values())
    ctx.trivial = not FS.opens
    ctx.note(FS.peak_open, FS.bytes_read)
    ctx.state(fmt, end, FS.peak_open)
    check(not FS.leaked, 'file-not-closed-explicitly', FS.leaked)
    ctx.faults_from({k: v for k, v in FS.fired.items()
                     if k not in ('short_read', 'listdir_shuffled')})


def run_merge(plan, ctx):
    from httpolice import inputs
    FS.reset()
    work.apply_io(plan.get('io', {}))
    watch_files(ctx)
    fmt = plan['format']
    (paths, given, _) = c07.place(plan, ctx)
    if given is None:
        ctx.trivial = True
        return
    need = [1]
    size = [2] * len(given)
    for g, (_, _, _, k) in enumerate(given):
        if fmt in ('req-stream', 'resp-stream') or \
                'side' in plan['conns'][k]:
            size[g] = 1

    def watch(active):
        need[0] = max(need[0], sum(size[k] for k in active))
    c07.model([(g[1], g[2]) for g in given], watch)
    n = len(FS.files)
    FS.max_open = need[0]
    if need[0] < n:
        ctx.fault('limit on open files below their number')
    failed = None
    try:
        for _ in inputs.formats[fmt](paths):
            check(len(FS.open_files) <= need[0], 'too-many-open',
                  len(FS.open_files), need[0])
    except OSError as e:
        failed = repr(e)
    check(failed is None, 'limit-exceeded', failed, need[0], n)
    check(FS.peak_open <= need[0], 'too-many-open', FS.peak_open, need[0])
    check(not FS.open_files, 'file-left-open',
          [f.path for f in FS.open_files])
    for path, times in FS.opens.items():
        check(times <= 3, 'opened-again-and-again', path, times)
    finish(ctx, fmt, 'merge')
    if need[0] < n:
        ctx.probe('files beyond the limit', n - need[0])


def run_end(plan, ctx):
    from httpolice import inputs
    cap = plan['capture']
    fmt = cap['format']
    end = plan['end']
    capture.reset(cap, plan['io'])
    paths = capture.place(cap, _Null())
    watch_files(ctx)
    n = files_of(paths)
    bound = 1 if fmt in ('combined', 'har') else max(1, n)
    if plan.get('fault'):
        FS.faults = [dict(plan['fault'])]
    argv = ['-i', fmt, '-o', cap['output']] + paths
    if end in ('normal', 'fault', 'sink'):
        stdout = SimStdout(DirectSink(plan.get('fail_at')))
        res = observe.run_cli(argv, stdout)
        ctx.note(res.status, res.err)
        if end == 'sink' and stdout.raw.failures:
            ctx.fault('output failed')
        if res.exc is not None:
            raise Violation('exception:%s' % type(res.exc).__name__,
                            repr(res.exc))
        if res.status == 0:
            # Nobody interrupted it, so there is nothing to wait for.
            check(not FS.open_files, 'file-left-open',
                  [f.path for f in FS.open_files])
    else:
        consume(fmt, paths, end, plan['take'], bound)
        ctx.fault('caller stops: ' + end)
    left = observe.left_open()
    check(not left, 'file-left-open', left, end)
    check(FS.peak_open <= bound, 'too-many-open', FS.peak_open, bound)
    finish(ctx, fmt, end)


def consume(fmt, paths, end, take, bound):
    import httpolice
    from httpolice import inputs
    k = 0
    try:
        iterator = iter(inputs.formats[fmt](paths))
        if end == 'consumer':
            # The consumer of the report fails.
            def failing():
                for j, e in enumerate(inputs.formats[fmt](paths)):
                    if j == take:
                        raise Stop()
                    yield e
            try:
                httpolice.text_report(failing(), DirectSink())
            except Stop:
                pass
            return
        for _ in iterator:
            check(len(FS.open_files) <= bound, 'too-many-open',
                  len(FS.open_files), bound)
            k += 1
            if k > take:
                if end == 'throw':
                    raise Stop()
                break
        if end == 'close' and hasattr(iterator, 'close'):
            iterator.close()
            # The caller asked, so there is nothing to wait for.
            check(not FS.open_files, 'file-left-open',
                  [f.path for f in FS.open_files], 'close')
        del iterator
    except (inputs.InputError, Stop):
        pass
