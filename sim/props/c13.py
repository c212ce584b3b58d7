"""C13: failures of the output are never silent."""

import os
import re

from sim import capture, observe, work
from sim.runner import Violation, check
from sim.simfs import (DirectSink, ERRNO, FS, SimRawSink, SimStdout, os_error)


ID = 'C13'
RUNS = {'quick': 5000, 'thorough': 400000}
BATCH = 24
RULE = ('A run lays out a capture of any format and produces the report on '
        'it 2-5 times, through the command-line tool or the library, onto an '
        'output device that fails with one of several errno values at a '
        'byte chosen anywhere in the report (or right at its end, or not at '
        'all), tearing the last write or not, permanently or only once, '
        'behind a buffer of any size or none, and that may accept only a '
        'few bytes at a time. Non-trivial if some failure struck.')
REAL = ['the whole of httpolice, from command-line arguments to report',
        'io.BufferedWriter']
STUB = ['file system', 'standard output (device)', 'standard error', 'clock',
        'HTTP peers and capture software (generators)']
STATE = ('distinct (output format, sink, what happened, share of the report '
         'written) combinations')
STEP = 'reports written'
SHRINK_LISTS = capture.SHRINK_LISTS + ('trials',)
SHRINK_INTS = capture.SHRINK_INTS + ('fail_at', 'buffer_size', 'max_write')
SHRINK_STRS = capture.SHRINK_STRS
SHRINK_OPTS = ('io', 'once', 'max_write')
setup = capture.setup

ERRNOS = ['ENOSPC', 'EPIPE', 'EIO', 'EDQUOT', 'EFBIG']


def gen(r, i, tier):
    plan = capture.gen(r.stream('input'), i, tier, damaged=r.chance(0.4))
    plan['io'] = {'order': 0}
    plan['output'] = r.pick(['text', 'html'])
    plan['trials'] = []
    for k in range(r.randrange(2, 6)):
        t = {'via': r.pick(['cli', 'cli', 'api']),
             'sink': r.pick(['direct', 'buffered', 'raw']),
             # Where in the report the device fails, in 1/1000000.
             'at': r.weighted([(6, r.randrange(1000000)), (1, 0),
                               (1, 1000000), (1, None)]),
             'plus': r.weighted([(4, 0), (1, -1), (1, 1), (1, -2)]),
             'torn': r.chance(0.6), 'errno': r.pick(ERRNOS)}
        if t['sink'] == 'buffered':
            t['buffer_size'] = r.pick([1, 16, 100, 4096, 8192, 8192, 65536,
                                       1 << 20])
        if t['sink'] != 'direct' and r.chance(0.3):
            t['max_write'] = r.pick([3, 16, 100, 4096, 100, 4096])
        if r.chance(0.15):
            t['once'] = True
        if t['sink'] != 'direct' and r.chance(0.15):
            t['errno'] = 'EAGAIN'       # in non-blocking mode
        if r.chance(0.3):
            t['fail_on'] = r.pick(['error', 'comment', 'debug'])
        plan['trials'].append(t)
    return plan


def valid(plan):
    return capture.valid(plan) and bool(plan['trials']) and \
        all(t.get('max_write') != 0 for t in plan['trials'])


def the_api(fmt, paths, output, sink):
    """What a library user would do. Returns the exception, if any."""
    import httpolice
    from httpolice import inputs
    report = {'text': httpolice.text_report,
              'html': httpolice.html_report}[output]
    seen = []

    def exchanges():
        for e in inputs.formats[fmt](paths):
            httpolice.check_exchange(e)
            seen.append(None)
            yield e
    try:
        report(exchanges(), sink)
        sink.flush()
    except (inputs.InputError, OSError) as e:
        # The traceback would keep the input alive.
        e.__cause__ = e.__context__ = None
        return e.with_traceback(None)
    return None


def run(plan, ctx):
    fmt = plan['format']
    output = plan['output']
    observe.stable_ids()
    capture.reset(plan)
    paths = capture.place(plan, ctx)
    (pro, parts, epi, error) = capture.pieces(fmt, paths, output)
    full = pro + b''.join(parts) + (epi if error is None else b'')
    ctx.note(full, repr(error))
    ctx.trivial = True
    for t in plan['trials']:
        capture.reset(plan)
        # The exact length depends on the number of digits in references.
        n = len(pro) + sum(map(len, parts)) + (len(epi) if error is None
                                               else 0)
        fail_at = None
        if t['at'] is not None:
            fail_at = max(0, n * t['at'] // 1000000 + t['plus'])
        kind = t['sink']
        if kind == 'direct':
            sink = DirectSink(fail_at, t['errno'], t['torn'])
            raw = sink.raw
        else:
            raw = SimRawSink(fail_at, t['errno'], t['torn'],
                             max_write=t.get('max_write'))
            sink = raw
        if t.get('once'):
            raw.max_failures = 1
        stdout = SimStdout(sink, t.get('buffer_size', 0) or None)
        capture.place(plan, _Null())
        argv = ['-i', fmt, '-o', output]
        if t.get('fail_on'):
            argv += ['--fail-on', t['fail_on']]
        ctx.steps += 1
        status = err = exc = finish = None
        if t['via'] == 'cli':
            res = observe.run_cli(argv + paths, stdout)
            (status, err, exc, finish) = (res.status, res.err, res.exc,
                                          res.finish)
            if exc is not None and not (raw.failures and
                                        isinstance(exc, OSError)):
                raise Violation('exception:%s' % type(exc).__name__,
                                repr(exc))
        else:
            exc = the_api(fmt, paths, output, stdout.buffer)
            finish = stdout.finish()
        left = observe.left_open()
        out = raw.data
        ctx.note(status, err, repr(exc), repr(finish),
                 observe.normal_html(out))
        if raw.failures:
            ctx.trivial = False
            ctx.fault('output failed: ' + t['errno'], 1)
            if t['torn'] and fail_at:
                ctx.fault('torn write')
            if t.get('max_write'):
                ctx.fault('short writes')
            message = os.strerror(ERRNO[t['errno']])
            if t['errno'] == 'EAGAIN' and len(out) == n:
                pass        # not lost after all
            elif t['via'] == 'cli':
                check(status != 0 or finish is not None, 'silent-failure',
                      status, err, len(out), n, t)
                if finish is None and t['errno'] != 'EAGAIN':
                    check(message in err, 'wrong-error-message', err, t)
            else:
                check(exc is not None, 'silent-failure', len(out), n, t)
                check(error is not None and finish is not None or
                      isinstance(exc, OSError) and
                      (exc.errno == ERRNO[t['errno']] or
                       isinstance(exc, BlockingIOError)), 'wrong-exception',
                      repr(exc), t)
        else:
            if t['via'] == 'cli':
                check(finish is None, 'odd-finish', repr(finish))
                check((status == 1) == (error is not None) or
                      t.get('fail_on'), 'status', status, err)
                check((err == '') == (error is None), 'stderr', err)
            else:
                check((exc is None) == (error is None), 'exception', exc)
        # A prefix, modulo the numbering of references.
        if output == 'text':
            ok = full.startswith(out) if raw.failures else full == out
        elif raw.failures:
            ok = prefix_html(out, full)
        else:
            ok = observe.normal_html(out) == full
        if not ok and error is not None and not parts and \
                t['via'] == 'cli':
            # If the input can't be opened, there need not be any report.
            ok = not out
        check(ok, 'not-a-prefix' if raw.failures else 'incomplete',
              out[-300:], len(out), n, t)
        check(not left, 'file-left-open', left)
        ctx.state(output, kind, t['via'], bool(raw.failures), error is None,
                  len(out) * 8 // max(1, n))
    if error is not None:
        ctx.probe('input error as well')


class _Null:

    def fault(self, *_):
        pass


def prefix_html(out, full):
    """Is `out` a beginning of `full`, but for numbers of references?"""
    # Whatever is being written when the device fails ends in any place,
    # so compare without the numbers.
    a = _blank(out)
    # The end may cut through a reference.
    i = a.rfind(b'data-ref-')
    if i >= 0 and b'"' not in a[i + 13:]:
        a = a[:i]
    return _blank(full).startswith(a)


def _blank(data):
    return _REF.sub(
        lambda m: b'data-ref-%s="%d"' % (m.group(1), len(m.group(2).split())),
        data)


_REF = re.compile(br'data-ref-(id|to)="([0-9 -]*)"')
