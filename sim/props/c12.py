"""C12: input failures are reported, never turned into wrong results."""

import os

from sim import capture, observe, work
from sim.props import c04
from sim.runner import Violation, check
from sim.simfs import FS, ERRNO, SimStdout


ID = 'C12'
RUNS = {'quick': 7000, 'thorough': 400000}
BATCH = 24
RULE = ('A run lays out a capture of any format (intact or damaged), finds '
        'out what the report on it should be, exchange by exchange, then '
        'runs the command-line tool 2-4 times, each time with a fault at '
        'another point: an open, read or directory listing that fails with '
        'one of a dozen errno values (permanently or only once, after any '
        'number of bytes, on the first or a later open of the file), a file '
        'that vanishes, or a limit on open files. Non-trivial if some fault '
        'struck.')
REAL = ['the whole of httpolice, from command-line arguments to report']
STUB = ['file system', 'standard output and error', 'clock',
        'HTTP peers and capture software (generators)']
STATE = ('distinct (format, kind of fault, share of exchanges already '
         'reported) combinations')
STEP = 'runs of the command-line tool'
SHRINK_LISTS = capture.SHRINK_LISTS + ('trials', 'faults')
SHRINK_INTS = capture.SHRINK_INTS + ('offset',)
SHRINK_STRS = capture.SHRINK_STRS
SHRINK_OPTS = ('io', 'once', 'nth', 'nth_open', 'traceback')
setup = capture.setup

READ_ERRNOS = ['EIO', 'ESTALE', 'ENOMEM', 'EISDIR']
OPEN_ERRNOS = ['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EISDIR', 'ELOOP',
               'EIO', 'ENXIO']


def gen(r, i, tier):
    plan = capture.gen(r.stream('input'), i, tier, damaged=r.chance(0.4))
    capture.reset(plan)
    paths = capture.place(plan, _Null())
    files = sorted(FS.files)
    dirs = sorted(p for p in paths if p in FS.dirs)
    plan['trials'] = []
    for k in range(r.randrange(2, 5)):
        t = {'faults': [], 'io': work.gen_io(r, 20000)}
        t['io']['order'] = 0
        for j in range(r.weighted([(5, 1), (1, 2)])):
            kind = r.weighted([(6, 'read'), (3, 'open'),
                               (1 if dirs else 0, 'list'), (0.7, 'gone'),
                               (0.7, 'limit')])
            if not files and kind != 'list':
                continue
            if kind == 'read':
                path = r.pick(files)
                n = len(FS.files[path])
                off = r.weighted([(6, r.randrange(n + 1)), (1, 0), (1, n),
                                  (1, max(0, n - 1)),
                                  (1, min(n, 8192 * r.randrange(3)))])
                f = {'kind': 'read_error', 'path': path, 'offset': off,
                     'errno': r.pick(READ_ERRNOS)}
                if r.chance(0.3):
                    f['once'] = True
                if r.chance(0.3):
                    f['nth_open'] = r.randrange(1, 4)
            elif kind == 'open':
                f = {'kind': 'open_error', 'path': r.pick(files),
                     'errno': r.pick(OPEN_ERRNOS)}
                if r.chance(0.5):
                    f['nth'] = r.randrange(1, 4)
            elif kind == 'list':
                f = {'kind': 'listdir_error', 'path': r.pick(dirs),
                     'errno': r.pick(['EIO', 'EACCES', 'ENOENT', 'ESTALE'])}
            elif kind == 'gone':
                f = {'kind': 'open_error', 'path': r.pick(files),
                     'errno': 'ENOENT'}
            else:
                f = {'kind': 'limit', 'n': r.randrange(0, 4)}
            t['faults'].append(f)
        if r.chance(0.15):
            t['traceback'] = True
        plan['trials'].append(t)
    plan.pop('io', None)
    return plan


class _Null:

    def fault(self, *_):
        pass


def valid(plan):
    return capture.valid(plan) and bool(plan['trials'])


def run(plan, ctx):
    fmt = plan['format']
    capture.reset(plan, {'order': 0})
    paths = capture.place(plan, ctx)
    (pro, parts, epi, error) = capture.pieces(fmt, paths, plan['output'])
    whole = capture.prefixes(pro, parts)
    whole = [observe.normal_html(x) for x in whole]
    complete = observe.normal_html(whole[-1] + epi)
    ctx.note(complete, repr(error))
    ctx.trivial = True
    for t in plan['trials']:
        capture.reset(plan, t['io'])
        paths = capture.place(plan, _Null())
        FS.faults = [dict(f) for f in t['faults'] if f['kind'] != 'limit']
        for f in t['faults']:
            if f['kind'] == 'limit':
                FS.max_open = f['n']
        argv = ['-i', fmt, '-o', plan['output']]
        if t.get('traceback'):
            argv.append('--full-traceback')
        res = observe.run_cli(argv + paths)
        if t.get('traceback'):
            res.err = c04.without_traceback(res.err)
        ctx.steps += 1
        out = observe.normal_html(res.out)
        fired = {k: v for k, v in FS.fired.items()
                 if k not in ('short_read', 'listdir_shuffled')}
        ctx.faults_from(fired)
        ctx.note(res.status, res.err, out, repr(res.exc), sorted(fired))
        if res.exc is not None:
            raise Violation('exception:%s' % type(res.exc).__name__,
                            repr(res.exc))
        left = observe.left_open()
        if not fired:
            check(res.status == (0 if error is None else 1),
                  'status-without-fault', res.status, res.err)
            # If the input can't be opened, there need not be any report.
            check(out == (complete if error is None else whole[-1]) or
                  out == b'' and error is not None and not parts,
                  'report-without-fault', out[-500:])
            continue
        ctx.trivial = False
        check(res.status == 1, 'fault-not-reported', fired, res.status,
              t['faults'])
        messages = [os.strerror(ERRNO[k.split(':')[1]]) for k in fired]
        check(res.err.startswith('httpolice: ') and
              any(m in res.err for m in messages), 'wrong-error-message',
              res.err, fired)
        check(res.err.count('\n') <= 1 or 'extra' in plan,
              'error-not-one-line', res.err)
        if out == b'':
            k = 0
        else:
            # An exchange may leave no trace in the report,
            # so there may be several that fit.
            ks = [k for k, w in enumerate(whole) if w == out]
            check(ks, 'not-a-prefix-of-whole-exchanges', out[-800:],
                  t['faults'])
            k = ks[-1]
        check(not left, 'file-left-open', left)
        ctx.state(fmt, sorted(fired), (k * 4) // max(1, len(parts)))
        ctx.probe('exchanges reported before the fault', k)
        if k and k == len(parts):
            ctx.probe('fault after the last exchange')
