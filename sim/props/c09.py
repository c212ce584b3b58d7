"""C09: what was checked before never changes the result of a check."""

import gc

from sim import capture, observe, traffic
from sim.clock import CLOCK
from sim.runner import check, forked


ID = 'C09'
RUNS = {'quick': 450, 'thorough': 20000}
BATCH = 1
RULE = ('A run computes, for each of a few target exchanges, the notices and '
        'both reports in a pristine process of its own; then one process '
        'lives through a generated history: other exchanges (random ones, '
        'mutated relatives of the targets, the same values under other '
        'header names or in the other message, fillers with many unique '
        'values that fill and evict caches, whole captures through the '
        'command line, abandoned generators, checks that stop at an input '
        'error), reported or not, silenced or not, kept alive or freed, with '
        'the targets checked and reported again and again in between, in '
        'any order. Every time, they must give what they gave in their '
        'pristine process. Non-trivial if a target was checked after '
        'something else.')
REAL = ['the whole of httpolice', 'lxml, dominate, bitstring, defusedxml']
STUB = ['clock', 'file system (for captures in the history)',
        'size of the parser cache (lowered in some runs)']
STATE = 'distinct (history so far, target) situations by kinds of steps'
STEP = 'target checks compared'
SHRINK_LISTS = ('targets', 'history', 'headers', 'trailers', 'resps',
                'silence')
SHRINK_STRS = ('body',)
SHRINK_INTS = ('n',)
SHRINK_OPTS = ('memo',)

setup = capture.setup

REPORTS = [['text'], ['html'], ['text', 'html'], ['html', 'text'],
           ['text', 'html', 'text', 'html'], ['html', 'html'], []]
SAME_VALUE = ['Accept', 'Accept-Charset', 'Accept-Encoding',
              'Accept-Language', 'Cache-Control', 'Pragma', 'Content-Type',
              'Content-Language', 'Content-Encoding', 'Vary', 'Via',
              'Connection', 'Upgrade', 'TE', 'Trailer', 'Server',
              'User-Agent', 'ETag', 'If-Match', 'If-None-Match', 'Expect',
              'Date', 'Expires', 'Last-Modified', 'Allow', 'Age',
              'Retry-After', 'Warning', 'Link', 'Location',
              'Content-Location', 'Referer', 'Host', 'Set-Cookie', 'Cookie',
              'WWW-Authenticate', 'Proxy-Authenticate', 'Authorization',
              'Prefer', 'Preference-Applied', 'Forwarded', 'Alt-Svc',
              'Content-Disposition', 'Range', 'Content-Range', 'Accept-Patch',
              'Accept-Post', 'Strict-Transport-Security', 'If-Range',
              'Max-Forwards', 'X-Foo', 'HTTPolice-Silence',
              'Content-Length', 'Transfer-Encoding', 'Accept-Ranges']


def messages(e):
    return ([e['req']] if e['req'] is not None else []) + e['resps']


def cross(r, p, e):
    """The same text as different parts of the grammar."""
    req = e['req']
    how = r.randrange(5)
    every = [h for m in messages(e) for h in m['headers']]
    m = r.pick(messages(e))
    if how == 0:
        m['headers'].append(['Access-Control-Request-Method', req['method']])
    elif how == 1:
        m['headers'].append(['Access-Control-Request-Method',
                             r.pick(p.methods + ['GET', 'POST'])])
        if r.chance(0.5):
            req['method'] = m['headers'][-1][1]
    elif how == 2:
        types = [h[1] for h in every if h[0].lower() == 'content-type'] or \
            ['text/html']
        m['headers'].append(['Link', '</x>; rel="%s"; type="%s"' % (
            r.pick(['next', 'foo bar', 'http://a/']),
            r.pick(types).replace('"', '\\"'))])
    elif how == 3 and every:
        m['headers'].append([r.pick(['Connection', 'Trailer', 'Vary',
                                     'Access-Control-Request-Headers']),
                             r.pick(every)[0]])
    elif how == 4 and every:
        value = r.pick(every)[1]
        if r.chance(0.5):
            req['method'] = value
        else:
            m['headers'].append([value or 'X', 'x'])


def relative(r, e):
    """An exchange with much in common with this one."""
    e = traffic.clone(e)
    p = traffic.pool()
    for _ in range(r.randrange(1, 5)):
        ms = messages(e)
        if not ms:
            break
        m = r.pick(ms)
        how = r.randrange(11)
        hs = m['headers']
        if how == 0:
            traffic.mutate_message(r, p, m, m is e['req'], 1)
        elif how in (1, 2) and hs:
            h = r.pick(hs)
            hs.append([r.pick(SAME_VALUE), h[1]])
        elif how == 3 and hs:
            h = r.pick(hs)
            h[0] = r.pick(SAME_VALUE)
        elif how == 4 and hs:
            h = r.pick(hs)
            r.pick(ms)['headers'].append(list(h))
        elif how == 5 and hs:
            h = r.pick(hs)
            h[1] = r.pick([str.lower, str.upper, str.title])(h[1]) \
                if r.chance(0.5) else traffic._tweak(r, h[1])
        elif how == 6:
            if m is e['req']:
                m['method'] = r.pick(p.methods)
            else:
                m['status'] = r.pick(p.statuses)
        elif how == 7:
            r.shuffle(hs)
        elif how in (9, 10) and e['req'] is not None:
            cross(r, p, e)
        elif how == 8:
            m['version'] = r.pick(traffic.VERSIONS)
            if r.chance(0.5):
                e['scheme'] = r.pick(['http', 'https', None])
    return e


def gen(r, i, tier):
    targets = []
    for _ in range(r.randrange(1, 5)):
        e = traffic.gen(r, mutate=r.chance(0.85))
        targets.append(relative(r, targets[-1])
                       if targets and r.chance(0.3) else e)
    history = []
    n = r.weighted([(3, r.randrange(1, 6)), (3, r.randrange(5, 20)),
                    (1, r.randrange(20, 60))])
    fills = r.chance(0.6)
    for _ in range(n):
        k = r.randrange(len(targets))
        kind = r.weighted([(3, 'relative'), (2, 'random'), (3, 'target'),
                           (1.5 if fills else 0.1, 'filler'),
                           (0.15, 'capture'), (0.2, 'gc'), (0.4, 'again'),
                           (0.3, 'error'), (0.3, 'swap')])
        op = {'op': kind}
        if kind in ('relative', 'random', 'swap'):
            if kind == 'random':
                e = traffic.gen(r)
            elif kind == 'relative':
                e = relative(r, targets[k])
            else:
                # Request of one, responses of another.
                a, b_ = traffic.clone(targets[k]), traffic.clone(
                    r.pick(targets))
                e = {'scheme': a['scheme'], 'req': a['req'],
                     'resps': b_['resps']}
            op.update({'exchange': e, 'reports': r.pick(REPORTS),
                       'silence': [r.pick([1110, 1038, 1025, 1277, 1070])]
                       if r.chance(0.2) else [],
                       'keep': r.chance(0.3)})
            if not messages(e):
                continue
        elif kind == 'target':
            op.update({'k': k, 'reports': r.pick(REPORTS[:-1]),
                       'keep': r.chance(0.4)})
        elif kind == 'again':
            op.update({'reports': r.pick(REPORTS[:-1])})
        elif kind == 'filler':
            op.update({'n': r.pick([1, 1, 2, 5, 12]),
                       'seed': r.randrange(10 ** 6),
                       'reports': r.pick([[], [], ['html']])})
        elif kind == 'capture':
            op['capture'] = capture.gen(r, i, tier)
            op['o'] = r.pick(['text', 'html'])
        elif kind == 'error':
            op['k'] = k
            op['how'] = r.pick(['sink', 'abandon', 'iterable'])
            op['after'] = r.randrange(3)
        history.append(op)
    for k in range(len(targets)):
        history.append({'op': 'target', 'k': k, 'keep': False,
                        'reports': ['text', 'html', 'text']})
    plan = {'targets': targets, 'history': history}
    if r.chance(0.25):
        plan['memo'] = r.pick([1, 2, 3, 7, 20, 60])
    return plan


def valid(plan):
    if not plan['history']:
        return False
    for e in plan['targets'] + [op['exchange'] for op in plan['history']
                                if 'exchange' in op]:
        if not messages(e):
            return False
    return all(op.get('k', 0) < len(plan['targets'])
               for op in plan['history']) and all(
        capture.valid(op['capture']) for op in plan['history']
        if 'capture' in op)


def filler(seed, n):
    """Cheap to check, and full of values never seen before."""
    out = []
    for i in range(n):
        x = seed * 100 + i
        req = [['Host', 'h%d' % x], ['If-None-Match', '"n%d"' % x],
               ['If-Match', '"m%d"' % x], ['Range', 'bytes=%d-' % x],
               ['Max-Forwards', '%d' % x], ['Referer', 'http://r/%d' % x],
               ['From', 'a%d@b' % x], ['User-Agent', 'u%d' % x],
               ['Accept', 't/t%d' % x], ['Accept-Language', 'x-a%d' % x],
               ['Accept-Encoding', 'e%d' % x], ['TE', 't%d' % x],
               ['Accept-Charset', 'c%d' % x], ['Expect', 'x%d' % x],
               ['Prefer', 'p%d' % x], ['Via', '1.1 v%d' % x],
               ['Upgrade', 'U%d' % x], ['Connection', 'n%d' % x],
               ['Cache-Control', 'max-age=%d' % x],
               ['If-Range', '"i%d"' % x], ['Content-Type', 'm/m%d' % x]]
        resp = [['ETag', '"t%d"' % x], ['Age', '%d' % x],
                ['Server', 's%d' % x], ['Vary', 'v%d' % x],
                ['Allow', 'A%d' % x], ['Retry-After', '%d' % x],
                ['Content-Type', 'n/n%d' % x],
                ['Content-Language', 'x-b%d' % x],
                ['Content-Encoding', 'f%d' % x], ['Via', '1.1 w%d' % x],
                ['Cache-Control', 's-maxage=%d' % x],
                ['Accept-Ranges', 'r%d' % x],
                ['Warning', '199 w%d "x"' % x],
                ['Link', '<l%d>; rel=next' % x],
                ['Location', 'http://l/%d' % x],
                ['Content-Location', '/c%d' % x],
                ['WWW-Authenticate', 'S%d a=b' % x],
                ['Content-Disposition', 'd%d' % x],
                ['Strict-Transport-Security', 'max-age=%d' % x]]
        out.append({'scheme': 'http', 'req': {
            'method': 'M%d' % x, 'target': '/%d' % x, 'version': 'HTTP/1.1',
            'headers': req, 'body': '', 'trailers': []}, 'resps': [{
                'status': 200, 'reason': 'R%d' % x, 'version': 'HTTP/1.1',
                'headers': resp, 'body': 'x', 'trailers': []}]})
    return out


def report(kind, exch):
    return observe.text_report([exch]) if kind == 'text' \
        else observe.html_report([exch])


def baseline(spec):
    import httpolice

    def func():
        CLOCK.reset(1500000000)
        exch = traffic.to_api(spec)
        httpolice.check_exchange(exch)
        ids = observe.notice_ids(exch)
        views = observe.views(traffic.to_api(spec))
        return {'ids': ids, 'views': views, 'text': report('text', exch),
                'html': report('html', exch)}
    (result, died) = forked(func)
    check(died is None, 'pristine-check-died', died, spec)
    return result


def diff(a, b):
    """Where two reports part."""
    if isinstance(a, bytes):
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                 min(len(a), len(b)))
        return (n, a[max(0, n - 120):n + 120], b[max(0, n - 120):n + 120])
    return (a, b)


class Boom(Exception):
    pass


class BadSink:

    def __init__(self, after):
        self.after = after

    def write(self, data):
        self.after -= 1
        if self.after < 0:
            raise Boom()
        return len(data)

    def flush(self):
        pass


def run_error(op, spec):
    """Uses of the library that end early, by no fault of its own."""
    import httpolice
    exch = traffic.to_api(spec)
    try:
        if op['how'] == 'sink':
            httpolice.check_exchange(exch)
            httpolice.html_report([exch], BadSink(op['after']))
        elif op['how'] == 'iterable':
            def producer():
                httpolice.check_exchange(exch)
                yield exch
                raise Boom()
            httpolice.html_report(producer(), BadSink(1000))
        else:
            g = iter([exch])
            httpolice.check_exchange(next(g))
            del g
    except Boom:
        pass


def run(plan, ctx):
    import httpolice
    from httpolice import parse
    CLOCK.reset(1500000000)
    expected = [baseline(e) for e in plan['targets']]
    ctx.note(expected)
    if 'memo' in plan and hasattr(parse, 'MEMO_LIMIT'):
        parse.MEMO_LIMIT = plan['memo']
        ctx.fault('tiny parser cache')

    kept = []
    past = []

    def reports(exch, kinds, want, ids):
        for kind in kinds:
            got = report(kind, exch)
            if want is not None:
                check(got == want[kind], 'report-differs', kind, past[-5:],
                      diff(want[kind], got))
                ctx.steps += 1
            check(observe.notice_ids(exch) == ids, 'report-changes-exchange',
                  kind, ids, observe.notice_ids(exch))

    for op in plan['history']:
        kind = op['op']
        if kind in ('relative', 'random', 'swap'):
            exch = traffic.to_api(op['exchange'])
            httpolice.check_exchange(exch)
            if op['silence']:
                exch.silence(op['silence'])
            reports(exch, op['reports'], None, observe.notice_ids(exch))
            if op['keep']:
                kept.append((exch, observe.notice_ids(exch), None))
        elif kind == 'target':
            exch = traffic.to_api(plan['targets'][op['k']])
            httpolice.check_exchange(exch)
            ids = observe.notice_ids(exch)
            want = expected[op['k']]
            check(ids == want['ids'], 'notices-differ', past[-5:],
                  want['ids'], ids)
            ctx.steps += 1
            reports(exch, op['reports'], want, ids)
            views = observe.views(exch)
            check(views == want['views'], 'exchange-changed', past[-5:],
                  [x for x in zip(want['views'], views) if x[0] != x[1]][:3])
            check(observe.notice_ids(exch) == ids, 'notices-not-final', ids,
                  observe.notice_ids(exch))
            if op['keep']:
                kept.append((exch, ids, want))
            ctx.state(tuple(past[-4:]), op['reports'], op['k'])
        elif kind == 'again':
            for (exch, ids, want) in kept[-6:]:
                check(observe.notice_ids(exch) == ids,
                      'old-exchange-changes', past[-5:], ids)
                reports(exch, op['reports'], want, ids)
        elif kind == 'filler':
            for spec in filler(op['seed'], op['n']):
                exch = traffic.to_api(spec)
                httpolice.check_exchange(exch)
                for k in op['reports']:
                    report(k, exch)
            ctx.fault('cache filled', op['n'])
        elif kind == 'capture':
            capture.reset(op['capture'])
            paths = capture.place(op['capture'], ctx)
            observe.run_cli(['-i', op['capture']['format'], '-o', op['o']] +
                            paths)
            CLOCK.reset(1500000000)
            ctx.fault('capture processed')
        elif kind == 'gc':
            del kept[:-2]
            gc.collect()
            ctx.fault('exchanges freed')
        elif kind == 'error':
            run_error(op, plan['targets'][op['k']])
            ctx.fault('report ended early: %s' % op['how'])
        past.append(kind)
    # The last checks have been of the targets themselves.
    ctx.trivial = len(past) <= 1
    ctx.probe('history', len(past))
    ctx.note(past)
