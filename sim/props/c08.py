"""C08: the same input always gives the same report."""

from sim import again, capture, observe, traffic
from sim.props import c07
from sim.runner import check


ID = 'C08'
RUNS = {'quick': 50, 'thorough': 6000}
BATCH = 1
RULE = ('A run generates some inputs (whole captures and HAR files, damaged '
        'and not, in directories or single files, for the command line; '
        'exchanges for the Python API), and some environments: seed of hash '
        'randomisation, time zone, locale (real ones, compiled for the '
        'purpose), order of directory listings, layout of the heap and the '
        'stack, allocator, timing of garbage collection. For every '
        'environment, a new interpreter is started, without address space '
        'randomisation, and processes every input in a process of its own '
        'forked from there. Everything written and the exit status must be '
        'the same in all environments, up to the numbering of references '
        'in HTML and the escaping of characters that the encoding of '
        'standard error lacks. Non-trivial if there was any output.')
REAL = ['the whole of httpolice from main() down', 'lxml, dominate, '
        'bitstring, defusedxml', 'the interpreter, its allocator, hashing, '
        'locales and time zones']
STUB = ['clock', 'file system with the inputs']
STATE = 'distinct (kind of input, exit status, set of notices) triples'
STEP = 'outputs compared'
SHRINK_LISTS = capture.SHRINK_LISTS + ('inputs', 'confs', 'headers',
                                       'trailers', 'resps', 'heap', 'more')
SHRINK_STRS = ('body',)
SHRINK_INTS = ('objects', 'stack')
SHRINK_OPTS = ('gc', 'setlocale', 'TZ', 'LC_ALL', 'LANG', 'PYTHONMALLOC',
               'PYTHONUTF8', 'PYTHONCOERCECLOCALE', 'order', 'fail_on')


def setup():
    capture.setup()
    again.prepare()


ZONES = ['UTC', 'XXX-14', 'XXX+12:30', 'EST5EDT,M3.2.0,M11.1.0',
         'IST-5:30', 'America/New_York', 'Asia/Kathmandu', 'Europe/London',
         ':nonsense']


def gen_conf(r):
    env = {'PYTHONHASHSEED': str(r.pick([0, 1, r.randrange(1 << 32)]))}
    if r.chance(0.8):
        env['TZ'] = r.pick(ZONES)
    env.update(r.pick([
        {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'C'}, {}, {'LANG': 'xx_YY.UTF-8'},
        {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
        {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
        {'LC_ALL': 'de_DE.ISO-8859-1'}, {'LC_ALL': 'tr_TR.UTF-8'},
        {'LC_ALL': 'ja_JP.EUC-JP'}]))
    conf = {'env': env, 'order': r.randrange(1 << 30)}
    if r.chance(0.4):
        conf['setlocale'] = True
    if r.chance(0.3):
        env['PYTHONMALLOC'] = 'malloc'
    if r.chance(0.6):
        conf['heap'] = [r.randrange(1, 1 << r.pick([5, 9, 16, 20]))
                        for _ in range(r.randrange(1, 20))]
        conf['objects'] = r.randrange(1, 5000)
        conf['stack'] = r.randrange(1, 5000)
    if r.chance(0.6):
        conf['gc'] = r.pick([None, [1, 1, 1], [10, 1, 1], [50, 2, 2],
                             [100000, 10, 10]])
    return conf


def gen(r, i, tier):
    inputs = []
    for k in range(r.randrange(4, 9)):
        q = r.stream('input%d' % k)
        kind = q.weighted([(3, 'capture'), (1, 'merge'), (4, 'api')])
        if kind == 'merge':
            # As in C07: what matters is the order of what is merged.
            m = c07.gen(q, i, tier)
            plan = {'merge': m, 'format': m['format'], 'output': 'text',
                    'io': m['io']}
        elif kind == 'capture':
            plan = capture.gen(q, i, tier, damaged=q.chance(0.6))
            if q.chance(0.2):
                plan['fail_on'] = q.pick(['comment', 'error', 'debug'])
        else:
            plan = {'exchange': traffic.gen(q),
                    'reports': q.pick([['text'], ['text', 'html'],
                                       ['html']])}
            if q.chance(0.5):
                plan['more'] = []
                for _ in range(q.randrange(4, 12)):
                    e = traffic.gen(q)
                    for m in [e['req']] + e['resps']:
                        if m is not None:
                            traffic.plural(q, m, m is e['req'])
                    plan['more'].append(e)
            plan['now'] = q.pick([1500000000, 1500000000, 1450000000, 0])
        inputs.append(plan)
    return {'inputs': inputs,
            'confs': [gen_conf(r.stream('conf%d' % k))
                      for k in range(r.pick([3, 3, 4]))]}


def valid(plan):
    return bool(plan['inputs']) and len(plan['confs']) > 1 and all(
        'PYTHONHASHSEED' in conf.get('env', {}) for conf in plan['confs']) \
        and all(all(e['req'] or e['resps']
                    for e in [x['exchange']] + x.get('more', []))
                if 'exchange' in x else c07.valid(x['merge'])
                if 'merge' in x else capture.valid(x)
                for x in plan['inputs'])


def normal(res, encoding):
    """`encoding` is the one that the other standard error had."""
    res = dict(res)
    for k in ('out', 'html'):
        if k in res:
            res[k] = observe.normal_html(res[k])
    if 'err' in res and encoding is not None:
        # Only possible in this direction: characters lost are lost.
        res['err'] = res['err'].decode(res.pop('encoding')) \
            .encode(encoding, 'backslashreplace')
    return res


def first_difference(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        for k in range(min(len(a), len(b))):
            if a[k] != b[k]:
                break
        else:
            k = min(len(a), len(b))
        return (k, a[max(0, k - 60):k + 60], b[max(0, k - 60):k + 60])
    return (a, b)


def run(plan, ctx):
    # What is compared to must be able to represent everything.
    base_conf = {'env': {'PYTHONHASHSEED': '0', 'TZ': 'UTC',
                         'LC_ALL': 'C.UTF-8'}}
    confs = [base_conf] + plan['confs']
    base = None
    ctx.trivial = True
    for conf in confs:
        out = again.launch(conf, plan['inputs'])
        env = conf['env']
        if base is None:
            base = out
        else:
            ctx.fault('hash seed')
            ctx.fault('order of listings')
            for (k, name) in [('TZ', 'time zone'), ('LC_ALL', 'locale'),
                              ('PYTHONMALLOC', 'allocator')]:
                if k in env:
                    ctx.fault(name)
            for (k, name) in [('heap', 'heap layout'),
                              ('gc', 'garbage collection timing'),
                              ('setlocale', 'locale set in the process')]:
                if k in conf:
                    ctx.fault(name)
        for k, (x, y) in enumerate(zip(base, out)):
            (a, died_a) = x
            (b, died_b) = y
            check(died_a is None and died_b is None, 'died', k, died_a,
                  died_b)
            if 'err' in a:
                encoding = b['encoding']
                ctx.probe('standard error in ' + encoding)
                b = dict(b)
                del b['encoding']
                a = normal(a, encoding)
                b = normal(b, None)
            else:
                a = normal(a, None)
                b = normal(b, None)
            for field in sorted(a):
                check(a[field] == b[field], 'differs:' + field, k, conf,
                      first_difference(a[field], b[field]))
                ctx.steps += 1
            if conf is base_conf:
                if a.get('out') or 'text' in a or 'html' in a:
                    ctx.trivial = False
                ctx.note(k, sorted(a.items()))
                ctx.state(plan['inputs'][k].get('format'), a.get('status'),
                          a.get('ids') or sorted(set(
                              l[:6] for l in a.get('out', b'').split(b'\n')
                              if l[2:6].isdigit())))
                if a.get('err'):
                    ctx.probe('something on standard error')
