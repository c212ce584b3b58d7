"""C17: report, HTML, API and exit status agree; silencing is exact."""

import re

import lxml.html

from sim import capture, observe, traffic
from sim.clock import CLOCK
from sim.runner import check
from sim.simfs import FS


ID = 'C17'
RUNS = {'quick': 6000, 'thorough': 150000}
BATCH = 8
RULE = ('A run checks generated exchanges through the Python API, and '
        'generated captures (intact or damaged, any format, files delivered '
        'by short reads) through the API and the command line under several '
        '--fail-on and -s options; it parses the text and HTML reports and '
        'compares them with the API, the exit status with the severities, '
        'and, with a generated history of silencing before and after '
        'checking (options, calls, headers), everything with the unsilenced '
        'check minus what was silenced. Non-trivial if a notice was silenced '
        'or the exit status depended on a threshold.')
REAL = ['the whole of httpolice, from command-line arguments to report',
        'lxml, dominate']
STUB = ['file system', 'standard output', 'clock',
        'HTTP peers and capture software (generators)',
        'reader of the HTML report (lxml.html)']
STATE = 'distinct (how silenced, IDs silenced, severities left) triples'
STEP = 'reports compared'
SHRINK_LISTS = capture.SHRINK_LISTS + (
    'exchanges', 'headers', 'trailers', 'resps', 'before', 'after', 'silence',
    'ids', 'clis')
SHRINK_INTS = capture.SHRINK_INTS
SHRINK_STRS = capture.SHRINK_STRS + ('body',)
SHRINK_OPTS = ('io', 'now')

setup = capture.setup

LEVELS = ['debug', 'comment', 'error']
# Some of the most frequent notices; and some that do not exist at all.
COMMON = [1010, 1013, 1018, 1022, 1025, 1026, 1038, 1041, 1070, 1073, 1089,
          1095, 1109, 1110, 1123, 1168, 1178, 1220, 1227, 1276, 1277, 1278,
          1279, 1000, 1004, 1006, 1007, 1008, 1277, 1294, 1, 0, 99999]
FORMS = ['list', 'tuple', 'set', 'iter', 'generator']
BAD_SILENCE = ['x', '1110 foo', '1110;1122', 'resp', '-1110', '1110 resp x']


def gen_ids(r):
    """Numbers below 1 pick one of the notices that are really raised."""
    return [r.pick(COMMON) if r.chance(0.25) else round(r.random(), 3)
            for _ in range(r.weighted([(4, 1), (3, 2), (2, 5), (0.5, 0)]))]


def gen_silence_header(r):
    if r.chance(0.15):
        return {'bad': r.pick(BAD_SILENCE)}
    ids = gen_ids(r) or [0.5]
    return {'ids': ids, 'resp': [r.chance(0.5) for _ in ids],
            'sep': r.pick([', ', ',', ' , ', ',, ', ', ,']),
            'word': r.pick([' resp', ' resp', '  resp', '\tresp'])}


def gen_call(r, n_resps, has_req):
    on = ['exch'] * 3 + (['req'] if has_req else []) + \
        list(range(n_resps))
    return {'on': r.pick(on), 'ids': gen_ids(r), 'form': r.pick(FORMS)}


def gen(r, i, tier):
    if r.chance(0.35):
        plan = capture.gen(r, i, tier)
        plan['run'] = 'cli'
        plan['clis'] = []
        for _ in range(r.pick([2, 2, 3])):
            plan['clis'].append({
                'o': r.pick(['text', 'html']),
                'fail_on': r.pick([None] + LEVELS),
                'ids': gen_ids(r) if r.chance(0.5) else [],
                'long': r.chance(0.3)})
        return plan
    e = traffic.gen(r, mutate=r.chance(0.9))
    msgs = ([e['req']] if e['req'] else []) + e['resps']
    for m in msgs:
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'httpolice-silence']
        m['trailers'] = [h for h in m['trailers']
                         if h[0].lower() != 'httpolice-silence']
        if r.chance(0.3):
            m['silence'] = [gen_silence_header(r)
                            for _ in range(r.pick([1, 1, 2]))]
            if len(m['silence']) > 1:
                # Equal entries would make for equal notices, which merge.
                for x in m['silence']:
                    if 'sep' in x:
                        x['sep'], x['word'] = ', ', ' resp'
    return {'run': 'api', 'exchange': e,
            'before': [gen_call(r, len(e['resps']), e['req'] is not None)
                       for _ in range(r.pick([0, 0, 1, 2]))],
            'after': [gen_call(r, len(e['resps']), e['req'] is not None)
                      for _ in range(r.pick([0, 0, 1, 2]))]}


def valid(plan):
    if plan['run'] == 'cli':
        return bool(plan['clis']) and capture.valid(plan)
    e = plan['exchange']
    n = len(e['resps'])
    if e['req'] is None and not n:
        return False
    for c in plan['before'] + plan['after']:
        if c['on'] == 'req' and e['req'] is None:
            return False
        if isinstance(c['on'], int) and c['on'] >= n:
            return False
    return all(s.get('bad') or s['ids']
               for m in e['resps'] + ([e['req']] if e['req'] else [])
               for s in m.get('silence', []))


###############################################################################
# What is there to be seen. The model of an exchange is a list of parts,
# ``(kind, label, [(severity, id, title)...])``; `title` is only known from
# reports.


def api_view(exch):
    out = []
    if exch.request is not None:
        out.append(('req', (s(exch.request.method), s(exch.request.target)),
                    listing(exch.request)))
    for r in exch.responses:
        out.append(('resp', int(r.status), listing(r)))
    out.append(('box', None, listing(exch)))
    return out


def s(x):
    return str.__str__(x)


def listing(obj):
    for c in obj.notices:
        check(c.severity.name in LEVELS, 'severity', c.severity)
    return [(c.severity.name, c.id) for c in obj.notices]


def without(view, silenced):
    """`silenced(part number) -> IDs`"""
    return [(kind, label, [x for x in ns if x[1] not in silenced(k)])
            for k, (kind, label, ns) in enumerate(view)]


def plain(x):
    return all(' ' <= c <= '~' for c in x)


LETTERS = {'E': 'error', 'C': 'comment', 'D': 'debug'}
_LINE = re.compile('([ECD]) ([0-9]{4}) (.*)')


def check_text(data, views, what):
    """The text report says what `views` say. Returns titles."""
    lines = data.decode('utf-8').split('\n')
    check(lines.pop() == '', 'text-report-unfinished', what)
    titles = []
    pos = [0]

    def marker(text, exact):
        check(pos[0] < len(lines), 'text-report-short', what, text)
        line = lines[pos[0]]
        pos[0] += 1
        if len(text) > 70:
            exact = False
            text = text[:70]
        check(line == text if exact else line.startswith(text),
              'text-report-marker', what, line, text)

    def notices(ns):
        for x in ns:
            check(pos[0] < len(lines), 'text-report-short', what, x)
            m = _LINE.match(lines[pos[0]])
            check(m and LETTERS[m.group(1)] == x[0] and
                  int(m.group(2)) == x[1],
                  'text-report-notice', what, lines[pos[0]], x)
            titles.append(m.group(3))
            pos[0] += 1

    for view in views:
        if not any(ns for _, _, ns in view):
            continue
        first = view[0]
        if first[0] == 'req':
            text = '------------ request: '
            exact = plain(''.join(first[1]))
            if exact:
                text += ' '.join(first[1])
            marker(text, exact)
        elif first[0] == 'resp':
            marker('------------ unknown request', True)
        else:
            marker('------------', True)
        for kind, label, ns in view:
            if kind == 'resp' and ns:
                marker('------------ response: %d ' % label, False)
            notices(ns)
    check(pos[0] == len(lines), 'text-report-extra', what, lines[pos[0]:])
    return titles


def check_html(data, views, what):
    """The HTML report says what `views` say. Returns (titles, displays)."""
    doc = lxml.html.document_fromstring(data)
    divs = doc.xpath('//div[@class="exchange"]')
    views = [v for v in views if len(v) > 1 or v[0][2]]
    check(len(divs) == len(views), 'html-report-exchanges', what, len(divs),
          len(views))
    titles, displays = [], []

    def notices(elem, ns):
        found = [] if elem is None else list(elem)
        got = [(x.get('class'), x.find('h3/span').text.strip())
               for x in found]
        check(got == [('notice ' + x[0], str(x[1])) for x in ns],
              'html-report-notices', what, got, ns)
        for x in found:
            titles.append(x.findall('h3/span')[1].text_content())

    for div, view in zip(divs, views):
        parts = [x for x in div if x.tag in ('section', 'div')]
        for kind, label, ns in view:
            if kind == 'box':
                box = [x for x in parts if x.tag == 'div']
                check(len(box) == bool(ns), 'html-report-box', what)
                notices(box[0] if box else None, ns)
                parts = [x for x in parts if x.tag != 'div']
                continue
            check(parts and parts[0].tag == 'section',
                  'html-report-message-missing', what, label)
            section = parts.pop(0)
            display = [x for x in section
                       if x.get('class') == 'message-display']
            check(len(display) == 1, 'html-report-display', what, label)
            spans = display[0].findall('h2/code/span')
            texts = [x.text_content().strip() for x in spans]
            if kind == 'req':
                if plain(''.join(label)):
                    check(texts[:2] == [x.strip() for x in label],
                          'html-report-request', what, texts, label)
            else:
                status = [x.text_content() for x in spans
                          if x.get('class') == 'StatusCode']
                check(len(status) == 1 and
                      status[0].split()[:1] == [str(label)],
                      'html-report-response', what, texts, label)
            complaints = [x for x in section
                          if x.get('class') == 'complaints']
            check(len(complaints) == bool(ns), 'html-report-notices', what,
                  label, ns)
            notices(complaints[0] if complaints else None, ns)
            displays.append(_display(display[0]))
        check(not parts, 'html-report-extra', what)
    return titles, displays


def _display(elem):
    for x in elem.iter():
        x.attrib.pop('data-ref-id', None)
        x.attrib.pop('data-ref-to', None)
    return lxml.html.tostring(elem, with_tail=False)


_WORD = re.compile('[0-9A-Za-z]+')


def words(title):
    return _WORD.findall(title)


def check_reports(views, text, html, what):
    """Returns the displays of messages in the HTML report."""
    a = check_text(text, views, what) if text is not None else None
    if html is None:
        return None
    (b_, displays) = check_html(html, views, what)
    if a is not None:
        for x, y in zip(a, b_):
            check(words(x) == words(y), 'titles-differ', what, x, y)
    return displays


###############################################################################


def resolve(ids, present):
    out = []
    for x in ids:
        if isinstance(x, int):
            out.append(x)
        elif present:
            out.append(present[int(x * len(present)) % len(present)])
    return out


def present_in(views):
    return sorted(set(n for v in views for _, _, ns in v for _, n in ns))


def shaped(ids, form):
    if form == 'generator':
        return (x for x in list(ids))
    return {'list': list, 'tuple': tuple, 'set': set, 'iter': iter}[form](ids)


def with_silence(e, present, real):
    """The specification with its HTTPolice-Silence headers; if not `real`,
    these do not silence anything that exists."""
    e = traffic.clone(e)
    effects = []
    for m in ([e['req']] if e['req'] else []) + e['resps']:
        effect = (set(), set())
        for h in m.get('silence', []):
            if 'bad' in h:
                value = h['bad']
            else:
                ids = [x for y in h['ids'] for x in resolve([y], present) or
                       [1]]
                items = []
                for n, resp in zip(ids, h['resp']):
                    effect[1 if resp else 0].add(n)
                    items.append('%d%s' % (n if real else 2,
                                           h['word'] if resp else ''))
                value = h['sep'].join(items)
            m['headers'].insert(len(m['headers']) // 2,
                                ['HTTPolice-Silence', value])
        effects.append(effect)
    return e, effects


def run_api(plan, ctx):
    import httpolice
    e = plan['exchange']
    # Unsilenced.
    (spec, _) = with_silence(e, [], False)
    exch = traffic.to_api(spec)
    httpolice.check_exchange(exch)
    base = api_view(exch)
    displays = check_reports([base], observe.text_report([exch]),
                             observe.html_report([exch]), 'unsilenced')
    ctx.steps += 2
    present = present_in([base])
    ctx.trivial = True

    # Silenced.
    (spec, effects) = with_silence(e, present, True)
    silenced = [set() for _ in base]
    has_req = e['req'] is not None
    if has_req:
        for k in range(len(e['resps'])):
            silenced[k + 1] |= effects[0][1]
        silenced[0] |= effects[0][0]
    for k in range(len(e['resps'])):
        silenced[k + has_req] |= effects[k + has_req][0] | \
            effects[k + has_req][1]
    exch = traffic.to_api(spec)

    def apply(calls):
        for c in calls:
            ids = resolve(c['ids'], present)
            if c['on'] == 'exch':
                target = exch
                for x in silenced:
                    x.update(ids)
            elif c['on'] == 'req':
                target = exch.request
                silenced[0].update(ids)
            else:
                target = exch.responses[c['on']]
                silenced[c['on'] + has_req].update(ids)
            target.silence(shaped(ids, c['form']))

    def expect():
        return without(base, lambda k: silenced[k])

    apply(plan['before'])
    httpolice.check_exchange(exch)
    view = api_view(exch)
    check(view == expect(), 'silenced-wrong', 'before', view, expect())
    if plan['after']:
        # The reports must not stand in the way of silencing.
        check_reports([view], observe.text_report([exch]), None, 'before')
        apply(plan['after'])
        view = api_view(exch)
        check(view == expect(), 'silenced-wrong', 'after', view, expect())
    d = check_reports([view], observe.text_report([exch]),
                      observe.html_report([exch]), 'silenced')
    if not any(m.get('silence') for m in e['resps'] +
               ([e['req']] if e['req'] else [])):
        check(d == displays, 'silencing-changes-messages', d, displays)
    ctx.steps += 2
    removed = sum(len(a[2]) for a in base) - sum(len(a[2]) for a in view)
    if removed:
        ctx.trivial = False
        ctx.probe('notices silenced', removed)
    how = (bool(plan['before']), bool(plan['after']), any(
        a or b_ for a, b_ in effects))
    ctx.state(how, sorted(set().union(*silenced) & set(present))[:3],
              sorted(set(x[0] for _, _, ns in view for x in ns)))
    ctx.note(base, view)


def run_cli(plan, ctx):
    import httpolice
    from httpolice import inputs
    capture.reset(plan)
    paths = capture.place(plan, ctx)
    fmt = plan['format']
    views, error = [], None
    try:
        for e in inputs.formats[fmt](paths):
            httpolice.check_exchange(e)
            views.append(api_view(e))
    except (inputs.InputError, EnvironmentError) as e:
        error = e
    present = present_in(views)
    ctx.trivial = True
    displays = None
    for cli in plan['clis']:
        ids = resolve(cli['ids'], present)
        args = ['-i', fmt, '-o', cli['o']]
        for n in ids:
            args += ['--silence' if cli['long'] else '-s', '%d' % n]
        if cli['fail_on']:
            args += ['--fail-on', cli['fail_on']]
        now = without_all(views, set(ids))
        res = observe.run_cli(args + paths)
        check(res.exc is None, 'exception', repr(res.exc))
        ctx.steps += 1
        worst = max([LEVELS.index(x[0]) for v in now for _, _, ns in v
                     for x in ns] or [-1])
        if error is not None:
            check(res.status == 1 and res.err, 'status', args, res.status,
                  'input error', str(error))
            if cli['o'] == 'html':
                continue
        else:
            status = 0 if cli['fail_on'] is None or \
                worst < LEVELS.index(cli['fail_on']) else 1
            check(res.status == status, 'status', args, res.status, status,
                  now)
            check(not res.err, 'stderr', res.err)
            if cli['fail_on']:
                ctx.probe('fail-on %s: %d' % (cli['fail_on'], status))
                ctx.trivial = False
        if cli['o'] == 'text':
            check_reports(now, res.out, None, args)
        else:
            d = check_reports(now, None, res.out, args)
            check(displays is None or d == displays,
                  'silencing-changes-messages', args, d, displays)
            displays = d
        if now != views:
            ctx.trivial = False
            ctx.probe('notices silenced', sum(
                len(a[2]) for v in views for a in v) - sum(
                    len(a[2]) for v in now for a in v))
        ctx.state('cli', fmt, sorted(set(ids) & set(present))[:3], worst)
        ctx.note(res.status, res.key()[1:])
    ctx.faults_from(FS.fired)


def without_all(views, ids):
    return [without(v, lambda k: ids) for v in views]


def run(plan, ctx):
    CLOCK.reset()
    if plan['run'] == 'api':
        run_api(plan, ctx)
    else:
        run_cli(plan, ctx)
