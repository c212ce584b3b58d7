"""C15: clock-dependent notices follow the clock, and nothing else does."""

import datetime

from sim import observe, traffic
from sim.clock import CLOCK, EPOCH, set_zone
from sim.props import c07
from sim.runner import check


ID = 'C15'
RUNS = {'quick': 6500, 'thorough': 400000}
BATCH = 8
RULE = ('A run places the Dates, Ages and other dates of a few generated '
        'exchanges around a simulated clock (years 1-9998), checks each of '
        'them at several times of that clock, which may also jump at every '
        'reading, under several time zones, and compares 1109 and 1241 with '
        'the rule, and all other notices with each other. Non-trivial if a '
        'message had a valid Date.')
REAL = ['checks', 'header parsing', 'text report']
STUB = ['clock (datetime, time)', 'local time zone']
STATE = 'distinct (status, which side of the thresholds, notices) triples'
STEP = 'checks of an exchange'
SHRINK_LISTS = ('exchanges', 'headers', 'trailers', 'resps', 'jumps', 'times')
SHRINK_OPTS = ('dated', 'age')
SHRINK_STRS = ('body',)

DATED = ('date', 'age')
OTHER_DATES = ['Expires', 'Last-Modified', 'If-Modified-Since',
               'If-Unmodified-Since', 'Retry-After', 'Sunset',
               'Accept-Datetime']
# What the checks do about a response they think came from a cache.
CONSEQUENCES = frozenset([
    1166, 1168, 1169, 1170, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179,
    1180, 1181, 1182, 1202])
# Seconds, in multiples of 1/64 so that they are exact in any representation.
GRAIN = 64
EDGES = [0, 10, 30, -10, -30, 10 + 1 / 64., 10 - 1 / 64., 30 + 1 / 64.,
         30 - 1 / 64., 11, 9, 31, 29, 20, 3600, 3590, 3570, -3600, 19800,
         86400, 7 * 86400, 10 ** 7, -10 ** 7, 10 ** 9]
FIRST = -62135596800        # year 1
LAST = 253370764800         # year 9999
YEAR1900 = -2208988800
YEAR2000 = 946684800


def gen_clock(r):
    return r.weighted([
        (6, 1500000000), (2, r.randrange(0, 4 * 10 ** 9)),
        (1, r.randrange(FIRST + 100, LAST - 100)), (0.5, LAST - 1),
        (0.5, FIRST), (0.5, 951782400), (0.5, 2 ** 31 - 1),
        (1, r.randrange(YEAR1900, YEAR2000)), (0.5, YEAR2000 - 5)])


def clamp(t):
    return min(max(t, FIRST), LAST - 1 / 64.)


def gen_age(r):
    return r.weighted([
        (3, r.randrange(0, 60)), (2, 20), (2, 0), (1, 3600),
        (0.5, 2 ** 31), (0.5, 10 ** 14), (0.3, 10 ** 30), (0.3, 86400 * 365),
        (1, None)])


BAD_AGES = ['-1', 'x', '1.5', '1 0', '', '+5', '0x10']


def date_text(r, t):
    kind = r.weighted([(6, 'imf'), (2, 'asctime'), (2, 'rfc850')])
    if kind == 'rfc850':
        if not YEAR1900 <= t < YEAR2000:
            kind = 'imf'
        else:
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
            return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
                ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
                 'Saturday', 'Sunday'][d.weekday()],
                d.day, c07.MONTHS[d.month - 1], d.year % 100, d.hour,
                d.minute, d.second)
    return c07.date_str(t, kind, r)


def date_message(r, m, now, is_response):
    m['headers'] = [h for h in m['headers'] if h[0].lower() not in DATED and
                    h[0].lower() != 'httpolice-silence']
    m['trailers'] = [h for h in m['trailers'] if h[0].lower() not in DATED]
    age = None
    if is_response and r.chance(0.6):
        age = gen_age(r)
        if age is None:
            m['age'] = [r.pick(BAD_AGES), None]
        else:
            m['age'] = [('0' if r.chance(0.1) else '') + '%d' % age, age]
    if r.chance(0.85):
        if r.chance(0.08):
            m['dated'] = [r.pick(c07.BAD_DATES), None]
        else:
            t = now + int(r.pick(EDGES)) + r.pick([0, 0, 0, 1, -1])
            if age and r.chance(0.7):
                t -= age
            t = int(clamp(t))
            m['dated'] = [date_text(r, t), t]
    for _ in range(r.pick([0, 0, 0, 1, 2])):
        m['headers'].append([r.pick(OTHER_DATES), c07.date_str(
            int(clamp(now + int(r.pick(EDGES)))), 'imf', None)])
    if is_response and r.chance(0.2):
        m['headers'].append(['Warning', '%d - "x" "%s"' % (
            r.pick([110, 112, 113, 199, 214, 299]), c07.date_str(
                int(clamp(now + int(r.pick(EDGES)))), 'imf', None))])


def gen(r, i, tier):
    now = gen_clock(r)
    exchanges = []
    for _ in range(r.pick([1, 1, 2, 3])):
        e = traffic.gen(r, mutate=r.chance(0.8))
        if e['req'] is not None:
            date_message(r, e['req'], now, False)
        for m in e['resps']:
            date_message(r, m, now, True)
            if r.chance(0.1):
                m['status'] = r.pick([100, 102, 103, 103, 204, 304])
        exchanges.append(e)
    times = [now]
    for _ in range(r.randrange(1, 4)):
        times.append(clamp(now - r.pick(EDGES) + r.pick([0, 0, 0, 1, -1])))
    jumps = []
    if r.chance(0.25):
        jumps = [r.pick(EDGES) * r.pick([1, -1]) for _ in range(8)]
    return {'exchanges': exchanges, 'times': times, 'jumps': jumps,
            'created': clamp(now + r.pick(EDGES)),
            'zones': [r.pick([0, 3600, -3600, 19800, 50400, -43200, 10, -15])
                      for _ in times]}


def valid(plan):
    return bool(plan['times']) and all(
        e['req'] is not None or e['resps'] for e in plan['exchanges'])


def full_spec(e):
    e = traffic.clone(e)
    for m in ([e['req']] if e['req'] is not None else []) + e['resps']:
        for name, key in (('Date', 'dated'), ('Age', 'age')):
            if key in m:
                m['headers'].insert(len(m['headers']) // 2,
                                    [name, m[key][0]])
    return e


def verdicts(m, is_response, now):
    """What the rule says at this time (in seconds, exact)."""
    date = m.get('dated', [None, None])[1]
    age = m.get('age', [None, None])[1]
    v1109 = date is not None and date > now + 10
    v1241 = is_response and m['status'] != 103 and date is not None and \
        age is not None and date + age > now + 30
    return {1109: v1109, 1241: v1241}


def check_message(which, m, is_response, ids, readings, ctx):
    for notice in (1109, 1241):
        allowed = set(verdicts(m, is_response, t)[notice] for t in readings)
        got = ids.count(notice)
        check(got in (0, 1), 'twice', notice, which)
        check(bool(got) in allowed, 'wrong-%d' % notice, which,
              m.get('dated'), m.get('age'), m.get('status'), readings, got)
        if got:
            ctx.probe('notice %d' % notice)


def run(plan, ctx):
    import httpolice
    CLOCK.reset()
    dated = False
    try:
        for n, e in enumerate(plan['exchanges']):
            spec = full_spec(e)
            runs = []
            for t, zone in zip(plan['times'], plan['zones']):
                set_zone(zone)
                CLOCK.reset(plan['created'])
                exch = traffic.to_api(spec)
                CLOCK.set(t)
                readings = [t]
                jumps = list(plan['jumps'])

                def on_read(clock):
                    if jumps:
                        clock.set(clamp(clock.now + jumps.pop()))
                        ctx.fault('clock jump at a reading')
                    readings.append(clock.now)
                CLOCK.on_read = on_read
                httpolice.check_exchange(exch)
                CLOCK.on_read = None
                ids = observe.notice_ids(exch)
                ctx.steps += 1
                ctx.simtime += abs(t - plan['created'])
                ctx.fault('clock set')
                if zone:
                    ctx.fault('time zone other than UTC')
                if e['req'] is not None:
                    check_message((n, 'req'), e['req'], False, ids[0],
                                  readings, ctx)
                for k, m in enumerate(e['resps']):
                    check_message((n, k), m, True, ids[1][k], readings, ctx)
                runs.append((ids, exch))
            (ids0, exch0) = runs[0]
            report0 = observe.text_report([exch0])
            for t, (ids, exch) in zip(plan['times'][1:], runs[1:]):
                compare(ids0, ids, t)
                if ids == ids0:
                    check(observe.text_report([exch]) == report0,
                          'report-depends-on-time', n, t)
            for m in ([e['req']] if e['req'] else []) + e['resps']:
                if m.get('dated', [None, None])[1] is not None:
                    dated = True
            for k, m in enumerate(e['resps']):
                d, a = m.get('dated', [0, None])[1], m.get('age', [0, 0])[1]
                if d is not None:
                    ctx.state(m['status'], [
                        side(d - t - 10) + side(d + (a or 0) - t - 30)
                        for t in plan['times'][:2]], sorted(set(
                            ids0[1][k]) & CONSEQUENCES))
            ctx.note(n, [x[0] for x in runs])
    finally:
        CLOCK.on_read = None
        set_zone(0)
    ctx.trivial = not dated


def side(x):
    return '<' if x < 0 else '=' if x == 0 else '>'


def compare(a, b, t):
    def drop(xs, what):
        return [x for x in xs if x not in what]
    pairs = [(a[0] or [], b[0] or [])] + list(zip(a[1], b[1])) + \
        [(a[2], b[2])]
    for i, (x, y) in enumerate(pairs):
        what = set([1109, 1241])
        if (1241 in x) != (1241 in y):
            what |= CONSEQUENCES
        check(drop(x, what) == drop(y, what), 'other-notice-depends-on-time',
              i, x, y, t)
