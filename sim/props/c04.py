"""C04: no damaged input can crash or hang the tool."""

import encodings.aliases
import json

from sim import damage, observe, proto, traffic, work
from sim.proto import b, s
from sim.runner import check
from sim.simfs import FS, PREFIX
from sim.clock import CLOCK


ID = 'C04'
RUNS = {'quick': 13000, 'thorough': 900000}
BATCH = 24
RULE = ('A run lays out a realistic capture (from a corpus, or generated) in '
        'one of the seven input formats, damages it at the level of TCP '
        'segments, bytes, lines, header values, bodies, JSON structure or '
        'file names, and runs the real command-line tool on it in process '
        'with a text or HTML report. Non-trivial if the damage changed '
        'something; distinct runs are counted by the digest of all output.')
REAL = ['the whole of httpolice, from command-line arguments to report']
STUB = ['file system', 'standard output and error', 'clock',
        'HTTP peers and capture software (generators)']
STATE = 'distinct (format, exit status, set of notice IDs) outcomes'
STEP = 'runs of the command-line tool'
SHRINK_LISTS = ('conns', 'exchanges', 'resps', 'headers', 'trailers',
                'in_ops', 'out_ops', 'file_ops', 'ops', 'json_ops', 'extra', 'entries',
                'har_exchanges')
SHRINK_INTS = ('n',)
SHRINK_STRS = ('data', 'body')
SHRINK_OPTS = ('io', 'buffer', 'traceback')
CPU_LIMIT = 60


def setup():
    traffic.pool()


CODECS = sorted(set(encodings.aliases.aliases.values())) + [
    'idna', 'punycode', 'undefined', 'raw_unicode_escape', 'utf-8-sig',
    'unicode_escape', 'mbcs', 'oem', 'rot13', 'x' * 200, '\xff', 'utf\x00',
    '', ' ', '../../x', 'string', 'utf-8"', 'zlib', 'base64', 'quopri']

UNITS = [u'[', u'{"a":', u'(', u'((', u'a,', u',', u'"', u'\\', u';', u';a=b',
         u'9', u'0', u'<a>', u'a ', u' ', u'%', u'%41', u'%ff', u'\xff', u'=',
         u'&a=b', u'<!--', u'--foo\r\n', u'a/b,', u'bytes=0-1,', u'1.', u':',
         u'\t', u'a=', u'/', u'W/"x",', u'q=0.', u"utf-8''%e2", u'x-', u'-',
         u'é'.encode('utf-8').decode('iso-8859-1'), u'"\\"', u'*', u'(a)']

BODIES = [u'{"a": NaN}', u'\xef\xbb\xbf{}', u'{"\\ud800": 1}', u'[1e999999]',
          u'<?xml version="1.0" encoding="utf-7"?><a/>',
          u'<?xml version="1.0" encoding="foo"?><a/>',
          u'<?xml version="1.0" encoding="base64"?><a/>',
          u'<?xml version="1.0"?><!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>',
          u'<?xml version="1.0"?><!DOCTYPE a SYSTEM "file:///x"><a/>',
          u'<a xmlns:b="c"/>', u'\x00<\x00a\x00/\x00>', u'<a', u'\xff\xfe',
          u'--foo\r\n\r\n--foo--\r\n', u'--foo\r\nContent-Type: \xff\r\n',
          u'--foo\r\nContent-Disposition: form-data\r\n\r\nx\r\n--foo--',
          u'--foo\r\nContent-Transfer-Encoding: base64\r\n\r\n!!\r\n--foo--',
          u'a=b&&c;d=%zz', u'%', u'=&=', u'\x1f\x8b', u'\x1f\x8b\x08',
          u'x\x9c', u'\x0b\x02\x80', u'\u0000', u'true', u'"x"', u'']
TYPES = [u'application/json', u'application/problem+json', u'application/xml',
         u'text/xml', u'application/atom+xml', u'text/html', u'text/plain',
         u'application/x-www-form-urlencoded', u'multipart/form-data',
         u'multipart/form-data; boundary=foo', u'multipart/byteranges; '
         u'boundary="foo"', u'multipart/mixed; boundary=""', u'application/'
         u'json-patch+json', u'application/merge-patch+json', u'application/'
         u'problem+xml', u'message/http', u'image/svg+xml', u'text/event-'
         u'stream', u'application/octet-stream', u'*/*', u'text/\xe9',
         u'application/vnd.api+json', u'application/hal+json',
         u'application/soap+xml; charset=utf-16', u'multipart/form-data; '
         u'boundary=' + u'x' * 100, u'text/plain; charset*=utf-8\'\'x']

# Pieces of multipart bodies and of the parameters of their content types,
# which are given to the email package of the standard library.
PARTS = ['--foo\r\n', '--foo--\r\n', '\r\n', '\n', '\r', 'Content-Type: ',
         'multipart/mixed', 'message/rfc822', 'message/delivery-status',
         'message/external-body', 'text/plain', 'multipart/byteranges',
         'Content-Range: bytes 0-1/2', 'Content-Range: ', '; boundary=',
         '; boundary*=', '; boundary*0*=', '; charset*=', "utf-8''",
         "idna''", "punycode''", "undefined''", "unicode_escape''%5Cx",
         "utf-16''%FF", "rot13''", "\0''", "'", '"', '%FF', 'foo', '*0*',
         '*1', '*', ';', '=', ':', ' ', '\t', 'x', '--', '(', '<', '>', ',',
         'Content-Transfer-Encoding: ', 'base64', 'quoted-printable',
         'x-uuencode', 'begin 666 x\r\n', 'From ', 'MIME-Version: 1.0\r\n',
         '\xff', '\x85', '\x1c', '\xe2\x80\xa8', '9' * 5000]


DATES = [u'Fri, 31 Dec 9999 23:59:59 GMT', u'Mon, 01 Jan 0001 00:00:00 GMT',
         u'Thu, 30 Feb 2017 00:00:00 GMT', u'Fri, 14 Jul 2017 24:60:61 GMT',
         u'Sat, 00 Jan 0000 00:00:00 GMT', u'Friday, 31-Dec-99 23:59:59 GMT',
         u'Fri Jul  4 02:40:00 9999', u'Fri, 14 Jul 2017 02:40:60 GMT',
         u'Sun, 06 Nov 1994 08:49:37 GMT']
TARGETS = [u'http://[::1', u'http://[v1.x]:99999999999/', u'//', u'%', u'*',
           u'http://\xe9/', u'/?#', u'http://a@b:c/', u':80', u'[::]:80',
           u'/\x00', u'/' + u'%2f' * 50, u'urn:x', u'http:///', u'?']


def value(x):
    """Header values and bodies too long to be spelled out in a plan."""
    if isinstance(x, dict) and 'nest' in x:
        return '--b0\r\n'.replace('b0', 'foo') + ''.join(
            'Content-Type: multipart/mixed; boundary=b%d\r\n\r\n--b%d\r\n' %
            (i, i) for i in range(x['nest']))
    if isinstance(x, dict) and 'unit' in x:
        return x.get('pre', '') + x['unit'] * x['n'] + x.get('mid', '') + \
            x.get('post', '') * x.get('npost', x['n'])
    return x


def gen_long(r, n=None):
    unit = r.pick(UNITS)
    n = n or r.pick([1, 10, 100, 500, 900, 1000, 2000, 4000])
    spec = {'unit': unit, 'n': n, 'pre': r.pick(['', '', 'a', '"', '<a ',
                                                 'max-age=', 'bytes=', '('])}
    close = {'[': ']', '{"a":': '}', '(': ')', '((': '))', '<a>': '</a>'}
    if unit in close and r.chance(0.8):
        spec['post'] = close[unit]
        spec['mid'] = r.pick(['', '1'])
    return spec


def gen_headers(r, p, n):
    out = []
    for _ in range(n):
        how = r.randrange(6)
        name = r.pick(sorted(p.headers) +
                      [h[0] for h in traffic.EXTRA_HEADERS])
        if how == 0:
            spec = gen_long(r)
            # Earley parsing is not fast. Keep headers to what fits a line.
            spec['n'] = min(spec['n'], r.pick([3000, 3000, 8000]) //
                            len(spec['unit']))
            out.append([name, spec])
        elif how == 1:
            out.append(['Content-Type', '%s; charset=%s' % (
                r.pick(TYPES), r.pick(CODECS))])
        elif how == 2:
            out.append([r.pick(['Date', 'Expires', 'Last-Modified',
                                'If-Modified-Since', 'Retry-After', 'Warning',
                                'If-Range', 'Sunset']), r.pick(DATES)])
            out.append(['Age', r.pick(['0', '99999999999999999999', '1',
                                       '-0', '9' * 400])])
        elif how == 3:
            out.append(['Content-Encoding', r.pick(
                ['gzip', 'br', 'deflate', 'gzip, br', 'foo', 'gzip, gzip',
                 'x-gzip', ', ,', 'identity', 'aes128gcm', 'compress'])])
        elif how == 4:
            v = r.pick(p.headers.get(name.lower()) or
                       [h[1] for h in traffic.EXTRA_HEADERS])
            for _ in range(r.randrange(1, 4)):
                v = traffic._tweak(r, v)[:3000]
            out.append([name, v])
        else:
            out.append(list(r.pick(traffic.EXTRA_HEADERS)))
    return out


def gen_multipart(r, m):
    ctype = 'multipart/' + r.pick(['mixed', 'byteranges', 'form-data',
                                   'related', 'alternative'])
    n = r.pick([2, 20, 100, 250, 500, 1000, 3000])
    how = r.randrange(4)
    if how == 0:        # parts within parts
        m['body'] = {'unit': '--foo\r\nContent-Type: multipart/mixed; '
                             'boundary=foo\r\n\r\n', 'n': n}
        if r.chance(0.5):
            m['body'] = {'nest': n}
        ctype += '; boundary=foo'
    elif how == 1:      # messages within messages
        m['body'] = {'pre': '--foo\r\n', 'n': n,
                     'unit': 'Content-Type: message/rfc822\r\n\r\n'}
        ctype += '; boundary=foo'
    else:
        if how == 2:
            ctype += '; boundary=foo'
        else:
            ctype += ''.join(r.pick(PARTS) for _ in range(r.randrange(9)))
        m['body'] = ''.join(r.pick(PARTS) for _ in range(r.randrange(40)))
        if r.chance(0.5):
            m['body'] = '--foo\r\nContent-Type: ' + m['body']
    m['headers'] = [h for h in m['headers']
                    if h[0].lower() != 'content-type'] + \
        [['Content-Type', ctype.replace('\r', '').replace('\n', '')]]
    if r.chance(0.5) and 'status' in m:
        m['status'] = 206
        m['headers'].append(['Content-Range', 'bytes 0-1/2'])


def gen_big(r, p, m):
    """Things that are many or large, but take only linear time."""
    how = r.randrange(4)
    n = r.pick([300, 1000, 3000, 10000, 20000])
    name = r.pick(['X-', 'a', 'Foo-', 'Sec-'])
    if how == 0:        # headers with different names
        m['many'] = [name, n, r.pick(['', 'x', 'a, b', '"']), True]
    elif how == 1:      # entries of one header
        m['many'] = [r.pick(sorted(p.headers) + ['X-Foo']), n // 10,
                     r.pick(['x', '', 'a, b', 'a=b', '"x"']), False]
    elif how == 2:      # text
        m['body'] = {'unit': r.pick(['a', '+', 'ab ', '&#', '\x1b$B', '\xff',
                                     '+AGE-', '\\u', '=', 'xn--', '\0']),
                     'n': r.pick([1000, 30000, 300000, 1500000])}
        m['body']['n'] //= len(m['body']['unit'])
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'content-type'] + \
            [['Content-Type', '%s; charset=%s' % (r.pick(TYPES),
                                                  r.pick(CODECS))]]
    else:               # elements of a structure
        (u, post, ctype) = r.pick([
            ('[],', '', 'application/json'), ('"a":1,', '', 'text/json'),
            ('<a/>', '</x>', 'application/xml'),
            ('<a>', '', 'application/xml'),
            ('x="a" ', '', 'application/xml'),
            ('a=b&', '', 'application/x-www-form-urlencoded'),
            ('--foo\r\n\r\n', '', 'multipart/mixed; boundary=foo'),
            ('A: b\r\n', '', 'multipart/mixed; boundary=foo'),
            ('--foo\r\nContent-Range: bytes 0-1/2\r\n\r\n', '--foo--',
             'multipart/byteranges; boundary=foo')])
        m['body'] = {'unit': u, 'n': n, 'post': post, 'npost': 1,
                     'pre': {'<': '<x>', '[': '[', '"': '{', 'x': '<a ',
                             'A': '--foo\r\n'}.get(u[0], '')}
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'content-type'] + \
            [['Content-Type', ctype]]


def gen_nasty_message(r, p, m):
    if r.chance(0.15):
        return gen_multipart(r, m)
    if r.chance(0.03):
        return gen_big(r, p, m)
    if r.chance(0.6):
        hs = gen_headers(r, p, r.randrange(1, 5))
        m['headers'] = m['headers'][:8] + hs if r.chance(0.6) else hs
    how = r.randrange(6)
    if how == 0:
        m['body'] = gen_long(r, r.pick([1, 50, 1000, 5000, 100000]))
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'content-type'] + \
            [['Content-Type', r.pick(TYPES)]]
    elif how == 1:
        m['body'] = r.pick(BODIES)
        m['headers'] = [h for h in m['headers']
                        if h[0].lower() != 'content-type'] + \
            [['Content-Type', r.pick(TYPES)]]
    elif how == 2 and r.chance(0.5):
        m['coded'] = r.pick([['gzip'], ['deflate'], ['br'],
                             ['br', 'gzip'], ['gzip', 'gzip']])
        m['body_ops'] = [{'op': r.pick(['flip', 'cut', 'delete']),
                          'pos': r.randrange(200), 'bit': r.randrange(8),
                          'n': r.randrange(1, 5)}
                         for _ in range(r.randrange(0, 3))]


def gen(r, i, tier):
    p = traffic.pool()
    kind = r.weighted([(4, 'corpus'), (5, 'traffic'), (3, 'nasty'),
                       (2, 'proto'), (3, 'har'), (2, 'dir')])
    plan = {'kind': kind, 'output': r.pick(['text', 'text', 'html']),
            'io': work.gen_io(r.stream('io'), 30000)}
    if r.stream('argv').chance(0.1):
        plan['traceback'] = True
    if r.chance(0.1):
        plan['now'] = r.pick([0, -1e9, 253402300799 - 86400, 1e9])
    if kind == 'har':
        return gen_har(r, p, plan)
    if kind == 'dir':
        return gen_dir(r, p, plan)
    fmt = r.weighted([(4, 'streams'), (3, 'combined'), (2, 'tcpflow'),
                      (2, 'tcpick'), (1, 'req-stream'), (1, 'resp-stream')])
    plan['format'] = fmt
    plan['conns'] = []
    for k in range(r.weighted([(6, 1), (1, 2), (1, 3)])):
        c = {}
        if kind == 'corpus':
            (name, c['in'], c['out']) = r.pick(p.corpus['conns'])
        elif kind == 'proto':
            c['proto'] = work.gen_connection(r.stream('conn%d' % k), fmt)
        else:
            c['exchanges'] = [traffic.gen(r) for _ in
                              range(r.weighted([(3, 1), (2, 2), (1, 4)]))]
            for e in c['exchanges']:
                for m in [e['req']] + e['resps']:
                    if m and kind == 'nasty':
                        gen_nasty_message(r, p, m)
                    if m and r.chance(0.2):
                        m['chunked'] = True
                if e['req'] and kind == 'nasty' and r.chance(0.2):
                    e['req']['target'] = r.pick(TARGETS)
        (ib, ob) = conn_bytes(c)
        (c['in_ops'], c['out_ops']) = ([], [])
        if r.chance(0.35 if kind == 'nasty' else 0.85):
            if r.chance(0.6):
                c['in_ops'] = damage.gen_ops(r, ib, [])
            if r.chance(0.6):
                c['out_ops'] = damage.gen_ops(r, ob, [])
        if fmt == 'combined':
            gen_container(r.stream('container%d' % k), c)
        plan['conns'].append(c)
    return plan


PREAMBLES = ['', '\r\n', 'x', '\xff', '\xc3\xa9\r\n', '# 1000 1277\r\n',
             '\0' * 100, '\xef\xbb\xbf1000\r\n', '======== \r\n' * 3,
             '\xed\xa0\x80', 'x' * 9000, '\r\n'.join('abc') * 50]


def gen_container(r, c):
    """Damage to a combined file itself, rather than to what it carries."""
    if r.chance(0.6):
        return
    c['file_ops'] = []
    if r.chance(0.4):
        c['preamble'] = r.pick(PREAMBLES)
    for _ in range(r.weighted([(2, 1), (1, 2), (1, 0)])):
        c['file_ops'].append({
            'op': r.pick(['cut', 'remove', 'flip', 'twice', 'swap', 'newline',
                          'insert']),
            'mark': r.randrange(2), 'at': r.randrange(-3, 42),
            'bit': r.randrange(8), 'data': r.pick(damage.JUNK[:20])})


def container(c, ib, ob):
    marks = (work.MARK_IN, work.MARK_OUT)
    data = b(c.get('preamble', 'test\r\n')) + marks[0] + ib + marks[1] + ob
    for op in c.get('file_ops', []):
        mark = marks[op['mark']]
        i = data.find(mark)
        if i < 0:
            continue
        at = max(0, i + op['at'])
        if op['op'] == 'cut':
            data = data[:at]
        elif op['op'] == 'remove':
            data = data[:i] + data[i + len(mark):]
        elif op['op'] == 'flip':
            if at < len(data):
                data = data[:at] + bytes([data[at] ^ (1 << op['bit'])]) + \
                    data[at + 1:]
        elif op['op'] == 'twice':
            data = data[:i] + mark + data[i:]
        elif op['op'] == 'swap':
            data = data[:i] + marks[1 - op['mark']] + data[i + len(mark):]
        elif op['op'] == 'newline':
            data = data[:i] + mark.replace(b'\r\n', b'\n') + \
                data[i + len(mark):]
        else:
            data = data[:at] + b(op['data']) + data[at:]
    return data


def valid(plan):
    if 'extra' in plan:
        return True
    return bool(plan.get('conns') or plan.get('hars'))


def conn_bytes(c):
    if 'exchanges' in c:
        es = traffic.clone(c['exchanges'])
        for e in es:
            for m in [e['req']] + e['resps']:
                if not m:
                    continue
                m['headers'] = [[n, value(v)] for n, v in m['headers']]
                m['body'] = value(m['body'])
                if m.get('many'):
                    (name, n, v, distinct) = m['many']
                    for k in range(n):
                        m['headers'].append([
                            '%s%d' % (name, k) if distinct else name, v])
                if m.get('coded') and isinstance(m['body'], str):
                    data = proto.encode_codings(b(m['body']), m['coded'])
                    data = damage.apply_ops(data, m['body_ops'])
                    m['body'] = s(data)
                    m['headers'].append(['Content-Encoding',
                                         ', '.join(m['coded'])])
        return traffic.to_wire(es)
    if 'proto' in c:
        (ib, ob, _, _) = proto.build(c['proto']['exchanges'],
                                     c['proto']['tail'])
        return ib, ob
    return b(c['in'] or ''), b(c['out'] or '')


JSON_VALUES = [None, True, False, 0, -1, 1, 1e300, -0.5, 10 ** 30, 200, 99,
               '', 'x', '\ud800', '\u20ac', '\x00', [], {}, [[]], [None],
               {'name': 'x'}, 'HTTP/1.1', 'HTTP/9', 'base64', 'http://[',
               'http://\u2100/', '!!!!', 'YQ==', 'a' * 5000, 999, 1000, 304,
               'CONNECT', ':status', 'Content-Type', 'foo, bar', 'Fiddler',
               'WebInspector', {'$deep': 600}, {'$deep': 50000}, {'$nan': 1},
               {'$inf': 1}]


def json_paths(doc):
    from sim.runner import _paths
    return [p for p, _ in _paths(doc)]


def gen_har(r, p, plan):
    plan['format'] = 'har'
    n = r.weighted([(5, 1), (2, 2)])
    plan['hars'] = []
    for _ in range(n):
        h = {}
        if r.chance(0.5):
            (_, text) = r.pick(p.corpus['hars'])
            try:
                doc = json.loads(text)
                es = doc['log']['entries']
                if len(es) > 2:
                    i = r.randrange(len(es))
                    doc['log']['entries'] = es[i:i + 2]
                h['doc'] = doc
            except (ValueError, KeyError, TypeError):
                h['text'] = text
        else:
            h['doc'] = traffic.to_har(
                [traffic.gen(r) for _ in range(r.randrange(1, 3))],
                r.pick(traffic.CREATORS))
        h['json_ops'] = []
        if 'doc' in h:
            paths = json_paths(h['doc'])
            for _ in range(r.weighted([(1, 0), (4, 1), (2, 2), (1, 4)])):
                h['json_ops'].append({
                    'op': r.weighted([(5, 'set'), (2, 'del'), (1, 'dup')]),
                    'path': list(r.pick(paths)),
                    'value': traffic.clone(r.pick(JSON_VALUES))})
        h['enc'] = r.weighted([(6, 'utf-8'), (1, 'utf-8-sig'), (1, 'utf-16'),
                               (1, 'ascii')])
        h['ops'] = []
        if r.chance(0.3):
            h['ops'] = damage.gen_ops(r, har_bytes(h), [])
        plan['hars'].append(h)
    return plan


class Deep:

    def __init__(self, n):
        self.n = n


def har_bytes(h):
    if 'doc' not in h:
        return damage.apply_ops(h['text'].encode('utf-8', 'surrogatepass'),
                                h.get('ops', []))
    doc = json.loads(json.dumps(h['doc']))
    for op in h['json_ops']:
        doc = json_op(doc, op)
    text = json.dumps(doc, ensure_ascii=(h['enc'] == 'ascii'))
    text = _special(text)
    enc = 'utf-8' if h['enc'] == 'ascii' else h['enc']
    data = text.encode(enc, 'surrogatepass')
    return damage.apply_ops(data, h.get('ops', []))


def _special(text):
    import re
    text = re.sub(r'\{"\$deep": (\d+)\}',
                  lambda m: '[' * int(m.group(1)) + ']' * int(m.group(1)),
                  text)
    text = text.replace('{"$nan": 1}', 'NaN')
    return text.replace('{"$inf": 1}', '-Infinity')


def json_op(doc, op):
    op = traffic.clone(op)
    path = op['path']
    if not path:
        return op['value'] if op['op'] == 'set' else doc
    node = doc
    try:
        for x in path[:-1]:
            node = node[x]
        last = path[-1]
        if op['op'] == 'set':
            node[last] = op['value']
        elif op['op'] == 'del':
            del node[last]
        elif isinstance(node, list):
            node.append(json.loads(json.dumps(node[last])))
    except (KeyError, IndexError, TypeError):
        pass
    return doc


def gen_dir(r, p, plan):
    fmt = plan['format'] = r.pick(['tcpflow', 'tcpick'])
    plan['dirs'] = []
    conns = [r.pick(p.corpus['conns']) for _ in range(r.randrange(1, 4))]
    files = []
    for k, (_, ib, ob) in enumerate(conns):
        (a, o) = work.file_names(fmt, k)
        files.append([a.rsplit('/', 1)[1], ib or ''])
        files.append([o.rsplit('/', 1)[1], ob or ''])
    for f in files:
        if r.chance(0.25):
            f[0] = bad_name(r, fmt, f[0])
        if r.chance(0.2):
            f[1] = r.pick(['', 'x', '\r\n', 'HTTP/1.1 200 \r\n\r\n',
                           '\x16\x03\x01\x02', 'HTTP/1.1 200 OK',
                           'GET / HTTP/1.1', '\xff' * 20000])
    plan['extra'] = files
    return plan


def bad_name(r, fmt, name):
    how = r.randrange(6)
    if how == 0:
        return traffic._tweak(r, name).replace('/', '_').replace(
            '\0', '_') or 'x'
    if how == 1:
        return r.pick(['report.xml', 'alerts.txt', '.DS_Store', 'x', ' ',
                       '99999999999999999999-1.1.1.1-1-2.2.2.2-2-0',
                       '0-a-1-a-1-0', '\u0661-a-1-b-2-0', '1-\udcff-1-b-2-0',
                       'tcpick_\u0661_a_b_http.clnt.dat',
                       'tcpick_1_a_a_http.serv.dat',
                       'tcpick_1_\udcff_a_http.clnt.dat',
                       'tcpick_0_a_b_.clnt.dat', '1-a-1-b-2-0\n',
                       'tcpick_%s_a_b_http.clnt.dat' % ('9' * 200)])
    if how == 2:
        return name.replace('0', '', 1)
    if how == 3:
        return name + 'x'
    if how == 4:
        return name.replace('1500000', r.pick(['9' * 30, '-1', '253402300799',
                                               '253402300800', '0']))
    return name.replace('172.16.0.', '54.175.219.8')


def place(plan, ctx):
    """Put the damaged input into the file system; returns the paths."""
    fmt = plan['format']
    if fmt == 'har':
        paths = []
        for k, h in enumerate(plan['hars']):
            paths.append(FS.add('%s/h%d.har' % (PREFIX, k), har_bytes(h)))
            for op in h['json_ops']:
                ctx.fault('HAR JSON node: ' + op['op'])
            if h.get('ops'):
                ctx.fault('HAR bytes damaged')
    elif 'extra' in plan:
        d = PREFIX + '/dir'
        FS.mkdir(d)
        for name, data in plan['extra']:
            FS.add('%s/%s' % (d, name), b(data))
        paths = [d]
        ctx.fault('odd file names')
    else:
        datas = []
        for c in plan['conns']:
            (ib, ob) = conn_bytes(c)
            ib = damage.apply_ops(ib, c.get('in_ops', []), ctx)
            ob = damage.apply_ops(ob, c.get('out_ops', []), ctx)
            if plan['kind'] == 'nasty':
                ctx.fault('hostile values')
            datas.append((ib, ob))
        paths = work.place(fmt, datas)
        for c, path, (ib, ob) in zip(plan['conns'], paths, datas):
            if fmt == 'combined' and ('file_ops' in c or 'preamble' in c):
                FS.add(path, container(c, ib, ob))
                ctx.fault('combined file damaged')
    return paths


def without_traceback(err):
    """What ``--full-traceback`` has on standard error, but for that."""
    if not err:
        return err
    check(err.startswith('Traceback ') and '\nhttpolice: ' in err,
          'bad-traceback', err)
    return err[err.rindex('\nhttpolice: ') + 1:]


def run(plan, ctx):
    observe.stable_ids()
    FS.reset()
    CLOCK.reset(plan.get('now', 1500000000.0))
    work.apply_io(plan.get('io', {}))
    fmt = plan['format']
    paths = place(plan, ctx)
    argv = ['-i', fmt, '-o', plan['output']]
    if plan.get('traceback'):
        argv.insert(0, '--full-traceback')
    res = observe.run_cli(argv + paths)
    if plan.get('traceback'):
        res.err = without_traceback(res.err)
    ctx.steps += 1
    ctx.faults_from(FS.fired)
    ctx.note(res.status, repr(res.exc), res.err,
             observe.normal_html(res.out)[-20000:])
    if res.exc is not None:
        from sim.runner import Violation
        import traceback
        raise Violation('exception:%s' % type(res.exc).__name__,
                        ''.join(traceback.format_exception(res.exc))[-2500:])
    check(res.status in (0, 1), 'exit-status', res.status)
    if res.status == 1:
        check(res.err.startswith('httpolice: '), 'no-error-message', res.err)
        check(res.err.rstrip('\n').count('\n') == 0 or
              any('\n' in n for n, _ in plan.get('extra', [])),
              'error-not-one-line', res.err)
        check(len(res.err.strip()) > len('httpolice: '), 'empty-error',
              res.err)
        ctx.probe('ended with an error message')
    else:
        check(res.err == '', 'unexpected-stderr', res.err)
        if plan['output'] == 'html':
            check(res.out.rstrip().endswith(b'</html>'), 'incomplete-html',
                  res.out[-200:])
    left = observe.left_open()
    check(not left, 'file-left-open', left)
    ids = sorted(set(int(l.split()[1]) for l in
                     res.out.decode('utf-8', 'replace').split('\n')
                     if l[:2] in ('E ', 'C ', 'D ') and
                     l[2:6].isdigit())) if plan['output'] == 'text' else []
    for x in ids:
        ctx.probe('notice %d' % x)
    ctx.state(fmt, res.status, ids, plan['output'])
    ctx.trivial = False
