"""What is exchanged: realistic HTTP semantics, mixed and mutated.

The pools come from the captures in ``corpus/`` (see ``tools/mkcorpus.py``),
as understood by the reference framing model. A generated exchange is a plain
JSON-able specification; `to_api` turns it into objects of the library, and
`to_wire` into the bytes of a connection. Strings stand for bytes through
ISO-8859-1.
"""

import json
import os

from sim.proto import b, s


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_pool = None
UNAVAILABLE = {'unavailable': True}
MAX_POOL_BODY = 3000


class Pool:

    def __init__(self):
        with open(os.path.join(HERE, 'corpus', 'corpus.json')) as f:
            self.corpus = json.load(f)
        self.exchanges = []
        self.headers = {}
        self.req_headers = []
        self.resp_headers = []
        self.bodies = []
        self.methods = []
        self.targets = []
        self.statuses = []
        self._load()

    def _load(self):
        from sim import refmodel
        for name, ib, ob in self.corpus['conns']:
            try:
                exs = refmodel.exchanges(
                    b(ib) if ib is not None else None,
                    b(ob) if ob is not None else None, 'in', 'out')
            except Exception:
                continue
            for e in exs:
                if e['req'] is None and not e['resps']:
                    continue
                spec = {'name': name, 'scheme': 'http', 'req': None,
                        'resps': []}
                if e['req'] is not None:
                    m = e['req']
                    spec['req'] = self._message(m, self.req_headers)
                    spec['req']['method'] = m['method']
                    spec['req']['target'] = m['target']
                    self.methods.append(m['method'])
                    self.targets.append(m['target'])
                for m in e['resps']:
                    r = self._message(m, self.resp_headers)
                    r['status'] = m['status']
                    r['reason'] = m['reason']
                    spec['resps'].append(r)
                    self.statuses.append(m['status'])
                self.exchanges.append(spec)

    def _message(self, m, headers):
        for n, v in m['headers']:
            headers.append([n, v])
            self.headers.setdefault(n.lower(), []).append(v)
        body = m['body']
        if isinstance(body, str):
            ct = [v for n, v in m['headers'] if n.lower() == 'content-type']
            ce = [v for n, v in m['headers']
                  if n.lower() == 'content-encoding']
            if body and len(body) <= MAX_POOL_BODY:
                self.bodies.append((body, ct[:1], ce[:1]))
            if len(body) > MAX_POOL_BODY:
                body = body[:MAX_POOL_BODY]
        return {'version': m['version'], 'headers': m['headers'],
                'body': body, 'trailers': m['trailers']}


def pool():
    global _pool
    if _pool is None:
        _pool = Pool()
    return _pool


def clone(x):
    return json.loads(json.dumps(x))


EXTRA_HEADERS = [
    ['Date', 'Thu, 31 Dec 2037 23:59:59 GMT'],
    ['Date', 'Fri, 14 Jul 2017 02:40:00 GMT'],
    ['Date', 'Friday, 14-Jul-17 02:40:05 GMT'],
    ['Date', 'Fri Jul 14 02:40:30 2017'],
    ['Date', 'yesterday'], ['Age', '10'], ['Age', '-1'], ['Age', '99999999'],
    ['Cache-Control', 'max-age=10, foo, no-cache="a, b", private'],
    ['Cache-Control', 'max-age=abc, max-stale, Foo=bar'],
    ['Warning', '110 foo "stale"'], ['Warning', '299 - "x" "Fri, 14 Jul '
                                     '2017 02:40:00 GMT"'],
    ['Accept', 'text/html;level=1;q=0.5, */*;q=0.1, text/*'],
    ['Content-Type', 'application/json'],
    ['Content-Type', 'text/plain; charset=utf-16'],
    ['Content-Type', 'multipart/form-data; boundary=foo'],
    ['Content-Type', 'application/xml; charset="utf-8"'],
    ['Content-Encoding', 'gzip'], ['Content-Encoding', 'br, foo'],
    ['Link', '<http://a/?b>; rel="next"; title*=UTF-8\'\'x, </y>;rel=z'],
    ['Set-Cookie', 'a=b; Path=/; HttpOnly'], ['Cookie', 'a=b; c="d"'],
    ['Prefer', 'respond-async, wait=5; foo="b"'], ['Prefer', 'wait=x'],
    ['Alt-Svc', 'h2="x:443"; ma=60; persist=1, clear'],
    ['Forwarded', 'for="[::1]:80";by=_x, for=1.2.3.4;proto=https'],
    ['Strict-Transport-Security', 'max-age=1; includeSubDomains; foo'],
    ['WWW-Authenticate', 'Basic realm="x", Digest a=b, c="d"'],
    ['WWW-Authenticate', 'Bearer error="invalid_token", scope="a b"'],
    ['Authorization', 'Basic Zm9vOmJhcg=='],
    ['Authorization', 'Bearer abc'], ['Expect', '100-continue'],
    ['Upgrade', 'websocket, h2c, Foo/1.0'], ['Connection', 'upgrade, close'],
    ['TE', 'trailers, gzip;q=0.5'], ['Trailer', 'ETag, X-Foo'],
    ['Via', '1.1 foo (comment (nested)), HTTP/1.0 bar:80'],
    ['User-Agent', 'Mozilla/5.0 (X; (y)) Foo/1 (z)'],
    ['Range', 'bytes=0-1,5-, -7'], ['Content-Range', 'bytes 0-1/10'],
    ['If-Match', '"a", W/"b"'], ['ETag', 'W/"x"'], ['Vary', 'Accept, *'],
    ['Content-Disposition', 'attachment; filename="a.b"; '
     'filename*=UTF-8\'\'%e2%82%ac'],
    ['Accept-Language', 'en-US, de-x;q=0.5, *'], ['X-Foo', '\xff'],
    ['Allow', 'GET, HEAD, FOO'], ['Location', 'http://[::1]/%zz'],
    ['Retry-After', '120'], ['Expires', '0'], ['Pragma', 'no-cache'],
    ['Access-Control-Allow-Origin', '*'], ['Content-Language', 'en,'],
    ['Content-Location', '//foo'], ['Referer', 'about:blank'],
    ['Host', 'a b'], ['Server', 'x/1 (y'], ['Max-Forwards', '1'],
    ['HTTPolice-Silence', '1070 resp, 1110'],
    ['Access-Control-Request-Method', 'PUT'],
    ['Access-Control-Request-Method', 'GET'],
    ['Access-Control-Request-Headers', 'Accept, x-foo'],
    ['Access-Control-Allow-Methods', 'GET, POST, foo'],
    ['Access-Control-Max-Age', '60'], ['Origin', 'null'],
    ['Link', '</a>; rel="alternate"; type="text/html"; hreflang=en; '
     'media="screen"'],
    ['Content-Type', 'text/html'], ['Sec-WebSocket-Version', '13'],
    ['Cache-Control', 'no-cache="Accept, Vary", max-age="10"'],
    ['Vary', 'Accept, Vary'], ['Variant-Vary', '*'],
    ['Content-MD5', 'Q2hlY2sgSW50ZWdyaXR5IQ=='], ['From', 'a@b'],
    ['Early-Data', '1'], ['Accept-Charset', 'utf-8, *;q=0.1'],
    ['Content-Security-Policy', "default-src 'self'"],
    ['HTTPolice-Silence', '1277 foo'],
]
VERSIONS = ['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None,
            'HTTP/3.0']


def _header(r, p, is_request):
    how = r.randrange(4)
    if how == 0:
        h = list(r.pick(EXTRA_HEADERS))
    elif how == 1:
        h = list(r.pick(p.req_headers if is_request else p.resp_headers))
    else:
        name = r.pick(sorted(p.headers))
        h = [name, r.pick(p.headers[name])]
    if r.chance(0.2):
        h[0] = r.pick([str.lower, str.upper, str.title])(h[0])
    if r.chance(0.08):
        h[1] = _tweak(r, h[1])
    return h


def _tweak(r, value):
    if not value:
        return r.pick([',', ';', '"', ' ', 'x'])
    i = r.randrange(len(value))
    how = r.randrange(4)
    if how == 0:
        return value[:i] + value[i + 1:]
    if how == 1:
        return value[:i] + r.pick(',;="()/ \t\\*%\xe9\x80xX0') + value[i:]
    if how == 2:
        return value[:i]
    return value + ', ' + value


def plural_value(r, values):
    """Several values, elements, parameters where there was one; some of them
    more than once."""
    value = ', '.join(r.pick(values) for _ in range(r.randrange(1, 4)))
    for sep in r.pick([[', ', ';'], [';'], [', '], [' ']]):
        parts = [x for x in value.split(sep.strip() or sep)]
        extra = [r.pick(parts) for _ in range(r.randrange(1, 2 + len(parts)))]
        if r.chance(0.5):
            parts = parts + parts
        value = sep.join(x.strip() for x in parts + extra)[:1500]
    return value


def plural(r, m, is_request):
    """Make a message contain many of everything."""
    p = pool()
    hs = m['headers']
    names = {}
    for n, v in EXTRA_HEADERS:
        names.setdefault(n, []).append(v)
    for _ in range(r.randrange(3, 9)):
        n = r.pick(sorted(names)) if r.chance(0.7) else \
            r.pick(sorted(p.headers))
        vs = names.get(n, []) + p.headers.get(n.lower(), [])
        for _ in range(r.pick([1, 1, 2, 3])):
            hs.insert(r.randrange(len(hs) + 1), [n, plural_value(r, vs)])
    return m


def mutate_message(r, p, m, is_request, n=None):
    n = r.weighted([(3, 0), (4, 1), (3, 2), (2, 4), (1, 7)]) if n is None \
        else n
    for _ in range(n):
        hs = m['headers']
        how = r.randrange(8)
        if how <= 2:
            hs.insert(r.randrange(len(hs) + 1), _header(r, p, is_request))
        elif how == 3 and hs:
            hs.pop(r.randrange(len(hs)))
        elif how == 4 and hs:
            i = r.randrange(len(hs))
            hs[i] = [hs[i][0], _tweak(r, hs[i][1])]
        elif how == 5 and hs:
            i = r.randrange(len(hs))
            vs = p.headers.get(hs[i][0].lower())
            if vs:
                hs[i] = [hs[i][0], r.pick(vs)]
        elif how == 6:
            if r.chance(0.5):
                (body, ct, ce) = r.pick(p.bodies)
                m['body'] = body
                hs[:] = [h for h in hs if h[0].lower() not in
                         ('content-type', 'content-encoding')]
                hs += [['Content-Type', v] for v in ct] + \
                    [['Content-Encoding', v] for v in ce]
            elif isinstance(m['body'], str) and m['body']:
                m['body'] = r.pick([_tweak(r, m['body'])[:6000],
                                    m['body'][:r.randrange(
                                        len(m['body']))], ''])
            elif r.chance(0.3):
                m['body'] = r.pick([None, '', dict(UNAVAILABLE)])
        elif how == 7:
            m['version'] = r.pick(VERSIONS)
            if r.chance(0.3):
                m['trailers'] = [_header(r, p, is_request)
                                 for _ in range(r.randrange(1, 3))]


def gen(r, mutate=True):
    """One exchange."""
    p = pool()
    e = clone(r.pick(p.exchanges))
    e.pop('name', None)
    if not mutate:
        return e
    if r.chance(0.1):
        e['scheme'] = r.pick(['https', None, 'http'])
    if e['req'] is not None:
        if r.chance(0.06):
            e['req'] = None
        else:
            mutate_message(r, p, e['req'], True)
            if r.chance(0.1):
                e['req']['method'] = r.pick(p.methods)
            if r.chance(0.1):
                e['req']['target'] = r.pick(p.targets)
    if e['resps'] and r.chance(0.06):
        e['resps'].pop()
    for m in e['resps']:
        mutate_message(r, p, m, False)
        if r.chance(0.15):
            m['status'] = r.pick(p.statuses) if r.chance(0.5) else \
                r.pick(sorted(set(p.statuses)))
    if r.chance(0.06):
        other = r.pick(p.exchanges)
        e['resps'] += clone(other['resps'])[:1]
    if e['req'] is None and not e['resps']:
        return gen(r, mutate)
    return e


###############################################################################


def api_body(x):
    from httpolice.structure import Unavailable
    if isinstance(x, dict):
        return Unavailable(None)
    return b(x) if x is not None else None


def to_api(e):
    import httpolice
    req = None
    if e.get('req') is not None:
        m = e['req']
        req = httpolice.Request(
            e.get('scheme', 'http'), m['method'], m['target'], m['version'],
            [(n, b(v)) for n, v in m['headers']], api_body(m['body']),
            [(n, b(v)) for n, v in m.get('trailers', [])],
            remark=m.get('remark'))
    resps = []
    for m in e['resps']:
        resps.append(httpolice.Response(
            m['version'], m['status'], m['reason'],
            [(n, b(v)) for n, v in m['headers']], api_body(m['body']),
            [(n, b(v)) for n, v in m.get('trailers', [])],
            remark=m.get('remark')))
    exch = httpolice.Exchange(req, resps)
    if e.get('silence_before'):
        exch.silence(e['silence_before'])
    return exch


_FRAMING = ('content-length', 'transfer-encoding')


def _clean(x):
    return x.replace('\r', ' ').replace('\n', ' ')


def to_wire(exchanges):
    """Bytes of a connection carrying these exchanges (best effort: what the
    specification cannot have over HTTP/1.1 is adapted)."""
    ib, ob = [], []
    for e in exchanges:
        req = e.get('req')
        if req is None:
            req = {'method': 'GET', 'target': '/', 'version': 'HTTP/1.1',
                   'headers': [], 'body': ''}
        method = _clean(req['method']).replace(' ', '') or 'GET'
        if method == 'CONNECT':
            method = 'GET'
        target = _clean(req['target']).replace(' ', '') or '/'
        ib.append(b('%s %s %s\r\n' % (method, target, _version(req))) +
                  _rest(req, True))
        final = False
        for resp in e['resps']:
            st = resp['status']
            if final or st == 101 or not 100 <= st <= 999:
                continue
            final = st >= 200
            ob.append(b('%s %03d %s\r\n' % (_version(resp), st,
                                            _clean(resp['reason'] or ''))) +
                      _rest(resp, not (st < 200 or st in (204, 304) or
                                       method == 'HEAD')))
        if not final:
            ob.append(b'HTTP/1.1 204 No Content\r\n\r\n')
    return b''.join(ib), b''.join(ob)


def _version(m):
    return m['version'] if m['version'] in ('HTTP/1.0', 'HTTP/1.1') \
        else 'HTTP/1.1'


def _rest(m, with_body):
    out = []
    for n, v in m['headers']:
        if n.lower() in _FRAMING:
            continue
        n = ''.join(c for c in n if c not in ' \t\r\n:') or 'X'
        out.append(b(n) + b': ' + b(_clean(v)) + b'\r\n')
    body = m['body'] if isinstance(m['body'], str) else ''
    if not with_body:
        return b''.join(out) + b'\r\n'
    if m.get('chunked'):
        data = b(body)
        out.append(b'Transfer-Encoding: chunked\r\n\r\n')
        if data:
            out.append(b'%x\r\n' % len(data) + data + b'\r\n')
        out.append(b'0\r\n')
        for n, v in m.get('trailers', []):
            n = ''.join(c for c in n if c not in ' \t\r\n:') or 'X'
            if n.lower() in _FRAMING:
                continue
            out.append(b(n) + b': ' + b(_clean(v)) + b'\r\n')
        out.append(b'\r\n')
    else:
        if body or m.get('cl', True):
            out.append(b'Content-Length: %d\r\n' % len(b(body)))
        out.append(b'\r\n' + b(body))
    return b''.join(out)


CREATORS = ['WebInspector', 'Firefox', 'Fiddler', 'F12 Developer Tools',
            'Charles Proxy', 'x']


def to_har(exchanges, creator='x'):
    """A HAR document (as Python objects) with these exchanges."""
    entries = []
    for e in exchanges:
        req = e.get('req')
        if req is None:
            continue
        resp = e['resps'][-1] if e['resps'] else None
        target = req['target']
        if not target.startswith('http'):
            target = 'http://example.com' + target
        rb = req['body'] if isinstance(req['body'], str) else ''
        entry = {
            'startedDateTime': '2017-07-14T02:40:00.000Z', 'time': 1,
            'request': {
                'method': req['method'], 'url': target,
                'httpVersion': req['version'] or 'unknown',
                'cookies': [], 'queryString': [], 'headersSize': -1,
                'headers': [{'name': n, 'value': v}
                            for n, v in req['headers']],
                'bodySize': len(rb) if req['body'] is not None else -1},
            'response': {
                'status': 0, 'statusText': '', 'httpVersion': '',
                'headers': [], 'cookies': [], 'redirectURL': '',
                'headersSize': -1, 'bodySize': -1,
                'content': {'size': 0, 'mimeType': ''}},
            'cache': {}, 'timings': {'send': 0, 'wait': 0, 'receive': 0}}
        if rb:
            entry['request']['postData'] = {'mimeType': '', 'text': rb}
        if resp is not None:
            body = resp['body'] if isinstance(resp['body'], str) else ''
            entry['response'].update({
                'status': resp['status'], 'statusText': resp['reason'] or '',
                'httpVersion': resp['version'] or 'unknown',
                'headers': [{'name': n, 'value': v}
                            for n, v in resp['headers']],
                'bodySize': -1 if resp['body'] is None else len(body),
                'content': {'size': len(body), 'mimeType': '',
                            'text': body}})
        entries.append(entry)
    return {'log': {'version': '1.2',
                    'creator': {'name': creator, 'version': '1'},
                    'entries': entries}}
