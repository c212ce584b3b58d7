"""Simulated HTTP/1.x peers: what they mean, and the bytes they send.

Messages are plain JSON-able dictionaries, so that a whole run can be written
to a replay file and shrunk. `wire` turns a message into bytes together with
the ground truth: what a perfect observer would report about it.
"""

import gzip
import zlib

from sim.rng import Rng


# Every string here stands for bytes through ISO-8859-1.

def b(s):
    return s.encode('iso-8859-1')


def s(x):
    return x.decode('iso-8859-1')


TCHAR = u"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQ"
BODYLESS = (204, 304)
BUFFER = 8192
MAX_LINE = 16 * 1024


MARK_IN = b'======== BEGIN INBOUND STREAM ========\r\n'
MARK_OUT = b'======== BEGIN OUTBOUND STREAM ========\r\n'


def make_body(spec):
    """Expand a body specification into bytes."""
    kind = spec.get('kind', 'text')
    n = spec.get('len', 0)
    if kind == 'raw':
        return b(spec['data'])
    r = Rng('body', spec.get('seed', 0))
    if kind == 'text':
        words = (b'lorem ', b'ipsum ', b'dolor\r\n', b'sit\n', b'amet, ')
        out = b''.join(r.pick(words) for _ in range(n // 5 + 1))
        return out[:n]
    if kind == 'bin':
        return r.randbytes(n)
    if kind == 'http':
        # A body that looks like HTTP framing; must never be parsed as such.
        decoys = (b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc',
                  b'GET /decoy HTTP/1.1\r\nHost: decoy\r\n\r\n',
                  b'0\r\n\r\n', b'\r\n', b'5\r\nhello\r\n', b'\r\n\r\n',
                  b'HTTP/1.1 100 Continue\r\n\r\n')
        out = b''
        while len(out) < n:
            out += r.pick(decoys)
        return out[:n]
    if kind in ('mark-in', 'marks'):
        # What separates the parts of a combined file. (There can be no such
        # mark of the outbound part within the inbound one.)
        decoys = [MARK_IN, b'\r\n' + MARK_IN, b'GET /decoy HTTP/1.1\r\n\r\n']
        if kind == 'marks':
            decoys += [MARK_OUT, b'\r\n' + MARK_OUT]
        out = b''
        while len(out) < n:
            out += r.pick(decoys)
        return out[:n]
    if kind == 'json':
        out = b'{"a": [' + b', '.join(b'%d' % r.randrange(100)
                                      for _ in range(n // 4 + 1)) + b']}'
        return out
    raise ValueError(kind)


def encode_codings(data, codings):
    for c in codings:
        if c in ('gzip', 'x-gzip'):
            data = gzip.compress(data, mtime=0)
        elif c == 'deflate':
            data = zlib.compress(data)
        elif c == 'br':
            import brotli
            data = brotli.compress(data, quality=3)
    return data


def head_lines(start, headers, style):
    """Serialize a start line and a header block. Returns (bytes, notices)."""
    eol = b'\n' if style.get('eol') == 'lf' else b'\r\n'
    notices = set()
    if eol == b'\n':
        notices.add(1224)
    out = [start + eol]
    for h in headers:
        name, value = h[0], h[1]
        opts = h[2] if len(h) > 2 else {}
        pre = b(opts.get('pre', ' '))
        post = b(opts.get('post', ''))
        if 'fold' in opts:
            # obs-fold: continuation lines start with whitespace.
            first = b(value)
            out.append(b(name) + b':' + pre + first + eol)
            for cont in opts['fold']:
                out.append(b(cont[0]) + b(cont[1]) + eol)
            notices.add(1016)
        else:
            out.append(b(name) + b':' + pre + b(value) + post + eol)
    return b''.join(out), eol, notices


def header_truth(headers):
    r = []
    for h in headers:
        name, value = h[0], h[1]
        opts = h[2] if len(h) > 2 else {}
        if 'fold' in opts:
            v = opts.get('pre', ' ') + value
            for cont in opts['fold']:
                v += ' ' + cont[1].lstrip(' \t')
            r.append([name, v.strip(' \t')])
        else:
            r.append([name, value.strip(' \t')])
    return r


def chunked(data, msg):
    """Apply the chunked coding. Returns (bytes, notices)."""
    style = msg.get('chunk_style', {})
    eol = b'\n' if style.get('eol') == 'lf' else b'\r\n'
    out = []
    sizes = list(msg.get('chunks', []))
    i = k = 0
    while i < len(data):
        n = max(1, sizes[k % len(sizes)]) if sizes else len(data)
        piece = data[i:i + n]
        fmt = {'lower': u'%x', 'upper': u'%X',
               'padded': u'%04x'}[style.get('hex', 'lower')]
        size = b(fmt % len(piece))
        out += [size, b(style.get('space', '')), b(style.get('ext', '')),
                eol, piece, eol]
        i += n
        k += 1
    out += [b(style.get('last', '0')), b(style.get('ext', '')), eol]
    trailer, eol2, notices = head_lines(
        b'', msg.get('trailers', []), {'eol': style.get('eol', 'crlf')})
    trailer = trailer[len(eol2):]       # no start line here
    out += [trailer, eol]
    if eol == b'\n':
        notices.add(1224)
    return b''.join(out), notices


def wire(msg, is_request, head_req=False, connect=False):
    """Returns ``(bytes, truth, heading_length)``."""
    if is_request:
        start = b(msg['method']) + b' ' + b(msg['target']) + b' ' + \
            b(msg['version'])
    else:
        start = b(msg['version']) + b' ' + b(u'%03d' % msg['status']) + \
            b' ' + b(msg['reason'])
    headers = [list(h) for h in msg.get('headers', [])]
    payload = make_body(msg.get('body', {}))
    framing = msg.get('framing', 'none')
    tcodings = msg.get('tcodings', [])
    notices = set()
    trailers = []
    status = msg.get('status')
    no_body = (not is_request and
               (100 <= status < 200 or status in BODYLESS or head_req or
                (connect and 200 <= status < 300)))

    te_headers = []
    if framing == 'cl':
        n = msg['cl_value'] if 'cl_value' in msg else len(payload)
        te_headers.append(['Content-Length', msg.get('cl_text', u'%d' % n)])
    elif framing == 'chunked':
        te_headers.append(['Transfer-Encoding',
                           msg.get('te_sep', ', ').join(
                               tcodings +
                               [msg.get('chunked_token', 'chunked')])])
    elif framing == 'close' and tcodings:
        te_headers.append(['Transfer-Encoding', u', '.join(tcodings)])
    pos = min(msg.get('te_pos', len(headers)), len(headers))
    headers[pos:pos] = te_headers

    heading, eol, n1 = head_lines(start, headers, msg.get('style', {}))
    notices |= n1
    heading += eol

    body_bytes = b''
    if no_body:
        payload = b''
    elif framing == 'chunked':
        coded = encode_codings(payload, tcodings)
        body_bytes, n2 = chunked(coded, msg)
        notices |= n2
        trailers = header_truth(msg.get('trailers', []))
    elif framing == 'close':
        body_bytes = encode_codings(payload, tcodings)
    elif framing == 'cl':
        body_bytes = payload
    else:
        payload = b''

    truth = {
        'version': msg['version'],
        'headers': header_truth(headers),
        'body': s(payload),
        'trailers': trailers,
    }
    if is_request:
        truth['method'] = msg['method']
        truth['target'] = msg['target']
    else:
        truth['status'] = status
        truth['reason'] = msg['reason']
        if status == 101:
            notices.add(1011)
        elif connect and 200 <= status < 300:
            notices.add(1012)
    truth['notices'] = sorted(notices)
    return heading + body_bytes, truth, len(heading)


###############################################################################
# Generation.

METHODS = ['GET', 'GET', 'GET', 'POST', 'POST', 'PUT', 'HEAD', 'DELETE',
           'OPTIONS', 'PATCH', 'FOO', 'get', 'CONNECT', 'TRACE', 'M-SEARCH',
           'VERSION-CONTROL', "1!#$%&'*+-.^_`|~z", 'HTTP', 'CONNECTED']
REASONS = [u'OK', u'', u'Not Found', u'Very  Strange   Reason', u'Ok \xe9',
           u' leading', u'a:b', u'tail ', u'HTTP/1.1', u'\x0cx\x0b',
           u'\x85\xa0']


def gen_headers(r, n=None):
    headers = []
    n = r.randrange(0, 5) if n is None else n
    for _ in range(n):
        name = r.pick(['Host', 'User-Agent', 'X-Foo', 'x-foo', 'Accept',
                       'Cache-Control', 'Via', 'Date', 'ETag', 'Vary',
                       'X-' + u''.join(r.pick(TCHAR) for _ in
                                       range(r.randrange(1, 6))),
                       'Connection', 'Set-Cookie', 'Trailer', 'TE'])
        kind = r.randrange(10)
        if kind == 0:
            value = u''
        elif kind == 1:
            value = u'a: b: c'
        elif kind == 2:
            value = u'\xff\xe9\x80'
        elif kind == 3:
            value = u'x' * r.size(100, 8192)
        elif kind == 4:
            value = u'a, "b\\"c", d;e=f'
        elif kind == 5:
            value = u'chunked'
        elif kind == 6:
            # What is not white space in HTTP (but is elsewhere).
            value = u''.join(r.pick(u'\x0b\x0c\x1c\x1f\x85\xa0\x00x ')
                             for _ in range(r.randrange(1, 5)))
        else:
            value = u''.join(r.pick(TCHAR + u' ,;="')
                             for _ in range(r.randrange(1, 30)))
        h = [name, value]
        if r.chance(0.15):
            h.append({'pre': r.pick(['', ' ', '  ', '\t', ' \t ']),
                      'post': r.pick(['', ' ', '\t', '  '])})
        elif r.chance(0.05):
            h[1] = h[1].strip()
            h.append({'fold': [[r.pick([' ', '\t', '   ']),
                                r.pick(['cont', 'a:b', 'x' * 40, ''])]
                               for _ in range(r.randrange(1, 3))]})
        headers.append(h)
    return headers


def gen_body(r, big=0.1):
    n = r.size(BUFFER, 100, 4096) if r.chance(big) else r.randrange(0, 200)
    if r.chance(0.01):
        n = r.pick([65536, 20000, 3 * BUFFER, BUFFER * 2 + 1])
    return {'kind': r.pick(['text', 'bin', 'http', 'http', 'json']),
            'len': n, 'seed': r.randrange(1 << 30)}


def gen_chunk_style(r):
    st = {}
    if r.chance(0.3):
        st['hex'] = r.pick(['lower', 'upper', 'padded'])
    if r.chance(0.2):
        st['ext'] = r.pick([';a', ';a=b', ';a="b;c"', ';;', '; foo'])
    if r.chance(0.1):
        st['space'] = r.pick([' ', '\t', '  '])
    if r.chance(0.1):
        st['last'] = r.pick(['0', '00', '0000'])
    if r.chance(0.06):
        st['eol'] = 'lf'
    return st


def gen_chunks(r, n):
    k = r.randrange(1, 6)
    return [max(1, r.size(16, 255, 256, BUFFER)) for _ in range(k)] \
        if n else []


def gen_framed(r, msg, allow_close=False, te=0.15):
    body = gen_body(r)
    choices = [(4, 'cl'), (4, 'chunked')]
    if allow_close:
        choices.append((6, 'close'))
    msg['framing'] = r.weighted(choices)
    msg['body'] = body
    if msg['framing'] == 'chunked':
        msg['chunks'] = gen_chunks(r, body['len'])
        msg['chunk_style'] = gen_chunk_style(r)
        if r.chance(0.25):
            msg['trailers'] = gen_headers(r, r.randrange(1, 4))
            for h in msg['trailers']:
                if h[0].lower() in ('host',):
                    h[0] = 'X-Trailer'
        if r.chance(0.1):
            msg['chunked_token'] = r.pick(['Chunked', 'CHUNKED', 'chunKed'])
    if msg['framing'] in ('chunked', 'close') and r.chance(te):
        msg['tcodings'] = r.pick([['gzip'], ['deflate'], ['x-gzip'],
                                  ['deflate', 'gzip'], ['gzip', 'gzip'],
                                  ['GZip']])
        if msg['tcodings'] == ['GZip']:
            msg['tcodings'] = ['gzip']
    if msg['framing'] == 'cl' and r.chance(0.1):
        n = len(make_body(body))
        msg['cl_text'] = u'0' * r.randrange(1, 4) + u'%d' % n
    if r.chance(0.4):
        msg['te_pos'] = r.randrange(0, 4)


def gen_style(r):
    return {'eol': 'lf'} if r.chance(0.05) else {}


def gen_request(r):
    msg = {
        'method': r.pick(METHODS),
        'target': r.pick(['/', '*', '/a/b?c=d', 'http://example.com/x',
                          '/' + 'y' * r.size(100, 8192), 'a:443',
                          '/\xe9', '/%00', '?', '//']),
        'version': r.pick(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0',
                           'HTTP/1.1', 'HTTP/2.0', 'HTTP/0.9', 'HTTP/1.9']),
        'headers': gen_headers(r),
        'style': gen_style(r),
    }
    if r.chance(0.45):
        gen_framed(r, msg)
    return msg


def gen_response(r, req, last):
    """One final response to `req` (or to an unknown request)."""
    status = r.weighted([(6, 200), (1, 201), (1, 404), (1, 500), (1, 204),
                         (1, 304), (1, 206), (1, 302), (0.5, 599),
                         (0.5, 999), (0.3, 600), (0.3, 205)])
    msg = {
        'version': r.pick(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1', 'HTTP/1.1',
                           'HTTP/1.0', 'HTTP/1.2']),
        'status': status,
        'reason': r.pick(REASONS),
        'headers': gen_headers(r),
        'style': gen_style(r),
    }
    bodyless = status in BODYLESS or (req and req['method'] == 'HEAD')
    tunnel = req and req['method'] == 'CONNECT' and 200 <= status < 300
    if bodyless or tunnel:
        # Bodyless responses often still carry framing headers.
        if r.chance(0.5):
            msg['framing'] = 'cl'
            msg['cl_value'] = r.randrange(0, 5000)
        elif r.chance(0.4):
            msg['framing'] = 'chunked'
        return msg
    gen_framed(r, msg, allow_close=last)
    return msg


def gen_interim(r):
    return {
        'version': 'HTTP/1.1',
        'status': r.pick([100, 100, 102, 103, 199]),
        'reason': r.pick([u'Continue', u'', u'Early Hints']),
        'headers': gen_headers(r, r.randrange(0, 2)),
        'style': {},
    }


def gen_exchanges(r, n=None, switches=True):
    """What happens on one connection, and what is left unparsed after it.

    Returns ``(exchanges, tail)`` where `exchanges` is a list of
    ``{'req': ..., 'resps': [...]}`` and `tail` is a pair of body
    specifications for opaque bytes after a protocol switch.
    """
    n = r.weighted([(3, 1), (3, 2), (2, 3), (2, 5), (1, 9)]) \
        if n is None else n
    exchanges = []
    tail = [None, None]
    i = 0
    while i < n:
        req = gen_request(r)
        resps = []
        while r.chance(0.12) and len(resps) < 4:
            resps.append(gen_interim(r))
        last = (i == n - 1)
        if switches and last and r.chance(0.12):
            resps.append({'version': 'HTTP/1.1', 'status': 101,
                          'reason': 'Switching Protocols',
                          'headers': gen_headers(r, 1), 'style': {}})
            tail = [gen_tail(r), gen_tail(r)]
        elif req['method'] == 'CONNECT':
            resp = gen_response(r, req, last)
            ok = 200 <= resp['status'] < 300
            if ok and not last:
                req['method'] = 'GET'
                if resp.get('framing') != 'chunked' and resp['status'] != 204:
                    resp['framing'] = 'cl'
                    resp.pop('cl_value', None)
                elif resp['status'] == 204:
                    pass
            elif ok:
                tail = [gen_tail(r), gen_tail(r)]
            resps.append(resp)
        else:
            resps.append(gen_response(r, req, last))
        exchanges.append({'req': req, 'resps': resps})
        i += 1
    return exchanges, tail


def gen_tail(r):
    if r.chance(0.25):
        return None
    return {'kind': r.pick(['bin', 'http', 'text']),
            'len': r.randrange(1, 60), 'seed': r.randrange(1 << 30)}


def build(exchanges, tail=(None, None), inbound=u'in', outbound=u'out'):
    """Serialize a connection.

    Returns ``(inbound bytes, outbound bytes, truth, layout)`` where `truth` is
    the list of exchanges a perfect observer would report.
    """
    ib, ob = [], []
    ipos = opos = 0
    truth = []
    layout = {'in': [], 'out': []}
    for e in exchanges:
        t = {'req': None, 'resps': [], 'box': []}
        req = e.get('req')
        if req is not None:
            data, tr, hl = wire(req, True)
            tr['remark'] = u'from %s, offset %d' % (inbound, ipos)
            t['req'] = tr
            layout['in'].append((ipos, ipos + hl, ipos + len(data)))
            ib.append(data)
            ipos += len(data)
        for resp in e['resps']:
            data, tr, hl = wire(
                resp, False,
                head_req=bool(req) and req['method'] == 'HEAD',
                connect=bool(req) and req['method'] == 'CONNECT')
            tr['remark'] = u'from %s, offset %d' % (outbound, opos)
            t['resps'].append(tr)
            layout['out'].append((opos, opos + hl, opos + len(data)))
            ob.append(data)
            opos += len(data)
        truth.append(t)
    for i, (buf, spec, notice, name) in enumerate([
            (ib, tail[0], 1007, inbound), (ob, tail[1], 1010, outbound)]):
        if spec:
            data = make_body(spec)
            if data:
                off = sum(len(x) for x in buf)
                truth.append({'req': None, 'resps': [],
                              'box': [[notice, name, off]]})
                buf.append(data)
    return b''.join(ib), b''.join(ob), truth, layout
