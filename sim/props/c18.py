"""C18: damaged encoded bodies are never presented as decoded."""

import random
import re
import struct
import zlib

import brotli

from sim import observe, work
from sim.clock import CLOCK
from sim.props import c04
from sim.proto import b, s
from sim.runner import check
from sim.simfs import FS


ID = 'C18'
RUNS = {'quick': 12000, 'thorough': 600000}
BATCH = 8
RULE = ('A run encodes generated content with a generated stack of content '
        'and transfer codings, damages the encoded data of at most one layer '
        '(truncation, bit flips, overwritten, lost, repeated or swapped '
        'parts, garbage), delivers the message through the Python API or in '
        'a captured connection with short reads, and compares the decoded '
        'body and its notices with the original and with strict reference '
        'decoders. Non-trivial if the data was damaged or the stack has '
        'several layers.')
REAL = ['httpolice.codings, httpolice.message, httpolice.framing1',
        'zlib, gzip, brotli', 'HTML report']
STUB = ['file system', 'clock', 'HTTP peers (generators and encoders)']
STATE = 'distinct (stack, damaged layer, kind of damage, outcome) tuples'
STEP = 'bodies decoded'
SHRINK_LISTS = ('layers', 'ops', 'chunks')
SHRINK_INTS = ('pos', 'len', 'size')
SHRINK_OPTS = ('io', 'html', 'after')

setup = c04.setup

TYPES = {'text': 'text/plain; charset=utf-8', 'json': 'application/json',
         'xml': 'application/xml', 'form': 'application/x-www-form-urlencoded',
         'random': 'application/octet-stream', 'zeros': 'image/png',
         'gzip-like': 'application/octet-stream'}
CONTENT_NOTICES = frozenset([1038, 1039, 1040, 1139, 1140, 1275, 1281])
NAMES = {'gzip': ['gzip', 'gzip', 'GZip', 'x-gzip', 'X-GZIP'],
         'deflate': ['deflate', 'deflate', 'Deflate'],
         'br': ['br', 'br', 'BR']}
UNKNOWN_CE = ['foo', 'compress', 'zstd', 'x-compress', 'identity', 'gzip2',
              'aes128gcm', 'bzip']
UNKNOWN_TE = ['foo', 'compress', 'x-compress', 'br', 'xgzip', 'deflate64']
MARK = b'MARKED'


def gen_layer(r, te):
    if r.chance(0.06):
        return {'kind': 'unknown',
                'name': r.pick(UNKNOWN_TE if te else UNKNOWN_CE)}
    kind = r.pick(['gzip', 'gzip', 'deflate'] if te
                  else ['gzip', 'gzip', 'deflate', 'br'])
    layer = {'kind': kind, 'name': r.pick(NAMES[kind]), 'level': r.randrange(
        0, 10), 'wbits': r.randrange(9, 16)}
    if kind == 'gzip':
        layer['members'] = r.weighted([(6, 1), (2, 2), (0.5, 5)])
        layer['fields'] = r.pick([0, 0, 0, 2, 4, 8, 16, 28, 30])
    if r.chance(0.2):
        layer['flush'] = r.pick([1, 10, 100, 1000])
    return layer


OPS = [(4, 'truncate'), (4, 'flip'), (2, 'set'), (2, 'delete'),
       (1, 'duplicate'), (2, 'append'), (1, 'insert'), (1, 'zero'),
       (1, 'swap'), (0.5, 'prepend')]


def gen(r, i, tier):
    n_te = r.weighted([(6, 0), (3, 1), (0.7, 2)])
    n_ce = r.weighted([(1, 0), (5, 1), (2, 2), (0.5, 3)]) if n_te \
        else r.weighted([(6, 1), (3, 2), (1, 3)])
    layers = [gen_layer(r, False) for _ in range(n_ce)] + \
        [gen_layer(r, True) for _ in range(n_te)]
    for k, x in enumerate(layers):
        x['te'] = k >= n_ce
    kind = r.pick(sorted(TYPES))
    size = r.weighted([(2, r.randrange(1, 20)), (4, r.randrange(20, 2000)),
                       (2, r.randrange(2000, 40000)), (0.1, 300000)])
    plan = {'content': {'kind': kind, 'size': size,
                        'seed': r.randrange(10 ** 9)},
            'layers': layers, 'side': r.pick(['req', 'resp', 'resp']),
            'ops': [], 'at': 0,
            'path': 'wire' if n_te else r.pick(['api', 'wire', 'wire']),
            'how': r.pick(['chunked', 'length', 'eof']),
            'chunks': [r.pick([1, 2, 7, 100, 1000, 8192])
                       for _ in range(r.randrange(1, 4))],
            'split': r.chance(0.3), 'after': r.chance(0.5),
            'html': r.chance(0.4), 'io': work.gen_io(r, size)}
    if r.chance(0.85) and layers:
        plan['at'] = r.randrange(len(layers)) if r.chance(0.3) \
            else len(layers) - 1
        for _ in range(r.weighted([(6, 1), (1, 2), (0.5, 4)])):
            plan['ops'].append({
                'op': r.weighted(OPS), 'pos': gen_pos(r),
                'len': r.pick([1, 1, 2, 4, 8, 50, 1000]),
                'bit': r.randrange(8), 'data': s(r.pick([
                    b'\0', b'\xff', b'garbage', b'\x1f\x8b\x08\0', b'\x78',
                    b'\0' * 20, b'\x1f', b'\x03', b'\r\n']))})
    return plan


def gen_pos(r):
    """From either end: where there is the header, the body, the checksum."""
    return [r.pick(['start', 'end', 'middle']), r.weighted([
        (4, r.randrange(0, 12)), (2, r.randrange(0, 100)),
        (3, r.randrange(0, 10 ** 6))])]


def valid(plan):
    return bool(plan['layers']) and bool(plan['chunks']) and \
        all(plan['chunks']) and \
        plan['at'] < len(plan['layers']) and plan['content']['size'] > 0


def content(c):
    n = c['size']
    g = random.Random(c['seed'])
    words = ['lorem', 'ipsum', 'MARKED', 'dolor', 'sit', 'amet', 'x', 'y']
    if c['kind'] in ('zeros',):
        return b'\0' * n
    if c['kind'] == 'random':
        return bytes(g.getrandbits(8) for _ in range(n))
    if c['kind'] == 'gzip-like':
        return (b'\x1f\x8b\x08\0\0\0\0\0\0\x03' * (n // 10 + 1))[:n]
    text = ' '.join(['MARKED'] + [g.choice(words) for _ in range(n // 5)])
    text = text[:max(n, 6)]
    if c['kind'] == 'json':
        return ('{"x": "%s"}' % text).encode('ascii')
    if c['kind'] == 'xml':
        return ('<x>%s</x>' % text).encode('ascii')
    if c['kind'] == 'form':
        return b'x=' + text.replace(' ', '+').encode('ascii')
    return text.encode('ascii')


###############################################################################
# Encoders and strict decoders.


def deflated(data, layer, wbits):
    o = zlib.compressobj(layer['level'], zlib.DEFLATED, wbits)
    out = b''
    step = layer.get('flush')
    if step:
        step = max(step, len(data) // 50)
        for i in range(0, len(data), step):
            out += o.compress(data[i : i + step])
            out += o.flush(zlib.Z_SYNC_FLUSH)
    else:
        out = o.compress(data)
    return out + o.flush()


def encode(data, layer):
    kind = layer['kind']
    if kind == 'unknown':
        return data
    if kind == 'br':
        return brotli.compress(data, quality=layer['level'],
                               lgwin=max(10, layer['wbits']))
    if kind == 'deflate':
        return deflated(data, layer, layer['wbits'])
    n = layer['members']
    step = -(-len(data) // n)
    out = b''
    for k in range(n):
        out += member(data[k * step : (k + 1) * step], layer)
    return out


def member(data, layer):
    flags = layer['fields']
    head = b'\x1f\x8b\x08' + bytes([flags]) + \
        struct.pack('<I', 1500000000) + b'\0\x03'
    if flags & 4:
        head += struct.pack('<H', 5) + b'AB\x01\0z'
    if flags & 8:
        head += b'file.txt\0'
    if flags & 16:
        head += b'a comment\0'
    if flags & 2:
        head += struct.pack('<H', zlib.crc32(head) & 0xffff)
    return head + deflated(data, layer, -max(9, layer['wbits'])) + \
        struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff)


def strict_gzip(data):
    out = b''
    if not data:
        return None
    while data:
        if len(data) < 10 or data[:3] != b'\x1f\x8b\x08':
            return None
        flags = data[3]
        if flags & 0xe0:
            return None
        i = 10
        if flags & 4:
            if len(data) < i + 2:
                return None
            i += 2 + struct.unpack('<H', data[i : i + 2])[0]
        for f in (8, 16):
            if flags & f:
                j = data.find(b'\0', i)
                if j < 0:
                    return None
                i = j + 1
        if flags & 2:
            if struct.pack('<H', zlib.crc32(data[:i]) & 0xffff) != \
                    data[i : i + 2]:
                return None
            i += 2
        o = zlib.decompressobj(-15)
        try:
            part = o.decompress(data[i:])
        except zlib.error:
            return None
        rest = o.unused_data
        if not o.eof or len(rest) < 8 or rest[:8] != struct.pack(
                '<II', zlib.crc32(part), len(part) & 0xffffffff):
            return None
        out += part
        # Zeros as padding are accepted by everyone, as in gzip(1).
        data = rest[8:].lstrip(b'\0')
    return out


def strict_zlib(data):
    o = zlib.decompressobj()
    try:
        out = o.decompress(data)
    except zlib.error:
        return None
    return out if o.eof and not o.unused_data else None


def strict_br(data):
    # There is no other decoder to be had here.
    try:
        return brotli.decompress(data)
    except brotli.error:
        return None


STRICT = {'gzip': strict_gzip, 'deflate': strict_zlib, 'br': strict_br}


def damaged(data, ops):
    for op in ops:
        n = len(data)
        if not n:
            break
        (where, pos) = op['pos']
        pos %= n
        if where == 'end':
            pos = n - 1 - pos
        elif where == 'middle':
            pos = (n // 2 + pos) % n
        k = min(op['len'], n - pos)
        if op['op'] == 'truncate':
            data = data[:pos]
        elif op['op'] == 'flip':
            data = data[:pos] + bytes([data[pos] ^ (1 << op['bit'])]) + \
                data[pos + 1:]
        elif op['op'] == 'set':
            new = b(op['data'])[:n - pos]
            data = data[:pos] + new + data[pos + len(new):]
        elif op['op'] == 'delete':
            data = data[:pos] + data[pos + k:]
        elif op['op'] == 'duplicate':
            data = data[:pos + k] + data[pos:]
        elif op['op'] == 'append':
            data += b(op['data'])
        elif op['op'] == 'prepend':
            data = b(op['data']) + data
        elif op['op'] == 'insert':
            data = data[:pos] + b(op['data']) + data[pos:]
        elif op['op'] == 'zero':
            data = data[:pos] + b'\0' * k + data[pos + k:]
        elif op['op'] == 'swap':
            data = data[:pos] + data[pos + k : pos + 2 * k] + \
                data[pos : pos + k] + data[pos + 2 * k:]
    return data


###############################################################################


def chunked(data, sizes):
    out = []
    i = k = 0
    while i < len(data):
        n = max(sizes[k % len(sizes)], len(data) // 500)
        part = data[i : i + n]
        out.append(b'%x\r\n' % len(part) + part + b'\r\n')
        i += n
        k += 1
    return b''.join(out) + b'0\r\n\r\n'


def names(layers, split):
    xs = [x['name'] for x in layers]
    return xs if split else [', '.join(xs)]


def message(plan, payload):
    """Exchanges as found in a capture (or as objects made directly)."""
    import httpolice
    from httpolice import inputs
    ce = [x for x in plan['layers'] if not x['te']]
    te = [x for x in plan['layers'] if x['te']]
    headers = [['Content-Type', TYPES[plan['content']['kind']]]]
    if ce:
        headers += [['Content-Encoding', v] for v in names(ce, plan['split'])]
    is_req = plan['side'] == 'req'
    if plan['path'] == 'api' and not te:
        hs = [(n, v.encode('ascii')) for n, v in headers]
        req = httpolice.Request(
            'http', 'POST' if is_req else 'GET', '/', 'HTTP/1.1',
            [('Host', b'a.example')] + (hs if is_req else []),
            payload if is_req else b'')
        resp = httpolice.Response(
            'HTTP/1.1', 200, 'OK', [] if is_req else hs,
            b'' if is_req else payload)
        exch = httpolice.Exchange(req, [resp])
        httpolice.check_exchange(exch)
        return [exch], False

    how = plan['how']
    if is_req and how == 'eof':
        how = 'chunked'
    if te:
        if how == 'length':
            how = 'chunked'
        ts = names(te, plan['split'])
        if how == 'chunked':
            ts = ts + ['chunked'] if plan['split'] else [ts[0] + ', chunked']
        headers += [['Transfer-Encoding', v] for v in ts]
    elif how == 'chunked':
        headers.append(['Transfer-Encoding', 'chunked'])
    if how == 'length':
        headers.append(['Content-Length', '%d' % len(payload)])
    head = ''.join('%s: %s\r\n' % (n, v) for n, v in headers)
    body = chunked(payload, plan['chunks']) if how == 'chunked' else payload
    coded = b(head) + b'\r\n' + body
    if is_req:
        ib = b'POST / HTTP/1.1\r\nHost: a.example\r\n' + coded
        ob = b'HTTP/1.1 204 No Content\r\n\r\n'
    else:
        ib = b'GET / HTTP/1.1\r\nHost: a.example\r\n\r\n'
        ob = b'HTTP/1.1 200 OK\r\n' + coded
    after = bool(plan.get('after')) and how != 'eof'
    if after:
        ib += b'GET /after HTTP/1.1\r\nHost: a.example\r\n\r\n'
        ob += b'HTTP/1.1 404 Not Found\r\nContent-Length: 3\r\n\r\nxyz'
    FS.reset()
    work.apply_io(plan.get('io', {}))
    paths = work.place('streams', [(ib, ob)])
    exchanges = []
    for exch in inputs.formats['streams'](paths):
        httpolice.check_exchange(exch)
        exchanges.append(exch)
    return exchanges, after


def run(plan, ctx):
    from httpolice.structure import Unavailable
    CLOCK.reset()
    layers = plan['layers']
    original = content(plan['content'])
    payload = original
    hurt = False
    for k, layer in enumerate(layers):
        payload = encode(payload, layer)
        if k == plan['at'] and plan['ops']:
            new = damaged(payload, plan['ops'])
            if new != payload:
                hurt = True
                payload = new
                for op in plan['ops']:
                    ctx.fault('encoded data: %s' % op['op'])

    # What strict decoders make of it.
    cur = payload
    first_bad = None
    empty = not cur
    for k in reversed(range(len(layers))):
        if layers[k]['kind'] == 'unknown':
            first_bad = k
            cur = None
            break
        cur = STRICT[layers[k]['kind']](cur)
        if cur is None:
            first_bad = k
            break
        if not cur and k:
            empty = True
    reference = cur

    (exchanges, after) = message(plan, payload)
    ctx.steps += 1
    exch = exchanges[0]
    msg = exch.request if plan['side'] == 'req' else exch.responses[0]
    if after:
        check(len(exchanges) == 2 and
              exchanges[1].request.target == '/after' and
              exchanges[1].responses[0].body == b'xyz', 'next-exchange-lost',
              [repr(e) for e in exchanges])
    else:
        check(len(exchanges) == 1, 'more-exchanges',
              [repr(e) for e in exchanges])
    got = msg.decoded_body
    ids = [c.id for c in msg.notices]
    named = named_codings(observe.text_report([exch]))
    failed = [x for x in named if x[0] in (1037, 1027)]
    unknown = [x for x in named if x[0] in (1036, 1003)]
    check(sorted(x[0] for x in named) ==
          sorted(x for x in ids if x in (1003, 1027, 1036, 1037)),
          'notices-not-reported', named, ids)
    ctx.trivial = not hurt and len(layers) < 2
    ctx.faults_from(FS.fired)
    stack = [x['kind'] for x in layers]
    ctx.note(stack, plan['ops'], observe.body(got), failed, unknown)
    ctx.state(stack, plan['at'] if hurt else None,
              [op['op'] for op in plan['ops'][:2]],
              isinstance(got, bytes), failed)
    if empty:
        # Nothing to decode (any more): not a matter of this property.
        ctx.trivial = True
        return

    if isinstance(got, bytes):
        check(got == original or (hurt and reference is not None and
                                  got == reference),
              'wrong-body-presented', got[:200], original[:200],
              len(got), len(original))
        check(not any(x['kind'] == 'unknown' for x in layers),
              'unknown-coding-ignored', stack)
        check(not failed and not unknown, 'notice-on-good-body', ids)
    else:
        check(isinstance(got, Unavailable), 'body-lost', repr(got)[:200])
        check(len(failed) + len(unknown) == 1, 'no-notice-or-many', failed,
              unknown)
        check(hurt or first_bad is not None, 'intact-body-not-decoded',
              failed, unknown)
        if failed:
            check(hurt, 'intact-body-not-decoded', failed)
            check(failed[0] in [
                (1027 if x['te'] else 1037, x['name'].lower())
                for x in layers[:len(layers) if first_bad is None
                                else first_bad + 1]
                if x['kind'] != 'unknown'], 'wrong-coding-named', failed,
                stack, first_bad)
            ctx.probe('coding failed: %s' % stack[-1])
        else:
            check(unknown[0] in [
                (1003 if x['te'] else 1036, x['name'].lower())
                for x in layers if x['kind'] == 'unknown'],
                'wrong-coding-named', unknown, stack)
    # Whatever the content, it was well-formed, as far as anyone can tell.
    if reference in (None, original):
        check(not CONTENT_NOTICES & set(ids), 'content-notice', ids)

    if plan.get('html'):
        page = observe.html_body(observe.html_report([exch]))
        removed = b'removing Content-Encoding' in page
        if isinstance(got, bytes):
            if got == original and plan['content']['kind'] in (
                    'text', 'json', 'xml', 'form'):
                check(MARK in page, 'content-not-displayed', page[-800:])
        else:
            check(not removed, 'display-claims-decoded', page[-800:])
            if MARK in page:
                check(isinstance(msg.body, bytes) and MARK in msg.body,
                      'display-of-lost-content', page[-800:])


_LINE = re.compile(r'[A-Z] (1003|1027|1036|1037) .*: (\S+)$', re.M)


def named_codings(report):
    """What the report says could not be decoded."""
    return [(int(a), c.lower())
            for a, c in _LINE.findall(report.decode('utf-8'))]
