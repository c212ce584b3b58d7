"""What happens to a stream between the peers and the capture file.

The tap sees TCP segments: it may miss, repeat or misplace them (sniffers that
lose a packet often leave a hole filled with zeros), and stored bytes may rot.
All damage is explicit in the plan as a list of operations, so that it can be
replayed and minimised.
"""

from sim.proto import b, s


JUNK = ['\r', '\n', '\r\n', ' ', '\t', ':', ';', ',', '\0', '\xff', '0', '9',
        'a', 'F', '\x0b', '\x85', '\xa0', '+', '-', '_', '"', 'HTTP/1.1',
        'GET / HTTP/1.1\r\n\r\n', '\r\n\r\n', '0\r\n\r\n',
        'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n', '0x', 'ffffffff',
        '7fffffffffffffff', '\u00b2', ' \r\n', 'x' * 17, 'x' * 16384,
        '\r\n\r\n\r\n', '\n\n', '1_0', '5\r\nhello\r\n', '\x00' * 40]

LINES = ['Content-Length: 0\r\n', 'Content-Length: 5\r\n',
         'content-length: 12\r\n', 'Content-Length: 99999999999\r\n',
         'Content-Length: 1073741825\r\n', 'Content-Length: 1073741824\r\n',
         'Content-Length: -1\r\n', 'Content-Length: +5\r\n',
         'Content-Length: 5, 5\r\n', 'Content-Length:\r\n',
         'Content-Length: 5 \r\n', 'Content-Length: 0x5\r\n',
         'Content-Length: ' + '9' * 5000 + '\r\n',
         'Content-Length: \u00b2\r\n', 'Content-Length: 1_0\r\n',
         'Transfer-Encoding: chunked\r\n', 'Transfer-Encoding: gzip\r\n',
         'Transfer-Encoding: gzip, chunked\r\n',
         'Transfer-Encoding: chunked, gzip\r\n',
         'Transfer-Encoding: chunked, chunked\r\n',
         'Transfer-Encoding: identity\r\n',
         'transfer-encoding: deflate\r\n', 'Transfer-Encoding:\r\n',
         'Transfer-Encoding: ,\r\n', 'Transfer-Encoding: , chunked\r\n',
         'Transfer-Encoding: chunked;a=b\r\n',
         'Transfer-Encoding: foo;a="b,c" , chunked\r\n',
         'Transfer-Encoding: xchunked\r\n', 'Transfer-Encoding: "x"\r\n',
         'Transfer-Encoding: CHUNKED\r\n', 'Transfer-Encoding: \x0bchunked'
         '\r\n', 'Transfer-Encoding: foo, bar, chunked\r\n',
         'Transfer-Encoding : chunked\r\n', ' folded\r\n', '\tfolded\r\n',
         'nocolon\r\n', ':\r\n', ': empty name\r\n', 'X:' + 'y' * 16381 +
         '\r\n', 'X:' + 'y' * 16379 + '\r\n', 'X:' + 'y' * 16380 + '\r\n',
         'X:' + 'y' * 16383, '\r\n', '\n', 'X: y\n', '\rX: y\r\n',
         'X: y\r\r\n', 'HTTP/1.1 200 OK\r\n', 'GET / HTTP/1.1\r\n',
         '5\r\nhello\r\n', '0\r\n', '0\r\n\r\n', '40000000\r\n',
         '40000001\r\n', '3fffffff\r\n', 'FFFFFFFFFFFFFFFFFFFF\r\n',
         '-1\r\n', '+1\r\n', ' 5\r\n', '5 ;x\r\n', '0x5\r\n', ';\r\n', '5\n',
         '1_0\r\n', '0' * 6000 + '5\r\n', '\u00b2\r\n', 'f' * 5000 + '\r\n']


def starts_of_lines(data):
    out = [0]
    i = data.find(b'\n')
    while i >= 0 and len(out) < 400:
        out.append(i + 1)
        i = data.find(b'\n', i + 1)
    return out


def gen_ops(r, data, layout, n=None):
    """`layout` is ``[(start, heading end, end), ...]`` for one stream."""
    if n is None:
        n = r.weighted([(5, 1), (3, 2), (1, 3), (1, 5)])
    ops = []
    if not data:
        return ops
    marks = [x for m in layout for x in m]
    lines = starts_of_lines(data)

    def pos():
        how = r.randrange(4)
        if how == 0 and marks:
            p = r.pick(marks) + r.randrange(-3, 4)
        elif how in (1, 2):
            p = r.pick(lines) + r.pick([0, 0, 0, 1, 2, -1, -2, -3])
        else:
            p = r.randrange(len(data))
        return min(max(p, 0), len(data) - 1)

    for _ in range(n):
        kind = r.weighted([(3, 'flip'), (3, 'set'), (3, 'insert'),
                           (5, 'line'), (3, 'delete'), (1, 'dup'),
                           (1, 'swap'), (1, 'zero'), (1, 'lose')])
        op = {'op': kind, 'pos': pos()}
        if kind == 'flip':
            op['bit'] = r.randrange(8)
        elif kind == 'set':
            op['byte'] = r.pick('\r\n :;,\0\xff09aFGx\x80"/.HT')
        elif kind == 'insert':
            op['data'] = r.pick(JUNK)
        elif kind == 'line':
            op['op'] = 'insert'
            op['pos'] = r.pick(lines)
            op['data'] = r.pick(LINES)
        elif kind == 'delete':
            op['n'] = r.pick([1, 1, 1, 2, 2, 3, 10, 100])
        elif kind in ('dup', 'swap', 'zero', 'lose'):
            op['n'] = r.pick([1, 7, 50, 536, 1460, 1460])
        ops.append(op)
    return ops


def apply_op(data, op):
    p = min(op['pos'], len(data))
    kind = op['op']
    if kind == 'flip':
        if p < len(data):
            return data[:p] + bytes([data[p] ^ (1 << op['bit'])]) + \
                data[p + 1:]
        return data
    if kind == 'set':
        return data[:p] + op['byte'].encode('iso-8859-1') + data[p + 1:]
    if kind == 'insert':
        return data[:p] + op['data'].encode('iso-8859-1', 'replace') + \
            data[p:]
    n = op['n']
    if kind in ('delete', 'lose'):
        return data[:p] + data[p + n:]
    if kind == 'dup':
        return data[:p + n] + data[p:]
    if kind == 'swap':
        return data[:p] + data[p + n:p + 2 * n] + data[p:p + n] + \
            data[p + 2 * n:]
    if kind == 'zero':
        k = len(data[p:p + n])
        return data[:p] + b'\0' * k + data[p + n:]
    if kind == 'cut':
        return data[:p]
    raise ValueError(kind)


NAMES = {'flip': 'bit flip', 'set': 'byte overwritten',
         'insert': 'bytes inserted', 'delete': 'bytes deleted',
         'lose': 'segment lost', 'dup': 'segment duplicated',
         'swap': 'segments reordered', 'zero': 'segment zeroed',
         'cut': 'stream cut off'}


def apply_ops(data, ops, ctx=None):
    for op in ops:
        new = apply_op(data, op)
        if ctx is not None and new != data:
            ctx.fault(NAMES[op['op']])
        data = new
    return data
