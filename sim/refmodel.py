"""A reference model of HTTP/1.x message framing (RFC 7230 Section 3).

Written from the RFC and from the documented meaning of the notices, over whole
byte strings with regular expressions, sharing no code with the implementation.
Its output has the form of `sim.observe.exchange`.
"""

import re
import gzip
import io
import zlib

from sim.proto import s


MAX_LINE = 16 * 1024
MAX_BODY = 1 << 30
UNAVAILABLE = {'unavailable': True}

_VERSION = re.compile(r'HTTP/[0-9]\.[0-9]\Z')
_STATUS = re.compile(r'[0-9]{3}\Z')
_CHUNK = re.compile(r'[0-9A-Fa-f]+\Z')
_TOKEN = r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+"
_QUOTED = r'"(?:[\t !\x23-\x5b\x5d-\x7e\x80-\xff]|\\[\t \x21-\x7e\x80-\xff])*"'
_PARAM = r'[ \t]*;[ \t]*%s[ \t]*=[ \t]*(?:%s|%s)' % (_TOKEN, _TOKEN, _QUOTED)
_ELEMENT = re.compile(r'(%s)((?:%s)*)' % (_TOKEN, _PARAM))
_SEP = re.compile(r'[ \t]*,[ \t]*')
_BUILTIN = ('chunked', 'compress', 'deflate', 'gzip')


class Lost(Exception):
    """Framing has been lost."""

    def __init__(self, pos):
        self.pos = pos


class TooLong(Exception):

    def __init__(self, size):
        self.size = size


class Source:

    def __init__(self, data, name):
        self.data = data
        self.name = name
        self.pos = 0
        self.done = False       # the end of data has been noticed
        self.sane = True

    @property
    def good(self):
        return self.sane and not self.done

    def lost(self, pos):
        self.sane = False
        return Lost(pos)

    def peek(self):
        return self.data[self.pos:self.pos + 1]

    def advance(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        if self.pos >= len(self.data):
            self.done = True
        return r

    def line(self, lf):
        start = self.pos
        end = self.data.find(b'\n', start, start + MAX_LINE)
        if end < 0:
            self.advance(MAX_LINE)
            raise self.lost(start)
        r = self.advance(end + 1 - start)[:-1]
        if r.endswith(b'\r'):
            return r[:-1]
        lf.append(True)
        return r

    def empty_line(self, lf):
        start = self.pos
        if self.line(lf) != b'':
            raise self.lost(start)

    def take(self, n):
        start = self.pos
        r = self.advance(n)
        if len(r) < n:
            raise self.lost(start)
        return r

    def rest(self):
        return self.advance(len(self.data))

    def fields(self, lf, folds):
        out = []
        while self.peek() not in (b'\r', b'\n', b''):
            start = self.pos
            (name, colon, value) = self.line(lf).partition(b':')
            if not colon:
                raise self.lost(start)
            while self.peek() in (b' ', b'\t'):
                folds.append(True)
                value += b' ' + self.line(lf).lstrip(b' \t')
            out.append([s(name), s(value.strip(b' \t'))])
        return out


def transfer_codings(headers):
    """A flat list of lower-case codings; `None` for something malformed."""
    out = []
    for name, value in headers:
        if name.lower() != 'transfer-encoding':
            continue
        items = _coding_list(value)
        if items is None:
            out.append(None)
        else:
            out.extend(items)
    return out


def _coding_list(value):
    items = []
    pos = 0
    expect_element = True
    seen = False
    # ``#rule`` with empty elements allowed, but at least one element.
    m = re.compile(r'(?:,[ \t]*)*').match(value, pos)
    pos = m.end()
    while True:
        if expect_element:
            m = _ELEMENT.match(value, pos)
            if not m:
                if not seen:
                    return None
                # An empty element.
            else:
                coding = m.group(1).lower()
                if coding in _BUILTIN and m.group(2):
                    return None
                items.append(coding)
                seen = True
                pos = m.end()
        if pos == len(value):
            return items if seen else None
        m = _SEP.match(value, pos)
        if not m:
            return None
        pos = m.end()
        expect_element = True
        if pos == len(value):
            return items


def content_length(headers):
    """(present, length or `None` if malformed)."""
    values = [v for n, v in headers if n.lower() == 'content-length']
    if not values:
        return (False, None)
    if not re.match(r'[0-9]+\Z', values[-1]):
        return (True, None)
    digits = values[-1].lstrip('0')
    if len(digits) > 1000:
        return (True, -len(digits))
    return (True, int(digits or '0'))


class Ambiguous(Exception):

    """Conforming decoders differ on this (damaged) data."""


def gunzip(data):
    def by_zlib():
        out = b''
        rest = data
        while rest:
            d = zlib.decompressobj(31)
            out += d.decompress(rest)
            if not d.eof:
                raise ValueError('incomplete')
            rest = d.unused_data.lstrip(b'\0')
        return out

    def by_gzip():
        return gzip.GzipFile(fileobj=io.BytesIO(data)).read()

    results = []
    for f in (by_zlib, by_gzip):
        try:
            results.append(f())
        except Exception:
            results.append(None)
    # They differ on reserved flags and checksums of headers.
    if results[0] != results[1]:
        raise Ambiguous()
    if results[0] is None:
        raise ValueError('bad gzip data')
    return results[0]


def inflate(data):
    d = zlib.decompressobj()
    out = d.decompress(data)
    if not d.eof:
        raise ValueError('incomplete')
    return out


class Model:

    def __init__(self, inbound=None, outbound=None, in_name=None,
                 out_name=None):
        self.inb = Source(inbound, in_name) if inbound is not None else None
        self.outb = Source(outbound, out_name) if outbound is not None \
            else None
        self.exchanges = []

    def box(self, *notice):
        return {'req': None, 'resps': [], 'box': [list(notice)]}

    def run(self):
        (inb, outb) = (self.inb, self.outb)
        while inb and inb.good:
            try:
                req = self.request_heading(inb)
            except Lost as e:
                self.exchanges.append(self.box(1006, inb.name, e.pos))
                break
            self.request_body(req, inb)
            (resps, box) = ([], None)
            if outb and outb.good:
                (resps, box) = self.responses(outb, req)
                if resps:
                    last = resps[-1]['status']
                    if last == 101 or (req['method'] == 'CONNECT' and
                                       200 <= last < 300):
                        inb.sane = False
            self.exchanges.append({'req': req, 'resps': resps, 'box': []})
            if box:
                self.exchanges.append(box)
        if inb and not inb.done:
            self.exchanges.append(self.box(1007, inb.name, inb.pos))
        if outb and outb.good:
            if inb:
                self.exchanges.append(self.box(1008, outb.name))
            while outb.good:
                (resps, box) = self.responses(outb, None)
                if resps:
                    self.exchanges.append({'req': None, 'resps': resps,
                                           'box': []})
                if box:
                    self.exchanges.append(box)
        if outb and not outb.done:
            self.exchanges.append(self.box(1010, outb.name, outb.pos))
        return self.exchanges

    def heading(self, src, parse_start):
        start = src.pos
        (lf, folds) = ([], [])
        line = s(src.line(lf))
        msg = parse_start(line)
        if msg is None:
            raise src.lost(start)
        msg['headers'] = src.fields(lf, folds)
        src.empty_line(lf)
        msg['trailers'] = []
        msg['notices'] = []
        if lf:
            msg['notices'].append([1224])
        if folds:
            msg['notices'].append([1016])
        msg['remark'] = 'from %s, offset %d' % (src.name, start)
        return msg

    def request_heading(self, src):
        def parse(line):
            p = line.split(' ')
            if len(p) != 3 or not _VERSION.match(p[2]):
                return None
            return {'method': p[0], 'target': p[1], 'version': p[2]}
        return self.heading(src, parse)

    def response_heading(self, src):
        def parse(line):
            p = line.split(' ', 2)
            if len(p) != 3 or not _VERSION.match(p[0]) or \
                    not _STATUS.match(p[1]):
                return None
            return {'version': p[0], 'status': int(p[1]), 'reason': p[2]}
        return self.heading(src, parse)

    def request_body(self, msg, src):
        codings = transfer_codings(msg['headers'])
        (has_length, n) = content_length(msg['headers'])
        if codings:
            if codings[-1] == 'chunked':
                self.chunked(msg, src)
            else:
                msg['body'] = UNAVAILABLE
                msg['notices'].append([1001])
                src.sane = False
            self.decode(msg, codings[:-1])
        elif has_length and n != 0:
            self.sized(msg, src, n)
        else:
            msg['body'] = ''

    def responses(self, src, req):
        out = []
        while src.good:
            try:
                msg = self.response_heading(src)
            except Lost as e:
                return (out, self.box(1009, src.name, e.pos))
            out.append(msg)
            self.response_body(msg, src, req)
            if not 100 <= msg['status'] < 200 or msg['status'] == 101:
                break
        return (out, None)

    def response_body(self, msg, src, req):
        status = msg['status']
        method = req['method'] if req else None
        codings = transfer_codings(msg['headers'])
        (has_length, n) = content_length(msg['headers'])
        if status == 101:
            msg['body'] = ''
            msg['notices'].append([1011])
            src.sane = False
        elif method == 'CONNECT' and 200 <= status < 300:
            msg['body'] = ''
            msg['notices'].append([1012])
            src.sane = False
        elif 100 <= status < 200 or status in (204, 304) or method == 'HEAD':
            msg['body'] = ''
        elif codings:
            if codings[-1] == 'chunked':
                self.chunked(msg, src)
                self.decode(msg, codings[:-1])
            else:
                msg['body'] = s(src.rest())
                self.decode(msg, codings)
        elif has_length:
            self.sized(msg, src, n)
        else:
            msg['body'] = s(src.rest())

    def sized(self, msg, src, n):
        if n is None:
            msg['body'] = UNAVAILABLE
            src.sane = False
        elif n < 0 or n > MAX_BODY:
            msg['body'] = UNAVAILABLE
            src.sane = False
            msg['notices'].append([1298, n])
        else:
            try:
                msg['body'] = s(src.take(n))
            except Lost as e:
                msg['body'] = UNAVAILABLE
                msg['notices'].append([1004, src.name, e.pos])

    def chunked(self, msg, src):
        data = []
        total = 0
        (lf, folds) = ([], [])
        try:
            while True:
                start = src.pos
                size = s(src.line(lf)).partition(';')[0].rstrip(' \t')
                if not _CHUNK.match(size):
                    raise src.lost(start)
                digits = size.lstrip('0')
                n = int(digits or '0', 16)
                if n == 0:
                    break
                total += n
                if total > MAX_BODY:
                    src.sane = False
                    raise TooLong(total if len(digits) <= 1000
                                  else -len(digits))
                data.append(src.take(n))
                src.empty_line(lf)
            trailers = src.fields(lf, folds)
            src.empty_line(lf)
        except Lost as e:
            msg['body'] = UNAVAILABLE
            msg['notices'].append([1005, src.name, e.pos])
        except TooLong as e:
            msg['body'] = UNAVAILABLE
            msg['notices'].append([1298, e.size])
        else:
            if lf:
                msg['notices'].append([1224])
            if folds:
                msg['notices'].append([1016])
            msg['body'] = s(b''.join(data))
            msg['trailers'] = trailers

    def decode(self, msg, codings):
        for coding in reversed(codings):
            if msg['body'] == UNAVAILABLE:
                break
            data = msg['body'].encode('iso-8859-1')
            if coding in ('gzip', 'x-gzip', 'deflate'):
                try:
                    msg['body'] = s((inflate if coding == 'deflate'
                                     else gunzip)(data))
                except Ambiguous:
                    raise
                except Exception:
                    msg['notices'].append([1027])
                    msg['body'] = UNAVAILABLE
            else:
                if coding == 'chunked':
                    msg['notices'].append([1002])
                elif coding is not None:
                    msg['notices'].append([1003])
                msg['body'] = UNAVAILABLE


def exchanges(inbound=None, outbound=None, in_name=None, out_name=None):
    return Model(inbound, outbound, in_name, out_name).run()


def normal(exch):
    """Framing notices as a set; sizes beyond reason are not compared."""
    def fix(notices):
        return sorted({tuple(
            [1298, 'huge'] if n[0] == 1298 and isinstance(n[1], int) and
            (n[1] < 0 or n[1] > 10 ** 900) else n) for n in notices},
            key=repr)

    def msg(m):
        return None if m is None else dict(m, notices=fix(m['notices']))
    if 'bad' in exch:
        return exch
    return {'req': msg(exch['req']),
            'resps': [msg(m) for m in exch['resps']],
            'box': fix(exch['box'])}
