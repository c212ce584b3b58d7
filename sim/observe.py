"""What an outside observer sees: exchanges, notices, reports.

Only the public surface is used (attributes documented for library users,
reports, exit status), plus the position of a parse error in the context of
a notice, which is what the HTML report prints.
"""

import gc
import io
import re
import sys

from sim.proto import s


FRAMING = frozenset([1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009,
                     1010, 1011, 1012, 1016, 1027, 1224, 1278, 1279, 1298])
POSITIONED = (1004, 1005, 1006, 1009)


def value(x):
    """A comparable, JSON-able form of a body or another value."""
    from httpolice.structure import Unavailable
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, bytes):
        return s(x)
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, Unavailable):
        return {'unavailable': value(x.inner)}
    return {'other': '%s' % type(x).__name__}


def body(x):
    """Like `value`, but whatever is unavailable is just unavailable."""
    v = value(x)
    if isinstance(v, dict) and 'unavailable' in v:
        return {'unavailable': True}
    return v


def entries(xs):
    return [[value(e.name), value(e.value)] for e in xs]


def complaint_data(c):
    ctx = c.context
    d = [c.id]
    if c.id in POSITIONED:
        err = ctx.get('error')
        d += [getattr(err, 'name', None), getattr(err, 'position', None)]
    elif c.id in (1007, 1010):
        d += [ctx['stream'].name, ctx.get('offset')]
    elif c.id == 1008:
        d += [ctx['stream'].name]
    elif c.id == 1278:
        d += [value(ctx.get('path'))]
    elif c.id == 1279:
        d += [value(ctx.get('path1')), value(ctx.get('path2'))]
    elif c.id == 1298:
        d += [ctx.get('size')]
    return d


def framing_notices(obj):
    return [complaint_data(c) for c in obj.complaints if c.id in FRAMING]


def message(msg, is_request, notices=framing_notices):
    d = {
        'version': value(msg.version),
        'headers': entries(msg.header_entries),
        'trailers': entries(msg.trailer_entries),
        'body': body(msg.body),
        'remark': value(msg.remark),
        'notices': notices(msg),
    }
    if is_request:
        d['method'] = value(msg.method)
        d['target'] = value(msg.target)
    else:
        d['status'] = int(msg.status)
        d['reason'] = value(msg.reason)
    return d


def exchange(exch, notices=framing_notices):
    req = exch.request
    for resp in exch.responses:
        if resp.request is not req:
            return {'bad': 'response refers to another request'}
    return {
        'req': message(req, True, notices) if req is not None else None,
        'resps': [message(r, False, notices) for r in exch.responses],
        'box': notices(exch),
    }


def _parsed(x):
    from httpolice.structure import Unavailable
    if isinstance(x, Unavailable):
        return 'unavailable'
    if isinstance(x, (list, tuple)):
        return [_parsed(y) for y in x]
    if isinstance(x, dict):
        return [[_parsed(k), _parsed(v)] for k, v in x.items()]
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return value(x)
    if hasattr(x, '__dict__') and vars(x):
        return [type(x).__name__] + [[k, _parsed(v)]
                                     for k, v in sorted(vars(x).items())]
    if getattr(type(x), '__slots__', None):
        return [type(x).__name__] + [
            _parsed(getattr(x, k, None)) for k in type(x).__slots__]
    return str(x)


def views(exch):
    """Headers as they were understood."""
    out = []
    for m in ([exch.request] if exch.request is not None else []) + \
            list(exch.responses):
        for e in m.header_entries + m.trailer_entries:
            view = m.headers[e.name]
            out.append([value(e.name), bool(view.is_present),
                        bool(view.is_okay), _parsed(view.value)])
    return out


def all_notices(obj):
    return [c.id for c in obj.complaints]


def notice_ids(exch):
    """IDs by message, in order."""
    return [all_notices(exch.request) if exch.request is not None else None,
            [all_notices(r) for r in exch.responses],
            all_notices(exch)]


_REF = re.compile(br'data-ref-(id|to)="([0-9 ]*)"')
_EXCHANGE = b'<div class="exchange"'


def normal_html(data):
    """Replace the arbitrary numbering of references in an HTML report.

    References are only meaningful inside one exchange: what remains is which
    element of the exchange each of them points to, if any.
    """
    if b'data-ref-' not in data:
        return data
    return _EXCHANGE.join(_normal_refs(x) for x in data.split(_EXCHANGE))


def _normal_refs(data):
    numbers = {}
    for m in _REF.finditer(data):
        if m.group(1) == b'id':
            numbers.setdefault(m.group(2), len(numbers))

    def replace(m):
        if m.group(1) == b'id':
            return b'data-ref-id="%d"' % numbers[m.group(2)]
        refs = [numbers.get(x) for x in m.group(2).split()]
        return b'data-ref-to="%s"' % b' '.join(
            b'-' if x is None else b'%d' % x for x in refs)
    return _REF.sub(replace, data)


class _StableIds:

    """Instead of addresses of objects, which no seed decides.

    Only where it does not matter that objects are kept alive.
    """

    def __init__(self):
        self.kept = {}
        self.n = 0

    def __call__(self, obj):
        key = id(obj)
        if key not in self.kept:
            self.n += 1
            self.kept[key] = (obj, self.n)
        return self.kept[key][1]


_stable_ids = _StableIds()


def stable_ids():
    from httpolice.reports import html
    _stable_ids.kept.clear()
    html.id = _stable_ids


def text_report(exchanges):
    import httpolice
    buf = io.BytesIO()
    httpolice.text_report(exchanges, buf)
    return buf.getvalue()


def html_report(exchanges):
    import httpolice
    buf = io.BytesIO()
    httpolice.html_report(exchanges, buf)
    return normal_html(buf.getvalue())


def html_body(data):
    """The part of an HTML report that depends on the exchanges."""
    i = data.find(b'<h1>')
    return data[i:] if i >= 0 else data


class CliResult:

    def __init__(self, status, out, err, exc=None, finish=None):
        self.status = status
        self.out = out
        self.err = err
        self.exc = exc
        self.finish = finish

    def key(self):
        return (self.status, normal_html(self.out), self.err)


def left_open():
    """Input files that nobody has closed, nor will.

    After an exception, CPython may keep suspended generators (with their
    files) in reference cycles of stack frames until the garbage collector
    gets to them; they do close their files then.
    """
    from sim.simfs import FS
    if FS.open_files:
        gc.collect()
    return [f.path for f in FS.open_files]


def run_cli(argv, stdout=None):
    """The command-line tool, in process. Never raises `Exception`.

    This does what the script generated from the entry point of the package
    does: ``sys.exit(httpolice.cli.main())``.
    """
    from httpolice import cli
    from sim.simfs import SimStdout
    stdout = stdout or SimStdout()
    stderr = io.StringIO()
    exc = None
    saved = (sys.argv, sys.stdout, sys.stderr, sys.excepthook)
    try:
        (sys.argv, sys.stdout, sys.stderr) = (['httpolice'] + argv, stdout,
                                              stderr)
        try:
            status = cli.main()
        except SystemExit as e:
            status = e.code
        if status is None:
            status = 0
        elif not isinstance(status, int):
            stderr.write(u'%s\n' % (status,))
            status = 1
    except Exception as e:
        exc = e
        status = 1
        sys.excepthook(type(e), e, e.__traceback__)
    finally:
        current = sys.stdout
        (sys.argv, sys.stdout, sys.stderr, sys.excepthook) = saved
    finish = stdout.finish()
    if current is not stdout:
        finish = None       # nobody will know about that error
    return CliResult(status, stdout.data, stderr.getvalue(), exc, finish)


def read_input(fmt, paths, limit=None):
    from httpolice import inputs
    out = []
    for exch in inputs.formats[fmt](paths):
        out.append(exch)
        if limit is not None and len(out) >= limit:
            break
    return out
