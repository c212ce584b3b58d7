"""Captures as input to whole-tool simulations, and what the intact tool makes
of them (exchange by exchange)."""

from sim import observe, traffic, work
from sim.clock import CLOCK
from sim.props import c04
from sim.simfs import FS

SHRINK_LISTS = c04.SHRINK_LISTS
SHRINK_INTS = c04.SHRINK_INTS
SHRINK_STRS = c04.SHRINK_STRS

setup = c04.setup


def gen(r, i, tier, formats=None, damaged=True):
    """A plan (as in C04) for a moderately sized input."""
    while True:
        plan = c04.gen(r, i, tier)
        if plan['kind'] == 'nasty':
            continue
        if formats is not None and plan['format'] not in formats:
            continue
        break
    plan.pop('now', None)
    if not damaged:
        for c in plan.get('conns', []):
            c['in_ops'] = []
            c['out_ops'] = []
        for h in plan.get('hars', []):
            h['json_ops'] = []
            h.pop('ops', None)
    return plan


valid = c04.valid


def reset(plan, io_=None):
    FS.reset()
    CLOCK.reset(plan.get('now', 1500000000.0))
    work.apply_io(io_ if io_ is not None else plan.get('io', {}))


def place(plan, ctx):
    return c04.place(plan, ctx)


def pieces(fmt, paths, output):
    """What a perfect run writes: ``(prologue, [piece...], epilogue, error)``.

    One piece per exchange; `error` is the input error that ends it all.
    """
    import httpolice
    from httpolice import inputs
    exchanges = []
    error = None
    try:
        for e in inputs.formats[fmt](paths):
            httpolice.check_exchange(e)
            exchanges.append(e)
    except (inputs.InputError, EnvironmentError) as e:
        error = e
    if output == 'text':
        return (b'', [observe.text_report([e]) for e in exchanges], b'',
                error)
    empty = observe.html_report([])
    divs = []
    k = None
    for e in exchanges:
        full = observe.html_report([e])
        i = full.find(observe._EXCHANGE)
        if i < 0:
            divs.append(b'')        # an empty box leaves no trace
            continue
        k = i
        divs.append(full[i : len(full) - (len(empty) - i)])
    if k is None:
        k = prologue_length(empty)
    return empty[:k], divs, empty[k:], error


def prologue_length(empty):
    import httpolice
    box = httpolice.Exchange(
        httpolice.Request('http', 'GET', '/', 'HTTP/1.1', [], b''), [])
    return observe.html_report([box]).find(observe._EXCHANGE)


def prefixes(prologue, parts):
    """All reports that consist of whole exchanges (and are unfinished)."""
    out = [prologue]
    for p in parts:
        out.append(out[-1] + p)
    return out
