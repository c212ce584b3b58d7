"""Exceptions that come out of nowhere, at a chosen point of the code.

The point is a bytecode instruction (or line) of the code under test, or of
the library it makes HTML with: the n-th event at one place of one function.
"""

import dis
import functools
import sys

from sim import threads


MON = sys.monitoring
TOOL = MON.PROFILER_ID


class Timeout(Exception):

    """As raised by plugins that limit the duration of tests."""


class Killed(BaseException):

    """As used by some frameworks to end a task."""


KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
         'Timeout': Timeout, 'Killed': Killed, 'SystemExit': SystemExit}


# Most instructions can't be interrupted. The interpreter looks for signals and
# asynchronous exceptions only where a function starts, after a call, and where
# a loop jumps back; memory may run out in those that make new objects.
ALLOCATING = ('BUILD_', 'BINARY_', 'FORMAT_', 'CALL', 'LIST_', 'SET_', 'DICT_',
              'STORE_SUBSCR', 'STORE_ATTR', 'GET_ITER', 'FOR_ITER',
              'COMPARE_OP', 'CONTAINS_OP', 'UNPACK_', 'MAKE_', 'IMPORT_',
              'LOAD_ATTR', 'UNARY_', 'YIELD', 'SEND', 'MAP_')


@functools.lru_cache(None)
def realistic(code, memory):
    """Offsets of instructions of `code` before which it can happen."""
    instructions = [i for i in dis.get_instructions(code)
                    if i.opname not in ('CACHE', 'EXTENDED_ARG')]
    entries = dis._parse_exception_table(code)

    def handler(offset):
        for e in entries:
            if e.start <= offset < e.end:
                return e.target
        return None
    out = set()
    last = None
    for (n, i) in enumerate(instructions):
        # The call of `__exit__`, or of `release` and such.
        before = instructions[max(0, n - 3):n]
        exiting = i.opname == 'CALL' and (
            [b.argval for b in before if b.opname == 'LOAD_CONST'] ==
            [None] * 3 or
            any(b.argval in ('release', 'close') for b in before))
        if i.opname == 'RESUME':
            out.add(i.offset)
        elif last is not None and handler(last.offset) == handler(i.offset):
            # As if raised by the call itself.
            out.add(i.offset)
        if memory and i.opname.startswith(ALLOCATING) and not exiting and \
                not (i.opname == 'LOAD_ATTR' and
                     i.argval in ('release', 'close')):
            out.add(i.offset)
        last = i if i.opname.startswith(('CALL', 'RESUME')) else None
        if i.opname == 'JUMP_BACKWARD' and \
                handler(i.offset) == handler(i.argval):
            out.add(i.argval)
    return out


def _name(code):
    return tuple(threads.place_name(code))


class _Tracer:

    def __init__(self, only=None, starts=False):
        self.only = only
        self.starts = starts        # just when they are called
        self.codes = []

    def __enter__(self):
        MON.use_tool_id(TOOL, 'interrupt')
        ev = MON.events
        for code, kind in threads.codes().items():
            if self.only is not None and _name(code) not in self.only:
                continue
            self.codes.append(code)
            if self.starts:
                MON.set_local_events(TOOL, code, ev.PY_START)
                continue
            # Functions called over and over: by line.
            MON.set_local_events(
                TOOL, code, ev.LINE | ev.PY_RETURN
                if kind == threads.LIBRARY else ev.INSTRUCTION)
        for event in (ev.LINE, ev.INSTRUCTION, ev.PY_START):
            MON.register_callback(TOOL, event, self.on_event)
        MON.register_callback(TOOL, ev.PY_RETURN, self.on_return)
        return self

    def __exit__(self, *_):
        for code in self.codes:
            MON.set_local_events(TOOL, code, 0)
        for event in (MON.events.LINE, MON.events.INSTRUCTION,
                      MON.events.PY_START, MON.events.PY_RETURN):
            MON.register_callback(TOOL, event, None)
        MON.free_tool_id(TOOL)

    def on_return(self, code, where, _):
        self.on_event(code, where)


class Profile(_Tracer):

    """Count the events of every function, place by place."""

    def __init__(self, only=None, starts=False, exc=None):
        _Tracer.__init__(self, only, starts)
        self.counts = {}
        self.exc = exc      # leave out where it can't happen

    def on_event(self, code, where):
        places = self.counts.setdefault(code, {})
        places[where] = places.get(where, 0) + 1

    def table(self):
        """``[[kind, name, [[where, n]]]]`` in a definite order."""
        kinds = threads.codes()
        out = []
        for c, places in self.counts.items():
            places = sorted(places.items())
            if self.exc is not None and kinds[c] != threads.LIBRARY:
                some = realistic(c, self.exc == 'MemoryError')
                places = [p for p in places if p[0] in some]
            if places:
                out.append((kinds[c], _name(c), places))
        return sorted(out)


class Injector(_Tracer):

    """Raise at the n-th event at this place of this function."""

    def __init__(self, name, where, n, exc):
        _Tracer.__init__(self, only=[name])
        self.where = where
        self.left = n
        self.exc = exc
        self.fired = False

    def on_event(self, code, where):
        if self.fired or where != self.where:
            return
        self.left -= 1
        if self.left < 0:
            self.fired = True
            raise self.exc()
