"""Simulated threads: real ones, of which only one runs at a time.

At calls and lines (in functions that touch shared state, at every bytecode
instruction) of the code under test, at calls of the library that it makes
HTML with, and where a simulated lock is taken, the scheduler may hand the
baton over to another thread. Nothing else ever makes a switch, so that the
policy (a seeded random one, or an explicit list of switches) decides the
whole interleaving.
"""

import _thread
import dis
import collections
import itertools
import math
import os
import sys
import threading
import traceback
import types
import zlib

from sim import locks, sut


COLD, WARM, HOT, LIBRARY = 1, 2, 3, 4
MON = sys.monitoring
TOOL = MON.DEBUGGER_ID
SHARED = set()          # names of functions that use module-level containers
BUDGET = 4000           # events of one function in one thread
STATEFUL = (dict, list, set, bytearray, collections.deque, itertools.count)
UPDATES = frozenset(['setdefault', 'popitem', 'move_to_end', 'popleft'])
WAIT = 120.0            # real seconds without the baton coming back


class Deadlock(Exception):
    pass


def _nested(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            for x in _nested(c):
                yield x


def _codes_in(module, prefix):
    """Code objects of functions defined in this module, with their globals."""
    todo = list(vars(module).values())
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, type):
            if x.__module__ == module.__name__:
                todo.extend(vars(x).values())
        elif isinstance(x, property):
            todo.extend([x.fget, x.fset, x.fdel])
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, types.FunctionType):
            todo.append(getattr(x, '__wrapped__', None))
            for cell in x.__closure__ or ():
                try:
                    todo.append(cell.cell_contents)
                except ValueError:
                    pass
            if x.__code__.co_filename.startswith(prefix):
                for c in _nested(x.__code__):
                    yield c, x.__globals__
        elif hasattr(x, '__wrapped__'):
            todo.append(x.__wrapped__)
        elif hasattr(x, 'registry') and hasattr(x, 'dispatch'):
            todo.extend(x.registry.values())


def find_codes():
    """Everything that can be preempted, as ``{code: kind}``."""
    import dominate
    root = sut.root()
    lib = os.path.dirname(os.path.abspath(dominate.__file__)) + os.sep
    out = {}
    for name in sorted(sys.modules):
        module = sys.modules[name]
        path = getattr(module, '__file__', None) or ''
        if path.startswith(root):
            for code, g in _codes_in(module, root):
                out.setdefault(code, classify(code, g))
        elif path.startswith(lib):
            for code, g in _codes_in(module, lib):
                out.setdefault(code, LIBRARY)
    return out


def classify(code, mod_globals):
    """Which functions are likely to touch shared state.

    This only steers the search.
    """
    shared = [k for k, v in mod_globals.items()
              if not k.startswith('__') and isinstance(v, STATEFUL)]
    if set(shared) & set(code.co_names):
        if code.co_name != 'main':
            SHARED.add(tuple(place_name(code)))
        return HOT
    if code.co_name == '__init__':
        return COLD
    ops = set(ins.opname for ins in dis.get_instructions(code))
    if ops & {'STORE_ATTR', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'DELETE_ATTR'}:
        return HOT
    if ops & {'STORE_SUBSCR', 'DELETE_SUBSCR'} or \
            UPDATES & set(code.co_names):
        return WARM
    return COLD


_codes = None


def codes():
    global _codes
    if _codes is None:
        _codes = find_codes()
    return _codes


def importing():
    """Whoever imports a module holds a (real) lock."""
    frame = sys._getframe(1)
    while frame is not None:
        if frame.f_code.co_name == '<module>' or \
                frame.f_code.co_filename == '<frozen importlib._bootstrap>':
            return True
        frame = frame.f_back
    return False


class Explicit:

    """A recorded schedule: ``[thread, its event number, next thread]``."""

    def __init__(self, base, switches, first, nexts):
        self.wants = base.wants     # counts the same events
        self.whole = getattr(base, 'whole', False)
        self.switches = {}
        for t, k, to in switches:
            self.switches[(t, k)] = to
        self.first = first
        self.nexts = list(nexts)

    def start(self, n):
        return self.first % n

    def at(self, sched, me, k, kind, code, where):
        return self.switches.get((me, k))

    def next(self, sched, runnable):
        to = self.nexts.pop(0) if self.nexts else runnable[0]
        return to if to in runnable else runnable[0]


class Random:

    """Switch with some probability, depending on the kind of code."""

    def __init__(self, r, p_cold, p_hot):
        self.r = r
        self.p = {COLD: p_cold, HOT: p_hot, LIBRARY: p_cold, WARM: p_hot}
        self.left = {k: self.gap(k) for k in self.p}

    def gap(self, kind):
        p = self.p[kind]
        if p <= 0:
            return 1 << 60
        return 1 + int(math.log(1 - self.r.random()) / math.log(1 - p))

    def wants(self, kind, code):
        return self.p[kind] > 0

    def start(self, n):
        return self.r.randrange(n)

    def at(self, sched, me, k, kind, code, where):
        self.left[kind] -= 1
        if self.left[kind] > 0:
            return None
        self.left[kind] = self.gap(kind)
        others = [t for t in sched.runnable() if t != me]
        return self.r.pick(others) if others else None

    def next(self, sched, runnable):
        return self.r.pick(runnable)


class Priorities:

    """Always the runnable thread of highest priority; at a few random points
    the running one drops to the lowest (as in PCT)."""

    def __init__(self, r, n, depth, horizon, hot_only):
        self.r = r
        self.order = list(range(n))
        r.shuffle(self.order)
        self.points = sorted(r.randrange(1, horizon) for _ in range(depth))
        self.count = 0
        self.hot_only = hot_only

    def wants(self, kind, code):
        return kind in (HOT, WARM) or not self.hot_only

    def start(self, n):
        return self.order[0]

    def at(self, sched, me, k, kind, code, where):
        self.count += 1
        if not self.points or self.count < self.points[0]:
            return None
        self.points.pop(0)
        self.order.remove(me)
        self.order.append(me)
        ready = sched.runnable()
        to = next((t for t in self.order if t in ready), None)
        return to if to != me else None

    def next(self, sched, runnable):
        return next(t for t in self.order if t in runnable)


class Focus(Priorities):

    """Only switch in a few of the functions that touch shared state, and
    then let the thread stay behind, as in `Priorities`."""

    def __init__(self, r, n, p, one_in):
        Priorities.__init__(self, r, n, 0, 2, True)
        self.p = p
        self.one_in = one_in
        self.salt = r.randrange(1 << 30)
        self.chosen = {}

    def wants(self, kind, code):
        if kind not in (HOT, WARM):
            return False
        if code not in self.chosen:
            name = '%d %s' % (self.salt, code.co_qualname)
            self.chosen[code] = \
                zlib.crc32(name.encode('utf-8')) % self.one_in == 0
        return self.chosen[code]

    def at(self, sched, me, k, kind, code, where):
        if self.r.random() >= self.p:
            return None
        ready = sched.runnable()
        self.order.remove(me)
        self.order.append(me)
        to = next((t for t in self.order if t in ready), None)
        return to if to != me else None


def place_name(code):
    """How plans refer to a function."""
    path = code.co_filename
    if path.startswith(sut.root()):
        path = path[len(sut.root()):].lstrip(os.sep)
    return [os.sep.join(path.split(os.sep)[-3:]), code.co_firstlineno,
            code.co_qualname]


class Park:

    """A thread that comes to a chosen point (the n-th time of one bytecode
    instruction of one function) stays there until all the others have
    finished, or have come to such points of their own."""

    whole = True        # wants every instruction, without exceptions

    def __init__(self, r, points):
        self.r = r
        self.points = {}
        self.codes = set()
        for t, name, where, n in points:
            self.points.setdefault((t, tuple(name), where), []).append(n)
            self.codes.add(tuple(name))
        self.counts = {}
        self.parked = []
        self.names = {}

    def name(self, code):
        if code not in self.names:
            self.names[code] = tuple(place_name(code))
        return self.names[code]

    def wants(self, kind, code):
        return self.name(code) in self.codes

    def start(self, n):
        return self.r.randrange(n)

    def at(self, sched, me, k, kind, code, where):
        key = (me, self.name(code), where)
        if key not in self.points:
            return None
        n = self.counts[key] = self.counts.get(key, 0) + 1
        if n - 1 not in self.points[key]:
            return None
        others = [t for t in sched.runnable() if t != me]
        if not others:
            return None
        if me not in self.parked:
            self.parked.append(me)
        return self.next(sched, others)

    def next(self, sched, runnable):
        ready = [t for t in runnable if t not in self.parked]
        if ready:
            return self.r.pick(ready)
        to = next(t for t in self.parked if t in runnable)
        self.parked.remove(to)
        return to


def make_policy(spec, n, rng):
    kind = spec['kind']
    if kind == 'park':
        return Park(rng, spec['points'])
    if kind == 'explicit':
        base = make_policy(spec['base'], n, rng)
        return Explicit(base, spec['switches'], spec['first'], spec['nexts'])
    if kind == 'random':
        return Random(rng, spec['cold'], spec['hot'])
    if kind == 'focus':
        return Focus(rng, n, spec['p'], spec['one_in'])
    return Priorities(rng, n, spec['depth'], spec['horizon'],
                      spec['hot_only'])


class Scheduler:

    def __init__(self, policy, opcodes=True, lines=True):
        self.policy = policy
        self.whole = getattr(policy, 'whole', False)
        self.lines = lines
        self.opcodes = opcodes
        self.trace_log = []         # switches made
        self.nexts = []             # whom control went to without a choice
        self.current = None
        self.counts = []
        self.calls = {}
        self.idents = {}
        self.finished = []
        self.waiting = []
        self.results = []
        self.steps = 0
        self.hot_switches = 0
        self.error = None           # of the simulator itself

    # For simulated locks.

    def is_ours(self):
        return _thread.get_ident() in self.idents

    def blocked_on(self, lock):
        me = self.idents[_thread.get_ident()]
        self.waiting[me] = lock
        ready = self.runnable()
        if not ready:
            raise Deadlock()
        self.hand_over(me, self.choose(ready))
        self.waiting[me] = None

    def runnable(self):
        return [t for t in range(len(self.gates))
                if not self.finished[t] and
                (self.waiting[t] is None or self.waiting[t]._owner is None)]

    def choose(self, ready):
        to = self.policy.next(self, ready)
        self.nexts.append(to)
        return to

    def hand_over(self, me, to):
        if to == me:
            return
        self.current = to
        self.gates[to].release()
        self.gates[me].acquire()

    # Tracing.

    def install(self):
        MON.use_tool_id(TOOL, 'sim')
        ev = MON.events
        self.kinds = {}
        for code, kind in codes().items():
            if not self.policy.wants(kind, code):
                continue
            self.kinds[code] = kind
            mask = ev.PY_START
            if self.whole:
                mask = ev.INSTRUCTION
            elif kind == HOT:
                mask |= ev.INSTRUCTION if self.opcodes else ev.LINE
            elif kind == WARM or self.lines and kind == COLD:
                mask |= ev.LINE
            MON.set_local_events(TOOL, code, mask)
        MON.register_callback(TOOL, ev.PY_START, self.on_event)
        MON.register_callback(TOOL, ev.LINE, self.on_event)
        MON.register_callback(TOOL, ev.INSTRUCTION, self.on_event)

    def uninstall(self):
        for code in self.kinds:
            MON.set_local_events(TOOL, code, 0)
        for event in (MON.events.PY_START, MON.events.LINE,
                      MON.events.INSTRUCTION):
            MON.register_callback(TOOL, event, None)
        MON.free_tool_id(TOOL)

    def on_event(self, code, where):
        if _thread.get_ident() not in self.idents:
            return
        try:
            self.point(code, where)
        except Exception:
            self.error = traceback.format_exc()
            raise

    def point(self, code, where):
        me = self.current
        # Functions called very often would take all the time: of their
        # events, consider fewer and fewer.
        key = (me, code)
        n = self.calls[key] = self.calls.get(key, 0) + 1
        if n > BUDGET and not self.whole and n % (2 * n // BUDGET):
            return
        kind = self.kinds[code]
        self.steps += 1
        k = self.counts[me] = self.counts[me] + 1
        to = self.policy.at(self, me, k, kind, code, where)
        if to is None or to == me or to not in self.runnable() or \
                importing():
            return
        self.trace_log.append([me, k, to])
        if kind == HOT:
            self.hot_switches += 1
        self.hand_over(me, to)

    # Running.

    def explicit(self, base):
        """The schedule that was followed."""
        return {'kind': 'explicit', 'first': self.first, 'base': base,
                'switches': self.trace_log, 'nexts': self.nexts}

    # Running.

    def body(self, t, func):
        self.gates[t].acquire()
        self.idents[_thread.get_ident()] = t
        try:
            value = func()
            self.results[t] = ('ok', value)
        except BaseException as e:
            self.results[t] = ('exception', type(e).__name__,
                               traceback.format_exc()[-2500:])
        self.idents.pop(_thread.get_ident())
        self.finished[t] = True
        ready = self.runnable()
        if ready:
            to = self.choose(ready)
            self.current = to
            self.gates[to].release()
        else:
            self.done.release()

    def run(self, funcs):
        n = len(funcs)
        self.gates = [_thread.allocate_lock() for _ in funcs]
        for g in self.gates:
            g.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.counts = [0] * n
        self.finished = [False] * n
        self.waiting = [None] * n
        self.results = [('unfinished',)] * n
        self.first = self.policy.start(n)
        locks.SCHED[0] = self
        self.install()
        try:
            threads = [threading.Thread(target=self.body, args=(t, f),
                                        daemon=True)
                       for t, f in enumerate(funcs)]
            for t in threads:
                t.start()
            self.current = self.first
            self.gates[self.first].release()
            if not self.done.acquire(timeout=WAIT):
                raise RuntimeError('simulated threads do not come back')
            if all(self.finished):
                for t in threads:
                    t.join()
        finally:
            self.uninstall()
            locks.SCHED[0] = None
        if self.error is not None:
            raise RuntimeError(self.error)
        return self.results
