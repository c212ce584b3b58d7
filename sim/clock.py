"""The simulated clock.

`install` replaces ``datetime.datetime`` with a subclass whose "now" methods
read simulated time, and ``time.time`` and friends likewise. It must be called
before the code under test is imported, because that code does
``from datetime import datetime``. Timers used by the harness itself
(``time.monotonic``, ``time.perf_counter``) are left alone.
"""

import datetime as _dt
import os as _os
import time as _time


REAL_DATETIME = _dt.datetime
EPOCH = REAL_DATETIME(1970, 1, 1)
DEFAULT_NOW = 1500000000.0


class SimClock:

    def __init__(self):
        self.reset()

    def reset(self, now=DEFAULT_NOW):
        self.now = now          # seconds since the epoch
        self.reads = 0
        self.on_read = None     # optional callback, may change `now`
        self.advanced = 0.0

    def read(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read(self)
        return self.now

    def set(self, now):
        if now > self.now:
            self.advanced += now - self.now
        self.now = now


CLOCK = SimClock()


class _Meta(type):

    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DATETIME)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DATETIME)


class SimDatetime(REAL_DATETIME, metaclass=_Meta):

    @classmethod
    def utcnow(cls):
        return _plain(EPOCH + _dt.timedelta(seconds=CLOCK.read()))

    @classmethod
    def now(cls, tz=None):
        t = CLOCK.read()
        if tz is None:
            # "Local" time of the simulated machine.
            return _plain(EPOCH + _dt.timedelta(
                seconds=t + LOCAL_OFFSET[0]))
        return REAL_DATETIME.fromtimestamp(t, tz)

    @classmethod
    def today(cls):
        return cls.now()


LOCAL_OFFSET = [0]


def _plain(d):
    return SimDatetime(d.year, d.month, d.day, d.hour, d.minute, d.second,
                       d.microsecond)


def set_zone(offset):
    """Move the simulated machine (and the C library) east by `offset`."""
    LOCAL_OFFSET[0] = offset
    sign = '-' if offset >= 0 else '+'          # POSIX counts westwards
    o = abs(offset)
    _os.environ['TZ'] = 'XXX%s%02d:%02d:%02d' % (sign, o // 3600,
                                                 o // 60 % 60, o % 60)
    _time.tzset()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _dt.datetime = SimDatetime
    _time.time = lambda: CLOCK.read()
    _time.time_ns = lambda: int(CLOCK.read() * 1e9)
    real_gmtime = _time.gmtime
    _time.gmtime = lambda secs=None: real_gmtime(
        CLOCK.read() if secs is None else secs)
    real_localtime = _time.localtime
    _time.localtime = lambda secs=None: real_gmtime(
        CLOCK.read() + LOCAL_OFFSET[0]) if secs is None \
        else real_localtime(secs)
