"""Virtual wall clock.  install() must run before any /repo module is imported.

Every way the code could ask for the wall clock (time.time, time_ns, gmtime, localtime, strftime, datetime.now...) is
answered from one settable value; sleep() advances it and records the request.  Verdicts about time are therefore
decided in virtual time, never on the speed of the machine.
"""
import datetime as _dtmod
import selectors, socket, socketserver, subprocess, tempfile, threading, queue, random, concurrent.futures  # noqa: F401,E401
import time as _t

REAL = {k: getattr(_t, k) for k in ('time', 'time_ns', 'sleep', 'gmtime', 'localtime', 'strftime', 'monotonic', 'ctime',
                                    'monotonic_ns')}


class Clock:
    def __init__(self):
        self.now = 1_000_000_000.0
        self.sleeps = []
        self.on_sleep = None
        self.on_read = None
        self.reads = 0
        self.frozen = False
        self.start = 1_000_000_000.0

    def set(self, t):
        self.now = float(t)
        self.sleeps = []


CLOCK = Clock()


def _time():
    CLOCK.reads += 1
    if CLOCK.on_read is not None:
        CLOCK.on_read()
    return CLOCK.now


def _sleep(s):
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    if CLOCK.frozen:                     # several threads share the clock
        return
    CLOCK.sleeps.append((CLOCK.now, s))
    CLOCK.now += s
    if CLOCK.on_sleep is not None:
        CLOCK.on_sleep(s)


class _DT(_dtmod.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return cls(1970, 1, 1) + _dtmod.timedelta(seconds=_time())

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_time())


def install():
    _t.time = _time
    _t.time_ns = lambda: int(_time() * 1e9)
    _t.sleep = _sleep
    _t.monotonic = lambda: _time()
    _t.monotonic_ns = lambda: int(_time() * 1e9)
    _t.gmtime = lambda s=None: REAL['gmtime'](_time() if s is None else s)
    _t.localtime = lambda s=None: REAL['localtime'](_time() if s is None else s)
    _t.ctime = lambda s=None: REAL['ctime'](_time() if s is None else s)
    _t.strftime = lambda f, t=None: REAL['strftime'](f, REAL['localtime'](_time()) if t is None else t)
    _dtmod.datetime = _DT
    return CLOCK
