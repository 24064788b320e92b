"""Process-wide seams, installed before mysql_mimic is imported.

Everything here replaces a source of nondeterminism with something the
simulator controls: the wall clock, os-level randomness, `random`, sleeping.
The code of mysql_mimic itself is imported unmodified from REPO.
"""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
# Bytecode in /repo is validated by mtime (1 s) and size only: never use it.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "dst-nopyc-%d" % os.getpid())

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import datetime as _dt_mod  # noqa: E402
import random as _random_mod  # noqa: E402
import time as _time_mod  # noqa: E402

real_monotonic = _time_mod.monotonic
real_time = _time_mod.time
real_process_time = _time_mod.process_time
real_perf_counter = _time_mod.perf_counter
real_urandom = os.urandom
real_datetime = _dt_mod.datetime
real_date = _dt_mod.date


class Seams:
    """The values behind the seams; the running World installs itself here."""

    world = None
    rng = _random_mod.Random(0)
    base_epoch = 1_700_000_000.0  # 2023-11-14T22:13:20Z
    urandom_calls = 0
    clock_reads = 0
    blocking_sleeps = 0

    @classmethod
    def wall(cls):
        cls.clock_reads += 1
        w = cls.world
        if w is None:
            return cls.base_epoch
        return w.wall_time()

    @classmethod
    def urandom(cls, n):
        cls.urandom_calls += 1
        return cls.rng.randbytes(n)


class _SimMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)


class SimDatetime(real_datetime, metaclass=_SimMeta):
    _real = real_datetime

    @classmethod
    def now(cls, tz=None):
        if tz is None:
            return real_datetime.fromtimestamp(Seams.wall(), _dt_mod.timezone.utc).replace(tzinfo=None)
        return real_datetime.fromtimestamp(Seams.wall(), tz)

    @classmethod
    def utcnow(cls):
        return real_datetime.fromtimestamp(Seams.wall(), _dt_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return real_datetime.fromtimestamp(t, tz)


class SimDate(real_date, metaclass=_SimMeta):
    _real = real_date

    @classmethod
    def today(cls):
        return SimDatetime.now().date()


def _blocking_sleep(secs):
    # Somebody blocks the event loop: visible as a jump of the virtual clock.
    Seams.blocking_sleeps += 1
    w = Seams.world
    if w is not None:
        w.note_blocking_sleep(secs)


def install():
    os.environ["TZ"] = "UTC"
    _time_mod.tzset()
    # Third-party modules first: they keep the real classes.
    import asyncio  # noqa: F401
    import logging
    import ssl  # noqa: F401
    import sqlglot  # noqa: F401
    import sqlglot.executor  # noqa: F401
    import sqlglot.optimizer  # noqa: F401

    logging.disable(logging.CRITICAL)

    for name in list(sys.modules):
        if name == "mysql_mimic" or name.startswith("mysql_mimic."):
            raise RuntimeError("mysql_mimic imported before the seams")

    _dt_mod.datetime = SimDatetime
    _dt_mod.date = SimDate
    real_localtime = _time_mod.localtime
    real_gmtime = _time_mod.gmtime
    _time_mod.time = Seams.wall
    _time_mod.time_ns = lambda: int(Seams.wall() * 1e9)
    _time_mod.localtime = lambda s=None: real_localtime(Seams.wall() if s is None else s)
    _time_mod.gmtime = lambda s=None: real_gmtime(Seams.wall() if s is None else s)
    _time_mod.monotonic = lambda: Seams.world.loop.time() if Seams.world is not None and Seams.world.loop is not None else real_monotonic()
    _time_mod.sleep = _blocking_sleep
    os.urandom = Seams.urandom
    _random_mod._urandom = Seams.urandom  # SystemRandom
    import mysql_mimic
    import mysql_mimic.auth
    import mysql_mimic.charset
    import mysql_mimic.control
    import mysql_mimic.results
    import mysql_mimic.schema
    import mysql_mimic.server
    import mysql_mimic.session
    where = os.path.realpath(mysql_mimic.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("mysql_mimic imported from %s, not %s" % (where, REPO))
    return mysql_mimic
