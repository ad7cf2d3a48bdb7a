"""Installs the seams: must be imported before anything of the system under test."""
import builtins
import io
import os
import random
import sys
import threading
import time as _time

from . import kernel as K

real_time = _time.time
real_sleep = _time.sleep
real_urandom = os.urandom
real_open = builtins.open
real_monotonic = _time.monotonic


class World:
    """What the seams consult. One per process; `rp_offset` is the RP's clock error."""
    rp_offset = 0.0
    entropy = None
    router = None          # callable(PreparedRequest, kwargs) -> requests.Response
    disk = None            # callable(path, mode) -> None | fault name
    extra_time = None      # used by the kernel-less mini simulations: absolute time


W = World()


def active():
    return K.ACTIVE is not None or W.extra_time is not None


def sim_now():
    """The RP's clock."""
    if W.extra_time is not None:
        return W.extra_time
    return K.T0 + K.ACTIVE.now + W.rp_offset


def _t():
    return sim_now() if active() else real_time()


def _sleep(dt):
    if K.current_task() is not None:
        K.ACTIVE.sleep(dt)
    elif W.extra_time is not None:
        W.extra_time += dt
    else:
        real_sleep(dt)


_gm, _lt, _sf, _ct = _time.gmtime, _time.localtime, _time.strftime, _time.ctime
_time.time = _t
_time.time_ns = lambda: int(_t() * 1_000_000_000)
_time.sleep = _sleep
_time.monotonic = lambda: (K.ACTIVE.now + 1000.0) if K.ACTIVE is not None else real_monotonic()
_time.gmtime = lambda s=None: _gm(_t() if s is None else s)
_time.localtime = lambda s=None: _lt(_t() if s is None else s)
_time.strftime = lambda f, t=None: _sf(f, _lt(_t()) if t is None else t)
_time.ctime = lambda s=None: _ct(_t() if s is None else s)

import datetime as _dt

_real_dt = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_dt)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_dt)


class SimDatetime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_dt.fromtimestamp(_t(), tz)

    @classmethod
    def utcnow(cls):
        return _real_dt.fromtimestamp(_t(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _real_dt.fromtimestamp(_t())


_dt.datetime = SimDatetime


def _urandom(n):
    e = W.entropy
    if e is not None and active():
        return e(n)
    return real_urandom(n)


os.urandom = _urandom
random._urandom = _urandom
if hasattr(os, "getrandom"):
    os.getrandom = lambda n, flags=0: _urandom(n)

threading.Lock = K.Lock
threading.RLock = K.RLock


class _FaultyFile:
    """A text/binary file whose writes fail as told."""

    def __init__(self, f, fault):
        self._f, self._fault, self._n = f, fault, 0

    def write(self, data):
        if self._fault == "enospc":
            self._f.write(data[:len(data) // 3])
            raise OSError(28, "No space left on device")
        if self._fault == "eio":
            raise OSError(5, "Input/output error")
        if self._fault == "short":          # POSIX short write: the return value says so
            n = len(data) // 2
            self._f.write(data[:n])
            self._fault = "enospc"
            return n
        return self._f.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def close(self):
        self._f.close()
        if self._fault == "close":
            raise OSError(28, "No space left on device")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)


def _open(file, mode="r", *a, **k):
    if W.disk is not None and K.current_task() is not None and isinstance(file, (str, os.PathLike)):
        fault = W.disk(os.fspath(file), mode)
        if fault == "open":
            raise OSError(24, "Too many open files")
        f = real_open(file, mode, *a, **k)
        if fault == "close":
            # the data never reached the disk: what is left behind is a truncated file
            return _CloseFault(f)
        if fault:
            return _FaultyFile(f, fault)
        return f
    return real_open(file, mode, *a, **k)


class _CloseFault(_FaultyFile):
    def __init__(self, f):
        super().__init__(f, None)

    def write(self, data):
        self._f.write(data[:len(data) // 2])
        return len(data)

    def close(self):
        if not self._f.closed:
            self._f.close()
            raise OSError(28, "No space left on device")


builtins.open = _open
io.open = _open

REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True

import requests  # noqa: E402
import requests.adapters  # noqa: E402


def _send(self, request, **kw):
    if W.router is None:
        raise requests.exceptions.ConnectionError("no network outside a simulation")
    return W.router(request, kw)


requests.adapters.HTTPAdapter.send = _send

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import oidcrp  # noqa: E402

_want = os.path.realpath(os.path.join(REPO, "src", "oidcrp"))
if os.path.realpath(os.path.dirname(oidcrp.__file__)) != _want:
    raise SystemExit("oidcrp not imported from %s but %s" % (_want, oidcrp.__file__))
import importlib  # noqa: E402
import pkgutil  # noqa: E402

# everything is loaded up front: import locks are not something the scheduler can see
for _m in sorted(m.name for m in pkgutil.walk_packages(oidcrp.__path__, "oidcrp.")):
    try:
        importlib.import_module(_m)
    except Exception:       # optional parts with dependencies that are not installed
        pass
for _m in ("oidcrp.rp_handler", "oidcrp.cookie"):
    importlib.import_module(_m)

# validating an RSA private key costs 50 ms and the same few test keys are loaded over and over:
# remember the ones already validated (pure function of its argument)
import cryptojwt.jwk.rsa as _cjr  # noqa: E402

_real_construct = _cjr.rsa_construct_private
_key_cache = {}


def _construct(numbers):
    k = tuple(sorted(numbers.items()))
    if k not in _key_cache:
        _key_cache[k] = _real_construct(numbers)
    return _key_cache[k]


_cjr.rsa_construct_private = _construct

# ---- statement-level preemption ---------------------------------------------------
_SRC = _want + os.sep
_MON = sys.monitoring
_TOOL = 4
_state = {"on": False}


def _line(code, line):
    k = K.ACTIVE
    if k is None:
        return None
    if not code.co_filename.startswith(_SRC) or code.co_name == "<module>":
        return _MON.DISABLE
    k.on_line()


def lines_on():
    if not _state["on"]:
        _MON.use_tool_id(_TOOL, "sim")
        _MON.register_callback(_TOOL, _MON.events.LINE, _line)
        _MON.set_events(_TOOL, _MON.events.LINE)
        _state["on"] = True


def lines_off():
    if _state["on"]:
        _MON.set_events(_TOOL, 0)
        _MON.free_tool_id(_TOOL)
        _state["on"] = False
