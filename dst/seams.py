"""Seams owned by the simulator: randomness, clock, file system, process and thread creation, executed lines.

`install()` must run before any repository module is imported.  Afterwards every call the repository makes to
these services goes through CTX, which the simulated world in charge sets (engine.py or ensemble.py).
Nothing in /repo is modified: the seams are the standard library's own names.
"""
import builtins
import collections
import datetime as _dt
import errno
import hashlib
import io
import math
import os
import random
import stat as _stat
import sys
import threading
import time
import types

REPO = os.environ.get("DST_REPO", "/repo")

REAL = types.SimpleNamespace(
    Random=random.Random, urandom=os.urandom, time=time.time, time_ns=time.time_ns, monotonic=time.monotonic,
    sleep=time.sleep, localtime=time.localtime, gmtime=time.gmtime, strftime=time.strftime,
    datetime=_dt.datetime, date=_dt.date, open=io.open, FileIO=io.FileIO, Thread=threading.Thread,
    os_open=os.open, os_write=os.write, os_stat=os.stat, os_lstat=os.lstat, os_rename=os.rename,
    os_replace=os.replace, os_link=os.link, os_symlink=os.symlink, os_unlink=os.unlink, os_remove=os.remove,
    os_mkdir=os.mkdir, os_rmdir=os.rmdir, os_fsync=os.fsync, os_fdatasync=os.fdatasync, os_listdir=os.listdir,
    os_scandir=os.scandir, os_truncate=os.truncate, os_ftruncate=os.ftruncate, os_access=os.access,
    readlink=os.readlink, getcwd=os.getcwd, fork=os.fork, sleep_=time.sleep)


class HarnessError(Exception):
    """A fault of the harness itself: never reported as a violation."""


class CapReached(BaseException):
    """The code under test used more random draws / steps than any terminating run needs."""


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class Context:
    """Default world: quiet clock, direct file system."""
    in_world = False

    def now(self, what):
        self._t = getattr(self, "_t", 1_600_000_000.0) + 0.001
        return self._t

    def sleep(self, s):
        self._t = getattr(self, "_t", 1_600_000_000.0) + max(0.0, s)

    def fs(self, op, path, **kw):
        """Called before a file-system operation inside the sandbox directory. Returns None to proceed or an action."""
        return None

    def sandbox(self):
        return None


CTX = Context()


def set_context(ctx):
    global CTX
    CTX = ctx


# ----------------------------------------------------------------------------------------------- randomness

class Entropy:
    """Stands for the operating system's entropy."""

    def __init__(self, key="0"):
        self.key, self.n = str(key), 0

    def bytes(self, k):
        out = b""
        while len(out) < k:
            out += hashlib.sha256(f"{self.key}/{self.n}".encode()).digest()
            self.n += 1
        return out[:k]

    def short(self, k):
        """a read of 2 to 4 bytes: few enough values for two readers to get the same one within the life of a real
        installation, so here they do now and then"""
        v = self.bytes(1)[0] % 64
        return hashlib.sha256(f"short {v}".encode()).digest()[:k]

    def int(self):
        return int.from_bytes(self.bytes(16), "big")


ENTROPY = Entropy()


class DrawLog:
    def __init__(self):
        self.total = 0
        self.cap = None
        self.h = 0
        self.n = 0
        self.win = None         # with a list: digests of every run of consecutive draws worth 64 bits
        self.tail, self.bits = collections.deque(), 0.0

    def windows(self):
        """start (again) to collect; what was collected so far"""
        w, self.win = self.win, []
        self.tail.clear()
        self.bits = 0.0
        return w

    def slide(self, n, v):
        t = self.tail
        b = math.log2(n)
        t.append((n, v, b))
        self.bits += b
        while self.bits - t[0][2] >= 64:
            self.bits -= t.popleft()[2]
        if self.bits >= 64:
            self.win.append(hash(tuple(t)) & 0xfffffffffffff)

    def mark(self):
        """digest of the draws since the last mark"""
        d = (self.n, self.h)
        self.h, self.n = 0, 0
        return d


DRAWS = DrawLog()
_M61 = (1 << 61) - 1


class SimRandom(REAL.Random):
    mode = "fair"
    adv = None
    script = None

    def seed(self, a=None, version=2):
        if a is None:
            a = ENTROPY.int()
        super().seed(a, version)

    def __reduce__(self):
        return REAL.Random.__reduce__(self)

    def _fair(self, n):
        return self._randbelow_with_getrandbits(n)

    def _randbelow(self, n):
        d = DRAWS
        d.total += 1
        if d.cap is not None and d.total > d.cap:
            raise CapReached("draws")
        m = self.mode
        if m == "fair":
            v = self._fair(n)
        elif m == "script":
            v = self.script.draw(n)
        else:
            v = self._adversarial(m, n)
        d.n += 1
        if d.win is not None and n > 1:
            d.slide(n, v)
        d.h = (d.h * 1000003 + n * 31 + v + 7) % _M61
        return v

    def _adversarial(self, m, n):
        a = self.adv
        a.i += 1
        if m == "zero":
            return 0
        if m == "max":
            return n - 1
        if m == "mid":
            return n // 2
        if m == "cycle":
            return a.i % n
        if m == "alt":
            return 0 if a.i & 1 else n - 1
        if m == "bias_lo":
            return min(n - 1, int(n * a.r.random() ** 4))
        if m == "bias_hi":
            return max(0, n - 1 - int(n * a.r.random() ** 4))
        if m == "near_lo":
            return min(n - 1, a.r.randrange(3))
        if m == "near_hi":
            return max(0, n - 1 - a.r.randrange(3))
        if m == "sticky":
            if a.last is None or a.r.random() < 0.15:
                a.last = a.r.randrange(1 << 30)
            return a.last % n
        if m == "burst":
            if a.left <= 0:
                a.left = a.r.randrange(1, 30)
                a.sub = a.r.choice(["zero", "max", "mid", "fair", "fair"])
            a.left -= 1
            if a.sub == "fair":
                return self._fair(n)
            return {"zero": 0, "max": n - 1, "mid": n // 2}[a.sub]
        raise HarnessError("mode " + m)

    def set_mode(self, mode, seed=0):
        self.mode = mode
        self.adv = types.SimpleNamespace(i=0, last=None, left=0, sub=None, r=REAL.Random(seed))


ADV_MODES = ["zero", "max", "mid", "cycle", "alt", "bias_lo", "bias_hi", "near_lo", "near_lo", "near_hi", "sticky", "burst"]


class Script:
    """Enumerates all outcomes of a bounded number of draws, depth first."""

    def __init__(self):
        self.path = []      # [value, n]
        self.pos = 0

    def draw(self, n):
        if self.pos == len(self.path):
            self.path.append([0, n])
        v, m = self.path[self.pos]
        if m != n:
            raise HarnessError("draws of one step are not a function of earlier draws")
        self.pos += 1
        return v

    def weight(self):
        w = 1
        for v, n in self.path[:self.pos]:
            w *= n
        return w            # probability is 1/w

    def advance(self):
        """prepare the next path; False when all have been enumerated"""
        del self.path[self.pos:]
        while self.path and self.path[-1][0] == self.path[-1][1] - 1:
            self.path.pop()
        self.pos = 0
        if not self.path:
            return False
        self.path[-1][0] += 1
        return True


def global_random():
    return random._inst


def reseed_process(key):
    """What a process sees at start or right after fork: fresh OS entropy and a re-seeded `random` module."""
    global ENTROPY
    ENTROPY.key, ENTROPY.n = str(key), 0
    random._inst.seed(None)


# -------------------------------------------------------------------------------------------------- clock

class SimDateTime(REAL.datetime):
    @classmethod
    def now(cls, tz=None):
        t = CTX.now("datetime")
        if tz is None:
            return cls.utcfromtimestamp_(t)
        return cls.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp_(cls, t):
        base = REAL.datetime(1970, 1, 1) + _dt.timedelta(microseconds=round(t * 1e6))
        return cls(base.year, base.month, base.day, base.hour, base.minute, base.second, base.microsecond)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


class SimDate(REAL.date):
    @classmethod
    def today(cls):
        d = SimDateTime.now()
        return cls(d.year, d.month, d.day)


def _now(what):
    return CTX.now(what)


def _localtime(secs=None):
    return REAL.gmtime(_now("time") if secs is None else secs)


def _strftime(fmt, t=None):
    return REAL.strftime(fmt, _localtime() if t is None else t)


# --------------------------------------------------------------------------------------------- file system

def _inside(path):
    """absolute path inside the sandbox, or None"""
    root = CTX.sandbox()
    if root is None:
        return None
    try:
        if isinstance(path, int):
            p = REAL.readlink(f"/proc/self/fd/{path}")
        else:
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            p = os.path.normpath(os.path.join(REAL.getcwd(), p))
    except (TypeError, OSError):
        return None
    if p == root or p.startswith(root + "/"):
        return p
    return None


def _oserror(act, path):
    code = getattr(errno, act["errno"])
    return OSError(code, os.strerror(code), path)


_kill, _getpid = os.kill, os.getpid      # the real ones, whatever is installed later


def die():
    _kill(_getpid(), 9)
    while True:
        REAL.sleep(1)


class SimFileIO(REAL.FileIO):
    _simpath = None

    def write(self, b):
        p = self._simpath
        if p is None:
            return super().write(b)
        mv = memoryview(b).cast("B")
        act = CTX.fs("write", p, size=len(mv))
        if act:
            k = act.get("n")
            if k is not None:
                k = min(int(k * len(mv)), max(0, len(mv) - 1))
                if k:
                    super().write(mv[:k])
            if act["do"] == "die":
                die()
            if act["do"] == "short" and k:
                return k
            if act["do"] in ("errno", "short"):
                raise _oserror({"errno": act.get("errno", "ENOSPC")}, p)
        return super().write(mv)

    def close(self):
        p = self._simpath
        if p is not None and not self.closed:
            self._simpath = None
            try:
                act = CTX.fs("close", p)
                if act and act["do"] == "die":
                    die()
                if act and act["do"] == "errno":
                    raise _oserror(act, p)
            finally:
                super().close()
            return
        super().close()

    def truncate(self, size=None):
        if self._simpath is not None:
            act = CTX.fs("truncate", self._simpath)
            if act and act["do"] == "die":
                die()
        return super().truncate(size)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _inside(file)
    if p is None:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wxa+")
    if not isinstance(file, int) or not writing:
        act = CTX.fs("open" if writing else "openr", p, mode=mode)
        if act:
            if act["do"] == "die":
                die()
            if act["do"] == "errno":
                raise _oserror(act, p)
    if not writing:
        return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    text = "b" not in mode
    if not text and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(file, mode.replace("b", "").replace("t", ""), closefd, opener)
    raw._simpath = p
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    t.mode = mode
    return t


def _wrap1(name, opname=None):
    real = getattr(os, name)

    def f(path=".", *a, **kw):
        p = _inside(path)
        if p is not None:
            act = CTX.fs(opname or name, p)
            if act:
                if act["do"] == "die":
                    die()
                if act["do"] == "errno":
                    raise _oserror(act, p)
        r = real(path, *a, **kw)
        if p is not None and name == "listdir":       # the order of a directory is arbitrary: one fixed arbitrary order
            r.sort(key=_listing_key)
        elif p is not None and name == "scandir":
            r = _Listing(r)
        return r
    f.__name__ = name
    return f


def _listing_key(n):
    return hashlib.md5(os.fsencode(n)).digest()


class _Listing:
    def __init__(self, it):
        with it:
            self._it = iter(sorted(it, key=lambda e: _listing_key(e.name)))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self._it = iter(())


def _wrap2(name):
    real = getattr(os, name)

    def f(src, dst, *a, **kw):
        p = _inside(dst) or _inside(src)
        if p is not None:
            act = CTX.fs(name, p, src=str(src), dst=str(dst))
            if act:
                if act["do"] == "die":
                    die()
                if act["do"] == "errno":
                    raise _oserror(act, p)
        return real(src, dst, *a, **kw)
    f.__name__ = name
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _inside(path) if dir_fd is None else None
    if p is not None:
        act = CTX.fs("os_open", p, flags=flags)
        if act:
            if act["do"] == "die":
                die()
            if act["do"] == "errno":
                raise _oserror(act, p)
    return REAL.os_open(path, flags, mode, dir_fd=dir_fd)


def _os_write(fd, data):
    p = _inside(fd)
    if p is not None:
        act = CTX.fs("write", p, size=len(data))
        if act:
            k = act.get("n")
            if k is not None:
                k = min(int(k * len(data)), max(0, len(data) - 1))
                if k:
                    REAL.os_write(fd, data[:k])
            if act["do"] == "die":
                die()
            if act["do"] == "short" and k:
                return k
            if act["do"] in ("errno", "short"):
                raise _oserror({"errno": act.get("errno", "ENOSPC")}, p)
    return REAL.os_write(fd, data)


# ------------------------------------------------------------------------------------------ executed lines

class Lines:
    """Counts executed lines of repository code; at chosen counts calls a handler (raise, or switch)."""
    TOOL = 4

    def __init__(self):
        self.n = 0
        self.targets = None     # callable(n) -> None, may raise
        self.on = False
        self.watch = None       # set of ints, or None for "call at every line"
        self.last = None
        self.budget = None

    def arm_budget(self, n):
        """deterministic end of a run that does not terminate: CapReached after n executed repository lines"""
        self.budget = n
        self._enable()

    def _enable(self):
        if not self.on:
            mon = sys.monitoring
            if mon.get_tool(self.TOOL) is None:
                mon.use_tool_id(self.TOOL, "dst")
            mon.register_callback(self.TOOL, mon.events.LINE, self._cb)
            mon.set_events(self.TOOL, mon.events.LINE)
            self.on = True

    def start(self, handler, watch=None):
        self.n = 0
        self.targets, self.watch = handler, watch
        self._enable()

    def stop(self, final=False):
        if self.on and (self.budget is None or final):
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            self.on = False
        self.targets = None

    def _cb(self, code, line):
        fn = code.co_filename
        if not fn.startswith(REPO):
            return sys.monitoring.DISABLE
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                self.budget = 1 << 60
                raise CapReached("line budget")
        if self.targets is None:
            return None
        self.n += 1
        w = self.watch
        if w is None or self.n in w:
            self.last = (os.path.relpath(fn, REPO), code.co_name)
            self.targets(self.n)
        return None


LINES = Lines()

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    import logging, tempfile, uuid, multiprocessing, subprocess, shutil, json  # noqa: import them on real services
    import numpy
    import numpy.lib._datasource as ds
    # randomness
    inst = SimRandom()
    random.Random = SimRandom
    random._inst = inst
    for name in ("seed random uniform triangular randint choice randrange sample shuffle choices normalvariate "
                 "lognormvariate expovariate vonmisesvariate gammavariate gauss betavariate binomialvariate "
                 "paretovariate weibullvariate getstate setstate getrandbits randbytes").split():
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    os.urandom = lambda k: ENTROPY.short(k) if 2 <= k <= 4 else ENTROPY.bytes(k)
    random._urandom = os.urandom
    tempfile._Random = SimRandom
    # clock
    time.time = lambda: _now("time")
    time.time_ns = lambda: int(_now("time") * 1e9)
    time.monotonic = lambda: _now("mono")
    time.monotonic_ns = lambda: int(_now("mono") * 1e9)
    time.perf_counter = lambda: _now("mono")
    time.perf_counter_ns = lambda: int(_now("mono") * 1e9)
    time.process_time = lambda: _now("mono")
    time.sleep = lambda s: CTX.sleep(s)
    time.localtime = _localtime
    time.gmtime = _localtime
    time.strftime = _strftime
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    # file system
    io.open = builtins.open = _sim_open
    ds._file_openers._load() if hasattr(ds._file_openers, "_load") else None
    try:
        ds._file_openers._file_openers[None] = _sim_open
    except (AttributeError, KeyError) as e:      # pragma: no cover - numpy changed
        raise HarnessError(f"numpy file opener seam: {e}")
    os.open, os.write = _os_open, _os_write
    for name in ("stat", "lstat", "unlink", "remove", "mkdir", "rmdir", "listdir", "scandir", "truncate", "access"):
        setattr(os, name, _wrap1(name))
    for name in ("rename", "replace", "link", "symlink"):
        setattr(os, name, _wrap2(name))
    for name in ("fsync", "fdatasync", "ftruncate"):
        setattr(os, name, _wrap1(name))
