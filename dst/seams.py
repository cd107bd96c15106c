"""Seams: everything nondeterministic that verktyg can reach is replaced here,
*before* verktyg is imported.

 * wall clock / monotonic clock     time.*, datetime.datetime
 * locks                            threading.Lock / RLock (cooperative)
 * file system                      builtins.open, io.open, os.stat, os.fstat,
                                    os.open (yield point + fault injection)
 * sleeping                         time.sleep (advances the simulated clock)

Outside an active simulated run the replacements behave like the originals.
"""
import builtins
import datetime as _datetime_mod
import errno
import io
import os
import sys
import threading
import time as _time_mod
import _thread

REPO = os.environ.get('DST_REPO', '/repo')

# ---- originals --------------------------------------------------------------
real_time = _time_mod.time
real_time_ns = _time_mod.time_ns
real_monotonic = _time_mod.monotonic
real_clock_gettime = _time_mod.clock_gettime
real_gmtime = _time_mod.gmtime
real_localtime = _time_mod.localtime
real_strftime = _time_mod.strftime
real_ctime = _time_mod.ctime
real_asctime = _time_mod.asctime
real_sleep = _time_mod.sleep
real_datetime = _datetime_mod.datetime
real_date = _datetime_mod.date
real_open = builtins.open
real_stat = os.stat
real_lstat = os.lstat
real_fstat = os.fstat
real_os_open = os.open
real_allocate_lock = _thread.allocate_lock

# ---- the currently active run (one per process) -----------------------------
ACTIVE = None          # dst.core.Ctx or None


def _clock():
    ctx = ACTIVE
    return ctx.clock if ctx is not None else None


# ---- clock ------------------------------------------------------------------

def sim_time():
    c = _clock()
    return real_time() if c is None else c.read()


def sim_time_ns():
    c = _clock()
    return real_time_ns() if c is None else int(c.read() * 10**9)


def sim_monotonic():
    c = _clock()
    return real_monotonic() if c is None else c.monotonic()


def sim_clock_gettime(clk):
    if clk == _time_mod.CLOCK_REALTIME:
        return sim_time()
    c = _clock()
    return real_clock_gettime(clk) if c is None else c.monotonic()


def sim_clock_gettime_ns(clk):
    return int(sim_clock_gettime(clk) * 10**9)


def sim_gmtime(secs=None):
    return real_gmtime(sim_time() if secs is None else secs)


def sim_localtime(secs=None):
    return real_localtime(sim_time() if secs is None else secs)


def sim_strftime(fmt, t=None):
    return real_strftime(fmt, sim_localtime() if t is None else t)


def sim_ctime(secs=None):
    return real_ctime(sim_time() if secs is None else secs)


def sim_asctime(t=None):
    return real_asctime(sim_localtime() if t is None else t)


def sim_sleep(secs):
    ctx = ACTIVE
    if ctx is None:
        return real_sleep(secs)
    ctx.clock.advance(max(0.0, secs))
    ctx.point('sleep')


class _DTMeta(type(real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)


class SimDatetime(real_datetime, metaclass=_DTMeta):
    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(sim_time())

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(sim_time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_time())


class _DateMeta(type(real_date)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_date)


class SimDate(real_date, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(sim_time())


# ---- locks ------------------------------------------------------------------

class SimLock(object):
    """Cooperative lock; blocking hands control to the simulator."""
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        ctx = ACTIVE
        if ctx is not None:
            ctx.point('lock')
        while self._owner is not None:
            if not blocking:
                return False
            if ctx is None or not ctx.in_sim_thread():
                raise RuntimeError('dst: deadlock on a lock outside the simulation')
            if timeout is not None and timeout >= 0:
                # simulated timeout: give others one chance, then time passes
                ctx.yield_now()
                if self._owner is not None:
                    ctx.clock.advance(timeout)
                    return False
                continue
            ctx.block_on(self)
        self._owner = me
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None
        ctx = ACTIVE
        if ctx is not None:
            ctx.unblock(self)
            ctx.point('unlock')

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock(object):
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rv = self._lock.acquire(blocking, timeout)
        if rv:
            self._owner = me
            self._count = 1
        return rv

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.__init__()


# ---- file system ------------------------------------------------------------

class SimRaw(io.FileIO):
    """Raw file whose reads/writes/close can be made to fail, and whose
    explicit close is recorded."""
    dst_path = None
    dst_id = None
    dst_write = False
    dst_abandoned = False

    def _ctx(self):
        ctx = ACTIVE
        if ctx is not None and ctx.fs is not None and self.dst_id is not None:
            return ctx
        return None

    def readinto(self, b):
        ctx = self._ctx()
        if ctx is not None:
            ctx.point('fs.read')
            n = ctx.fs.on_read(self, len(b))
            if n is not None and n < len(b):
                data = io.FileIO.read(self, n)
                b[:len(data)] = data
                return len(data)
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        ctx = self._ctx()
        if ctx is not None:
            ctx.point('fs.read')
            n = ctx.fs.on_read(self, size)
            if n is not None and size is not None and size >= 0:
                size = min(size, n)
        if size is None or size < 0:
            return self.readall()
        return io.FileIO.read(self, size)

    def readall(self):
        chunks = []
        while True:
            c = self.read(65536)
            if not c:
                return b''.join(chunks)
            chunks.append(c)

    def write(self, b):
        ctx = self._ctx()
        if ctx is not None:
            ctx.point('fs.write')
            n = ctx.fs.on_write(self, len(b))
            if n is not None and n < len(b):
                return io.FileIO.write(self, memoryview(b)[:n])
        return io.FileIO.write(self, b)

    def _dealloc_warn(self, source):
        # called by buffered and text wrappers that are garbage collected
        # while open: nobody closed this file
        self.dst_abandoned = True

    def close(self):
        ctx = self._ctx()
        if ctx is not None and not self.closed:
            if self._finalizing:
                self.dst_abandoned = True
            ctx.fs.on_close(self)
        io.FileIO.close(self)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    ctx = ACTIVE
    if ctx is None or ctx.fs is None or not ctx.fs.owns(file):
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    ctx.point('fs.open')
    ctx.fs.on_op('open', file)
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '')
    raw = SimRaw(file, raw_mode, closefd=closefd, opener=opener)
    raw.dst_path = os.fspath(file) if not isinstance(file, int) else None
    raw.dst_write = any(c in mode for c in 'wax+')
    ctx.fs.on_opened(raw)
    if buffering == 0:
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, bs)
    elif raw.dst_write:
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    ctx = ACTIVE
    if ctx is not None and ctx.fs is not None and ctx.fs.owns(path):
        ctx.point('fs.stat')
        ctx.fs.on_op('stat', path)
    return real_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def sim_lstat(path, *, dir_fd=None):
    ctx = ACTIVE
    if ctx is not None and ctx.fs is not None and ctx.fs.owns(path):
        ctx.point('fs.stat')
        ctx.fs.on_op('stat', path)
    return real_lstat(path, dir_fd=dir_fd)


def sim_fstat(fd):
    ctx = ACTIVE
    if ctx is not None and ctx.fs is not None and ctx.fs.owns_fd(fd):
        ctx.point('fs.fstat')
        ctx.fs.on_op('fstat', fd)
    return real_fstat(fd)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    ctx = ACTIVE
    if ctx is not None and ctx.fs is not None and ctx.fs.owns(path):
        ctx.point('fs.open')
        ctx.fs.on_op('open', path)
    return real_os_open(path, flags, mode, dir_fd=dir_fd)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == 'verktyg' or m.startswith('verktyg.') for m in sys.modules)
    # modules that must bind the originals (they manage real resources)
    import tempfile, multiprocessing, subprocess, json, hashlib, random  # noqa
    import http.cookiejar, email.utils, urllib.request, mimetypes  # noqa
    import fnmatch, posixpath, zlib, uuid, warnings, logging  # noqa
    mimetypes.init()
    _time_mod.time = sim_time
    _time_mod.time_ns = sim_time_ns
    _time_mod.monotonic = sim_monotonic
    _time_mod.perf_counter = sim_monotonic
    _time_mod.clock_gettime = sim_clock_gettime
    _time_mod.clock_gettime_ns = sim_clock_gettime_ns
    _time_mod.gmtime = sim_gmtime
    _time_mod.localtime = sim_localtime
    _time_mod.strftime = sim_strftime
    _time_mod.ctime = sim_ctime
    _time_mod.asctime = sim_asctime
    _time_mod.sleep = sim_sleep
    _datetime_mod.datetime = SimDatetime
    _datetime_mod.date = SimDate
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    builtins.open = sim_open
    io.open = sim_open
    os.stat = sim_stat
    os.lstat = sim_lstat
    os.fstat = sim_fstat
    os.open = sim_os_open


def import_verktyg():
    install()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    import pkgutil
    # never trust a cached .pyc: always compile the current working tree
    sys.pycache_prefix = '/nonexistent/dst-pycache'
    import verktyg
    root = os.path.realpath(os.path.dirname(verktyg.__file__))
    assert root == os.path.realpath(os.path.join(REPO, 'verktyg')), root
    for m in pkgutil.walk_packages(verktyg.__path__, 'verktyg.'):
        if '.testsuite' in m.name:
            continue
        importlib.import_module(m.name)
    # lazily replaced helper: resolve it now so that no run differs from others
    from verktyg.responses import BaseResponse

    def app(env, sr):
        sr('200 OK', [('X', 'y')])
        return [b'']
    BaseResponse.from_app(app, {'REQUEST_METHOD': 'GET'}, True)
    return root
