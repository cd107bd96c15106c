"""Reference answers from a process in which the code under test never ran.

A module level cache in the library would be shared by the system under test
and by an oracle computed in the same process: both would be wrong together.
start() forks a zygote before the first run; every request is computed in a
fork of the zygote and is deterministic in (code, plan, seed, arguments).
"""
import importlib
import json
import os
import random
import signal
import struct
import traceback

_CHANNEL = None          # (pid, request fd, answer fd)
LIMIT_S = 100


def _readn(fd, n):
    data = b''
    while len(data) < n:
        part = os.read(fd, n - len(data))
        if not part:
            return None
        data += part
    return data


def _recv(fd):
    head = _readn(fd, 4)
    return None if head is None else _readn(fd, struct.unpack('I', head)[0])


def _send(fd, data):
    data = struct.pack('I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def compute(doc):
    """in a fresh fork: the answer to one request"""
    from . import seams
    from .core import Ctx
    plan, seed = doc['plan'], doc['seed']
    random.seed(seed)
    tz = plan.get('tz', 'UTC')
    if os.environ.get('TZ') != tz:
        os.environ['TZ'] = tz
        import time
        time.tzset()
    ctx = Ctx(plan, seed)
    ctx.scratch = None
    seams.ACTIVE = ctx
    return getattr(importlib.import_module(doc['module']), doc['func'])(ctx, *doc['args'])


def _serve(rfd, wfd):
    while True:
        req = _recv(rfd)
        if req is None:
            os._exit(0)
        pid = os.fork()
        if not pid:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(LIMIT_S)
                ans = ['ok', compute(json.loads(req))]
            except BaseException:
                ans = ['error', traceback.format_exc()]
            try:
                _send(wfd, json.dumps(ans, default=repr).encode())
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _send(wfd, json.dumps(['error', 'reference process ended with status %d' % status]).encode())


def start():
    """call in a process that has not run any simulation yet"""
    global _CHANNEL
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            for fd in range(3, 4096):
                if fd not in (r1, w2):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            _serve(r1, w2)
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _CHANNEL = (pid, w1, r2)


def ask(module, func, plan, seed, args):
    if _CHANNEL is None:
        start()           # development only: not pristine
    _send(_CHANNEL[1], json.dumps({'module': module, 'func': func, 'plan': plan, 'seed': seed, 'args': args}).encode())
    data = _recv(_CHANNEL[2])
    if data is None:
        raise AssertionError('the reference process is gone')
    kind, value = json.loads(data)
    if kind != 'ok':
        raise AssertionError('the reference could not be computed: %s' % value)
    return value
