"""Simulation core: run context, cooperative thread scheduler, clock, fs."""
import errno
import hashlib
import os
import random
import sys
import _thread

from . import seams


def _enable_opcode_events():
    # CPython 3.12 delivers opcode events only once some frame has asked for
    # them *before* sys.settrace: ask now, or the first run of every process
    # would be scheduled differently from all others
    sys._getframe().f_trace_opcodes = True


_enable_opcode_events()


class Violation(Exception):
    def __init__(self, kind, message):
        Exception.__init__(self, '%s: %s' % (kind, message))
        self.kind = kind
        self.message = message


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is over."""


class Clock(object):
    """Simulated wall clock.  `skew` models a stepped system clock; monotonic
    time only moves forward."""
    def __init__(self, start=1500000000.0):
        self.now = float(start)
        self.mono = 0.0
        self.elapsed = 0.0

    def read(self):
        return self.now

    def monotonic(self):
        return self.mono

    def advance(self, secs):
        assert secs >= 0
        self.now += secs
        self.mono += secs
        self.elapsed += secs

    def jump(self, to):
        """step the wall clock (NTP step, operator, VM resume)"""
        self.now = float(to)


class _T(object):
    __slots__ = ('tid', 'fn', 'lock', 'state', 'steps', 'exc', 'waiting', 'ident', 'result')

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.lock = seams.real_allocate_lock()
        self.lock.acquire()
        self.state = 'ready'
        self.steps = 0
        self.exc = None
        self.waiting = None
        self.ident = None
        self.result = None


class Scheduler(object):
    """Real threads, exactly one of which runs at any time.

    Every traced line (or bytecode) in the library and every explicit
    ``ctx.point()`` is a step.  A schedule is a dict
    ``{(tid, local_step): target_tid}`` plus ``{('end', n): target}`` for the
    n-th choice made when a thread finishes or blocks (or the first one starts).
    It is stored as a list of ``[phase, tid | 'end', n, target]``.
    """
    MAX_STEPS = 3000000

    def __init__(self, ctx, schedule=None, rng=None, mean=50, budget=10**9,
                 opcodes=False, style='geo', phase=0):
        self.ctx = ctx
        self.replay = None
        if schedule is not None:
            self.replay = {}
            for ph, a, b, v in schedule:
                if ph == phase:
                    self.replay[(a, b)] = v
        self.phase = phase
        self.rng = rng
        self.mean = max(1, mean)
        self.style = style
        self.budget = budget
        self.opcodes = opcodes
        self.threads = []
        self.total = 0
        self.recorded = []
        self.switches = 0
        self.sig = hashlib.md5()
        self.main_lock = seams.real_allocate_lock()
        self.main_lock.acquire()
        self.current = None
        self.aborting = None
        self.next_preempt = None
        self.ids = {}
        self.ends = 0
        self.hot = {}
        self.visits = {}

    # -- setup
    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        return t

    def _gap(self):
        if self.style == 'log':
            import math
            return 1 + int(math.exp(self.rng.random() * math.log(self.mean * 20)))
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _parks(self, t, frame):
        """Park style: a thread is put aside at lines of a few randomly chosen
        source files, preferring lines it has not been at before, and stays
        aside until another one is parked or finishes."""
        if frame is None:
            key = None
            fn = None
        else:
            fn = frame.f_code.co_filename
            key = (t.tid, fn, (frame.f_code.co_firstlineno, frame.f_lasti) if self.opcodes else frame.f_lineno)
        hot = self.hot.get(fn)
        if hot is None:
            hot = self.hot[fn] = self.rng.random() < 0.3
        if not hot:
            return False
        n = self.visits[key] = self.visits.get(key, 0) + 1
        return self.rng.random() * self.mean * n < 1

    # -- tracing
    def _tracer(self, t):
        root = self.ctx.trace_root
        opcodes = self.opcodes
        step = self._step
        skip = root + 'testsuite'

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                step(t, frame)
            return local

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(root) and not fn.startswith(skip):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return tracer

    def _step(self, t, frame):
        if self.aborting is not None:
            raise SimAbort()
        t.steps += 1
        self.total += 1
        if self.total > self.MAX_STEPS:
            self.fail(Violation('no-progress', 'step cap reached: the requests never finish'))
            raise SimAbort()
        if self.replay is not None:
            target = self.replay.get((t.tid, t.steps))
            if target is None:
                return
            if target >= len(self.threads) or target == t.tid:
                return
            tt = self.threads[target]
            if tt.state != 'ready':
                return
        else:
            if self.budget <= 0:
                return
            if self.style == 'park':
                if not self._parks(t, frame):
                    return
            elif self.total < self.next_preempt:
                return
            else:
                self.next_preempt = self.total + self._gap()
            others = [x for x in self.threads if x.state == 'ready' and x is not t]
            if not others:
                return
            tt = others[self.rng.randrange(len(others))] if len(others) > 1 else others[0]
            self.recorded.append([self.phase, t.tid, t.steps, tt.tid])
            self.budget -= 1
        self.switches += 1
        if frame is not None:
            self.sig.update(('%d%s:%d>%d;' % (
                t.tid, frame.f_code.co_name, frame.f_lineno or 0, tt.tid)).encode())
        else:
            self.sig.update(('%d>%d;' % (t.tid, tt.tid)).encode())
        self._switch(t, tt)

    def _switch(self, t, tt):
        self.current = tt
        tt.lock.release()
        t.lock.acquire()
        if self.aborting is not None:
            raise SimAbort()

    def point(self):
        """explicit switch point (harness code, seams)"""
        t = self.ids.get(_thread.get_ident())
        if t is not None:
            self._step(t, None)

    def yield_now(self):
        t = self.ids.get(_thread.get_ident())
        if t is None:
            return
        others = [x for x in self.threads if x.state == 'ready' and x is not t]
        if others:
            self._switch(t, self._pick(t, others))

    def _pick(self, t, cands):
        self.ends += 1
        key = ('end', self.ends)
        if self.replay is not None:
            target = self.replay.get(key)
            for c in cands:
                if c.tid == target:
                    return c
            return cands[0]
        c = cands[self.rng.randrange(len(cands))]
        if c is not cands[0]:
            self.recorded.append([self.phase, 'end', self.ends, c.tid])
        return c

    # -- blocking
    def block(self, obj):
        t = self.ids[_thread.get_ident()]
        t.state = 'blocked'
        t.waiting = obj
        ready = [x for x in self.threads if x.state == 'ready']
        if not ready:
            self.fail(Violation('deadlock', 'all simulated threads are blocked'))
            raise SimAbort()
        self._switch(t, self._pick(t, ready))

    def unblock(self, obj):
        for t in self.threads:
            if t.state == 'blocked' and t.waiting is obj:
                t.state = 'ready'
                t.waiting = None

    # -- termination
    def fail(self, exc):
        if self.aborting is None:
            self.aborting = exc

    def _body(self, t):
        t.ident = _thread.get_ident()
        t.lock.acquire()
        try:
            if self.aborting is None:
                self.ids[t.ident] = t
                sys.settrace(self._tracer(t))
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:          # harness function leaked it
            t.exc = e
            self.fail(e)
        finally:
            t.state = 'done'
            self.ids.pop(t.ident, None)
            if self.aborting is not None:
                nxt = [x for x in self.threads if x.state != 'done']
                for x in nxt:
                    x.state = 'ready'
            else:
                nxt = [x for x in self.threads if x.state == 'ready']
                if not nxt and any(x.state == 'blocked' for x in self.threads):
                    self.fail(Violation('deadlock', 'remaining threads are blocked for ever'))
                    nxt = [x for x in self.threads if x.state != 'done']
                    for x in nxt:
                        x.state = 'ready'
            if nxt:
                n = self._pick(t, nxt) if self.aborting is None else nxt[0]
                self.current = n
                n.lock.release()
            else:
                self.main_lock.release()

    def run(self):
        if self.replay is None:
            self.next_preempt = self._gap()
        if not self.threads:
            return
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        first = self._pick(None, self.threads)
        self.current = first
        first.lock.release()
        self.main_lock.acquire()
        if self.aborting is not None:
            raise self.aborting


class SimFS(object):
    """Fault injection and handle tracking for files below `root`."""
    def __init__(self, ctx, root, faults=()):
        self.ctx = ctx
        self.root = os.path.realpath(root) + os.sep
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.open_files = {}
        self.next_id = 0
        self.opened = 0

    def owns(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not self.ctx.in_fs_scope():
            return False
        return p.startswith(self.root) or p + os.sep == self.root

    def owns_fd(self, fd):
        if not self.ctx.in_fs_scope():
            return False
        if isinstance(fd, int):
            for f in self.open_files.values():
                if not f.closed and f.fileno() == fd:
                    return True
        return False

    def _due(self, op):
        n = self.counts[op] = self.counts.get(op, 0) + 1
        for f in self.faults:
            if f['op'] == op and f['n'] == n:
                return f
        return None

    def on_op(self, op, path):
        f = self._due(op)
        if f is not None:
            err = getattr(errno, f['err'])
            self.ctx.fault('fs.%s.%s' % (op, f['err']))
            raise OSError(err, os.strerror(err), path if isinstance(path, str) else None)

    def on_opened(self, raw):
        self.next_id += 1
        self.opened += 1
        raw.dst_id = self.next_id
        self.open_files[raw.dst_id] = raw

    def on_read(self, raw, n):
        f = self._due('read')
        if f is None:
            return None
        if f['err'] == 'SHORT':
            self.ctx.fault('fs.read.SHORT')
            return max(1, f.get('keep', 1))
        self.ctx.fault('fs.read.' + f['err'])
        err = getattr(errno, f['err'])
        raise OSError(err, os.strerror(err))

    def on_write(self, raw, n):
        f = self._due('write')
        if f is None:
            return None
        if f['err'] == 'SHORT':
            self.ctx.fault('fs.write.SHORT')
            return max(1, min(n, f.get('keep', 1)))
        self.ctx.fault('fs.write.' + f['err'])
        err = getattr(errno, f['err'])
        raise OSError(err, os.strerror(err))

    def on_close(self, raw):
        if not raw.dst_abandoned:
            # files closed by the garbage collector only count as leaked
            self.open_files.pop(raw.dst_id, None)
        f = self._due('close')
        if f is not None and (raw.dst_write or f.get('ro')):
            self.ctx.fault('fs.close.' + f['err'])
            import io
            io.FileIO.close(raw)
            err = getattr(errno, f['err'])
            raise OSError(err, os.strerror(err))


class Ctx(object):
    """One simulated run."""
    trace_root = os.path.join(os.path.realpath(seams.REPO), 'verktyg') + os.sep

    def __init__(self, plan, seed, schedule=None):
        self.plan = plan
        self.seed = seed
        self.schedule = schedule          # replay schedule or None
        self.rng = random.Random(seed ^ 0x5bd1e995)
        self.clock = Clock(plan.get('t0', 1500000000.0))
        self.fs = None
        self.sched = None
        self.events = hashlib.sha256()
        self.nevents = 0
        self.keep_log = False
        self.logged = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.recorded = []
        self.sched_sig = None
        self.steps = 0
        self.switches = 0
        self._fs_scope = 0
        self.phase = 0
        if schedule is not None:
            self.recorded = [list(x) for x in schedule]

    # -- recording
    def log(self, *ev):
        self.nevents += 1
        s = repr(ev)
        self.events.update(s.encode('utf-8', 'backslashreplace'))
        if self.keep_log:
            self.logged.append(s)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond, kind, message, *args):
        if not cond:
            raise Violation(kind, message % args if args else message)

    def violate(self, kind, message, *args):
        raise Violation(kind, message % args if args else message)

    def pristine(self, fn, *args):
        """fn(ctx, *args), a module level function, computed in a process in
        which the library has never been used; the result went through JSON"""
        from . import zygote
        return zygote.ask(fn.__module__, fn.__name__, self.plan, self.seed, args)

    # -- fs scope: the seam only applies to code under test, the harness's own
    #    file handling happens outside of it
    def in_fs_scope(self):
        if self.sched is not None:
            t = self.sched.ids.get(_thread.get_ident())
            if t is not None:
                return t.tid in self.fs_tids
        return self._fs_scope > 0

    fs_tids = ()

    def fs_scope(self):
        ctx = self

        class S(object):
            def __enter__(self):
                ctx._fs_scope += 1

            def __exit__(self, *a):
                ctx._fs_scope -= 1
        return S()

    # -- scheduling
    def point(self, label=None):
        if self.sched is not None:
            self.sched.point()

    def in_sim_thread(self):
        return self.sched is not None and _thread.get_ident() in self.sched.ids

    def yield_now(self):
        if self.sched is not None:
            self.sched.yield_now()

    def block_on(self, obj):
        self.sched.block(obj)

    def unblock(self, obj):
        if self.sched is not None:
            self.sched.unblock(obj)

    def run_threads(self, fns, fs_tids=()):
        """Run the functions as simulated threads under one schedule."""
        knobs = self.plan.get('sched', {})
        self.sched = s = Scheduler(
            self, schedule=self.schedule, rng=self.rng,
            mean=knobs.get('mean', 50), budget=knobs.get('budget', 10**9),
            opcodes=knobs.get('opcodes', False), style=knobs.get('style', 'geo'),
            phase=self.phase)
        self.phase += 1
        self.fs_tids = tuple(fs_tids)
        for fn in fns:
            s.spawn(fn)
        try:
            s.run()
        finally:
            self.sched = None
            self.fs_tids = ()
            self.steps += s.total
            self.switches += s.switches
            if s.replay is None:
                self.recorded.extend(s.recorded)
            sig = s.sig.hexdigest()
            self.sched_sig = (self.sched_sig or '') + sig[:16]
            self.log('sched', s.total, s.switches, sig)
        return [t.result for t in s.threads]

    def digest(self):
        return self.events.hexdigest()


def sched_knobs(rng, opcodes_p=0.15):
    """Swarm choice of scheduling style for one run."""
    k = rng.random()
    if rng.random() < 0.3:
        d = {'mean': rng.choice([2, 4, 10, 30]), 'style': 'park', 'budget': rng.choice([1, 2, 4, 12, 60])}
    elif k < 0.25:
        d = {'mean': rng.choice([30, 100, 300, 1000]), 'budget': rng.randint(1, 4), 'style': 'log'}
    elif k < 0.5:
        d = {'mean': rng.choice([50, 200, 600]), 'style': 'log'}
    else:
        d = {'mean': rng.choice([2, 5, 15, 50, 150, 400]), 'style': 'geo'}
    if rng.random() < opcodes_p:
        d['opcodes'] = True
    return d
