"""Stubs of the outside world: transport (wsgi.input) and a reference PEP 3333
server loop that records the history of one exchange."""
import io
import sys

from .core import Violation, SimAbort


class WouldBlock(Exception):
    pass


class ServerDisconnect(Exception):
    """raised by the stubbed start_response / write when the socket is gone"""


class SimInput(object):
    """wsgi.input of a keep-alive connection.

    `body` is followed on the wire by `rest` (pipelined next request).  After
    `cut` bytes the connection fails according to `mode`:
      None      nothing happens; reading past body+rest would block for ever
      'eof'     end of file
      'reset'   ConnectionResetError      'ioerror' OSError(EIO)
      'timeout' socket.timeout (an OSError)   'valueerror' closed file
    A read never returns more than asked for and, as PEP 3333 and wsgiref do,
    read(n) blocks until n bytes or end of file are there.
    """
    ERR = {
        'reset': lambda: ConnectionResetError(104, 'Connection reset by peer'),
        'ioerror': lambda: OSError(5, 'Input/output error'),
        'timeout': lambda: TimeoutError('timed out'),
        'valueerror': lambda: ValueError('I/O operation on closed file'),
        'brokenpipe': lambda: BrokenPipeError(32, 'Broken pipe'),
    }

    def __init__(self, ctx, body, rest=b'', cut=None, mode=None, terminated=False):
        self.ctx = ctx
        self.data = body + rest
        self.nbody = len(body)
        self.pos = 0
        self.cut = len(self.data) if cut is None else cut
        self.mode = mode
        self.terminated = terminated
        self.calls = 0
        self.failed = False

    def _end(self, lo):
        """what happens when more than the available bytes are asked for"""
        if self.mode is None and not self.terminated:
            raise Violation(
                'read-past-body',
                'the library asked the transport for data beyond what the '
                'client sent (pos %d, asked up to %s): a real server would block '
                'for ever or steal bytes of the next request' % (self.pos, lo))
        if self.mode in (None, 'eof'):
            if self.mode == 'eof':
                self.failed = True
                self.ctx.fault('transport.eof')
            return
        self.failed = True
        self.ctx.fault('transport.' + self.mode)
        raise self.ERR[self.mode]()

    def _avail(self):
        if self.terminated:
            return min(self.cut, self.nbody)
        return self.cut

    def read(self, size=-1):
        self.calls += 1
        self.ctx.point('input')
        avail = self._avail()
        if size is None or size < 0:
            want = None
        else:
            want = self.pos + size
        if want is None or want > avail:
            self._end(want)
            want = avail
        rv = self.data[self.pos:want]
        self.pos = max(self.pos, want)
        return rv

    def readline(self, size=-1):
        self.calls += 1
        self.ctx.point('input')
        avail = self._avail()
        limit = None if size is None or size < 0 else self.pos + size
        i = self.data.find(b'\n', self.pos, avail if limit is None else min(limit, avail))
        if i >= 0:
            want = i + 1
        elif limit is not None and limit <= avail:
            want = limit
        else:
            if size != 0:
                if self.mode not in (None, 'eof') and self.pos < avail:
                    # a buffered reader hands out the partial line first only
                    # at end of file; errors surface immediately
                    pass
                self._end(limit)
            want = avail
        rv = self.data[self.pos:want]
        self.pos = max(self.pos, want)
        return rv

    def readlines(self, hint=None):
        rv = []
        total = 0
        while True:
            line = self.readline()
            if not line:
                return rv
            rv.append(line)
            total += len(line)
            if hint and total >= hint:
                return rv

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line


class History(object):
    """What a server saw while running one application call."""
    def __init__(self):
        self.started = []        # list of (status, headers, exc_info?)
        self.chunks = []         # all items handed over, in order
        self.written = []        # bytes through write()
        self.order = []          # 'start', 'chunk', 'write', 'close'
        self.exc = None          # exception propagated to the server
        self.exc_where = None    # 'call' | 'iter' | 'close'
        self.complete = False    # iteration ended normally
        self.closed = 0
        self.body = b''
        self.start_error = False

    @property
    def status(self):
        return self.started[-1][0] if self.started else None

    @property
    def headers(self):
        return self.started[-1][1] if self.started else None

    def header(self, name, default=None):
        vals = [v for k, v in self.headers if k.lower() == name.lower()]
        return vals[0] if vals else default

    def header_all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


def serve(ctx, app, environ, stop_after=None, fail_start=None, strict=True,
          fail_write=None, on_event=None):
    """Reference PEP 3333 server.

    stop_after=k: the client goes away; the server stops iterating after k body
    items (k=0: before the first) and then calls close(), as PEP 3333 demands.
    fail_start: exception raised by start_response (socket already gone).
    strict: protocol violations by the application are Violations.
    """
    h = History()
    h.headers_sent = False

    def note(what):
        h.order.append(what)
        if on_event is not None:
            on_event(what, h)

    def bad(kind, msg, *a):
        if strict:
            raise Violation(kind, msg % a if a else msg)

    def start_response(status, headers, exc_info=None):
        note('start')
        if exc_info is not None:
            try:
                if h.headers_sent:
                    raise exc_info[1].with_traceback(exc_info[2])
            finally:
                exc_info = None
        elif h.started:
            bad('start-twice', 'start_response called twice without exc_info')
        if type(status) is not str:
            bad('status-type', 'status is not a native string: %r', status)
        try:
            int(status[:3])
            ok = len(status) >= 4 and status[3] == ' '
        except Exception:
            ok = False
        if not ok:
            bad('status-form', 'malformed status %r', status)
        if type(headers) is not list:
            bad('headers-type', 'headers is not a list: %r', type(headers))
        for item in headers:
            if type(item) is not tuple or len(item) != 2:
                bad('headers-type', 'header item is not a 2-tuple: %r', item)
            for x in item:
                if type(x) is not str:
                    bad('headers-type', 'header %r is not made of native strings', item)
                if '\r' in x or '\n' in x:
                    bad('headers-ctl', 'header %r contains a line break', item)
                try:
                    x.encode('latin1')
                except UnicodeError:
                    bad('headers-latin1', 'header %r cannot be put on the wire', item)
        h.started.append((status, list(headers)))
        if fail_start is not None:
            h.start_error = True
            ctx.fault('server.start_response')
            raise fail_start

        def write(data):
            if type(data) is not bytes:
                bad('write-type', 'write() got %r', type(data))
            h.headers_sent = True
            h.written.append(data)
            h.chunks.append(data)
            note('write')
        return write

    rv = None
    n = 0
    try:
        try:
            rv = app(environ, start_response)
        except (SimAbort, Violation):
            raise
        except BaseException as e:
            h.exc, h.exc_where = e, 'call'
            return h
        try:
            if stop_after == 0:
                ctx.fault('client.disconnect')
            else:
                it = iter(rv)
                while True:
                    ctx.point('server')
                    try:
                        item = next(it)
                    except StopIteration:
                        h.complete = True
                        break
                    if type(item) is not bytes:
                        bad('chunk-type', 'body item is not bytes: %r', item)
                        item = bytes(item) if not isinstance(item, str) else item.encode('utf-8')
                    if not h.started:
                        if item:
                            bad('body-before-start', 'body data before start_response')
                    if item:
                        h.headers_sent = True
                    h.chunks.append(item)
                    note('chunk')
                    n += 1
                    if stop_after is not None and n >= stop_after:
                        ctx.fault('client.disconnect')
                        break
                if h.complete and not h.started:
                    bad('no-start', 'iteration ended without start_response')
        except (SimAbort, Violation):
            raise
        except BaseException as e:
            h.exc, h.exc_where = e, 'iter'
        finally:
            close = getattr(rv, 'close', None)
            if close is not None and not isinstance(sys.exc_info()[1], SimAbort):
                note('close')
                h.closed += 1
                try:
                    close()
                except (SimAbort, Violation):
                    raise
                except BaseException as e:
                    h.close_exc = e
                    if h.exc is None:
                        h.exc, h.exc_where = e, 'close'
        return h
    finally:
        h.body = b''.join(c for c in h.chunks if isinstance(c, bytes))


def make_environ(method='GET', path='/', query='', headers=(), body=None,
                 input=None, host='sim.example', scheme='http', script='',
                 content_type=None, content_length=None, extra=None):
    env = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': script,
        'PATH_INFO': path.encode('utf-8').decode('latin1'),
        'QUERY_STRING': query,
        'SERVER_NAME': host.split(':')[0],
        'SERVER_PORT': host.split(':')[1] if ':' in host else '80',
        'SERVER_PROTOCOL': 'HTTP/1.1',
        'HTTP_HOST': host,
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': scheme,
        'wsgi.input': input if input is not None else io.BytesIO(body or b''),
        'wsgi.errors': io.StringIO(),
        'wsgi.multithread': True,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    if body is not None and content_length is None:
        content_length = str(len(body))
    if content_length is not None:
        env['CONTENT_LENGTH'] = content_length
    if content_type is not None:
        env['CONTENT_TYPE'] = content_type
    for k, v in headers:
        env['HTTP_' + k.upper().replace('-', '_')] = v
    if extra:
        env.update(extra)
    return env
