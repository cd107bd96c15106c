"""C03: request bodies on a simulated keep-alive connection."""
from ..core import Violation
from ..gen import wchoice, text, size, lat
from ..server import SimInput, make_environ, serve

from verktyg.requests import Request, BaseRequest
from verktyg.wsgi import LimitedStream, get_input_stream, make_line_iter
from verktyg.exceptions import ClientDisconnected
from verktyg.application import ApplicationBuilder
from verktyg.responses import Response
from verktyg.dispatch import Binding
from verktyg.routing import Route

ID = 'C03'
QUICK = 150000
THOROUGH = 2000000
BATCH = 400
SHRINK = ('requests', 'requests.*.ops')
RULE = ('Seeded plans: 1-3 requests pipelined on one connection, each with a declared length, '
        '1-10 read operations of random kinds and sizes, optional subclass hooks, and one optional '
        'transport failure (EOF, reset, I/O error, timeout, closed file, broken pipe) at a random byte.')
REAL = ['verktyg.wsgi.LimitedStream', 'verktyg.wsgi.get_input_stream', 'verktyg.wsgi.make_line_iter',
        'verktyg.requests.BaseRequest', 'verktyg.application.BaseApplication']
STUB = ['server connection (SimInput): pipelined bytes, failures', 'WSGI server loop']
ASSUMPTIONS = ['wsgi.input.read(n) blocks until n bytes or end of file, as PEP 3333 servers do']

OPS = [(4, 'read'), (3, 'readline'), (2, 'readlines'), (2, 'iter'), (1.5, 'exhaust'),
       (2, 'get_data'), (0.7, 'tell'), (0.7, 'is_exhausted'), (1, 'line_iter'), (0.6, 'loop')]
MODES = ['eof', 'reset', 'ioerror', 'timeout', 'valueerror', 'brokenpipe']
INVALID = ['', 'abc', '-5', 'one', '0x10', '1.5', '5 5', None]


def gen_op(rng, L):
    k = wchoice(rng, OPS)

    def sz(none=0.3):
        r = rng.random()
        if r < none * 0.5:
            return None
        if r < none:
            return -1
        if r < none + 0.02:
            return -2
        if r < none + 0.08:
            return 0
        if rng.random() < 0.5:
            return rng.randint(1, 6)
        return rng.randint(1, max(1, L + 3))
    if k in ('read', 'readline'):
        return [k, sz()]
    if k == 'readlines':
        return [k, None if rng.random() < 0.5 else rng.randint(1, max(1, L))]
    if k == 'iter':
        return [k, rng.randint(1, 4) if rng.random() < 0.7 else 10**6]
    if k == 'exhaust':
        return [k, None if rng.random() < 0.4 else rng.randint(1, max(1, L + 2))]
    if k == 'get_data':
        return [k, rng.random() < 0.7, rng.random() < 0.3]
    if k == 'line_iter':
        return [k, rng.randint(1, 12) if rng.random() < .8 and L < 500 else 10240]
    if k == 'loop':
        return [k, rng.randint(1, 16) if L < 2000 else rng.randint(4000, 70000)]
    return [k]


def generate(rng, tier):
    alpha = rng.choice(['ab\n', 'a\n', 'abc\r\n', 'xyz', 'a\nb\x00\xff', '\n\r'])
    reqs = []
    for _ in range(wchoice(rng, [(6, 1), (2, 2), (1, 3)])):
        n = size(rng, 10, 60, 140000)
        body = text(rng, n, alpha) if n < 1000 else (text(rng, 97, alpha) * (n // 97 + 1))[:n]
        r = {'body': body, 'api': wchoice(rng, [(5, 'request'), (2, 'stream'), (2, 'limited'), (2, 'app'), (1, 'base')])}
        x = rng.random()
        if x < 0.07:
            r['declared'] = rng.choice(INVALID)
            r['body'] = ''
        elif x < 0.1 and len(reqs) == 0:
            r['terminated'] = True
            r['declared'] = rng.choice([str(n), None])
        else:
            r['declared'] = rng.choice([str(n)] * 8 + [' %d ' % n, '%06d' % n, '+%d' % n])
        if r['api'] in ('request', 'base') and rng.random() < 0.08:
            r['shallow'] = rng.choice(['allowed', 'beside'])
        if r['api'] == 'limited':
            if rng.random() < 0.5:
                r['hooks'] = rng.choice(['both', 'disc', 'exh'])
        if rng.random() < 0.08 and not r.get('terminated'):
            r['termflag'] = rng.choice([False, False, None, 0])    # a server that announces it does not end the input
        r['ops'] = [gen_op(rng, n) for _ in range(rng.randint(1, 10))]
        reqs.append(r)
    plan = {'requests': reqs, 'mode': None}
    if reqs[0].get('terminated'):
        plan['requests'] = reqs = reqs[:1]
    total = sum(len(r['body']) for r in reqs)
    plan['rest'] = text(rng, rng.randint(0, 12), alpha)
    if rng.random() < 0.45 and total and not reqs[0].get('terminated'):
        plan['mode'] = rng.choice(MODES)
        plan['cut'] = rng.randrange(total)
    return plan


class Exh(Exception):
    pass


class Model(object):
    """Byte-level oracle for one request on the connection."""
    def __init__(self, ctx, wire, base, L, cut, mode, hooks):
        self.ctx = ctx
        self.wire = wire[base:base + L]
        self.L = L
        # bytes of this request that can arrive at all
        self.avail = L if cut is None else max(0, min(L, cut - base))
        self.broken = self.avail < L
        self.p = 0
        self.cached = None
        self.hooks = hooks or ''
        self.lost = False        # a failed eof read may have swallowed bytes

    def hook_disc(self):
        return self.hooks in ('both', 'disc')

    def hook_exh(self):
        return self.hooks in ('both', 'exh')


HD = b'<<disc>>'
HE = b'<<exh>>'


class HookDisc(LimitedStream):
    def on_disconnect(self):
        return HD


class HookExh(LimitedStream):
    def on_exhausted(self):
        return HE


class HookBoth(LimitedStream):
    def on_disconnect(self):
        return HD

    def on_exhausted(self):
        return HE


CLS = {'both': HookBoth, 'disc': HookDisc, 'exh': HookExh, None: LimitedStream}


def short(b):
    return repr(b if len(b) < 80 else b[:60] + b'...(%d)' % len(b))


def drive(ctx, model, stream, req, ops, limited):
    m = model

    def attempt(fn):
        try:
            return 'ok', fn()
        except ClientDisconnected:
            ctx.log('disconnected')
            return 'disc', None

    def fail(kind, msg, *a):
        raise Violation(kind, msg % a)

    def took(data, want_lo, want_hi, op):
        """`data` was returned as normal data; must continue the body."""
        if type(data) is not bytes:
            fail('type', '%r returned %r', op, data)
        got = m.wire[m.p:m.p + len(data)]
        if m.p + len(data) > m.L:
            fail('past-length', '%r returned %s, beyond the declared length %d (position %d)', op, short(data), m.L, m.p)
        if data != got:
            fail('wrong-bytes', '%r returned %s, the body continues with %s', op, short(data), short(got))
        if not (want_lo <= len(data) <= want_hi):
            fail('wrong-amount', '%r returned %d bytes at position %d of %d, expected %d..%d',
                 op, len(data), m.p, m.L, want_lo, want_hi)
        m.p += len(data)

    def line_end(p, n=None):
        i = m.wire.find(b'\n', p)
        e = m.L if i < 0 else i + 1
        if n is not None:
            e = min(e, p + n)
        return e

    def must_disc(kind, op, val):
        """operation needed bytes that never arrived"""
        m.lost = True
        if kind == 'disc':
            if m.hook_disc():
                fail('hook-ignored', '%r raised although the overriding hook returns a value', op)
            return
        if m.hook_disc() and val == HD:
            return
        fail('silent-truncation', '%r returned %s although the client went away after %d of %d bytes',
             op, short(val) if isinstance(val, bytes) else repr(val), m.avail, m.L)

    def do_read(n, op):
        kind, val = attempt(lambda: stream.read() if n is None else stream.read(n))
        if m.p >= m.L:
            exp = HE if m.hook_exh() and limited else b''
            if kind != 'ok' or val != exp:
                fail('after-end', '%r at the end of the body gave %s %r, expected %r', op, kind, val, exp)
            return b''
        want = m.L if n is None or n < 0 else min(m.L, m.p + n)
        if want <= m.avail:
            if kind == 'disc' and not m.lost:
                fail('spurious-disconnect', '%r raised a disconnect although the data is there', op)
            if m.lost:
                if kind == 'disc' or val == HD:
                    return None
                if n == 0 and val == b'':
                    return b''
            took(val, want - m.p, want - m.p, op)
            return val
        must_disc(kind, op, val)
        return None

    def do_readline(n, op):
        kind, val = attempt(lambda: stream.readline() if n is None else stream.readline(n))
        if m.p >= m.L:
            exp = HE if m.hook_exh() and limited else b''
            if kind != 'ok' or val != exp:
                fail('after-end', '%r at the end of the body gave %s %r, expected %r', op, kind, val, exp)
            return b''
        want = line_end(m.p, None if n is None or n < 0 else n)
        if want <= m.avail:
            if m.lost and (kind == 'disc' or val == HD):
                return None
            if kind == 'disc':
                fail('spurious-disconnect', '%r raised a disconnect although the line is there', op)
            if n == 0:
                took(val, 0, 0, op)
            else:
                took(val, want - m.p, want - m.p, op)
            return val
        # the line is incomplete: a partial line may be handed out once
        if kind == 'ok' and val and val != HD and m.p < m.avail:
            took(val, 1, m.avail - m.p, op)
            return val
        must_disc(kind, op, val)
        return None

    for op in ops:
        ctx.log(op, m.p)
        k = op[0]
        if k == 'get_data' and req is None:
            k, op = 'read', ['read', None]
        if k == 'read':
            do_read(op[1], op)
        elif k == 'loop':
            # application copying the body in blocks until it ends
            for _ in range(m.L + 2):
                before = m.p
                v = do_read(op[1], op)
                if not v:
                    break
            if not m.broken and m.p != m.L:
                fail('short-copy', 'copying in blocks of %d stopped at %d of %d', op[1], m.p, m.L)
        elif k == 'readline':
            do_readline(op[1], op)
        elif k == 'iter':
            if m.hooks and limited:
                continue       # hook values would be endless lines
            it = iter(stream)
            for _ in range(min(op[1], m.L + 2)):
                kind, val = attempt(lambda: next(it, None))
                if val is None and kind == 'ok':
                    if m.p < m.L:
                        fail('silent-truncation', 'iteration ended at %d of %d (client sent %d)', m.p, m.L, m.avail)
                    break
                if kind == 'disc':
                    if m.p >= m.L or (not m.broken):
                        fail('spurious-disconnect', 'iteration raised at %d of %d', m.p, m.L)
                    if line_end(m.p) <= m.avail and not m.lost:
                        fail('spurious-disconnect', 'iteration raised although the line is there')
                    m.lost = True
                    break
                want = line_end(m.p)
                if want <= m.avail:
                    took(val, want - m.p, want - m.p, op)
                else:
                    if m.p >= m.L:
                        fail('past-length', 'iteration yielded %s after the end', short(val))
                    took(val, 1, m.avail - m.p, op)
        elif k == 'readlines':
            if m.hooks and limited:
                continue
            n = op[1]
            p0 = m.p
            kind, val = attempt(lambda: stream.readlines() if n is None else stream.readlines(n))
            if kind == 'disc':
                if not m.broken:
                    fail('spurious-disconnect', '%r raised a disconnect on a complete body', op)
                if n is not None and p0 + 2 * n <= m.avail and not m.lost:
                    fail('spurious-disconnect', '%r raised although the data is there', op)
                # lines read before the failure are gone: resynchronise
                m.p = max(m.p, min(stream.tell(), m.avail))
                m.lost = True
                continue
            if type(val) is not list:
                fail('type', '%r returned %r', op, val)
            joined = b''.join(val)
            for item in val:
                if not item or b'\n' in item[:-1]:
                    fail('line-shape', '%r returned item %s', op, short(item))
            rem = m.L - p0
            lo = rem if n is None else min(rem, n)
            if n is None:
                exp = m.wire[p0:m.L].split(b'\n')
                exp = [x + b'\n' for x in exp[:-1]] + ([exp[-1]] if exp[-1] else [])
                if m.p + len(joined) == m.L and joined == m.wire[m.p:] and val != exp:
                    fail('line-shape', '%r cut the lines at the wrong places', op)
            if len(joined) < lo:
                fail('silent-truncation' if m.broken else 'wrong-amount',
                     '%r returned %d bytes without error, %d were declared', op, len(joined), lo)
            took(joined, lo, rem, op)
        elif k == 'exhaust':
            if not limited:
                continue
            kind, val = attempt(lambda: stream.exhaust() if op[1] is None else stream.exhaust(op[1]))
            if m.broken and m.p < m.L:
                if not m.hook_disc():
                    if kind != 'disc':
                        fail('silent-truncation', 'exhaust() ended normally although only %d of %d bytes came', m.avail, m.L)
                    # how far it got is unknown: resynchronise with tell()
                    m.p = max(m.p, min(stream.tell(), m.avail))
                    m.lost = True
                else:
                    m.p = max(m.p, min(stream.tell(), m.avail))
                    m.lost = True
            else:
                if kind != 'ok':
                    fail('spurious-disconnect', 'exhaust() raised on a complete body')
                m.p = m.L
                if stream.tell() != m.L or not stream.is_exhausted:
                    fail('exhaust-incomplete', 'exhaust() left the position at %d of %d', stream.tell(), m.L)
        elif k == 'tell':
            if limited and not m.lost and stream.tell() != m.p:
                fail('tell', 'tell() says %r, %d bytes were delivered', stream.tell(), m.p)
        elif k == 'is_exhausted':
            if limited and not m.lost and bool(stream.is_exhausted) != (m.p >= m.L):
                fail('is_exhausted', 'is_exhausted is %r at %d of %d', stream.is_exhausted, m.p, m.L)
        elif k == 'get_data':
            kind, val = attempt(lambda: req.get_data(cache=op[1], as_text=op[2]))
            if m.cached is not None:
                exp = m.cached
            elif m.p < m.L and m.broken:
                must_disc(kind, op, val)
                continue
            else:
                exp = m.wire[m.p:m.L]
                m.p = m.L
                if op[1]:
                    m.cached = exp
            if kind != 'ok':
                fail('spurious-disconnect', '%r raised', op)
            e = exp.decode('utf-8', 'replace') if op[2] else exp
            if val != e:
                fail('wrong-bytes', '%r returned %s, expected %s', op, repr(val)[:100], repr(e)[:100])
        elif k == 'line_iter':
            if (m.hooks and limited) or not limited:
                continue
            want = m.wire[m.p:m.L]
            exp = bytes_lines(want)
            got = []
            p0 = m.p
            try:
                for line in make_line_iter(stream, buffer_size=op[1]):
                    got.append(line)
                    if len(got) > len(exp) + 2:
                        break
                done = True
            except ClientDisconnected:
                done = False
            if done:
                if m.broken and p0 < m.L:
                    fail('silent-truncation', 'line iteration ended normally after %r', got[-3:])
                if got != exp:
                    fail('lines', 'line iteration gave %s, expected %s', repr(got)[:120], repr(exp)[:120])
                m.p = m.L
            else:
                if not m.broken:
                    fail('spurious-disconnect', 'line iteration raised on a complete body')
                if got != exp[:len(got)]:
                    fail('lines', 'line iteration gave %s, expected a prefix of %s', repr(got)[:120], repr(exp)[:120])
                m.p = max(m.p, min(stream.tell(), m.avail))
                m.lost = True


def bytes_lines(data):
    """reference line splitter: \\n, \\r, \\r\\n"""
    out, cur, i = [], b'', 0
    while i < len(data):
        c = data[i:i + 1]
        if c == b'\r':
            if data[i + 1:i + 2] == b'\n':
                out.append(cur + b'\r\n')
                i += 2
            else:
                out.append(cur + b'\r')
                i += 1
            cur = b''
        elif c == b'\n':
            out.append(cur + b'\n')
            cur = b''
            i += 1
        else:
            cur += c
            i += 1
    if cur:
        out.append(cur)
    return out


def parse_len(s):
    if s is None:
        return None
    try:
        return max(0, int(s))
    except ValueError:
        return None


def execute(ctx):
    plan = ctx.plan
    wire = lat(''.join(r['body'] for r in plan['requests']) + plan['rest'])
    cut, mode = plan.get('cut'), plan.get('mode')
    first = plan['requests'][0] if plan['requests'] else {}
    terminated = bool(first.get('terminated'))
    total = sum(len(r['body']) for r in plan['requests'])
    if mode is not None:
        cut = min(cut, total)
    inp = SimInput(ctx, wire[:total], wire[total:], cut=cut, mode=mode, terminated=terminated)
    base = 0
    if len(plan['requests']) > 1 or plan['rest'] or mode:
        ctx.probe('nontrivial')
    for r in plan['requests']:
        inp_base = base
        decl = r['declared']
        L = parse_len(decl)
        if decl is not None and L is not None:
            L = min(L, len(r['body'])) if L != len(r['body']) else L
            if parse_len(decl) != len(r['body']) and not terminated:
                # minimiser may have shortened things; keep the plan consistent
                decl = str(len(r['body']))
                L = len(r['body'])
        usable = L is not None
        env = make_environ('POST', '/', input=inp, content_length=decl)
        if terminated:
            env['wsgi.input_terminated'] = True
            L = len(r['body'])
        elif 'termflag' in r:
            env['wsgi.input_terminated'] = r['termflag']
        m = Model(ctx, wire, base, L if L is not None else 0,
                  cut if mode else None, mode, r.get('hooks'))
        api = r['api']
        ctx.log('request', api, decl)
        done = []

        def work(stream, req):
            limited = isinstance(stream, LimitedStream)
            if terminated:
                ctx.check(stream is inp, 'terminated-wrapped', 'self-terminating input was replaced by %r', stream)
            elif usable:
                ctx.check(limited, 'not-limited', 'a body of declared length %r is handed out as %r', decl, stream)
            drive(ctx, m, stream, req, r['ops'] if not terminated else
                  [o for o in r['ops'] if o[0] in ('read', 'readline', 'get_data', 'loop')], limited)
            if req is not None:
                ctx.check(req.stream is stream, 'stream-changed', 'request.stream is a different object the second time')
            done.append(True)

        if api == 'limited' and usable and not terminated:
            work(CLS[r.get('hooks')](inp, L), None)
        elif api in ('limited', 'stream'):
            m.hooks = ''
            s = get_input_stream(env)
            if usable and not terminated:
                m.hooks = ''
            work(s, None)
            if not usable and not terminated:
                ctx.check(get_input_stream(env, safe_fallback=False) is inp, 'unsafe-fallback',
                          'unsafe fallback does not return the raw stream')
        elif api in ('request', 'base'):
            m.hooks = ''
            cls = Request if api == 'request' else BaseRequest
            if r.get('shallow'):
                # a request for looking only: it refuses to touch the body until told otherwise
                ctx.probe('shallow')
                req = cls(env, shallow=True)
                ctx.check('verktyg.request' not in env, 'shallow', 'a shallow request added itself to the environ')
                for look in (lambda: req.stream, req.get_data, lambda: req.get_data(as_text=True)):
                    try:
                        got = look()
                    except RuntimeError:
                        continue
                    ctx.violate('shallow', 'a shallow request handed out the body: %r' % (got,))
                ctx.check(inp.pos == base, 'shallow', 'a shallow request read %d bytes of the body', inp.pos - base)
                if r['shallow'] == 'allowed':
                    req.shallow = False
                else:
                    req = cls(env)
            else:
                req = cls(env)
                ctx.check(env.get('verktyg.request') is req, 'populate', 'the request is not in the environ')
            work(req.stream, req)
        else:
            m.hooks = ''
            b = ApplicationBuilder()
            b.add_routes(Route('/', endpoint='up'))

            def up(app, req):
                work(req.stream, req)
                return Response('done')
            b.add_bindings(Binding('up', up, method='POST'))
            h = serve(ctx, b(), env)
            if h.exc is not None:
                raise h.exc
            ctx.check(h.status.startswith('200') and h.body == b'done', 'app', 'answer %r %r', h.status, h.body)
        ctx.check(bool(done), 'not-served', 'the request was not served')
        limit = base + (L if L is not None else 0)
        ctx.check(inp.pos <= limit, 'past-length',
                  '%d bytes of the next request were taken from the connection', inp.pos - limit)
        ctx.states.add('%s|%s|%s|%s' % (api, mode, 'lost' if m.lost else 'ok', 'end' if m.p >= m.L else 'mid'))
        if mode and (inp.failed or cut <= limit):
            break
        # the server skips what the application left unread
        inp.pos = limit
        base = limit
        if m.L and m.p >= m.L:
            ctx.probe('body-complete')
        if m.lost:
            ctx.probe('disconnect-seen')
