"""C08: line and separator iteration over fragmented, limited, failing sources."""
import re

from ..gen import wchoice, text

from verktyg.exceptions import ClientDisconnected
from verktyg.wsgi import LimitedStream, make_line_iter, make_chunk_iter

ID = 'C08'
QUICK = 250000
THOROUGH = 8000000
BATCH = 2000
SHRINK = ('jobs',)
RULE = ('Seeded plans: 1-3 interleaved iterations, each over text or bytes from a stream (short reads), a limited stream or '
        'an iterable (any fragmentation, empty pieces), any buffer size and limit, pipelined data behind the limit, '
        'and possibly a failure or early end at a chosen position or abandonment by the consumer.  '
        'Oracle: cutting the complete data at once.')
REAL = ['verktyg.wsgi.make_line_iter', 'verktyg.wsgi.make_chunk_iter', 'verktyg.wsgi.LimitedStream']
STUB = ['transport']
ASSUMPTIONS = ['a limit applies to streams (objects with read), not to plain iterables', 'separators are not empty']

ALPH = ['ab\r\n', 'ab\r\n', 'a\r\n', '\r\n', 'abc\n', 'ab\x0b\x0c\x1c\x85\u2028\n\ré', 'ab', 'ab|', 'a\r']
SEPS = ['\n', '\r\n', '|', 'aa', 'ab', 'aba', 'abab', '--', 'b', 'a\r', '\r', '||', 'aab', 'ababab', 'aabaab', 'abcabcd', '-' * 7, '\r\n\r\n', '\r\n--bound']


class Failure(Exception):
    pass


class BaseFailure(BaseException):
    pass


def generate(rng, tier):
    jobs = []
    for _ in range(wchoice(rng, [(6, 1), (2, 2), (1, 3)])):
        binary = rng.random() < 0.5
        alph = rng.choice(ALPH)
        n = wchoice(rng, [(1, 0), (3, rng.randint(1, 6)), (4, rng.randint(1, 30)), (1, rng.randint(30, 200))])
        if rng.random() < 0.03:
            n = rng.randint(5000, 25000)
        fn = rng.choice(['line', 'chunk'])
        sep = rng.choice(SEPS)
        data = text(rng, n, alph)
        if fn == 'chunk' and rng.random() < 0.6:
            parts = [text(rng, rng.randint(0, 5), alph) for _ in range(rng.randint(1, 6))]
            data = sep.join(parts)
        if n > 1000:
            data = sep.join(text(rng, rng.choice([3, 70, 1000]), alph) for _ in range(rng.randint(5, 20)))
        kind = wchoice(rng, [(4, 'stream'), (2, 'limited'), (4, 'iterable'), (1, 'list'), (2, 'open')])
        j = {'fn': fn, 'data': data, 'sep': sep, 'binary': binary, 'kind': kind,
             'buf': wchoice(rng, [(3, None), (4, rng.randint(1, 5)), (3, rng.randint(1, 40)), (1, 1)]),
             'frag': rng.choice(['full', 'full', 'one', 'rand']), 'seed': rng.randrange(1 << 30),
             'rest': text(rng, rng.choice([0, 3]), 'GET\r\n'), 'inner_buf': rng.random() < 0.3,
             'fail': wchoice(rng, [(5, None), (1, 'eof'), (1, 'OSError'), (0.7, 'ValueError'), (0.7, 'Failure'), (0.3, 'BaseFailure'), (0.5, 'reset')]),
             'stop': wchoice(rng, [(6, None), (1, rng.randint(0, 5))])}
        if len(data) > 400:
            if j['buf'] is not None:
                j['buf'] = rng.choice([64, 500, 1024])
            if j['frag'] == 'one':
                j['frag'] = 'full'
        if j['fail']:
            j['at'] = rng.randint(0, max(0, len(data) - 1)) if data else 0
            if rng.random() < 0.3:
                j['at'] = min(max(0, len(data) - 1), rng.choice([0, 1]))
        jobs.append(j)
    return {'jobs': jobs, 'inter': [rng.randrange(3) for _ in range(20)]}


EXC = {'OSError': lambda: OSError(5, 'io'), 'ValueError': lambda: ValueError('closed'), 'Failure': lambda: Failure('x'),
       'BaseFailure': lambda: BaseFailure('x'), 'reset': lambda: ConnectionResetError(104, 'reset')}


def step(n):
    """small deterministic generator for fragment sizes"""
    while True:
        n = (n * 1103515245 + 12345) & 0x3fffffff
        yield n >> 8


class Src(object):
    """stream that hands out short reads and fails at a position"""
    def __init__(self, ctx, j, wire, cut, exc):
        self.ctx = ctx
        self.wire = wire
        self.pos = 0
        self.cut = cut
        self.exc = exc
        # a server's read(n) blocks until n bytes or the end are there; an
        # unlimited raw stream may return less
        self.frag = j['frag'] if j['kind'] == 'open' else 'full'
        self.rnd = step(j['seed'])
        self.failed = False
        self.unbounded = 0

    def read(self, n=-1):
        avail = self.cut - self.pos
        if n is None or n < 0:
            self.unbounded += 1
            n = len(self.wire) - self.pos
        if n == 0:
            return self.wire[:0]
        if avail <= 0:
            if self.exc is not None:
                self.failed = True
                self.ctx.fault('source.' + type(self.exc).__name__)
                raise self.exc
            return self.wire[:0]
        n = min(n, avail)
        if self.frag == 'one':
            n = 1
        elif self.frag == 'rand' and n > 1:
            n = 1 + next(self.rnd) % n
        d = self.wire[self.pos:self.pos + n]
        self.pos += len(d)
        return d


    def readline(self, n=-1):
        nl = self.wire[:0] + ('\n' if isinstance(self.wire, str) else b'\n')
        out = self.wire[:0]
        while n is None or n < 0 or len(out) < n:
            c = self.read(1)
            out += c
            if not c or c == nl:
                break
        return out


def pieces(ctx, j, data, cut, exc):
    rnd = step(j['seed'])
    pos = 0
    while pos < cut:
        k = {'full': cut, 'one': 1}.get(j['frag']) or next(rnd) % 7
        k = min(k, cut - pos)
        yield data[pos:pos + k]
        pos += k
    if exc is not None:
        ctx.fault('source.' + type(exc).__name__)
        raise exc


def reference(j, data):
    if j['fn'] == 'line':
        if isinstance(data, bytes):
            return re.findall(rb'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', data)
        return re.findall(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+', data)
    if not data:
        return []
    sep = j['sep'].encode() if isinstance(data, bytes) else j['sep']
    return data.split(sep)


def start(ctx, j):
    data, rest = j['data'], j['rest']
    if j['binary']:
        data, rest = data.encode('utf-8'), rest.encode()
    exc = None
    cut = len(data)
    early = False
    if j['fail'] and data:
        cut = min(j['at'], len(data) - 1)
        if j['fail'] != 'eof':
            exc = EXC[j['fail']]()
        early = True
    kind = j['kind']
    kw = {}
    if j['buf'] is not None:
        kw['buffer_size'] = j['buf']
    src = None
    if kind in ('stream', 'limited'):
        # the next request's bytes follow on the wire
        if not early:
            cut = len(data) + len(rest)
        src = Src(ctx, j, data + rest, cut, exc)
        if kind == 'stream':
            arg = src
            kw['limit'] = len(data)
        else:
            arg = LimitedStream(src, len(data))
            if j['inner_buf']:
                kw['limit'] = len(data)
        must_fail = early
        full = data
    elif kind == 'open':
        # self-terminating stream without a limit: end of data is the end
        src = Src(ctx, j, data, cut, exc)
        arg = src
        must_fail = exc is not None
        full = data if exc is not None else data[:cut]
    else:
        it = pieces(ctx, j, data, cut, exc)
        if kind == 'list' and exc is None:
            it = list(it)
        arg = it
        must_fail = exc is not None
        full = data if exc is not None else data[:cut]
    if j['fn'] == 'line':
        gen = make_line_iter(arg, **kw)
    else:
        sep = j['sep'].encode() if j['binary'] else j['sep']
        gen = make_chunk_iter(arg, sep, **kw)
    if early and kind in ('stream', 'limited') and exc is None:
        ctx.fault('source.eof')
    return {'j': j, 'gen': iter(gen), 'ref': reference(j, full), 'exc': exc, 'must': must_fail, 'src': src, 'lim': len(data),
            'got': [], 'done': False, 'err': None, 'data': data}


def advance(ctx, s):
    j = s['j']
    if j['stop'] is not None and len(s['got']) >= j['stop']:
        ctx.fault('consumer.stop')
        if hasattr(s['gen'], 'close'):
            s['gen'].close()
        s['done'] = True
        s['stopped'] = True
        return
    try:
        s['got'].append(next(s['gen']))
        if len(s['got']) > len(s['ref']) + 5:
            s['done'] = True
    except StopIteration:
        s['done'] = True
        s['ended'] = True
    except (Failure, BaseFailure, OSError, ValueError, ClientDisconnected) as e:
        s['done'] = True
        s['err'] = e


def execute(ctx):
    plan = ctx.plan
    ss = [start(ctx, j) for j in plan['jobs']]
    inter = list(plan['inter'])
    live = list(ss)
    k = 0
    while live:
        s = live[inter[k % len(inter)] % len(live)]
        k += 1
        advance(ctx, s)
        if s['done']:
            live.remove(s)
    for s in ss:
        judge(ctx, s)


def judge(ctx, s):
    j, got, ref = s['j'], s['got'], s['ref']
    what = '%s iteration (%s, %s, buffer %s, fragments %s, separator %r) of %r' % (
        j['fn'], 'bytes' if j['binary'] else 'text', j['kind'], j['buf'], j['frag'], j['sep'], s['data'][:80])
    ctx.log(j['fn'], j['kind'], j['frag'], j['buf'], s['data'], len(got), type(s['err']).__name__)
    ctx.states.add('%s|%s|%s|%s|%s' % (j['fn'], j['kind'], j['binary'], j['fail'], type(s['err']).__name__))
    ctx.check(got == ref[:len(got)], 'items', '%s yielded %r instead of %r', what, got[-6:], ref[max(0, len(got) - 6):len(got) + 2])
    if s['src'] is not None:
        ctx.check(s['src'].pos <= s['lim'] or j['kind'] == 'open', 'over-read', '%s took %d units of %d', what, s['src'].pos, s['lim'])
    if len(ref) > 1:
        ctx.probe('nontrivial')
    if s.get('stopped'):
        return
    if s['must']:
        ctx.check(s['err'] is not None, 'failure-hidden', '%s ended normally after %d items although the source failed (%s at %s)', what, len(got), j['fail'], j.get('at'))
        if s['exc'] is not None:
            ok = s['err'] is s['exc'] or isinstance(s['err'], ClientDisconnected) and (
                isinstance(s['exc'], (OSError, ValueError)) or s['src'] is not None and not s['src'].failed)
            ctx.check(ok, 'failure-changed', '%s: the source failed with %r, the consumer got %r', what, s['exc'], s['err'])
        return
    ctx.check(s['err'] is None, 'spurious-error', '%s failed with %r', what, s['err'])
    ctx.check(got == ref, 'items-missing', '%s yielded %d of %d items', what, len(got), len(ref))
