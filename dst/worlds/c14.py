"""C14: histories of body operations on responses."""
import io

from ..gen import wchoice, text
from ..server import serve, make_environ

from verktyg.http import FileStorage                                        # noqa
from verktyg.responses import (
    BaseResponse, Response, ETagResponseMixin, ResponseStreamMixin, CommonResponseDescriptorsMixin)
from verktyg.wsgi import FileWrapper, wrap_file

ID = 'C14'
QUICK = 400000
THOROUGH = 4000000
BATCH = 500
SHRINK = ('responses', 'responses.*.ops', 'responses.*.retry', 'responses.*.items')
RULE = ('Seeded plans: 1-3 responses of random classes, charsets and modes with bodies of every shape (string, bytes, sequence, generator, iterator, '
        'iterable, file wrapper; failing at any item), 0-8 operations in any order, then sent to the server.  '
        'Oracle: list of the supplied pieces; refused operations must have no effect.')
REAL = ['verktyg.responses (body operations, stream, tagging, sending)', 'verktyg.http entity tags', 'verktyg.wsgi.FileWrapper']
STUB = ['body producers', 'WSGI server loop']
ASSUMPTIONS = ['a sequence handed in as body belongs to the response', 'after the failure of a producer that can be iterated only once the response may be empty, never a part of the body']


class Err(Exception):
    pass


class BaseErr(BaseException):
    pass


EXC = {'Err': Err, 'BaseErr': BaseErr, 'RuntimeError': RuntimeError, 'ValueError': ValueError, 'TypeError': TypeError, 'AttributeError': AttributeError,
       'OSError': OSError, 'LookupError': LookupError, 'KeyError': KeyError, 'NotImplementedError': NotImplementedError, 'EOFError': EOFError}


class Tagging(ETagResponseMixin, BaseResponse, ResponseStreamMixin, CommonResponseDescriptorsMixin):
    """freeze() also tags"""


class Other(Response):
    pass


def make_class(c):
    base = {'Response': Response, 'Tagging': Tagging, 'Other': Other}[c['base']]
    d = {}
    if c['charset'] != 'utf-8':
        d['charset'] = c['charset']
    if not c['implicit']:
        d['implicit_sequence_conversion'] = False
    if not c['auto']:
        d['automatically_set_content_length'] = False
    return type('R', (base,), d) if d else base


def txt(it):
    return it[1] + 'z' * it[2] if len(it) > 2 else it[1]


def item(rng):
    t = text(rng, wchoice(rng, [(1, 0), (3, 1), (3, 4), (1, 40)]), 'abé')
    return [rng.choice(['s', 'b']), t]


def generate(rng, tier):
    rs = []
    for _ in range(wchoice(rng, [(5, 1), (2, 2), (1, 3)])):
        r = {'cls': {'base': wchoice(rng, [(5, 'Response'), (2, 'Tagging'), (1, 'Other')]), 'charset': wchoice(rng, [(6, 'utf-8'), (1, 'latin-1'), (1, 'utf-16-le')]),
                     'implicit': rng.random() < 0.75, 'auto': rng.random() < 0.8},
             'kind': wchoice(rng, [(2, 'str'), (2, 'bytes'), (1, 'bytearray'), (0.7, 'none'), (3, 'list'), (1.5, 'tuple'), (4, 'gen'), (2, 'iter'), (2, 'iterable'),
                                   (1, 'sized'), (1, 'file'), (1.2, 'restart')]),
             'items': [item(rng) for _ in range(wchoice(rng, [(1, 0), (2, 1), (4, 3), (1, 7)]))],
             'direct': rng.random() < 0.12, 'method': wchoice(rng, [(6, 'GET'), (1, 'HEAD'), (1, 'POST')]), 'buf': rng.choice([1, 2, 5, 100])}
        if r['kind'] in ('gen', 'iter', 'iterable', 'sized', 'restart') and rng.random() < (0.6 if r['kind'] == 'restart' else 0.3):
            r['fail'] = rng.randint(0, len(r['items']))
            r['fails'] = wchoice(rng, [(3, 1), (1, 2), (1, 99)])        # how often a restartable producer fails
            if rng.random() < 0.6:
                r['retry'] = [rng.choice(['get', 'seq', 'len', 'freeze', 'send', 'etag', 'write', 'cond', 'repr']) for _ in range(rng.randint(1, 4))]
            r['exc'] = rng.choice(sorted(EXC))
        elif r['kind'] in ('gen', 'iter', 'iterable', 'list', 'tuple') and r['cls']['charset'] == 'latin-1' and r['items'] and not r['direct'] and rng.random() < 0.4:
            r['unenc'] = rng.randrange(len(r['items']))          # an item the charset cannot express
        ops = []
        for _ in range(wchoice(rng, [(1, 0), (2, 1), (4, 4), (1, 8)])):
            o = {'op': wchoice(rng, [(3, 'get'), (1.5, 'text'), (2, 'set'), (3, 'write'), (1, 'writelines'), (2, 'seq'), (2, 'freeze'), (2, 'len'), (2.5, 'etag'),
                                     (2, 'cond'), (1.5, 'iter'), (1, 'repr'), (0.5, 'force'), (0.5, 'flags'), (0.7, 'headers'), (0.3, 'closestream')])}
            if o['op'] in ('set', 'write'):
                o['v'] = item(rng)
                o['ba'] = rng.random() < 0.2
            elif o['op'] == 'writelines':
                o['vs'] = [item(rng) for _ in range(rng.randint(0, 3))]
                o['ba'] = rng.random() < 0.2
            elif o['op'] == 'etag':
                o['overwrite'] = rng.random() < 0.5
                o['weak'] = rng.random() < 0.3
            elif o['op'] == 'cond':
                o['inm'] = rng.choice([None, 'match', 'other', None])
            elif o['op'] == 'freeze':
                o['no_etag'] = rng.random() < 0.3
            ops.append(o)
        r['ops'] = ops
        rs.append(r)
    if rng.random() < 0.08:
        rs[0]['items'].insert(rng.choice([0, 0, len(rs[0]['items'])]), ['b', '', rng.choice([1000, 4096, 8192, 65536, 70000])])
    if len(rs) > 1 and rng.random() < 0.5:
        # same pieces, cut elsewhere or slightly changed
        rs[1]['items'] = [list(x) for x in rs[0]['items']]
        if rs[1]['items'] and rng.random() < 0.7:
            if rng.random() < 0.5:
                rs[1]['items'][-1][1] += rng.choice(['a', '', 'b'])
            else:
                x = rng.choice(rs[1]['items'])      # same size
                at = rng.randint(0, len(x[1]))
                x[1] = x[1][:at] + rng.choice('abc') + x[1][at + 1:]
        for k in ('fail', 'exc', 'unenc', 'retry', 'fails'):
            rs[1].pop(k, None)
    return {'responses': rs}


class It(object):
    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.src)


class Iterable(object):
    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self.src


class Restart(object):
    def __init__(self, produce):
        self.produce = produce

    def __iter__(self):
        return self.produce()


class Sized(Iterable):
    def __init__(self, src, n):
        self.src, self.n = src, n

    def __len__(self):
        return self.n


class Model(object):
    def __init__(self, ctx, r):
        self.ctx = ctx
        self.r = r
        self.charset = r['cls']['charset']
        self.exc = EXC[r['exc']]('producer broke') if 'fail' in r else None
        self.raised = False
        self.left = r.get('fails', 1) if r['kind'] == 'restart' else 1

    def value(self, it, i=None):
        if i is not None and i == self.r.get('unenc'):
            return '\u20ac'
        k, t = it[0], txt(it)
        return t if k == 's' and not self.r['direct'] else t.encode(self.charset)

    def enc(self, it):
        return txt(it).encode(self.charset)

    def produce(self):
        for i, it in enumerate(self.r['items']):
            if self.exc is not None and self.left and i >= self.r['fail']:
                break
            yield self.value(it, i)
        if self.exc is not None and self.left:
            self.raised = True
            self.left -= 1
            self.ctx.fault('producer.' + type(self.exc).__name__)
            raise self.exc

    def body(self):
        r = self.r
        k = r['kind']
        items = r['items']
        if k == 'none':
            return None, [], True
        pieces = [self.enc(x) for x in items]
        if k in ('str', 'bytes', 'bytearray'):
            t = ''.join(txt(x) for x in items)
            b = t.encode(self.charset)
            return {'str': t, 'bytes': b, 'bytearray': bytearray(b)}[k], [b], True
        if k == 'list':
            return [self.value(x, i) for i, x in enumerate(items)], pieces, True
        if k == 'tuple':
            return tuple(self.value(x, i) for i, x in enumerate(items)), pieces, True
        if k == 'gen':
            return self.produce(), pieces, False
        if k == 'iter':
            return It(self.produce()), pieces, False
        if k == 'iterable':
            return Iterable(self.produce()), pieces, False
        if k == 'restart':
            return Restart(self.produce), pieces, False
        if k == 'sized':
            return Sized(self.produce(), len(items)), pieces, False
        return FileWrapper(io.BytesIO(b''.join(pieces)), r['buf']), pieces, False


def execute(ctx):
    tags = {}
    for r in ctx.plan['responses']:
        one(ctx, r, tags)


def one(ctx, r, tags):
    m = Model(ctx, r)
    cls = make_class(r['cls'])
    src, pieces, seq = m.body()
    bad = 'unenc' in r or m.exc is not None
    res = cls(src, direct_passthrough=r['direct'])
    if type(src) is bytearray:
        src[:] = b'the buffer is used again'
    state = {'pieces': pieces, 'seq': seq, 'list': seq, 'bad': bad, 'etag': None}
    what = '%s body of %d items (%s%s%s)' % (r['kind'], len(r['items']), r['cls']['charset'], '' if r['cls']['implicit'] else ', no implicit buffering',
                                            ', direct' if r['direct'] else '')
    done = []
    for o in r['ops']:
        done.append(o['op'])
        where = '%s after %s' % (what, done)
        refuse = not state['seq'] and (r['direct'] or not r['cls']['implicit'])
        try:
            res = step(ctx, m, r, res, o, state, refuse, where, tags)
        except tuple(EXC.values()) + (UnicodeEncodeError,) as e:
            ctx.log(r, 'failed', done, type(e).__name__)
            ctx.states.add('%s|%s|%s|%s' % (r['kind'], o['op'], 'error', type(e).__name__))
            if m.exc is not None and e is m.exc:
                ctx.probe('nontrivial')
                if r.get('retry'):
                    retry(ctx, m, r, res, state, refuse, where)
                return                      # the producer's own error reached the caller
            if 'unenc' in r and isinstance(e, UnicodeEncodeError) and state['bad']:
                return
            raise
        ctx.check(not m.raised, 'swallowed', '%s: the producer failed (%r) and nobody was told', where, m.exc)
        ctx.states.add('%s|%s|%s|%s|%s' % (r['kind'], o['op'], refuse, state['seq'], r['cls']['base']))
    # send
    if len(r['ops']) > 1:
        ctx.probe('nontrivial')
    for turn in range(2 if state['seq'] else 1):
        send(ctx, m, r, res, state, '%s sent after %s' % (what, done))
    ctx.log(r, done, b''.join(state['pieces']))


def send(ctx, m, r, res, state, where):
    env = make_environ(r['method'], '/')
    h = serve(ctx, res, env, strict=False)
    status = res.status_code
    if h.exc is not None:
        if h.exc is m.exc or ('unenc' in r and state['bad'] and isinstance(h.exc, UnicodeEncodeError)):
            return
        raise h.exc
    body = b''.join(state['pieces'])
    if r['method'] == 'HEAD' or status == 304:
        ctx.check(h.body == b'', 'body', '%s: a %s %s carries a body', where, r['method'], status)
        return
    ctx.check(not m.raised and not ('unenc' in r and state['bad']), 'swallowed', '%s: the producer failed and the body %r was sent as complete', where, h.body[:60])
    ctx.check(h.body == body, 'body', '%s: sent %r instead of %r', where, h.body[:80], body[:80])
    cl = h.header('content-length')
    if cl is not None and r['cls']['auto']:
        ctx.check(cl == str(len(body)), 'length', '%s: %d bytes sent with Content-Length %s', where, len(body), cl)
    if r['cls']['auto'] and state['seq'] and not r['direct']:
        ctx.check(cl is not None, 'length', '%s: no Content-Length for a buffered body', where)


def retry(ctx, m, r, res, state, refuse, where):
    """the caller has seen the producer's error and goes on with the response all the same"""
    # what the body may be from now on: all of it, or nothing when the producer cannot start again
    may = b''.join(state['pieces']) if r['kind'] == 'restart' else b''
    status = res.status_code
    for k in r['retry']:
        where += ' failed, then %s' % k
        m.raised = False
        try:
            if k == 'get' or k == 'cond' and refuse:
                got = res.get_data()
                ctx.check(not m.raised and got == may, 'retry', '%s: read %r, the body is %r', where, got[:60], may[:60])
            elif k == 'seq':
                res.make_sequence()
            elif k == 'len':
                n = res.calculate_content_length()
                ctx.check(n is None and refuse or n == len(may), 'retry', '%s: measured %r, the body has %d bytes', where, n, len(may))
            elif k == 'freeze':
                res.freeze()
                ctx.check(res.headers.get('content-length') == str(len(may)), 'retry', '%s: Content-Length %s for %d bytes', where,
                          res.headers.get('content-length'), len(may))
            elif k == 'etag':
                res.add_etag(overwrite=True)
            elif k == 'cond':
                res.make_conditional(make_environ('GET', '/'))
            elif k == 'repr':
                repr(res)
            elif k == 'write' and state.get('closed'):
                continue
            elif k == 'write':
                res.stream.write(b'+')
                may += b'+'
            else:
                h = serve(ctx, res, make_environ('GET', '/'), strict=False)
                if h.exc is not None:
                    raise h.exc
                ctx.check(not m.raised and h.body == may, 'retry', '%s: sent %r, the body is %r', where, h.body[:60], may[:60])
                cl = h.header('content-length')
                ctx.check(cl is None or cl == str(len(may)) or not r['cls']['auto'] or status != 200, 'retry', '%s: Content-Length %s for %d bytes', where, cl, len(may))
                return
        except tuple(EXC.values()) as e:
            if e is m.exc or refuse and type(e) is RuntimeError:
                m.raised = False
                continue
            raise
        ctx.check(not m.raised, 'swallowed', '%s: the producer failed (%r) and nobody was told', where, m.exc)
        if res.is_sequence:
            got = b''.join(res.iter_encoded())
            ctx.check(got == may, 'retry', '%s: the body became %r instead of %r', where, got[:60], may[:60])
            ctx.probe('retried')


def expect_refusal(ctx, fn, where):
    try:
        fn()
    except RuntimeError as e:
        if type(e) is RuntimeError:
            ctx.fault('op.refused')
            return
        raise
    ctx.violate('not-refused', '%s: streamed body was buffered although that is switched off', where)


def step(ctx, m, r, res, o, state, refuse, where, tags):
    op = o['op']
    body = b''.join(state['pieces'])
    auto = r['cls']['auto']
    if op in ('get', 'text'):
        if refuse:
            expect_refusal(ctx, lambda: res.get_data(as_text=op == 'text'), where)
            return res
        got = res.get_data(as_text=op == 'text')
        want = body if op == 'get' else body.decode(m.charset)
        ctx.check(got == want, 'read', '%s: read %r instead of %r', where, got[:60], want[:60])
        state['seq'] = True
    elif op == 'set':
        v = m.value(o['v'])
        if o['ba'] and isinstance(v, bytes):
            v = bytearray(v)
        res.set_data(v)
        if type(v) is bytearray:
            v[:] = b'the buffer is used again'
        state.update(pieces=[m.enc(o['v'])], seq=True, bad=False)
        m.exc = None
        if auto:
            cl = res.headers.get('content-length')
            ctx.check(cl == str(len(m.enc(o['v']))), 'length', '%s: Content-Length %s for %d bytes', where, cl, len(m.enc(o['v'])))
    elif op in ('write', 'writelines'):
        vs = [o['v']] if op == 'write' else o['vs']
        if state.get('closed'):
            try:
                for x in vs:
                    res.stream.write(m.value(x))
            except ValueError:
                return res
            ctx.check(not vs, 'closed', '%s: a closed stream accepted data', where)
            return res
        vals = [m.value(x) for x in vs]
        if refuse and vs:
            expect_refusal(ctx, lambda: res.stream.write(vals[0]), where)
            return res
        if o.get('ba'):
            vals = [bytearray(x) if isinstance(x, bytes) else x for x in vals]
        if op == 'write':
            res.stream.write(vals[0])
        else:
            res.stream.writelines(vals)
        for v in vals:
            if type(v) is bytearray:
                v[:] = b'the buffer is used again'
        if vs:
            state['pieces'] = state['pieces'] + [m.enc(x) for x in vs]
            state['seq'] = True
    elif op == 'seq':
        res.make_sequence()
        state['seq'] = True
        ctx.check(res.is_sequence, 'flags', '%s: not a sequence', where)
    elif op == 'freeze':
        if isinstance(res, Tagging):
            if not o['no_etag'] and state['etag'] is None and refuse:
                expect_refusal(ctx, res.freeze, where)
                return res
            res.freeze(no_etag=o['no_etag'])
            if not o['no_etag'] and state['etag'] is None:
                tag(ctx, res, body, state, tags, where)
        else:
            res.freeze()
        state['seq'] = True
        cl = res.headers.get('content-length')
        ctx.check(cl == str(len(body)), 'length', '%s: Content-Length %s for %d bytes', where, cl, len(body))
    elif op == 'len':
        n = res.calculate_content_length()
        if refuse:
            ctx.check(n is None, 'length', '%s: measured %r', where, n)
            return res
        ctx.check(n == len(body), 'length', '%s: measured %r instead of %d', where, n, len(body))
        state['seq'] = True
    elif op == 'etag':
        if state['etag'] is not None and not o['overwrite']:
            old = res.headers.get('etag')
            res.add_etag(weak=o['weak'])
            ctx.check(res.headers.get('etag') == old, 'etag', '%s: tag %r became %r', where, old, res.headers.get('etag'))
            return res
        if refuse:
            expect_refusal(ctx, lambda: res.add_etag(overwrite=o['overwrite'], weak=o['weak']), where)
            ctx.check(state['etag'] is not None or 'etag' not in res.headers, 'etag', '%s: refused but tagged', where)
            return res
        res.add_etag(overwrite=o['overwrite'], weak=o['weak'])
        state['seq'] = True
        tag(ctx, res, body, state, tags, where, o['weak'])
    elif op == 'cond':
        hdrs = []
        if o['inm'] and state['etag'] is not None:
            t = state['etag'] if o['inm'] == 'match' else 'zz' + state['etag']
            hdrs = [('If-None-Match', '"%s"' % t)]
        env = make_environ('POST' if r['method'] == 'POST' else 'GET', '/', headers=hdrs)
        had = 'content-length' in res.headers
        out = res.make_conditional(env)
        ctx.check(out is res, 'cond', '%s: another response came back', where)
        want304 = r['method'] != 'POST' and bool(hdrs) and o['inm'] == 'match'
        if not state.get('was304'):
            ctx.check((res.status_code == 304) == want304, 'cond', '%s: status %s', where, res.status)
        if want304:
            state['was304'] = True
        if auto and not had and not refuse and r['method'] != 'POST':
            cl = res.headers.get('content-length')
            ctx.check(str(cl) == str(len(body)), 'length', '%s: Content-Length %s for %d bytes', where, cl, len(body))
            state['seq'] = True
    elif op == 'iter':
        if not state['seq'] or (r['direct'] and False):
            return res              # consuming a streamed body is sending it
        got = b''.join(res.iter_encoded())
        ctx.check(got == body, 'iterate', '%s: iterated %r instead of %r', where, got[:60], body[:60])
    elif op == 'repr':
        s = repr(res)
        if state['seq']:
            ctx.check('%d bytes' % len(body) in s, 'repr', '%s: %s', where, s)
    elif op == 'force':
        res = type(res).force_type(res)
    elif op == 'flags':
        ctx.check(bool(res.is_sequence) == state['seq'], 'flags', '%s: is_sequence is %r', where, res.is_sequence)
        if state['seq']:
            ctx.check(not res.is_streamed, 'flags', '%s: is_streamed is %r', where, res.is_streamed)
    elif op == 'headers':
        if res.status_code != 304:
            h = res.get_wsgi_headers(make_environ('GET', '/'))
            cl = h.get('content-length')
            if cl is not None and auto:
                ctx.check(cl == str(len(body)), 'length', '%s: Content-Length %s for %d bytes', where, cl, len(body))
    elif op == 'closestream':
        if not hasattr(res, 'stream'):
            return res
        res.stream.close()
        state['closed'] = True
    return res


def tag(ctx, res, body, state, tags, where, weak=None):
    t, w = res.get_etag()
    ctx.check(t is not None, 'etag', '%s: no tag', where)
    if weak is not None:
        ctx.check(bool(w) == weak, 'etag', '%s: weak is %r', where, w)
    state['etag'] = t
    if t in tags:
        ctx.check(tags[t] == body, 'etag-clash', '%s: bodies %r and %r share the tag %r', where, tags[t][:60], body[:60], t)
    tags[t] = body
    for u, b in tags.items():
        ctx.check(b != body or u == t, 'etag-unstable', '%s: body %r has the tags %r and %r', where, body[:60], u, t)
