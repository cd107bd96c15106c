"""C05: framing of responses, observed by a reference server."""
import io

from ..gen import wchoice, text
from ..core import sched_knobs
from ..server import serve, make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.exceptions import HTTPException, NotFound
from verktyg.responses import Response, BaseResponse
from verktyg.routing import Route
from verktyg.utils import redirect, append_slash_redirect
from verktyg.views import JsonView
from verktyg.wsgi import wrap_file, FileWrapper

ID = 'C05'
QUICK = 120000
THOROUGH = 3000000
BATCH = 400
SHRINK = ('chunks', 'ops', 'methods', 'headers')
RULE = ('Seeded plans: one response (body of text and byte chunks in several charsets as list, tuple, generator, '
        'iterator, file or stream writes; status; headers; preparing operations), sent through an application or '
        'directly to 1-4 requests (GET, HEAD, POST), some failing in the body producer or disconnecting; GET and '
        'HEAD twins on fresh objects.  Oracle: PEP 3333 monitor and the bytes the harness supplied.')
REAL = ['verktyg.responses', 'verktyg.application', 'verktyg.wsgi.FileWrapper', 'verktyg.utils.redirect', 'verktyg.views.JsonView']
STUB = ['WSGI server loop']
ASSUMPTIONS = []

ALPHA = 'aé€x\n'
STATUSES = [(10, 200), (1.5, 204), (1.5, 304), (0.6, 100), (0.6, 101), (0.6, 199), (1, 404), (1, 500), (0.5, 299), (0.5, 206),
            (0.5, '200 All Good'), (0.5, '404 Nope'), (0.3, '204 Empty'), (0.3, 205), (0.4, 201), (0.3, 302)]
OPS = ['get_data', 'make_sequence', 'freeze', 'add_etag', 'conditional', 'length', 'write_str', 'write_bytes', 'set_data', 'set_data_b',
       'cookie', 'vary', 'cache', 'location', 'location_iri', 'force_base', 'status', 'ctype', 'del_cl', 'retry', 'content_location', 'header']


def generate(rng, tier):
    cs = wchoice(rng, [(6, 'utf-8'), (1, 'utf-16-le'), (1, 'latin1'), (1, 'utf-8-sig')])
    alpha = 'aéx\n' if cs == 'latin1' else ALPHA
    kind = wchoice(rng, [(3, 'list'), (1, 'tuple'), (3, 'gen'), (1, 'iter'), (1.5, 'str'), (1, 'bytes'), (1, 'none'), (0.7, 'bytearray'),
                         (0.8, 'file'), (0.4, 'redirect'), (0.4, 'json'), (0.3, 'slash')])
    n = wchoice(rng, [(1, 0), (3, 1), (3, 2), (2, 5)])
    chunks = [[rng.choice('sb') if kind != 'file' else 'b', text(rng, rng.choice([0, 1, 3, 12]), alpha)] for _ in range(n)]
    if rng.random() < 0.02:
        chunks = [['b', 'q' * 20000]]
    p = {
        'charset': cs, 'kind': kind, 'chunks': chunks, 'status': wchoice(rng, STATUSES),
        'cls': wchoice(rng, [(5, 'Response'), (1, 'Base')]),
        'entry': wchoice(rng, [(5, 'app'), (4, 'direct')]),
        'ops': [rng.choice(OPS) for _ in range(wchoice(rng, [(3, 0), (3, 1), (2, 3), (1, 6)]))],
        'headers': [rng.choice([['X-A', 'one'], ['X-A', 'two'], ['Vary', 'Accept'], ['X-Lat', 'caf\xe9'], ['Content-Type', 'text/x']])
                    for _ in range(rng.choice([0, 0, 1, 2]))],
        'auto': rng.random() < 0.9, 'implicit': rng.random() < 0.9,
        'methods': [rng.choice(['GET', 'GET', 'HEAD', 'POST']) for _ in range(wchoice(rng, [(5, 1), (1, 2), (1, 3)]))],
        'passthrough': rng.random() < 0.12, 'inm': rng.random() < 0.15,
        'file_wrapper': rng.random() < 0.3,
        'sched': sched_knobs(rng), 'threads': rng.random() < 0.08,
    }
    k = rng.random()
    if k < 0.2:
        p['fail'] = rng.randint(0, max(1, n))
        p['exc'] = rng.choice(['ValueError', 'OSError', 'KeyError', 'Exit', 'Stop'])
    elif k < 0.3:
        p['stop'] = rng.randint(0, 3)
    return p


class Exit(BaseException):
    pass


EXC = {'ValueError': ValueError, 'OSError': OSError, 'KeyError': KeyError, 'Exit': Exit, 'Stop': RuntimeError}


class Iter(object):
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.g)


class Scenario(object):
    """builds one response and knows the bytes it must send"""
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.cs = plan['charset']
        self.error = None
        self.user_cl = False

    def encode(self, s):
        return s.encode(self.cs)

    def build(self, env):
        p = self.plan
        cs = self.cs
        items = []
        exp = []
        # a byte chunk carries the text in utf-8
        for k, t in p['chunks']:
            items.append(t if k == 's' else t.encode('utf-8'))
            exp.append(t.encode(cs) if k == 's' else t.encode('utf-8'))
        fail = p.get('fail')
        kind = p['kind']
        if fail is not None and kind in ('gen', 'iter', 'file'):
            self.error = EXC[p['exc']]('body producer')

        def produce():
            for i, x in enumerate(items):
                if self.error is not None and i >= fail:
                    break
                yield x
            if self.error is not None:
                self.ctx.fault('body-error')
                raise self.error
        base = Response if p['cls'] == 'Response' else BaseResponse

        class R(base):
            charset = cs
            automatically_set_content_length = p['auto']
            implicit_sequence_conversion = p['implicit']
        passthrough = False
        if kind == 'list':
            body = list(items)
        elif kind == 'tuple':
            body = tuple(items)
        elif kind == 'gen':
            body = produce()
        elif kind == 'iter':
            body = Iter(produce())
        elif kind == 'none':
            body, exp = None, []
        elif kind == 'str':
            body = ''.join(t for k, t in p['chunks'])
            exp = [body.encode(cs)]
        elif kind in ('bytes', 'bytearray'):
            body = b''.join(t.encode('utf-8') for k, t in p['chunks'])
            exp = [body]
            if kind == 'bytearray':
                body = bytearray(body)
        elif kind == 'file':
            g = produce()
            src = type('F', (), {'read': lambda s, n=-1: next(g, b'')})()
            body = wrap_file(env, src, 3)
            # an empty block ends the file
            cut = [i for i, x in enumerate(exp) if not x]
            if cut and (self.error is None or cut[0] < fail):
                exp = exp[:cut[0]]
                self.error = None
            passthrough = p['passthrough']
        elif kind == 'redirect':
            return self.special(redirect('/t/é?x=1', 302)), None
        elif kind == 'slash':
            return self.special(append_slash_redirect(env)), None
        elif kind == 'json':
            view = JsonView('x', lambda app, req: {'k': ''.join(t for k, t in p['chunks'])})
            import json
            r = view(type('A', (), {'debug': False})(), None)
            return self.special(r), [json.dumps({'k': ''.join(t for k, t in p['chunks'])}, separators=(',', ':')).encode()]
        if kind in ('gen', 'iter') and all(isinstance(x, bytes) for x in items):
            passthrough = p['passthrough']
        hs = [tuple(h) for h in p['headers']]
        res = R(body, status=p['status'], headers=hs or None, direct_passthrough=passthrough)
        self.exp = exp
        self.failed_early = False
        for op in p['ops']:
            self.op(res, op, env, passthrough)
        if p['inm'] and p['cls'] == 'Response' and not passthrough and p['implicit']:
            try:
                res.add_etag()
            except BaseException as e:
                if e is not self.error:
                    raise
                self.failed_early = True
                return None, None
            env['HTTP_IF_NONE_MATCH'] = res.headers['etag']
            res.make_conditional(env)
        return res, self.exp

    def special(self, r):
        self.exp = None
        return r

    def op(self, res, op, env, passthrough):
        full = self.plan['cls'] == 'Response'
        buffered = op in ('get_data', 'make_sequence', 'freeze', 'add_etag', 'conditional', 'length', 'write_str', 'write_bytes')
        if buffered and (passthrough or self.error is not None):
            return
        if op.startswith('set_data') and not self.plan['auto']:
            # automatic lengths are switched off: replacing a measured body
            # leaves the length to the application
            self.user_cl = True
        refusing = not self.plan['implicit'] and not res.is_sequence
        try:
            if op == 'get_data':
                res.get_data()
            elif op == 'make_sequence':
                res.make_sequence()
            elif op == 'freeze':
                res.freeze()
            elif op == 'add_etag' and full:
                res.add_etag()
            elif op == 'conditional' and full:
                res.make_conditional(env)
            elif op == 'length':
                res.calculate_content_length()
            elif op == 'write_str' and full:
                res.stream.write('wé')
                self.exp = self.exp + ['wé'.encode(self.cs)]
            elif op == 'write_bytes' and full:
                res.stream.write(b'wb')
                self.exp = self.exp + [b'wb']
            elif op == 'set_data' and self.error is None:
                res.set_data('sé')
                self.exp = ['sé'.encode(self.cs)]
            elif op == 'set_data_b' and self.error is None:
                res.set_data(b'raw\xff')
                self.exp = [b'raw\xff']
            elif op == 'cookie':
                res.set_cookie('k', 'v é;"', max_age=5, expires=100000)
            elif op == 'vary' and full:
                res.vary.add('Cookie')
            elif op == 'cache' and full:
                res.cache_control.max_age = 30
            elif op == 'location':
                res.headers['Location'] = '../x?y=1'
            elif op == 'location_iri':
                res.headers['Location'] = '/sné€?q=é'
            elif op == 'content_location':
                res.headers['Content-Location'] = '/é'
            elif op == 'force_base' and full:
                cls = res.__class__
                BaseResponse.force_type(res)
                res.__class__ = cls
            elif op == 'status':
                res.status_code = res.status_code or 200
            elif op == 'ctype' and full:
                res.mimetype = 'text/html'
            elif op == 'del_cl':
                res.headers.pop('Content-Length', None)
            elif op == 'retry' and full:
                res.retry_after = 20
            elif op == 'header':
                res.headers.add('X-B', 7)
        except RuntimeError:
            if not refusing:
                raise


def bodyless(method, status):
    code = int(str(status)[:3])
    return method == 'HEAD' or 100 <= code < 200 or code in (204, 304)


def app_for(ctx, plan, sc, shared):
    def handler(app, req):
        if shared:
            return shared[0]
        res, _ = sc.build(req.environ)
        if res is None:
            raise sc.error
        return res
    b = ApplicationBuilder()
    b.add_routes(Route('/x', endpoint='x'))
    b.add_bindings(Binding('x', handler), Binding('x', handler, method='POST'))
    return b()


def check_history(ctx, plan, sc, h, method, what=''):
    if h.exc is not None and h.exc is not sc.error:
        raise h.exc
    ctx.check(len(h.started) == 1 or h.exc_where in ('call', 'iter') or plan.get('stop') == 0, 'start-count',
              '%d response starts', len(h.started))
    if h.complete:
        ctx.check(len(h.started) == 1, 'start-count', '%d response starts', len(h.started))
    if not h.started:
        return
    empty = bodyless(method, h.status)
    if empty:
        ctx.check(h.body == b'', 'body-not-allowed', '%s %s carried the body %.80r', method, h.status, h.body)
    exp = b''.join(sc.exp) if sc.exp is not None else None
    if sc.error is not None and not empty:
        if h.complete:
            ctx.violate('silent-truncation', 'the body producer failed with %r but the response ended normally after %d bytes', sc.error, len(h.body))
        if exp is not None:
            ctx.check(exp.startswith(h.body), 'wrong-body', 'sent %.80r before the failure, supplied %.80r', h.body, exp)
        return
    if not h.complete:
        if exp is not None and not empty:
            ctx.check(exp.startswith(h.body), 'wrong-body', 'sent %.80r before the disconnect, supplied %.80r', h.body, exp)
        return
    if exp is not None and not empty:
        ctx.check(h.body == exp, 'wrong-body', '%s sent %.120r, supplied %.120r', method, h.body, exp)
    cl = h.header_all('content-length')
    ctx.check(len(cl) <= 1, 'content-length', 'several content lengths %r', cl)
    if cl and not sc.user_cl:
        ctx.check(cl[0].isdigit(), 'content-length', 'content length %r', cl[0])
        if not empty or h.status[:1] == '1' or h.status[:3] == '204':
            ctx.check(int(cl[0]) == len(h.body), 'content-length', 'declared %s, sent %d bytes', cl[0], len(h.body))
        elif method == 'HEAD' and exp is not None and not bodyless('GET', h.status):
            ctx.check(int(cl[0]) == len(exp), 'content-length', 'HEAD declared %s, the body has %d bytes', cl[0], len(exp))
    ctx.probe('complete')


def env_for(plan, method):
    extra = {}
    if plan['file_wrapper']:
        extra['wsgi.file_wrapper'] = FileWrapper
    return make_environ(method, '/x', body=b'' if method == 'POST' else None, extra=extra)


def run_once(ctx, plan, method, stop=None):
    sc = Scenario(ctx, plan)
    env = env_for(plan, method)
    if plan['entry'] == 'app':
        h = serve(ctx, app_for(ctx, plan, sc, None), env, stop_after=stop)
    else:
        res, _ = sc.build(env)
        if res is None:
            return sc, None
        h = serve(ctx, res, env, stop_after=stop)
    check_history(ctx, plan, sc, h, method)
    ctx.log(method, h.status, h.body, h.complete)
    ctx.states.add('%s|%s|%s|%s' % (plan['kind'], method, (h.status or '')[:3], 'err' if sc.error else 'ok'))
    return sc, h


def execute(ctx):
    plan = ctx.plan
    stop = plan.get('stop')
    if plan.get('fail') is not None or plan['ops'] or len(plan['chunks']) > 1:
        ctx.probe('nontrivial')
    # GET and HEAD twins on fresh objects
    sg, g = run_once(ctx, plan, 'GET', stop)
    sh, hd = run_once(ctx, plan, 'HEAD')
    if g is not None and hd is not None and g.started and hd.started:
        ctx.check(g.status == hd.status, 'head-differs', 'GET answers %s, HEAD %s', g.status, hd.status)
        ctx.check(g.headers == hd.headers, 'head-differs', 'GET sends %r, HEAD %r', g.headers, hd.headers)
    # one response object sent to several requests
    if plan['kind'] in ('list', 'tuple', 'str', 'bytes', 'none', 'bytearray') and not plan['inm']:
        sc = Scenario(ctx, plan)
        res, _ = sc.build(env_for(plan, 'GET'))
        shared = [res]
        app = app_for(ctx, plan, sc, shared) if plan['entry'] == 'app' else res
        seen = {}

        def one(method):
            def run():
                h = serve(ctx, app, env_for(plan, method))
                check_history(ctx, plan, sc, h, method)
                if method in seen:
                    ctx.check(seen[method].headers == h.headers and seen[method].status == h.status, 'resend-differs',
                              'the same response was sent with %r first and %r later', seen[method].headers, h.headers)
                seen[method] = h
            return run
        ms = ['GET'] + plan['methods']
        if plan['threads']:
            ctx.run_threads([one(m) for m in ms])
        else:
            for m in ms:
                one(m)()
