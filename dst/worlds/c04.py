"""C04: cleanup exactly once at every way a request can end."""
import io

from ..gen import wchoice, text
from ..core import sched_knobs
from ..server import serve, make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.requests import Request
from verktyg.responses import Response, BaseResponse
from verktyg.routing import Route
from verktyg.wsgi import ClosingIterator, wrap_file, DispatcherMiddleware

ID = 'C04'
QUICK = 150000
THOROUGH = 4000000
BATCH = 300
SHRINK = ('requests', 'requests.*.ops', 'requests.*.body.chunks', 'requests.*.wrap')
RULE = ('Seeded plans: 1-3 requests; body kind, operations on the response before it is returned, wrappers, '
        'callbacks, and one way to end: normal, disconnect after k chunks, handler / body / response-start / '
        'cleanup failure at a chosen point, HEAD and body-less statuses.  Oracle: counters per resource.')
REAL = ['verktyg.application', 'verktyg.requests', 'verktyg.responses', 'verktyg.wsgi.ClosingIterator', 'verktyg.test.run_wsgi_app']
STUB = ['WSGI server loop (calls close exactly once, as PEP 3333 demands)']
ASSUMPTIONS = ['a cleanup callback that raises may prevent later callbacks of the same response, never those of the request']

BODIES = ['list', 'tuple', 'gen', 'iter', 'iterable', 'iterable2', 'holder', 'file', 'empty', 'str']
OPS = ['get_data', 'make_sequence', 'freeze', 'add_etag', 'conditional', 'force_base', 'force_resp', 'length', 'write',
       'cb', 'late_iter', 'repr', 'set_status']


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXC = {'Boom': Boom, 'BaseBoom': BaseBoom, 'SystemExit': SystemExit, 'OSError': OSError, 'KeyboardInterrupt': KeyboardInterrupt,
       'GeneratorExit': GeneratorExit, 'StopAsyncIteration': StopAsyncIteration}


def gen_body(rng):
    n = wchoice(rng, [(1, 0), (3, 1), (3, 2), (2, 4)])
    return {'kind': rng.choice(BODIES), 'chunks': [text(rng, rng.choice([0, 1, 5]), 'xyz') for _ in range(n)]}


def generate(rng, tier):
    reqs = []
    for _ in range(wchoice(rng, [(5, 1), (2, 2), (1, 3)])):
        r = {'entry': wchoice(rng, [(7, 'app'), (3, 'response'), (1.5, 'wsgi')]), 'body': gen_body(rng),
             'method': wchoice(rng, [(6, 'GET'), (2, 'HEAD'), (1, 'POST')]),
             'status': wchoice(rng, [(8, 200), (1, 204), (1, 304), (0.5, 101), (1, 500)]),
             'passthrough': rng.random() < 0.15,
             'req_cbs': rng.randint(0, 3), 'res_cbs': rng.randint(0, 3),
             'ops': [rng.choice(OPS) for _ in range(wchoice(rng, [(4, 0), (3, 1), (2, 2), (1, 4)]))],
             'wrap': [rng.choice(['closing', 'closing-list', 'closing-shared', 'dispatcher', 'gen']) for _ in range(wchoice(rng, [(6, 0), (2, 1), (1, 2)]))],
             'capture': wchoice(rng, [(8, None), (1, 'from_app'), (1, 'from_app_buffered'), (1, 'force_type')]), 'plainiter': rng.random() < 0.4,
             'read_back': rng.random() < 0.2,
             # cleanup callbacks that register further cleanup: [on the request, on the response, by the response on the request]
             'nest': [rng.randint(1, 2) if rng.random() < 0.3 else 0 for _ in range(3)] if rng.random() < 0.5 else [0, 0, 0]}
        if rng.random() < 0.1:
            r['equal'] = True
        f = wchoice(rng, [(4, None), (3, 'stop'), (1.5, 'handler'), (2, 'body'), (1.5, 'start'), (1.2, 'rescb'), (1, 'bodyclose'), (0.7, 'conditional304')])
        r['fail'] = f
        if f == 'stop':
            r['at'] = rng.randint(0, 4)
        if f in ('body', 'handler', 'start', 'rescb', 'bodyclose'):
            r['at'] = rng.randint(0, 3)
            r['exc'] = rng.choice(['Boom', 'Boom', 'OSError', 'BaseBoom', 'SystemExit', 'KeyboardInterrupt'])
            if f == 'body' and rng.random() < 0.1:
                r['exc'] = 'GeneratorExit'
        if f == 'body':
            r['tolerate'] = rng.random() < 0.5
        if f == 'handler':
            r['handled'] = rng.random() < 0.6
        reqs.append(r)
    return {'requests': reqs, 'threads': rng.random() < 0.4, 'sched': sched_knobs(rng)}


class Run(object):
    def __init__(self, ctx, r):
        self.ctx = ctx
        self.r = r
        self.count = {}
        self.kind = {}      # name -> 'req' | 'res' | 'body' | 'genbody' | 'wrap'
        self.delivered = 0
        self.early = []     # cleanups that happened while the body was delivered
        self.serving = True
        self.order = []
        self.buffered_ok = set()

    def register(self, name, kind):
        self.count.setdefault(name, 0)
        self.kind[name] = kind

    def hit(self, name):
        self.count[name] += 1
        self.order.append((name, self.delivered))

    def callback(self, name, kind, exc=None, nest=()):
        """a counting callback; `nest` lists (owner, kind, depth): cleanup it registers when it runs"""
        self.register(name, kind)

        def cb():
            self.hit(name)
            for i, (owner, nkind, depth) in enumerate(nest):
                if not depth:
                    continue
                inner = '%s.%d' % (name, i)
                if name in self.buffered_ok:
                    self.buffered_ok.add(inner)
                self.ctx.probe('nested-cleanup')
                owner.call_on_close(self.callback(inner, nkind, None, [(owner, nkind, depth - 1)]))
            if exc is not None:
                self.ctx.fault('cleanup-error')
                raise exc
        if self.r.get('equal'):
            self.ctx.probe('equal-callbacks')
            return EqualCallback(cb)
        return cb


class EqualCallback(object):
    """a callback that compares equal to every other one (as those of value objects do)"""
    def __init__(self, run):
        self.run = run

    def __eq__(self, other):
        return isinstance(other, EqualCallback)

    def __hash__(self):
        return 1

    def __call__(self):
        self.run()


def make_body(run, spec, r, name='body'):
    kind = spec['kind']
    chunks = [c.encode() for c in spec['chunks']]
    fail_at = r.get('at') if r['fail'] == 'body' else None
    exc = EXC[r['exc']]('body') if r['fail'] == 'body' else None
    close_exc = EXC[r['exc']]('close') if r['fail'] == 'bodyclose' else None

    def produce():
        for i, c in enumerate(chunks):
            if fail_at is not None and i >= fail_at:
                break
            yield c
        if fail_at is not None:
            run.ctx.fault('body-error')
            raise exc

    if kind == 'list':
        return list(chunks)
    if kind == 'tuple':
        return tuple(chunks)
    if kind == 'empty':
        return []
    if kind == 'str':
        return ''.join(spec['chunks'])
    if kind == 'gen':
        run.register(name, 'genbody')

        def g():
            run.started_gen = True
            try:
                for c in produce():
                    yield c
            finally:
                run.hit(name)
        return g()
    run.register(name, 'body')

    def do_close():
        run.hit(name)
        if close_exc is not None:
            run.ctx.fault('cleanup-error')
            raise close_exc
    if kind == 'file':
        class F(object):
            def __init__(self):
                self.it = produce()

            def read(self, n=-1):
                return next(self.it, b'')

            def close(self):
                do_close()
        return wrap_file({}, F(), 4)
    if kind == 'iter':
        class It(object):
            def __init__(self):
                self.it = produce()

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def close(self):
                do_close()
        return It()
    if kind == 'iterable':
        class Itb(object):
            def __iter__(self):
                return iter(produce())

            def close(self):
                do_close()
        return Itb()

    class Inner(object):
        def __init__(self):
            self.it = produce()

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

    if kind == 'holder':
        # closing the body closes the iterator it hands out
        inner = Inner()
        Inner.close = lambda self: do_close()
        return Holder(inner)

    class Itb2(object):
        def __iter__(self):
            return Inner()

        def close(self):
            do_close()
    return Itb2()


class Wrapped(Exception):
    """an error of the scenario, raised while the response was prepared"""


def operate(run, r, env, prefix, res, k):
    ctx = run.ctx
    if k == 'get_data':
        res.get_data()
    elif k == 'make_sequence':
        res.make_sequence()
    elif k == 'freeze':
        res.freeze()
    elif k == 'add_etag':
        res.add_etag()
    elif k == 'conditional':
        res.make_conditional(env)
    elif k == 'force_base':
        res = BaseResponse.force_type(res)
        res.__class__ = Response
    elif k == 'force_resp':
        res = Response.force_type(res, env)
    elif k == 'length':
        res.calculate_content_length()
    elif k == 'write':
        res.stream.write(b'tail')
    elif k == 'repr':
        repr(res)
    elif k == 'cb':
        nm = prefix + 'opcb%d' % len(run.count)
        got = run.callback(nm, 'res')
        ctx.check(res.call_on_close(got) is got, 'decorator', 'call_on_close does not return the function')
    elif k == 'set_status':
        res.status_code = r['status']
    elif k == 'late_iter':
        res.is_streamed, res.is_sequence
    return res


def prepare(run, r, env, prefix='', req=None):
    """build the response the handler returns, applying the plan's operations"""
    ctx = run.ctx
    body = make_body(run, r['body'], r, prefix + 'body')
    passthrough = r['passthrough'] and r['entry'] == 'app' and not r['capture'] and not isinstance(body, str) and r['body']['kind'] != 'str'
    res = Response(body, status=r['status'], direct_passthrough=passthrough)
    fail_last = r['fail'] == 'rescb'
    n = r['res_cbs']
    half = n // 2
    depths = r.get('nest') or [0, 0, 0]
    # a failing callback prevents the later ones of the same response
    nest = [(res, 'after-failing' if r['fail'] in ('rescb', 'bodyclose') else 'res', depths[1])]
    if req is not None:
        nest.append((req, 'req', depths[2]))
    for i in range(half):
        res.call_on_close(run.callback(prefix + 'res%d' % i, 'res', None, nest))
    for k in r['ops']:
        if passthrough and k in ('get_data', 'make_sequence', 'freeze', 'add_etag', 'length', 'write', 'conditional', 'late_iter'):
            continue
        try:
            res = operate(run, r, env, prefix, res, k)
        except (Boom, OSError) as e:
            # a handler that survives the failure of its body and returns the response all the same
            if not r.get('tolerate') or r['fail'] != 'body' or e.args != ('body',):
                raise
            ctx.probe('failed-operation')
    for i in range(half, n):
        last = i == n - 1
        res.call_on_close(run.callback(prefix + 'res%d' % i, 'res',
                                       EXC[r['exc']]('cb') if fail_last and last else None, nest))
    if r['fail'] == 'conditional304' and not passthrough:
        res.add_etag()
        env['HTTP_IF_NONE_MATCH'] = res.headers['etag']
        res.make_conditional(env)
    return res


class Holder(object):
    def __init__(self, inner):
        self.inner = inner

    def __iter__(self):
        return iter(self.inner)

    def close(self):
        self.inner.close()


def build_app(ctx, run, r, env):
    """WSGI callable for the scenario"""
    prepared = []

    def handler(app, req, **kw):
        for i in range(r['req_cbs']):
            cb = run.callback('req%d' % i, 'req', None, [(req, 'req', (r.get('nest') or [0])[0])])
            ctx.check(req.call_on_close(cb) is cb, 'decorator', 'call_on_close does not return the function')
        if r['fail'] == 'handler' and r['at'] % 2 == 0:
            ctx.fault('handler-error')
            raise EXC[r['exc']]('handler')
        run.pre = len(run.count)
        res = prepare(run, r, env, req=req)
        if r['fail'] == 'handler':
            # the response was built but is not returned: nothing is claimed about it
            for k in list(run.count):
                if run.kind[k] != 'req':
                    run.kind[k] = 'dropped'
            ctx.fault('handler-error')
            raise EXC[r['exc']]('handler')
        if r['capture'] and r.get('plainiter'):
            # an application whose result is not its own iterator
            made = res

            def res(e, start):
                return Holder(made(e, start))
        if r['capture'] == 'from_app':
            res = Response.from_app(res, dict(env))
        elif r['capture'] == 'from_app_buffered':
            run.buffered_ok.update(k for k in run.count if run.kind[k] != 'req')
            res = Response.from_app(res, dict(env), buffered=True)
        elif r['capture'] == 'force_type':
            inner = res
            res = Response.force_type(lambda e, s: inner(e, s), dict(env))
        if r['capture']:
            res.call_on_close(run.callback('outer', 'res' if r['fail'] not in ('rescb', 'bodyclose') else 'after-failing'))
        run.returned = True
        return res

    if r['entry'] == 'app':
        b = ApplicationBuilder()
        b.add_routes(Route('/', endpoint='x'))
        for m in ('GET', 'POST'):
            b.add_bindings(Binding('x', handler, method=m))
        if r['fail'] == 'handler' and r.get('handled'):
            def on_error(app, req, t, v, tb):
                res = Response('sorry', status=500)
                res.call_on_close(run.callback('errres', 'res'))
                req.call_on_close(run.callback('errreq', 'req'))
                return res
            b.add_exception_handler(Exception, on_error)
        app = b()
    elif r['entry'] == 'wsgi':
        def app(e, start):
            start('200 OK', [('Content-Type', 'text/plain')])
            run.returned = True
            body = make_body(run, r['body'], r)
            return [body.encode()] if isinstance(body, str) else body
    else:
        run.returned = True
        res = prepare(run, r, env)
        app = res
    for i, w in enumerate(r['wrap']):
        app = wrap(run, w, app, i)
    return app


def wrap(run, w, app, i):
    if w == 'closing':
        cb = run.callback('wrap%d' % i, 'wrap')

        def mw(env, start):
            return ClosingIterator(app(env, start), cb)
        return mw
    if w == 'closing-list':
        cbs = [run.callback('wrap%da' % i, 'wrap'), run.callback('wrap%db' % i, 'wrap')]

        def mw(env, start):
            return ClosingIterator(app(env, start), cbs)
        return mw
    if w == 'closing-shared':
        # one list of callbacks for every response of the deployment
        ctx = run.ctx
        if not hasattr(ctx, 'shared_cbs'):
            ctx.shared_made = 0
            ctx.shared_ran = [0, 0]

            def counter(k):
                def cb():
                    ctx.shared_ran[k] += 1
                return cb
            ctx.shared_cbs = [counter(0), counter(1)]

        def mw(env, start):
            it = app(env, start)
            ctx.shared_made += 1
            return ClosingIterator(it, ctx.shared_cbs)
        return mw
    if w == 'dispatcher':
        return DispatcherMiddleware(app, {'/elsewhere': None})

    def mw(env, start):
        it = app(env, start)
        try:
            for x in it:
                yield x
        finally:
            if hasattr(it, 'close'):
                it.close()
    return mw


def execute(ctx):
    later = []
    fns = [(lambda r: lambda: later.append(one(ctx, r)))(r) for r in ctx.plan['requests']]
    if ctx.plan.get('threads') and len(fns) > 1:
        ctx.run_threads(fns)
    else:
        for f in fns:
            f()
    # judged when all requests are over: nothing may run again later
    for j in later:
        if j is not None:
            j()
    if hasattr(ctx, 'shared_cbs'):
        ctx.probe('shared-callbacks', ctx.shared_made)
        for n in ctx.shared_ran:
            ctx.check(n <= ctx.shared_made, 'wrapper-cleanup', '%d closing iterators shared a callback, it ran %d times', ctx.shared_made, n)
            if not any(r['fail'] in ('rescb', 'bodyclose') or 'gen' in r['wrap'] for r in ctx.plan['requests']):
                ctx.check(n == ctx.shared_made, 'wrapper-cleanup', '%d closing iterators shared a callback, it ran %d times', ctx.shared_made, n)


def one(ctx, r):
    run = Run(ctx, r)
    run.returned = False
    run.started_gen = False
    env = make_environ(r['method'], '/', body=b'' if r['method'] == 'POST' else None)
    if r['entry'] in ('response', 'wsgi') and r['fail'] in ('handler', 'start'):
        return
    # the plan's own errors may surface while the response is prepared
    try:
        app = build_app(ctx, run, r, env)
    except (Boom, BaseBoom, SystemExit, OSError, KeyboardInterrupt, GeneratorExit) as e:
        if isinstance(e, OSError) and e.args != ('body',) or r['fail'] not in ('body', 'bodyclose'):
            raise
        return
    stop = r['at'] if r['fail'] == 'stop' else None
    fail_start = EXC[r['exc']]('start') if r['fail'] == 'start' else None

    def on_event(what, h):
        if what == 'chunk':
            run.delivered += 1
            for name, n in run.count.items():
                if n and run.kind[name] in ('req', 'res', 'body', 'wrap') and name not in run.buffered_ok:
                    ctx.violate('released-early', '%s was released although the server was still being handed the body (chunk %d)',
                                name, run.delivered)
    h = serve(ctx, app, env, stop_after=stop, fail_start=fail_start, on_event=on_event, strict=False)
    ctx.log(r['entry'], r['fail'], h.exc_where, sorted(run.count.items()))
    ctx.states.add('%s|%s|%s|%s|%s' % (r['entry'], r['body']['kind'], r['fail'], r['method'], h.exc_where))
    if len(run.count) > 0:
        ctx.probe('nontrivial')

    return lambda: judge(ctx, r, run, h, stop)


def judge(ctx, r, run, h, stop):
    # which resources must have been cleaned up
    entered = h.complete or h.exc is not None or h.chunks or r['entry'] != 'app'
    failing_res = r['fail'] in ('rescb', 'bodyclose')
    body_close_fails = r['fail'] == 'bodyclose'
    call_failed = h.exc_where == 'call'
    for name, n in sorted(run.count.items()):
        kind = run.kind[name]
        if kind in ('dropped', 'after-failing'):
            continue
        if kind == 'wrap':
            # the wrapper exists only once the wrapped call returned
            if failing_res or call_failed or stop == 0 and 'gen' in r['wrap']:
                ctx.check(n <= 1, 'cleanup-repeated', '%s ran %d times', name, n)
                continue
            if stop is not None and not entered:
                continue
        if kind in ('res', 'body', 'genbody') and not run.returned:
            # an error while the response was being prepared: it never was returned
            ctx.check(n <= 1, 'cleanup-repeated', '%s ran %d times', name, n)
            continue
        if kind == 'genbody' and not run.started_gen:
            continue       # a generator that never started has nothing to clean up
        if kind in ('res', 'body', 'genbody') and failing_res:
            if kind == 'res' and (body_close_fails or r['capture']):
                ctx.check(n <= 1, 'cleanup-repeated', '%s ran %d times', name, n)
                continue
            if kind in ('body', 'genbody') and r['capture']:
                continue
        if r['entry'] in ('response', 'wsgi') and stop == 0 and 'gen' in r['wrap']:
            continue       # the harness's generator wrapper was never entered
        if kind == 'req':
            ctx.check(n == 1, 'request-cleanup', 'request cleanup %s ran %d times (%s)', name, n, why(r, h))
        elif kind == 'wrap':
            ctx.check(n == 1, 'wrapper-cleanup', 'closing iterator callback %s ran %d times (%s)', name, n, why(r, h))
        elif kind == 'res':
            ctx.check(n == 1, 'response-cleanup', 'response cleanup %s ran %d times (%s)', name, n, why(r, h))
        else:
            ctx.check(n == 1, 'body-close', 'the body was closed %d times (%s)', n, why(r, h))


def why(r, h):
    return '%s, %s body, ops %s, %s at %s, %s %s, ended in %s' % (
        r['entry'], r['body']['kind'], r['ops'], r['fail'], r.get('at'), r['method'], r['status'],
        h.exc_where or ('complete' if h.complete else 'disconnect'))
