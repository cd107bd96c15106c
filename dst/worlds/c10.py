"""C10: capturing the output of arbitrary server-gateway programs."""
import sys

from ..gen import wchoice, text
from ..server import serve, make_environ

from verktyg.responses import BaseResponse, Response
from verktyg.test import Client, ClientRedirectError, run_wsgi_app

ID = 'C10'
QUICK = 250000
THOROUGH = 4000000
BATCH = 500
SHRINK = ('steps', 'steps.*.prog.items', 'steps.*.prog.writes', 'steps.*.prog.headers', 'steps.*.chain')
RULE = ('Seeded plans: 1-3 captures, each of a random conforming program (started eagerly or lazily, empty items before the start, '
        'write callable, body of any iterable kind with or without close, failure in the call, before or after the start, in the body or in close, '
        'errors reported through the start, redirect chains, cookies), through one of the capture facilities, consumed completely, partly or not at all.  '
        'Oracle: the same program run by the reference server, and counters of close calls.')
REAL = ['verktyg.test.run_wsgi_app', 'verktyg.test.Client', 'verktyg.responses.from_app / force_type']
STUB = ['captured applications', 'reference server (oracle)']
ASSUMPTIONS = ['the captured application conforms to PEP 3333 (write is not used from within the iterable)']


class Err(Exception):
    pass


class BaseErr(BaseException):
    pass


EXC = {'Err': Err, 'BaseErr': BaseErr, 'OSError': OSError, 'KeyboardInterrupt': KeyboardInterrupt, 'ValueError': ValueError, 'IndexError': IndexError,
       'SystemExit': SystemExit, 'KeyError': KeyError, 'TypeError': TypeError}


def gen_prog(rng):
    style = wchoice(rng, [(4, 'eager'), (3, 'gen'), (2, 'lazyiter')])
    p = {'style': style, 'items': [text(rng, rng.choice([0, 1, 4]), 'abc') for _ in range(wchoice(rng, [(2, 0), (2, 1), (3, 3), (1, 6)]))],
         'writes': [text(rng, rng.choice([0, 1, 4]), 'wxy') for _ in range(wchoice(rng, [(5, 0), (2, 1), (1, 3)]))] if style == 'eager' else [],
         'pre': wchoice(rng, [(6, 0), (1, 1), (1, 2)]) if style != 'eager' else 0,      # empty items before the start
         'status': rng.choice(['200 OK', '404 NOT FOUND', '299 Odd Thing', '500 X', '201 CREATED', '200 ', '404 Page Not Found', '200 ok', '503 not service unavailable', '200 OK ']),
         'headers': [['Content-Type', 'text/x-%d' % rng.randint(0, 9)]] + [[rng.choice(['X-A', 'X-a', 'X-B', 'Set-Cookie', 'Content-Length', 'Vary']), text(rng, 3, 'abc=;') or 'v']
                                                                          for _ in range(rng.randint(0, 4))],
         'body': rng.choice(['list', 'tuple', 'iter', 'gen', 'iterable', 'iterator', 'selfclose', 'restart', 'holder']),
         'close': wchoice(rng, [(6, True), (2, False)]),
         'fail': wchoice(rng, [(6, None), (1, 'call'), (1.2, 'item'), (0.6, 'prestart'), (0.7, 'close'), (0.8, 'excinfo'), (0.5, 'iter')])}
    p['headers'] = [h if h[0] != 'Content-Length' else ['Content-Length', '3'] for h in p['headers']]
    if p['fail']:
        p['at'] = rng.randint(0, 4)
        p['exc'] = rng.choice(sorted(EXC))
    return p


def generate(rng, tier):
    steps = []
    for _ in range(rng.randint(1, 3)):
        s = {'via': wchoice(rng, [(3, 'run'), (2, 'runbuf'), (2, 'client'), (2, 'clientbuf'), (1.5, 'wrapped'), (1, 'wrappedbuf'), (2, 'from_app'),
                                  (1.5, 'from_app_buf'), (1.5, 'force_type')]),
             'prog': gen_prog(rng), 'consume': wchoice(rng, [(6, 'all'), (2, 'some'), (1, 'none')]), 'n': rng.randint(0, 3),
             'resend': rng.random() < 0.3, 'method': rng.choice(['GET', 'POST'])}
        if s['via'].startswith('client') or s['via'].startswith('wrapped'):
            if rng.random() < 0.4:
                s['chain'] = [{'code': rng.choice([301, 302, 303, 305, 307]), 'prog': gen_prog(rng)} for _ in range(rng.randint(1, 3))]
                s['end'] = wchoice(rng, [(6, 'prog'), (1, 'loop'), (1, 'external')])
                for c in s['chain']:
                    if rng.random() < 0.7:
                        c['prog']['fail'] = None
            s['cookies'] = rng.random() < 0.7
        steps.append(s)
    return {'steps': steps}


class Instance(object):
    """one execution of a program"""
    def __init__(self, ctx, p):
        self.ctx = ctx
        self.p = p
        self.closed = 0
        self.closable = False
        self.exc = EXC[p['exc']]('boom') if p['fail'] else None
        self.calls = 0
        self.begun = 0
        self.raised = False
        self.served = 0

    def boom(self):
        self.raised = True
        self.ctx.fault('app.' + self.p['fail'])
        raise self.exc

    def do_start(self, start):
        p = self.p
        if p['fail'] == 'prestart':
            self.boom()
        write = start(p['status'], [tuple(h) for h in p['headers']])
        if p['fail'] == 'excinfo':
            info = None

            def inner():
                nonlocal info
                try:
                    self.boom()
                except BaseException:
                    info = sys.exc_info()
                    raise
            try:
                inner()
            except BaseException:
                if p['at'] % 2:
                    info = sys.exc_info()
                try:
                    # with an even `at` the report was taken where it happened
                    start('500 ERR', [('Content-Type', 'text/plain')], info)
                finally:
                    info = None
        return write

    def items(self):
        p = self.p
        for i, c in enumerate(p['items']):
            if p['fail'] == 'item' and i >= p['at']:
                break
            self.served += 1
            yield c.encode()
        if p['fail'] == 'item':
            self.boom()

    def on_close(self):
        self.closed += 1
        if self.p['fail'] == 'close':
            self.boom()

    def __call__(self, env, start):
        self.calls += 1
        p = self.p
        if p['fail'] == 'call':
            self.boom()
        if p['fail'] == 'iter' and p['style'] != 'eager':
            return self.broken()
        if p['style'] == 'gen':
            self.closable = 'gen'
            return self.generator(start)
        if p['style'] == 'lazyiter':
            if p['body'] == 'restart':
                return self.fresh(lambda: self.lazy(start))
            if p['body'] == 'holder':
                return Holder(self.obj(self.lazy(start), iterator=True))
            return self.obj(self.lazy(start), iterator=p['body'] != 'iterable')
        write = self.do_start(start)
        for w in p['writes']:
            write(w.encode())
        if p['fail'] == 'iter':
            return self.broken()
        kind = p['body']
        if p['fail'] in ('item',) and kind in ('list', 'tuple', 'iter'):
            kind = 'gen'
        if kind == 'list':
            return list(self.items())
        if kind == 'tuple':
            return tuple(self.items())
        if kind == 'iter':
            return iter(list(self.items()))
        if kind == 'gen':
            self.closable = 'gen'
            return self.plain()
        if kind == 'restart':
            return self.fresh(self.items)
        if kind == 'iterable':
            return self.obj(self.items(), iterator=False)
        if kind == 'holder':
            return Holder(self.obj(self.items(), iterator=True))
        return self.obj(self.items(), iterator=True)

    def plain(self):
        self.entered = True
        try:
            for i in self.items():
                yield i
        finally:
            self.on_close()

    entered = False

    def lazy(self, start):
        for _ in range(self.p['pre']):
            yield b''
        self.do_start(start)
        for i in self.items():
            yield i

    def generator(self, start):
        self.entered = True
        try:
            for i in self.lazy(start):
                yield i
        finally:
            self.on_close()

    def broken(self):
        """an iterable that cannot be iterated"""
        inst = self

        class Broken(object):
            def __iter__(self):
                inst.boom()
        if self.p['close']:
            self.closable = True
            Broken.close = lambda s: inst.on_close()
        return Broken()

    def fresh(self, produce):
        """an iterable that starts from the beginning each time it is iterated"""
        inst = self

        class Fresh(object):
            def __iter__(self):
                inst.begun += 1
                yield from produce()
        if self.p['close']:
            self.closable = True
            Fresh.close = lambda s: inst.on_close()
        return Fresh()

    def obj(self, it, iterator=True):
        inst = self

        class Base(object):
            pass
        if iterator:
            class It(Base):
                def __iter__(self):
                    return self

                def __next__(self):
                    return next(it)
        else:
            class It(Base):
                def __iter__(self):
                    return it
        if self.p['close']:
            self.closable = True
            It.close = lambda s: inst.on_close()
        return It()


class Holder(object):
    """an iterable that closes the iterator it hands out"""
    def __init__(self, inner):
        self.inner = inner

    def __iter__(self):
        return self.inner

    def close(self):
        if hasattr(self.inner, 'close'):
            self.inner.close()


class Site(object):
    """path -> program, with redirects in front"""
    def __init__(self, ctx, s, env_extra=None):
        self.ctx = ctx
        self.final = Instance(ctx, s['prog'])
        self.hops = []
        chain = s.get('chain') or []
        for i, c in enumerate(chain):
            p = dict(c['prog'])
            nxt = 'http://sim.example/h%d' % (i + 1)
            if i == len(chain) - 1:
                nxt = {'prog': 'http://sim.example/end', 'loop': 'http://sim.example/h0', 'external': 'http://other.example/x'}[s['end']]
            p['status'] = '%d R' % c['code']
            p['headers'] = [['Content-Type', 'text/plain'], ['Location', nxt]]
            self.hops.append(Instance(ctx, p))
            self.hops[-1].p = p
        self.loop = 0

    def __call__(self, env, start):
        path = env['PATH_INFO']
        if path.startswith('/h'):
            i = int(path[2:])
            inst = self.hops[i]
            if inst.calls:
                # second time round a loop: a fresh instance of the same program
                again = Instance(self.ctx, inst.p)
                self.hops.append(again)
                inst = again
            return inst(env, start)
        return self.final(env, start)


def execute(ctx):
    for s in ctx.plan['steps']:
        one(ctx, s)


def pull(it, s):
    """consume as the plan says; returns (items, complete, exception)"""
    out = []
    it = iter(it)
    n = {'all': None, 'none': 0, 'some': s['n']}[s['consume']]
    try:
        while n is None or len(out) < n:
            try:
                out.append(next(it))
            except StopIteration:
                return out, True, None
    except BaseException as e:
        if not isinstance(e, tuple(EXC.values())):
            raise
        return out, False, e
    return out, False, None


def one(ctx, s):
    p = s['prog']
    via = s['via']
    # what a conforming server sees
    ref_inst = Instance(ctx, p)
    env = make_environ('GET', '/end')
    saved = dict(ctx.faults)
    ref = serve(ctx, ref_inst, env)
    ctx.faults = saved
    site = Site(ctx, s)
    start = '/h0' if site.hops else '/end'
    what = '%s of %s program (%s body, start %s, writes %d, items %s, fail %s%s)' % (
        via, p['style'], p['body'], 'late' if p['style'] != 'eager' else 'early', len(p['writes']), p['items'], p['fail'], '@%s' % p['at'] if p['fail'] else '')
    status = headers = None
    err = None
    body, complete = None, False
    streaming = False
    errs = tuple(EXC.values()) + (ClientRedirectError, RuntimeError)
    ctx.states.add('%s|%s|%s|%s|%s' % (via, p['style'], p['body'], p['fail'], s['consume']))
    if p['writes'] or p['style'] != 'eager' or p['fail']:
        ctx.probe('nontrivial')
    close_err = None
    try:
        if via in ('run', 'runbuf'):
            it, status, headers = run_wsgi_app(site, env, buffered=via == 'runbuf')
            streaming = via == 'run'
        elif via.startswith('client') or via.startswith('wrapped'):
            kw = {'path': start, 'base_url': 'http://sim.example/', 'buffered': via.endswith('buf'), 'follow_redirects': bool(site.hops), 'method': s['method']}
            wrapper = BaseResponse if via.startswith('wrapped') else None
            c = Client(site, response_wrapper=wrapper, use_cookies=s.get('cookies', True))
            streaming = not via.endswith('buf')
            r = c.open(**kw)
            if wrapper is None:
                it, status, headers = r
            else:
                status, headers, it = r.status, r.headers, r
        else:
            if via == 'force_type':
                r = Response.force_type(site, env)
            else:
                r = Response.from_app(site, env, buffered=via == 'from_app_buf')
            streaming = via != 'from_app_buf'
            status, headers, it = r.status, r.headers, r
    except errs as e:
        err = e
        it = None
    ctx.log(via, p, s['consume'], s['n'], status, type(err).__name__, site.final.closed, [h.closed for h in site.hops])
    # redirects in front of the program
    for i, hop in enumerate(site.hops):
        if not hop.calls:
            continue
        judge_close(ctx, hop, '%s: redirect %d (%s)' % (what, i, hop.p['style']), True)
        if hop.raised and hop.p['fail'] != 'item':
            ctx.check(err is hop.exc, 'redirect-error', '%s: redirect %d failed with %r, the caller got %r', what, i, hop.exc, err)
            return
        if hop.raised and err is hop.exc:
            return
    if site.hops:
        if s['end'] == 'loop':
            ctx.check(isinstance(err, ClientRedirectError), 'loop', '%s: a redirect loop gave %r', what, err)
            return
        if s['end'] == 'external':
            ctx.check(isinstance(err, RuntimeError), 'external', '%s: an external redirect gave %r', what, err)
            return
    final = site.final
    ctx.check(final.calls == 1, 'runs', '%s: the application was run %d times (error %r)', what, final.calls, err)
    if err is not None:
        ctx.check(final.raised and err is final.exc, 'other-error', '%s: the caller got %r, the application %s', what, err,
                  'raised %r' % final.exc if final.raised else 'did not fail')
        judge_close(ctx, final, what, True)
        return
    if not streaming:
        judge_close(ctx, final, what, True)
    # start information
    ctx.check(ref.status is not None and status == ref.status, 'status', '%s: captured status %r, a server sees %r', what, status, ref.status)
    got = [tuple(x) for x in headers.to_wsgi_list()] if hasattr(headers, 'to_wsgi_list') else [tuple(x) for x in headers]
    ctx.check(got == [tuple(h) for h in p['headers']], 'headers', '%s: captured headers %r, a server sees %r', what, got, p['headers'])
    if s['resend'] and isinstance(it, BaseResponse) and s['consume'] == 'all':
        # a captured response can be sent on
        h = serve(ctx, it, make_environ('GET', '/'), strict=True)
        items, complete, err = h.chunks, h.complete, h.exc
        closed_by_server = True
    else:
        closed_by_server = False
        src = it
        if isinstance(it, BaseResponse):
            src = it.iter_encoded()
        items, complete, err = pull(src, s)
    data = b''.join(items)
    full = ref.body
    if p['fail'] == 'excinfo':
        ctx.violate('error-lost', '%s: the error reported through the response start was not raised', what)
    if err is not None:
        if closed_by_server and err is final.exc and p['fail'] == 'close':
            ctx.check(data == full, 'body', '%s: captured %r, a server sends %r', what, data, full)
        else:
            ctx.check(final.raised and err is final.exc, 'other-error', '%s: iterating the captured output raised %r, the application %s', what, err,
                      'raised %r' % final.exc if final.raised else 'did not fail')
            ctx.check(data == full, 'body-before-error', '%s: %r was captured before the error, a server sends %r', what, data, full)
    elif complete:
        ctx.check(not (final.raised and p['fail'] != 'close'), 'error-swallowed', '%s: the application failed with %r but the captured output ended normally', what, final.exc)
        ctx.check(data == full, 'body', '%s: captured %r, a server sends %r', what, data, full)
    else:
        ctx.check(full.startswith(data), 'body', '%s: captured %r, a server sends %r', what, data, full)
        ctx.fault('caller.abandons')
    if streaming and not closed_by_server:
        gen = final.closable == 'gen'
        if final.closable and not gen and p['fail'] not in ('item',):
            ctx.check(final.closed == 0, 'closed-early', '%s: the application was closed before the captured output was closed', what)
        close = getattr(it, 'close', None)
        try:
            if close is not None:
                close()
        except tuple(EXC.values()) as e:
            ctx.check(final.raised and e is final.exc and p['fail'] == 'close', 'other-error', '%s: closing raised %r', what, e)
    judge_close(ctx, final, what, True)


def judge_close(ctx, inst, what, ended):
    ctx.check(inst.begun <= 1, 'runs', '%s: the output of the application was produced %d times', what, inst.begun)
    if not inst.closable:
        return
    if inst.closable == 'gen' and not inst.entered:
        return                     # a generator that never started
    ctx.check(inst.closed == 1, 'close-count', '%s: the application iterable was closed %d times', what, inst.closed)
