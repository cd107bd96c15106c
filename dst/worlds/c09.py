"""C09: failures at every layer of a request, alone and beside healthy ones."""
import traceback

from ..gen import wchoice, text
from ..core import sched_knobs, SimAbort, Violation
from ..server import serve, make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg import exceptions as X
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.responses import Response
from verktyg.routing import Route, BaseConverter, RequestRedirect, ValidationError
from verktyg.views import ClassView, expose

ID = 'C09'
QUICK = 20000
THOROUGH = 900000
BATCH = 100
SHRINK = ('handlers', 'threads', 'threads.*', 'others')
RULE = ('Seeded plans: a random exception class hierarchy (multiple inheritance, HTTP and builtin bases), 0-10 handlers over it '
        'with content types and registration routes, 1-4 threads of failing (view, routing, method, representation, converter, '
        'view construction, failing handlers, exits) and healthy requests.  Oracle: resolution-order model, identity of the exception object.')
REAL = ['verktyg.application', 'verktyg.exception_dispatch', 'verktyg.dispatch', 'verktyg.routing', 'verktyg.accept', 'verktyg.exceptions']
STUB = ['WSGI server loop', 'views and handlers', 'thread scheduling']
ASSUMPTIONS = ['exceptions that are not subclasses of Exception (exits) are never handled', 'which of several equally or incomparably good handlers of one class is chosen is left open',
               'StopIteration leaves the application, which is a generator, as RuntimeError with the original as its cause (PEP 479)']

BASES = ['Exception', 'ValueError', 'LookupError', 'KeyError', 'ArithmeticError', 'RuntimeError', 'HTTPException', 'NotFound', 'BadRequest',
         'Forbidden', 'MethodNotAllowed', 'NotAcceptable', 'InternalServerError', 'BaseExit']


class BaseExit(BaseException):
    pass


NAMED = {'Exception': Exception, 'BaseException': BaseException, 'ValueError': ValueError, 'LookupError': LookupError, 'KeyError': KeyError,
         'ArithmeticError': ArithmeticError, 'RuntimeError': RuntimeError, 'HTTPException': X.HTTPException, 'NotFound': X.NotFound, 'BadRequest': X.BadRequest,
         'Forbidden': X.Forbidden, 'MethodNotAllowed': X.MethodNotAllowed, 'NotAcceptable': X.NotAcceptable, 'NotImplemented': X.NotImplemented,
         'InternalServerError': X.InternalServerError, 'RequestRedirect': RequestRedirect, 'BaseExit': BaseExit, 'SystemExit': SystemExit,
         'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit, 'object': object, 'StopIteration': StopIteration,
         'AssertionError': AssertionError, 'OSError': OSError, 'MemoryError': MemoryError, 'RecursionError': RecursionError}
TYPES = ['text/html', 'application/json', 'text/plain', 'image/png']
ACCEPTS = [None, '*/*', 'text/html', 'application/json', 'text/*', 'image/png', 'application/*;q=0.5,text/plain', 'text/html;q=0.9, application/json;q=0.4',
           'application/json, */*;q=0.1', 'video/mp4', 'text/plain;q=0.3, */*;q=0.3', 'text/html, text/plain']
# more specific ranges never have a lower q value: the order of preference is beyond doubt
LANGS = ['en', 'en-gb', 'de', 'pt-br']
ACCEPT_LANGS = [None, '*', 'en', 'en-gb, en;q=0.5', 'de, en;q=0.2', 'fr', 'fr, *;q=0.1', 'pt', 'de;q=0.7, en-gb;q=0.7, *;q=0.7']
CHARSETS = ['utf-8', 'latin-1', 'ascii']
ACCEPT_CHARSETS = [None, '*', 'utf-8', 'latin-1;q=0.5, utf-8;q=0.4', 'ascii, *;q=0.3', 'koi8', 'latin-1, koi8']


def generate(rng, tier):
    classes = []       # [name, bases]
    for i in range(rng.randint(1, 7)):
        pool = ['C%d' % k for k in range(i)]
        nb = wchoice(rng, [(5, 1), (3, 2), (1, 3)])
        bases = []
        for _ in range(nb):
            b = rng.choice(pool) if pool and rng.random() < 0.65 else rng.choice(BASES)
            if b not in bases:
                bases.append(b)
        classes.append(['C%d' % i, bases])
    names = ['C%d' % i for i in range(len(classes))]
    handlers = []
    for _ in range(wchoice(rng, [(1, 0), (2, 2), (4, 5), (2, 10)])):
        on = rng.choice(names) if rng.random() < 0.55 else rng.choice(
            ['Exception', 'HTTPException', 'NotFound', 'MethodNotAllowed', 'NotAcceptable', 'NotImplemented', 'RequestRedirect', 'ValueError', 'LookupError',
             'BaseException', 'KeyError', 'object', 'BaseExit', 'SystemExit', 'OSError'])
        handlers.append({'on': on, 'type': rng.choice(TYPES) if rng.random() < 0.5 else None,
                         'lang': rng.choice(LANGS) if rng.random() < 0.2 else None,
                         'charset': rng.choice(CHARSETS) if rng.random() < 0.2 else None,
                         'qs': wchoice(rng, [(6, None), (1, 0.5), (1, 0.9)]),
                         'how': rng.choice(['call', 'object', 'decorator', 'nested', 'nested2']),
                         'fails': wchoice(rng, [(8, None), (1, rng.choice(names)), (0.5, 'same'), (0.5, 'ValueError'), (0.3, 'SystemExit')])})
    threads = []
    for _ in range(wchoice(rng, [(3, 1), (3, 2), (2, 3), (1, 4)])):
        reqs = []
        for _ in range(rng.randint(1, 4)):
            kind = wchoice(rng, [(3, 'ok'), (6, 'raise'), (1, '404'), (1, '405'), (1, '501'), (1, '406'), (0.8, 'redirect'), (0.8, 'converter'),
                                 (0.6, 'classview'), (0.6, 'raiseclass'), (0.6, 'wrapped'), (0.5, 'validation'), (0.5, 'nested-cause'), (0.4, 'alias')])
            r = {'kind': kind, 'accept': rng.choice(ACCEPTS), 'lang': rng.choice(ACCEPT_LANGS), 'charset': rng.choice(ACCEPT_CHARSETS),
                 'method': wchoice(rng, [(6, 'GET'), (1, 'POST')]), 'arg': text(rng, 3, 'xyz')}
            r['exc'] = rng.choice(names) if rng.random() < 0.75 else rng.choice(['ValueError', 'KeyError', 'NotFound', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit',
                                                                                'StopIteration', 'AssertionError', 'OSError', 'MemoryError', 'RecursionError', 'BaseExit', 'InternalServerError'])
            reqs.append(r)
        threads.append(reqs)
    # the nested dispatcher is also part of another application, which has handlers of its own
    others = []
    if rng.random() < 0.35:
        others = [{'on': rng.choice(names + ['Exception', 'HTTPException', 'NotFound', 'ValueError'] + [h['on'] for h in handlers]),
                   'type': rng.choice(TYPES) if rng.random() < 0.4 else None} for _ in range(rng.randint(1, 4))]
    return {'others': others, 'others_when': rng.choice(['before', 'between', 'after']), 'nested_first': rng.random() < 0.3,
            'classes': classes, 'handlers': handlers, 'threads': threads, 'default_redirect': rng.random() < 0.8, 'sched': sched_knobs(rng)}


def make_classes(plan):
    ns = dict(NAMED)
    for name, bases in plan['classes']:
        bs = []
        for b in bases:
            c = ns.get(b)
            if c is not None:
                bs.append(c)
        while True:
            try:
                cls = type(name, tuple(bs) or (Exception,), {})
                break
            except TypeError:
                bs = bs[:-1]
        ns[name] = cls
    return ns


def instance(cls):
    try:
        return cls('boom')
    except TypeError:
        return cls()


class Boom(BaseConverter):
    regex = '[a-z]+'

    def to_python(self, value):
        hook = Boom.hook
        if hook is not None:
            return hook(value)
        return value


def build(ctx, ns):
    plan = ctx.plan
    b = ApplicationBuilder(default_redirect_handler=plan['default_redirect'])
    raised = {}          # request key -> exception object

    def fail(key, cls, how='raise'):
        e = None
        if how == 'raiseclass':
            try:
                raise cls
            except BaseException as got:
                raised[key] = got
                raise
        e = instance(cls)
        raised[key] = e
        ctx.fault('raise')
        if how == 'nested-cause':
            try:
                raise RuntimeError('inner')
            except RuntimeError as inner:
                raise e from inner
        raise e

    def view(app, req, **kw):
        spec = req.environ['sim.req']
        if spec['kind'] == 'ok':
            return Response('ok:%s' % spec['arg'])
        how = spec['kind']
        if how == 'wrapped':
            try:
                fail(req.environ['sim.key'], ns[spec['exc']])
            finally:
                ctx.point('finally')
        fail(req.environ['sim.key'], ns[spec['exc']], how)

    class CV(ClassView):
        name = 'cv'

        def GET(self, app, req, **kw):
            return view(app, req)

        def POST(self, app, req, **kw):
            return view(app, req)

    b.add_converters(boom=Boom)
    b.add_routes(Route('/v/<a>', endpoint='v'), Route('/cv', endpoint='cv'), Route('/conv/<boom:a>', endpoint='v'), Route('/slash/', endpoint='v'),
                 Route('/unbound', endpoint='nothing'), Route('/only-get', endpoint='get'), Route('/typed', endpoint='typed'),
                 Route('/old', endpoint='v', redirect_to='/v/new'))
    for m in ('GET', 'POST'):
        b.add_bindings(Binding('v', view, method=m))
        b.add_bindings(Binding('typed', view, method=m, content_type='audio/ogg'))
    b.add_bindings(Binding('get', view, method='PUT'))
    b.add_bindings(CV())
    calls = {}

    def make_handler(i, h):
        def handler(app, req, exc_type, exc_value, exc_tb):
            calls.setdefault(req.environ['sim.key'], []).append((i, exc_type, exc_value, exc_tb, req))
            ctx.point('handler')
            if h['fails']:
                ctx.fault('handler-raise')
                if h['fails'] == 'same':
                    raise exc_value
                e = instance(ns[h['fails']])
                raised[req.environ['sim.key'], 'handler'] = e
                raise e
            return Response('handled:%d:%s' % (i, req.environ['sim.req']['arg']), status=500)
        return handler
    nested = ExceptionDispatcher()
    inner = ExceptionDispatcher()

    def foreign(app, req, exc_type, exc_value, exc_tb):
        calls.setdefault(req.environ['sim.key'], []).append((-1, exc_type, exc_value, exc_tb, req))
        return Response('foreign')

    def other():
        if plan.get('others'):
            ctx.probe('shared-dispatcher')
            d = ExceptionDispatcher([nested])
            for h in plan['others']:
                d.add_exception_handlers(ExceptionHandler(ns[h['on']], foreign, **({'content_type': h['type']} if h['type'] else {})))
            d2 = ExceptionDispatcher()
            d2.add_exception_handlers(nested, *[ExceptionHandler(ns[h['on']], foreign) for h in plan['others']])
    todo = list(enumerate(plan['handlers']))
    if plan.get('nested_first'):
        todo.sort(key=lambda x: not x[1]['how'].startswith('nested'))
    added = False
    for i, h in todo:
        if plan.get('nested_first') and not added and not h['how'].startswith('nested'):
            added = True
            nested.add_exception_handlers(inner)
            if plan.get('others_when') == 'before':
                other()
            b.add_exception_handlers(nested)
        kw = {}
        if h['type']:
            kw['content_type'] = h['type']
        if h.get('lang'):
            kw['language'] = h['lang']
        if h.get('charset'):
            kw['charset'] = h['charset']
        if h['qs'] is not None:
            kw['qs'] = h['qs']
        fn = make_handler(i, h)
        cls = ns[h['on']]
        if h['how'] == 'call':
            b.add_exception_handler(cls, fn, **kw)
        elif h['how'] == 'object':
            b.add_exception_handlers(ExceptionHandler(cls, fn, **kw))
        elif h['how'] == 'decorator':
            got = b.exception_handler(cls, **kw)(fn)
            ctx.check(got is fn, 'decorator', 'exception_handler does not return the function')
        elif h['how'] == 'nested':
            nested.add_exception_handlers(ExceptionHandler(cls, fn, **kw))
        else:
            inner.add_exception_handlers(ExceptionHandler(cls, fn, **kw))
    if not added:
        nested.add_exception_handlers(inner)
        if plan.get('others_when') == 'before':
            other()
        if any(h['how'].startswith('nested') for h in plan['handlers']):
            b.add_exception_handlers(nested)
    if plan.get('others_when') == 'between':
        other()
    app = b('http://sim.example')
    if plan.get('others_when') == 'after':
        other()
    return app, raised, calls


def parse_accept(a):
    out = []
    for part in a.split(','):
        t, _, q = part.strip().partition(';q=')
        out.append((t.strip(), float(q or 1)))
    return out


def accept_score(t, accept):
    """(match quality, q) of the most specific range, or None"""
    best = None
    for rng_, q in accept:
        a, b = rng_.split('/')
        x, y = t.split('/')
        if a not in ('*', x) or b not in ('*', y):
            continue
        m = (a == x, b == y)
        if best is None or m > best[0]:
            best = (m, q)
    return best


def language_score(lang, accept):
    best = None
    n = len(lang.split('-'))
    for rng_, q in accept:
        k = len(rng_.split('-'))
        if rng_ == '*':
            m = (-n, 0)
        elif lang == rng_ or lang.startswith(rng_ + '-'):
            m = (k - n, k)
        else:
            continue
        if best is None or m > best[0]:
            best = (m, q)
    return best


def charset_score(charset, accept):
    best = None
    for rng_, q in accept:
        if rng_ in ('*', charset):
            m = (rng_ == charset, 0)
            if best is None or m > best[0]:
                best = (m, q)
    return best


def score(h, r):
    """None if the handler is not acceptable, else its merits one by one"""
    out = []
    for value, header, any_, fn in ((h['type'], r['accept'], '*/*', accept_score), (h.get('lang'), r.get('lang'), '*', language_score),
                                    (h.get('charset'), r.get('charset'), '*', charset_score)):
        if value is None:
            out += [False, (-99, -99), 0.0]
            continue
        s = fn(value, parse_accept(header or any_))
        if s is None:
            return None
        out += [True, tuple(int(x) for x in s[0]), s[1]]
    return tuple(out) + (1.0 if h['qs'] is None else h['qs'],)


def expected(plan, ns, exc, r):
    """None or (ids of the handlers that may be chosen)"""
    for cls in type(exc).__mro__:
        cands = {}
        for i, h in enumerate(plan['handlers']):
            if ns[h['on']] is not cls:
                continue
            s = score(h, r)
            if s is not None:
                cands[i] = s
        if cls is RequestRedirect and plan['default_redirect']:
            cands['default'] = score({'type': None, 'qs': None}, r)
        if cands:
            top = [i for i, v in cands.items() if all(all(a >= b for a, b in zip(v, w)) for w in cands.values())]
            return top or list(cands)
    return None


def execute(ctx):
    plan = ctx.plan
    ns = make_classes(plan)
    Boom.hook = None
    app, raised, calls = build(ctx, ns)
    done = []

    def client(ti, reqs):
        def run():
            for ri, r in enumerate(reqs):
                done.append(request(ctx, app, ns, raised, (ti, ri), r))
        return run

    hooks = {}

    def hook(value):
        # converters only see the text: the text names the request
        key, cls, validation = hooks[value]
        if validation:
            raise ValidationError()
        e = instance(cls)
        raised[key] = e
        ctx.fault('converter')
        raise e
    for ti, reqs in enumerate(plan['threads']):
        for ri, r in enumerate(reqs):
            if r['kind'] in ('converter', 'validation'):
                r = dict(r)
                word = 'w' + chr(97 + ti) + chr(97 + ri)
                hooks[word] = ((ti, ri), ns[r['exc']], r['kind'] == 'validation')
    Boom.hook = hook
    try:
        fns = [client(ti, reqs) for ti, reqs in enumerate(plan['threads'])]
        if len(fns) > 1:
            ctx.run_threads(fns)
        else:
            fns[0]()
    finally:
        Boom.hook = None
    for key, r, h, env in done:
        judge(ctx, plan, ns, key, r, h, raised, calls.get(key, []), env)


def request(ctx, app, ns, raised, key, r):
    k = r['kind']
    path = {'404': '/nowhere', '405': '/only-get', '501': '/unbound', '406': '/typed', 'redirect': '/slash', 'classview': '/cv',
            'converter': '/conv/w' + chr(97 + key[0]) + chr(97 + key[1]), 'validation': '/conv/w' + chr(97 + key[0]) + chr(97 + key[1]),
            'alias': '/old'}.get(k, '/v/' + r['arg'])
    hdrs = [('Accept', r['accept'])] if r['accept'] is not None else []
    if r.get('lang') is not None:
        hdrs.append(('Accept-Language', r['lang']))
    if r.get('charset') is not None:
        hdrs.append(('Accept-Charset', r['charset']))
    env = make_environ(r['method'], path, headers=hdrs, body=b'' if r['method'] == 'POST' else None, extra={'sim.req': r, 'sim.key': key})
    h = serve(ctx, app, env)
    ctx.log(key, k, h.status, type(h.exc).__name__, h.body)
    return key, r, h, env


ROUTED = {'404': X.NotFound, '405': X.MethodNotAllowed, '501': X.NotImplemented, '406': X.NotAcceptable, 'redirect': RequestRedirect, 'validation': X.NotFound,
          'alias': RequestRedirect}


def judge(ctx, plan, ns, key, r, h, raised, calls, env):
    k = r['kind']
    what = 'request %s (%s, Accept %s, language %s, charset %s)' % (key, k, r['accept'], r.get('lang'), r.get('charset'))
    if k == 'ok':
        ctx.check(h.exc is None and h.body == ('ok:%s' % r['arg']).encode() and h.status.startswith('200') and not calls, 'healthy-affected',
                  'healthy %s got %s %r, error %r, %d handler calls', what, h.status, h.body, h.exc, len(calls))
        return
    e = raised.get(key)
    if e is None:
        # raised by the library itself
        cls = ROUTED.get(k)
        ctx.check(cls is not None, 'view-not-reached', '%s: the view was not called', what)
        if calls:
            e = calls[0][2]
        elif h.exc is not None:
            e = h.exc
        else:
            e = None
        if e is not None:
            ctx.check(type(e) is cls, 'wrong-error', '%s raised %r instead of %s', what, type(e), cls.__name__)
        else:
            # default redirect handler
            ctx.check(cls is RequestRedirect and plan['default_redirect'], 'error-lost', '%s was answered %s without any handler', what, h.status)
            e = RequestRedirect('x')
    mine = isinstance(e, Exception)
    allowed = expected(plan, ns, e, r) if mine else None
    ctx.states.add('%s|%s|%d|%s' % (k, 'none' if allowed is None else len(allowed), len(type(e).__mro__), len(calls)))
    ctx.probe('nontrivial')
    ctx.check(all(c[0] >= 0 for c in calls), 'foreign-handler', '%s was given to a handler of another application', what)
    ctx.check(len(calls) <= 1, 'handled-twice', '%s: %d handlers were called for one exception', what, len(calls))
    mro = [c.__name__ for c in type(e).__mro__]
    if allowed is None:
        ctx.check(not calls, 'wrong-handler', '%s: %s was given to handler %s although none applies', what, mro, calls and plan['handlers'][calls[0][0]])
        same = h.exc is e
        if isinstance(e, StopIteration) and isinstance(h.exc, RuntimeError):
            same = h.exc.__cause__ is e      # PEP 479: raised inside a generator
        ctx.check(same, 'not-propagated', '%s: unhandled %r did not reach the server unchanged (got %r, status %s)', what, e, h.exc, h.status)
        ctx.check(not h.started, 'started-before-error', '%s: the response was started before the error reached the server', what)
        return
    if not calls:
        ctx.check('default' in allowed, 'handler-skipped', '%s: no handler was called for %s, expected one of %s; server saw %r', what, mro,
                  [plan['handlers'][i] if i != 'default' else i for i in allowed], h.exc)
        ctx.check(h.exc is None and h.status[:3] in ('301', '302', '307', '308'), 'redirect', '%s: default redirect gave %s / %r', what, h.status, h.exc)
        return
    i, t, v, tb, req = calls[0]
    ctx.check(i in allowed, 'wrong-handler', '%s: %s was given to %s, expected %s', what, mro, plan['handlers'][i],
              [plan['handlers'][j] if j != 'default' else j for j in allowed])
    ctx.check(v is e and t is type(e), 'other-exception', '%s: the handler got %r (%s) instead of %r', what, v, t, e)
    ctx.check(tb is not None, 'no-traceback', '%s: the handler got no traceback', what)
    ctx.check(req.environ['sim.key'] == key, 'other-request', '%s: the handler got the request %s', what, req.environ['sim.key'])
    spec = plan['handlers'][i]
    if spec['fails']:
        want = e if spec['fails'] == 'same' else raised[key, 'handler']
        same = h.exc is want
        if isinstance(want, StopIteration) and isinstance(h.exc, RuntimeError):
            same = h.exc.__cause__ is want
        ctx.check(same, 'handler-error', '%s: the handler failed with %r, the server saw %r (%s)', what, want, h.exc, h.status)
        ctx.check(not h.started, 'started-before-error', '%s: the response was started before the error reached the server', what)
        return
    ctx.check(h.exc is None and h.body == ('handled:%d:%s' % (i, r['arg'])).encode(), 'handler-response', '%s: the answer of handler %d was not sent (%s %r, %r)',
              what, i, h.status, h.body, h.exc)
