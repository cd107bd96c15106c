"""C01: threads sharing one application.

Each request's answer is compared with (a) what the harness knows the handler
must have seen (it generated the request) and (b) the answer a fresh
application gave to that request alone, computed beforehand.
"""
import io
import json
from datetime import datetime
from email.utils import formatdate
import os
import tempfile
from urllib.parse import urlencode as _urlencode

from ..gen import wchoice, text
from ..core import sched_knobs
from ..server import serve, make_environ, SimInput

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding, Dispatcher
from verktyg.exceptions import HTTPException, Forbidden, ClientDisconnected
from verktyg.http import Headers
from verktyg.responses import Response, BaseResponse
from verktyg.utils import redirect
from verktyg.routing import Route, BaseConverter, Submount, EndpointPrefix, RequestRedirect
from verktyg.views import ClassView, View, JsonView
from verktyg.wsgi import DispatcherMiddleware, SharedDataMiddleware

def urlencode(q):
    return _urlencode([tuple(x) for x in q])


ID = 'C01'
PRISTINE = True
QUICK = 9000
THOROUGH = 300000
BATCH = 30
SHRINK = ('threads', 'threads.*', 'threads.*.*.q', 'threads.*.*.c', 'middleware')
RULE = ('Seeded plans: one application (random subset and order of 14 route groups, negotiated bindings, '
        'mounts, static files), 1-4 threads with 1-5 requests each, preempted at library lines or bytecodes, '
        'clients that disconnect while sending or receiving.  Oracle: model of the request plus a solo run '
        'on a fresh application.')
REAL = ['verktyg.application', 'verktyg.routing', 'verktyg.dispatch', 'verktyg.exception_dispatch',
        'verktyg.requests', 'verktyg.responses', 'verktyg.accept', 'verktyg.wsgi middleware']
STUB = ['WSGI server loop', 'transport', 'thread scheduling', 'clock']
ASSUMPTIONS = ['threads switch between Python source lines or bytecodes (the GIL model)']

GROUPS = ['item', 'page', 'user', 'files', 'any', 'tok', 'old', 'alias', 'neg', 'err', 'up', 'stream', 'cls', 'json', 'loc', 'const']
TYPES = ['text/html', 'application/json', 'text/plain']
LANGS = ['en', 'de', 'en-gb']
CHARSETS = ['utf-8', 'latin-1']
EQUAL = [1, True, 1.0, 0, False, 0.0, '1']          # equal keys, different texts
NAMES = ['ann', 'bob', 'zoë', 'x y', 'k']


class Tok(BaseConverter):
    regex = '[a-f]+'
    weight = 90

    def to_python(self, value):
        return 'tok:' + value

    def to_url(self, value):
        return value[4:]


class AppError(Exception):
    pass


class AppBaseError(BaseException):
    pass


def routes_for(g):
    if g == 'item':
        return [Route('/item/<int:id>', endpoint='item')]
    if g == 'page':
        return [Route('/page/', endpoint='page', defaults={'page': 1}),
                Route('/page/<int:page>', endpoint='page')]
    if g == 'user':
        return [Route('/user/<name>/', endpoint='user')]
    if g == 'files':
        return [Route('/files/<path:p>', endpoint='files'), Route('/files/special', endpoint='special')]
    if g == 'any':
        return [Route('/any/<any(red,green):color>/', endpoint='any'), Route('/<name>/x', endpoint='catch')]
    if g == 'tok':
        return [Route('/tok/<tok:t>', endpoint='tok'), Route('/tok/<t>', endpoint='raw')]
    if g == 'old':
        return [Route('/old/<int:id>', redirect_to='item/<id>')]
    if g == 'alias':
        return [Route('/thing/<int:id>', endpoint='thing'), Route('/alias/<int:id>', endpoint='thing', alias=True)]
    if g == 'neg':
        return [Route('/neg/<name>', endpoint='neg')]
    if g == 'err':
        return [Route('/err/<int:kind>', endpoint='err')]
    if g == 'up':
        return [Route('/up', endpoint='up')]
    if g == 'stream':
        return [Submount('/s', [EndpointPrefix('s.', [Route('/stream/<int:n>', endpoint='stream')])])]
    if g == 'cls':
        return [Route('/cls/<name>', endpoint='cls')]
    if g == 'json':
        return [Route('/json/<int:n>', endpoint='json')]
    if g == 'const':
        return [Route('/const/<int:n>', endpoint='const')]
    if g == 'loc':
        return [Route('/loc/<name>', endpoint='loc')]


# ---- generation -------------------------------------------------------------

def gen_request(rng, groups, mw, types):
    r = {'id': text(rng, 6, 'abcdefghijkmnpqrstuvwxyz'), 'm': 'GET'}
    k = wchoice(rng, [(10, 'group'), (1.2, 'index'), (1, 'missing')]
                + ([(4, 'mount')] if 'dispatcher' in mw else []) + ([(3, 'static')] if 'shared' in mw else []))
    g = k
    if k == 'group':
        g = rng.choice(groups)
    r['g'] = g
    r['v'] = rng.randint(0, 60)
    r['n'] = rng.choice(NAMES)
    if g in ('user', 'page') and rng.random() < 0.3:
        r['odd'] = True
    if g in ('mount',):
        r['sub'] = rng.choice(['echo', 'raw', 'deep', 'none'])
        r['outer'] = rng.choice(['', '', '/outer', '/o/é'])
    if g == 'neg':
        a = rng.random()
        r['accept'] = (rng.choice(types + TYPES) if a < 0.6 else
                       rng.choice([None, '*/*', 'text/*', 'image/png', 'application/json;q=0.4, text/html;q=0.9',
                                   'text/plain;q=0.2, */*;q=0.1']))
    if g in ('loc', 'err', 'missing'):
        r['lang'] = rng.choice([None, 'en', 'de', 'en-gb', 'de, en;q=0.3', 'fr', 'fr, *;q=0.2', '*'])
        r['charset'] = rng.choice([None, None, 'utf-8', 'latin-1', 'utf-8;q=0.4, latin-1', 'koi8', '*'])
    if rng.random() < 0.3:
        r['via'] = rng.sample(['10.0.0.1', '10.0.0.2', '192.168.7.7'], rng.randint(1, 3))
    if rng.random() < 0.2:
        r['etags'] = rng.sample(['a', 'b', 'c'], rng.randint(1, 3))
    if rng.random() < 0.2:
        r['maxage'] = rng.randint(0, 999)
    if g == 'err':
        r['v'] = rng.randint(0, 5)
    if g == 'static':
        r['v'] = rng.randint(0, 3)
    if g in ('up', 'cls', 'mount') and rng.random() < 0.7:
        r['m'] = rng.choice(['POST', 'POST', 'PUT']) if g == 'cls' else 'POST'
        r['b'] = text(rng, rng.choice([0, 3, 40, 200]), 'abc\n0')
    elif rng.random() < 0.12:
        r['m'] = rng.choice(['HEAD', 'HEAD', 'DELETE', 'POST'])
        if r['m'] == 'POST':
            r['b'] = text(rng, 5, 'xyz')
    r['q'] = [[rng.choice('abk'), rng.choice(['1', '2', 'é', 'x y', ''])] for _ in range(rng.choice([0, 0, 1, 3]))]
    r['c'] = [[rng.choice(['sid', 'u', 'lang']), text(rng, 4, 'abc123')] for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.1:
        r['cond'] = True
    if rng.random() < 0.1:
        r['stop'] = rng.randint(0, 2)
    if r.get('b') and rng.random() < 0.12:
        r['cut'] = rng.randrange(len(r['b']))
    if rng.random() < 0.15:
        r['auth'] = text(rng, 4, 'uvw')
    if rng.random() < 0.3:
        r['host'] = rng.choice(['sim.example', 'other.example:8080', 'sub.sim.example', 'sim.example:81'])
        r['scheme'] = rng.choice(['http', 'https'])
    if rng.random() < 0.25:
        x = r['x'] = {}
        for k, vs in (('user', ['ann', 'bob', 'eve']), ('xhr', [True]), ('ref', ['http://a/1', 'http://b/2']), ('ua', ['agent/1', 'agent/2']),
                      ('ims', [0, 86400, 1445412480]), ('range', [[0, 9], [5, 20], [100, None]]), ('pragma', ['no-cache', 'x, y']), ('enc', ['gzip', 'br']),
                      ('inm', ['*', 'W/"q"']), ('fwd', ['front.example', 'front2.example:99'])):
            if rng.random() < 0.4:
                x[k] = rng.choice(vs)
    if r.get('b') is not None:
        r['ct'] = rng.choice(['text/plain', 'text/plain', 'TEXT/HTML; charset=utf-8', 'application/x-a; v=1; w=two', 'application/json'])
    return r


def generate(rng, tier):
    groups = [g for g in GROUPS if rng.random() < 0.6] or ['item']
    rng.shuffle(groups)
    focus = rng.random() < 0.45
    if focus:
        groups = groups[:1]                   # everybody in the same corner
    if 'old' in groups and 'item' not in groups:
        groups.append('item')
    mw = [m for m, p in (('dispatcher', 0.3), ('shared', 0.12), ('header', 0.2)) if rng.random() < p]
    rng.shuffle(mw)
    types = [t for t in TYPES if rng.random() < 0.7] or ['text/html']
    nt = wchoice(rng, [(0.5 if focus else 3, 1), (5, 2), (3, 3), (1, 4)])
    sched = sched_knobs(rng, 0.12)
    if focus and rng.random() < 0.6:
        sched.update(style='park', mean=rng.choice([2, 2, 4]), budget=rng.choice([2, 4, 12, 60]))
    threads = []
    for _ in range(nt):
        n = rng.randint(3, 8) if nt == 1 else rng.randint(1, 4 if nt == 2 else 2)
        threads.append([gen_request(rng, groups, mw, types) for _ in range(n)])
    # similar requests make mix-ups visible
    if rng.random() < 0.4:
        base = threads[0][0]
        for ti, t in enumerate(threads):
            for j in rng.sample(range(len(t)), 1 if ti else len(t) // 2):
                if t[j] is base:
                    continue
                v = (rng.randint(0, 5) if base['g'] == 'err' else rng.choice([2, 3, 7, 8, 12, 13, 42, 43]) if base['g'] == 'json' else rng.randint(0, 3))
                t[j] = dict(base, id=t[j]['id'], v=v, n=rng.choice(NAMES))
    return {'groups': groups, 'middleware': mw, 'types': types, 'threads': threads,
            'nested': rng.random() < 0.3, 'iso': rng.random() < 0.08,
            'handlers': [h for h in ('http', 'app', 'redirect', 'langs') if rng.random() < 0.5],
            'shuffle': rng.randrange(10**6), 'root': rng.choice(['', '', 'http://sim.example/', 'http://sim.example/app']),
            'sched': sched, 't0': 1450000000 + rng.randrange(10**8)}


# ---- the application --------------------------------------------------------

def seen(app, req, ep, args, extra=None):
    """everything the handler learns about its request"""
    d = {
        'ep': ep, 'args': {k: [type(v).__name__, str(v)] for k, v in sorted(args.items())},
        'm': req.method, 'q': [[k, v] for k, v in req.args.items(multi=True)] if hasattr(req.args, 'items') else [],
        'c': {k: req.cookies[k] for k in sorted(req.cookies)},
        'id': req.headers.get('X-Id'), 'path': req.path, 'root': req.script_root,
        'host': req.host, 'url': req.url, 'qs': req.query_string,
        'auth': req.authorization.username if req.authorization else None,
        'app': req.app is app,
        'bind': [req.binding.name, req.binding.method],
        'via': list(req.access_route), 'addr': req.remote_addr,
        'etags': sorted(req.if_none_match.as_set()) if hasattr(req, 'if_none_match') else [],
        'maxage': req.cache_control.max_age if hasattr(req, 'cache_control') else None,
        'len': req.content_length, 'type': req.headers.get('Content-Type'),
        'hdr': sorted([k, v] for k, v in req.headers),
        'mime': req.mimetype, 'params': dict(req.mimetype_params), 'xhr': req.is_xhr, 'ref': req.referrer, 'scheme': req.scheme, 'user': req.remote_user,
        'urls2': [req.host_url, req.url_root, req.base_url, req.full_path], 'enc': req.content_encoding, 'nh': len(req.headers),
        'ims': req.if_modified_since.isoformat() if req.if_modified_since else None,
        'range': [list(x) for x in req.range.ranges] if req.range else None,
        'pragma': sorted(req.pragma), 'ua': req.headers.get('user-agent'), 'star': req.if_none_match.star_tag,
    }
    if extra:
        d.update(extra)
    return d


def build(plan, ctx, static, closed, name='main'):
    import random
    rng = random.Random(plan['shuffle'])
    b = ApplicationBuilder(default_redirect_handler='redirect' not in plan['handlers'])
    b.add_converters(tok=Tok)
    b.config['name'] = name
    routes = [Route('/', endpoint='index')]
    for g in plan['groups']:
        routes += routes_for(g)
    rng.shuffle(routes)
    b.add_routes(*routes)

    def respond(app, req, ep, args, **kw):
        ctx.point()
        rid = req.headers.get('X-Id')
        req.call_on_close(lambda: closed.append(('req', rid)))
        d = seen(app, req, ep, args, kw)
        # what is its own it may change
        req.mimetype_params['note'] = rid
        req.pragma.add('note-%s' % rid)
        ctx.point()
        d['urls'] = []
        if 'item' in plan['groups']:
            d['urls'].append(app.url_for('item', id=len(rid) + 1, q=rid))
        d['urls'].append(app.url_for('index'))
        d['urls'].append(app.url_for('index', q=EQUAL[ord(rid[0]) % len(EQUAL)]))
        r = Response(json.dumps(d, sort_keys=True), headers=[('X-Echo', rid)])
        r.call_on_close(lambda: closed.append(('res', rid)))
        r.set_cookie('seen', rid)
        if req.headers.get('X-Cond'):
            r.set_etag('v-' + rid)
            r.make_conditional(req)
        if req.headers.get('X-Vary'):
            r.vary.add('X-Vary')
        return r

    def echo(ep):
        return lambda app, req, **args: respond(app, req, ep, args)

    def up(app, req, **args):
        data = req.get_data()
        return respond(app, req, 'up', args, body=data.decode('latin1'), again=req.get_data(as_text=True))

    def err(app, req, kind):
        rid = req.headers.get('X-Id')
        req.call_on_close(lambda: closed.append(('req', rid)))
        ctx.point()
        if kind == 0:
            raise AppError(rid)
        if kind == 1:
            raise Forbidden(rid)
        if kind == 2:
            raise ValueError(rid)
        if kind == 3:
            raise AppBaseError(rid)
        if kind == 4:
            return 'not a response'
        raise Forbidden.wrap(KeyError)(rid)

    def stream(app, req, n):
        rid = req.headers.get('X-Id')
        req.call_on_close(lambda: closed.append(('req', rid)))

        def body():
            for i in range(n % 5):
                ctx.point()
                yield '%s:%d:%s\n' % (req.headers.get('X-Id'), i, req.path)
        r = Response(body(), headers=[('X-Echo', rid)])
        r.call_on_close(lambda: closed.append(('res', rid)))
        return r

    class Cls(ClassView):
        name = 'cls'

        def GET(self, app, req, name):
            return respond(app, req, 'cls', {'name': name})

        def POST(self, app, req, name):
            return respond(app, req, 'cls', {'name': name}, body=req.stream.read().decode('latin1'))

        PUT = POST

    if plan.get('nested'):
        inner = Dispatcher([Binding('extra', echo('extra'))])
        inner.add_bindings(Dispatcher([JsonView('json', lambda app, req, n: {'post': req.headers.get('X-Id')}, methods=['POST', 'DELETE'])]))
        b.add_bindings(inner, Dispatcher([inner]))
    for ep in ('index', 'item', 'page', 'user', 'files', 'special', 'any', 'catch', 'tok', 'raw', 'thing'):
        b.add_bindings(Binding(ep, echo(ep)))
    b.add_bindings(View('up', up, methods=['POST', 'GET']))
    b.add_bindings(Binding('err', err))
    b.add_bindings(Binding('s.stream', stream))
    b.add_bindings(Cls())
    for i, t in enumerate(plan['types']):
        b.add_bindings(View('neg', (lambda t: lambda app, req, name: respond(app, req, 'neg', {'name': name}, type=t))(t),
                            content_type=t, qs=[1.0, 0.8, 0.6][i]))

    for i, (lang, charset) in enumerate([('en', None), ('de', None), (None, 'utf-8'), ('en-gb', 'latin-1')]):
        if rng.random() < 0.8:
            kw = {'language': lang} if lang else {}
            if charset:
                kw['charset'] = charset
            b.add_bindings(Binding('loc', (lambda w: lambda app, req, name: respond(app, req, 'loc', {'name': name}, loc=w))([lang, charset]), **kw))

    class Debuggable(object):
        debug = False
    b.add_application_mixins(Debuggable)

    def js(app, req, n):
        rid = req.headers.get('X-Id')
        req.call_on_close(lambda: closed.append(('req', rid)))
        if n % 5 == 0:
            return None
        if n % 5 == 1:
            return Response('{"id": "%s"}' % rid, status=201, content_type='application/json')
        if n % 5 in (2, 3):
            return [n > 10 if n % 2 else int(n > 10), 1.0 if n > 40 else 1]
        return {'n': n, 'id': rid, 'bind': [req.binding.name, req.binding.method]}
    b.add_bindings(JsonView('json', js))

    # what an application builds once and hands out for every request (a Headers object is adopted by the responses
    # made with it, so nothing is changed through them here)
    const = {'headers': Headers([('X-Const', 'a'), ('Content-Type', 'text/x-const')]), 'list': [('X-Const', 'b')], 'dict': {'X-Const': 'c'},
             'moved': Headers([('Location', 'where/to?it=is'), ('Content-Type', 'text/plain'), ('Content-Location', '/cl')]),
             'answer': Response('the same answer', status=202, headers=[('X-Const', 'd')]), 'empty': Response(status=204),
             'chunks': [b'one ', b'two ', 'three'], 'redirect': redirect('/elsewhere'), 'error': Forbidden('constant')}

    def constant(app, req, n):
        rid = req.headers.get('X-Id')
        req.call_on_close(lambda: closed.append(('req', rid)))
        ctx.point()
        k = n % 9
        body = '%s|' % rid * (n // 3 % 4)
        if k in (0, 1, 2):
            return Response([body.encode()] if k == 0 else body, headers=const[('headers', 'list', 'dict')[k]])
        if k == 3:
            return Response([body] * 2, status=201, headers=const['moved'])
        if k == 7:
            return Response(const['chunks'], headers=const['list'], content_type='text/plain')
        if k == 8:
            raise const['error']
        return const[('answer', 'empty', 'redirect')[k - 4]]
    for m in ('GET', 'POST'):
        b.add_bindings(Binding('const', constant, method=m))

    def on_http(app, req, t, v, tb):
        return Response('http %s %s %s' % (v.code, v.description if v.code == 403 else '', req.headers.get('X-Id')), status=v.code,
                        headers=[('X-Echo', req.headers.get('X-Id'))])

    def on_app(app, req, t, v, tb):
        return Response('app %s %s' % (v.args[0], req.headers.get('X-Id')), status=500,
                        headers=[('X-Echo', req.headers.get('X-Id'))])
    if 'langs' in plan['handlers']:
        for lang in LANGS:
            b.add_exception_handler(HTTPException, (lambda lang: lambda app, req, t, v, tb: Response(
                'in %s: %s' % (lang, v.code), status=v.code, headers=[('X-Echo', req.headers.get('X-Id'))]))(lang), language=lang)
        for cs in CHARSETS:
            b.add_exception_handler(AppError, (lambda cs: lambda app, req, t, v, tb: Response(
                'app in %s: %s' % (cs, v.args[0]), status=500, headers=[('X-Echo', req.headers.get('X-Id'))]))(cs), charset=cs)
    if 'http' in plan['handlers']:
        b.add_exception_handler(HTTPException, on_http)
    if 'app' in plan['handlers']:
        b.add_exception_handler(AppError, on_app)
    if 'redirect' in plan['handlers']:
        b.add_exception_handler(RequestRedirect, lambda app, req, t, v, tb: Response(
            'to ' + v.new_url, status=v.code, headers=[('Location', v.new_url), ('X-Echo', req.headers.get('X-Id'))]))
    if name == 'main':
        for m in plan['middleware']:
            if m == 'dispatcher':
                sub = build(plan, ctx, static, closed, 'sub')
                deep = build(plan, ctx, static, closed, 'deep')

                def raw(env, start):
                    start('200 OK', [('Content-Type', 'text/plain'), ('X-Echo', env.get('HTTP_X_ID'))])
                    return [('raw %s %s' % (env['SCRIPT_NAME'], env['PATH_INFO'])).encode('latin1')]
                b.add_middleware(DispatcherMiddleware, {'/sub': sub, '/raw': raw, '/sub/deep': deep})
            elif m == 'shared':
                b.add_middleware(SharedDataMiddleware, {'/static': static, '/one': os.path.join(static, 'f1.txt')})
            elif m == 'header':
                def header(app):
                    def wrapped(env, start):
                        tok = env.get('HTTP_X_ID')

                        def st(status, headers, exc_info=None):
                            return start(status, headers + [('X-Wrap', tok)], exc_info)
                        return app(env, st)
                    return wrapped
                b.add_middleware(header)
    return b(plan['root'])


def target(r):
    """(path, expected endpoint or None, expected args)"""
    g, v, n = r['g'], r['v'], r['n']
    if g == 'index':
        return '/', 'index', {}
    if g == 'item':
        return '/item/%d' % v, 'item', {'id': v}
    if g == 'page':
        if r.get('odd'):
            return '/page/1', None, None
        v = v + 2
        return '/page/%d' % v, 'page', {'page': v}
    if g == 'user':
        if r.get('odd'):
            return '/user/%s' % n, None, None
        return '/user/%s/' % n, 'user', {'name': n}
    if g == 'files':
        if v % 4 == 0:
            return '/files/special', 'special', {}
        p = 'd/' * (v % 3) + n
        return '/files/' + p, 'files', {'p': p}
    if g == 'any':
        if v % 2:
            return '/any/red/', 'any', {'color': 'red'}
        return '/%s/x' % n, 'catch', {'name': n}
    if g == 'tok':
        if v % 2:
            return '/tok/abc', 'tok', {'t': 'tok:abc'}
        return '/tok/%s' % n, 'raw', {'t': n}
    if g == 'old':
        return '/old/%d' % v, None, None
    if g == 'alias':
        if v % 2:
            return '/thing/%d' % v, 'thing', {'id': v}
        return '/alias/%d' % v, None, None
    if g == 'neg':
        return '/neg/%s' % n, 'neg', {'name': n}
    if g == 'err':
        return '/err/%d' % v, None, None
    if g == 'up':
        return '/up', 'up', {}
    if g == 'stream':
        return '/s/stream/%d' % v, 'stream', None
    if g == 'cls':
        return '/cls/%s' % n, 'cls', {'name': n}
    if g == 'json':
        return '/json/%d' % v, 'json', None
    if g == 'const':
        return '/const/%d' % v, None, None
    if g == 'loc':
        return '/loc/%s' % n, 'loc', {'name': n}
    if g == 'missing':
        return '/nowhere/at/all/%d' % v, None, None
    if g == 'mount':
        return {'echo': ('/sub/', 'index', {}), 'raw': ('/raw/x%d' % v, None, None),
                'deep': ('/sub/deep/', 'index', {}), 'none': ('/sub/nothing/%d' % v, None, None)}[r['sub']]
    if g == 'static':
        return ['/static/f0.txt', '/static/d/f2.bin', '/one', '/static/none'][v % 4], None, None
    raise AssertionError(g)


def environ(ctx, r):
    path, _, _ = target(r)
    headers = [('X-Id', r['id'])]
    if r.get('accept'):
        headers.append(('Accept', r['accept']))
    if r.get('c'):
        headers.append(('Cookie', '; '.join('%s=%s' % (k, v) for k, v in r['c'])))
    if r.get('cond'):
        headers.append(('X-Cond', '1'))
        if r['v'] % 2:
            headers.append(('If-None-Match', '"v-%s"' % r['id']))
    if r['v'] % 3 == 0:
        headers.append(('X-Vary', '1'))
    if r.get('auth'):
        import base64
        headers.append(('Authorization', 'Basic ' + base64.b64encode(('%s:pw' % r['auth']).encode()).decode()))
    if r.get('lang'):
        headers.append(('Accept-Language', r['lang']))
    if r.get('charset'):
        headers.append(('Accept-Charset', r['charset']))
    if r.get('via'):
        headers.append(('X-Forwarded-For', ', '.join(r['via'])))
    if r.get('etags'):
        headers.append(('If-None-Match', ', '.join('"%s"' % e for e in r['etags'])))
    if r.get('maxage') is not None:
        headers.append(('Cache-Control', 'max-age=%d' % r['maxage']))
    body = r.get('b')
    kw = {}
    if body is not None:
        kw = {'input': SimInput(ctx, body.encode(), cut=r.get('cut'), mode='eof' if r.get('cut') is not None else None),
              'content_length': str(len(body)), 'content_type': r.get('ct', 'text/plain')}
    x = r.get('x') or {}
    for k, n in (('ref', 'Referer'), ('ua', 'User-Agent'), ('pragma', 'Pragma'), ('enc', 'Content-Encoding'), ('fwd', 'X-Forwarded-Host')):
        if k in x:
            headers.append((n, x[k]))
    if 'xhr' in x:
        headers.append(('X-Requested-With', 'XMLHttpRequest'))
    if 'ims' in x:
        headers.append(('If-Modified-Since', formatdate(x['ims'], usegmt=True)))
    if 'range' in x:
        headers.append(('Range', 'bytes=%d-%s' % (x['range'][0], '' if x['range'][1] is None else x['range'][1])))
    if 'inm' in x and not r.get('etags') and not r.get('cond'):
        headers.append(('If-None-Match', x['inm']))
    if 'user' in x:
        kw['extra'] = {'REMOTE_USER': x['user'], 'REMOTE_ADDR': '10.9.8.%d' % len(x['user'])}
    kw['host'] = r.get('host', 'sim.example')
    kw['scheme'] = r.get('scheme', 'http')
    env = make_environ(r['m'], path, query=urlencode(r['q']), headers=headers, **kw)
    if r.get('outer'):
        env['SCRIPT_NAME'] = r['outer'].encode().decode('latin1')
    return env


def describe(h):
    return {
        'status': h.status, 'headers': [list(x) for x in (h.headers or [])], 'body': h.body.decode('latin1'),
        'exc': None if h.exc is None else '%s: %r' % (type(h.exc).__name__, h.exc.args), 'where': h.exc_where,
        'complete': h.complete, 'starts': len(h.started),
    }


def alone(ctx, static, ti, ri):
    """the answer of a new application in a process that has never served anything else"""
    r = ctx.plan['threads'][ti][ri]
    return describe(serve(ctx, build(ctx.plan, ctx, static, []), environ(ctx, r), stop_after=r.get('stop')))


def model_check(ctx, plan, r, d, h):
    path, ep, args = target(r)
    rid = r['id']
    x = r.get('x') or {}
    host = x.get('fwd', r.get('host', 'sim.example'))
    if d['status'] and any(k == 'X-Echo' for k, v in d['headers']):
        vals = [v for k, v in d['headers'] if k == 'X-Echo']
        ctx.check(vals == [rid], 'foreign-answer', 'request %s (%s) got the answer of %s', rid, path, vals)
    if 'header' in plan['middleware'] and d['status'] and 'X-Wrap' in dict(map(tuple, d['headers'])):
        vals = [v for k, v in d['headers'] if k == 'X-Wrap']
        ctx.check(vals == [rid], 'foreign-answer', 'request %s: wrapper saw %s', rid, vals)
    if r.get('stop') is not None or r.get('cut') is not None:
        return
    if r.get('sub') == 'raw' and r['m'] != 'HEAD':
        want = 'raw %s/raw /x%d' % (r.get('outer', ''), r['v'])
        ctx.check(d['body'].encode('latin1').decode('utf-8') == want, 'wrong-body', 'request %s for a mounted application was answered %r, expected %r', rid, d['body'], want)
    if ep is None or r['g'] in ('json', 'loc'):
        return
    if r['m'] not in ('GET', 'HEAD') and not (r['m'] == 'POST' and ep in ('up', 'cls')) and not (r['m'] == 'PUT' and ep == 'cls'):
        return
    if ep == 'neg':
        acc = r.get('accept')
        if acc in TYPES and acc not in plan['types']:
            ctx.check(not (d['status'] or '').startswith('2'), 'unacceptable-served', '%s accepts only %s, answer %s', rid, acc, d['body'])
            return
        if acc not in plan['types'] and acc is not None and acc != '*/*':
            return
    ctx.check(d['exc'] is None, 'request-failed', 'request %s (%s %s) failed: %s', rid, r['m'], path, d['exc'])
    if r.get('cond') and r['v'] % 2 and d['status'].startswith('304') and r['m'] in ('GET', 'HEAD'):
        return
    ctx.check(d['status'].startswith('200'), 'request-failed', 'request %s (%s %s) answered %s %s', rid, r['m'], path, d['status'], d['body'][:100])
    if r['m'] == 'HEAD':
        ctx.check(d['body'] == '', 'head-body', 'HEAD answered with a body')
        return
    if ep == 'stream':
        exp = ''.join('%s:%d:%s\n' % (rid, i, path) for i in range(r['v'] % 5))
        ctx.check(d['body'] == exp, 'wrong-body', 'request %s streamed %r, expected %r', rid, d['body'], exp)
        return
    got = json.loads(d['body'])
    exp = {
        'ep': ep, 'args': {k: [type(v).__name__, str(v)] for k, v in args.items()}, 'm': r['m'], 'id': rid,
        'c': dict(reversed([tuple(x) for x in r['c']])) if len({k for k, v in r['c']}) == len(r['c']) else got['c'],
        'auth': r.get('auth'), 'host': host, 'qs': urlencode(r['q']), 'app': True,
        'path': '/' if r['g'] == 'mount' else path,
    }
    exp['root'] = r.get('outer', '') + {'echo': '/sub', 'deep': '/sub/deep'}.get(r.get('sub'), '')
    exp.update({'xhr': 'xhr' in x, 'ref': x.get('ref'), 'scheme': r.get('scheme', 'http'), 'user': x.get('user'), 'enc': x.get('enc'), 'ua': x.get('ua'),
                'addr': '10.9.8.%d' % len(x['user']) if 'user' in x else None,
                'pragma': sorted(x['pragma'].split(', ')) if 'pragma' in x else [],
                'ims': datetime.utcfromtimestamp(x['ims']).isoformat() if 'ims' in x else None,
                'range': [[x['range'][0], None if x['range'][1] is None else x['range'][1] + 1]] if 'range' in x else None})
    ct = r.get('ct', 'text/plain') if r.get('b') is not None else ''
    exp['mime'] = ct.split(';')[0].lower()
    exp['params'] = dict(z.strip().split('=') for z in ct.split(';')[1:])
    want = '%s://%s/' % (r.get('scheme', 'http'), host)
    ctx.check(got['urls2'][0] == want and got['url'].startswith(want), 'wrong-view', 'request %s for %s saw %s, %s', rid, want, got['urls2'], got['url'])
    want_q = sorted([k, v] for k, v in r['q'])
    if want_q or got['q']:
        exp['q'] = want_q
        got['q'] = sorted(got['q'])
    if r.get('via'):
        exp['via'] = r['via']
    if r.get('etags') and not r.get('cond'):
        exp['etags'] = sorted(r['etags'])
    if r.get('maxage') is not None:
        exp['maxage'] = r['maxage']
    if r['m'] in ('POST', 'PUT') and ep in ('up', 'cls'):
        exp['body'] = r.get('b') or ''
    if ep == 'neg' and r.get('accept') in plan['types']:
        exp['type'] = r['accept']
    base = '/app' if plan['root'].endswith('app') else ''
    exp['urls'] = ([base + '/item/%d?q=%s' % (len(rid) + 1, rid)] if 'item' in plan['groups'] else []) + [base + '/', base + '/?q=%s' % EQUAL[ord(rid[0]) % len(EQUAL)]]
    for k in exp:
        ctx.check(got.get(k) == exp[k], 'wrong-view', 'handler of request %s (%s) saw %s=%r, the client sent %r', rid, path, k, got.get(k), exp[k])


def execute(ctx):
    plan = ctx.plan
    static = None
    if 'shared' in plan['middleware']:
        ctx.scratch = static = tempfile.mkdtemp(prefix='dst-c01-')
        os.mkdir(os.path.join(static, 'd'))
        for n, c in (('f0.txt', b'zero'), ('f1.txt', b'one' * 50), ('d/f2.bin', bytes(range(200)))):
            p = os.path.join(static, n)
            with open(p, 'wb') as f:
                f.write(c)
            os.utime(p, (plan['t0'] - 1000, plan['t0'] - 1000))
    solo = {}
    for ti, th in enumerate(plan['threads']):
        for ri, r in enumerate(th):
            if plan.get('iso'):
                solo[ti, ri] = ctx.pristine(alone, static, ti, ri)
            else:
                app = build(plan, ctx, static, [])
                solo[ti, ri] = describe(serve(ctx, app, environ(ctx, r), stop_after=r.get('stop')))
    closed = []
    app = build(plan, ctx, static, closed)
    results = []

    def worker(ti, th):
        def run():
            for ri, r in enumerate(th):
                env = environ(ctx, r)
                h = serve(ctx, app, env, stop_after=r.get('stop'))
                results.append((ti, ri, r, h))
                ctx.log(ti, ri, h.status, h.body)
        return run
    fns = [worker(i, t) for i, t in enumerate(plan['threads'])]
    if len(fns) == 1:
        fns[0]()
    elif fns:
        ctx.run_threads(fns)
    for ti, ri, r, h in results:
        d = describe(h)
        ctx.states.add('%s|%s|%s' % (r['g'], r['m'], (d['status'] or d['exc'] or '')[:3]))
        model_check(ctx, plan, r, d, h)
        s = solo[ti, ri]
        for k in ('exc', 'status', 'body', 'headers', 'where', 'complete', 'starts'):
            ctx.check(d[k] == s[k], 'differs-from-solo', 'request %s (%s %s): %s is %.300r, a fresh application answers %.300r',
                      r['id'], r['m'], target(r)[0], k, d[k], s[k])
    for what, rid in closed:
        n = closed.count((what, rid))
        m = sum(1 for x in results if x[2]['id'] == rid)
        ctx.check(n <= m, 'foreign-cleanup', 'cleanup of request %s ran %d times', rid, n)
    if len(results) > 1:
        ctx.probe('nontrivial')
    ctx.probe('requests', len(results))
