"""C15: the test client following redirects through a changing, failing site."""
from itertools import chain
from urllib.parse import urlsplit, urljoin, quote, unquote

from ..core import Violation
from ..gen import wchoice, text
from ..server import make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.exceptions import HTTPException
from verktyg.responses import BaseResponse, Response
from verktyg.routing import Route
from verktyg.test import Client, ClientRedirectError, EnvironBuilder
from verktyg.utils import redirect

ID = 'C15'
QUICK = 60000
THOROUGH = 1500000
BATCH = 250
SHRINK = ('steps', 'nodes', 'nodes.*', 'nodes.*.*.set')
RULE = ('Seeded plans: 1-3 clients (cookies on or off, wrapped or plain, subdomains allowed or not) walk through a site of 2-6 pages '
        'below any mount point, whose pages redirect absolutely, relatively, by status, by cookie and by number of visits, loop, leave the site, '
        'change while the client is on its way and fail in the call, in the body or while closing; the clock moves between hops and cookies expire.  '
        'Oracle: every request the site saw must be the one the previous answer asked for, and the chain must end exactly where the answers end it.')
REAL = ['verktyg.test.Client, run_wsgi_app, EnvironBuilder, cookie jar', 'verktyg.utils.redirect, Response, routing redirects (pages served by an application)']
STUB = ['pages of the site', 'clock', 'recording gateway between client and site']
ASSUMPTIONS = ['every redirect names its target in a Location header', 'a body is not sent again to the target of a 307',
               'with subdomains allowed, redirects back to the parent domain are not judged', 'instants within two seconds of a cookie expiry are not judged']

FOLLOWED = (301, 302, 303, 305, 307)
HOST = 'sim.example'
NAMES = ['sid', 'lang', 'u']
ROOTS = ['', '', '/app', '/app/v1', '/my app', '/r%20t', '/ä']
DIRS = ['', 'd/', 'd/e/', 'sp ace/', 'ü/', 'q?m/', '100%/', 'a;b=c/', 'x+y/', '50%25/', 'x%2Fy/', 'a%20b/', '%C3%BC/']
QS = [None, None, '', 'a=1', 'a=%20b&c=%C3%BC', 'u=http://x/?y', 'plus=a+b', 'a=1&a=2', '%26=%3D']


class Err(Exception):
    pass


class BaseErr(BaseException):
    pass


EXC = {'Err': Err, 'BaseErr': BaseErr, 'OSError': OSError, 'RuntimeError': RuntimeError, 'KeyError': KeyError}


def gen_target(rng, n):
    t = {'node': rng.randrange(n), 'qs': rng.choice(QS),
         'form': wchoice(rng, [(6, 'abs'), (2, 'path'), (1.2, 'rel'), (0.6, 'net'), (0.5, 'query'), (0.5, 'dot')]),
         'frag': rng.choice([None, None, None, 'top', 'a?b']),
         'host': wchoice(rng, [(9, 'same'), (1.2, 'sub'), (0.7, 'other'), (0.5, 'suffix'), (0.8, 'port'), (0.3, 'parent')]),
         'scheme': wchoice(rng, [(8, 'same'), (1, 'https')]), 'slash': rng.random() < 0.7}
    if rng.random() < 0.05:
        t['bare'] = True
    if rng.random() < 0.08:
        t['outside'] = True
    return t


def gen_act(rng, n):
    k = wchoice(rng, [(5, 'redirect'), (3, 'final'), (0.7, 'fail'), (0.8, 'odd')])
    a = {'do': k, 'style': wchoice(rng, [(4, 'eager'), (2, 'lazy'), (3, 'lib')]), 'items': [text(rng, 3, 'abc') for _ in range(rng.randint(0, 3))]}
    if k in ('redirect', 'fail'):
        a['code'] = rng.choice([301, 302, 302, 303, 305, 307, 307])
        a['to'] = gen_target(rng, n)
    if k == 'odd':
        a['code'] = rng.choice([300, 304, 308, 306, 201])
        a['to'] = gen_target(rng, n)
    if k == 'fail':
        a['at'] = rng.choice(['call', 'body', 'close'])
        a['exc'] = rng.choice(sorted(EXC))
        a['redirects'] = rng.random() < 0.6
        a['style'] = rng.choice(['eager', 'lazy'])
    if rng.random() < 0.3:
        a['set'] = [{'k': k, 'v': text(rng, 3, 'abc1'), 'age': rng.choice([None, None, 5, 30, 3600, 0])} for k in rng.sample(NAMES, rng.randint(1, 2))]
    if rng.random() < 0.2:
        a['gate'] = rng.choice(NAMES)         # only without this cookie; with it the page is final
    if rng.random() < 0.2:
        a['wait'] = rng.choice([1, 3, 10, 40, 4000])
    if rng.random() < 0.06:
        a['jump'] = rng.choice([-10, -5000, 7000])
    return a


def generate(rng, tier):
    n = rng.randint(2, 6)
    nodes = []
    for i in range(n):
        nodes.append([gen_act(rng, n) for _ in range(wchoice(rng, [(6, 1), (2, 2), (1, 3)]))])
    if rng.random() < 0.5:
        nodes[-1] = [{'do': 'final', 'style': 'eager', 'items': ['end']}]
    if rng.random() < 0.3:
        for i in range(n - 1):                # one long way
            nodes[i] = [{'do': 'redirect', 'style': rng.choice(['eager', 'lib']), 'items': [], 'code': rng.choice(FOLLOWED), 'to': dict(gen_target(rng, n), node=i + 1, host='same')}]
    clients = [{'cookies': rng.random() < 0.8, 'wrap': rng.random() < 0.5, 'sub': rng.random() < 0.3} for _ in range(rng.randint(1, 3))]
    steps = []
    for _ in range(rng.randint(1, 5)):
        steps.append({'c': rng.randrange(len(clients)), 'node': wchoice(rng, [(3, 0), (2, rng.randrange(n))]), 'qs': rng.choice(QS), 'm': wchoice(rng, [(5, 'GET'), (3, 'POST'), (0.5, 'PUT'), (0.5, 'DELETE')]),
                      'follow': rng.random() < 0.85, 'buf': rng.random() < 0.5, 'tuple': rng.random() < 0.3, 'slash': rng.random() < 0.7,
                      'how': wchoice(rng, [(5, 'kwargs'), (2, 'builder'), (2, 'environ'), (1, 'short')]), 'wait': rng.choice([0, 0, 0, 2, 20, 4000])})
    return {'nodes': nodes, 'dirs': [rng.choice(DIRS) for _ in range(n)], 'root': rng.choice(ROOTS), 'clients': clients, 'steps': steps,
            'port': rng.choice(['', '', '', ':8080']), 't0': 1450000000 + rng.randrange(10**8)}


class Tracker(object):
    """the iterable the client gets"""
    def __init__(self, ctx, entry, inner, act):
        self.ctx = ctx
        self.entry = entry
        self.inner = inner
        self.act = act

    def __iter__(self):
        for i in self.inner:
            self.entry['sent'].append(i)
            yield i
        if self.act.get('at') == 'body':
            self.ctx.fault('page.body')
            raise self.entry['exc']

    def close(self):
        self.entry['closed'] += 1
        c = getattr(self.inner, 'close', None)
        if c is not None:
            c()
        if self.act.get('at') == 'close':
            self.ctx.fault('page.close')
            raise self.entry['exc']


class Site(object):
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.visits = [0] * len(plan['dirs'])
        self.log = []
        self.act = None
        b = ApplicationBuilder()
        for i, d in enumerate(plan['dirs']):
            # raw text of the route: nothing in these names is special to the router
            b.add_routes(Route('/%sp%d/' % (d, i), endpoint='p%d' % i))
            b.add_bindings(*[Binding('p%d' % i, (lambda i: lambda app, req: self.page(i, req))(i), method=m) for m in ('GET', 'POST', 'PUT', 'DELETE')])
        b.add_exception_handler(HTTPException, lambda app, req, t, v, tb: Response('no such page', status=v.code))
        self.app = b()

    def path(self, i, slash=True):
        return '/%sp%d%s' % (self.plan['dirs'][i], i, '/' if slash else '')

    def location(self, to, here):
        """the Location header as the page writes it"""
        root = '' if to.get('outside') else self.plan['root']
        path = quote(root + self.path(to['node'], to['slash']))
        host = HOST + self.plan['port']
        host = {'same': host, 'sub': 'sub.' + host, 'other': 'other.example', 'suffix': 'evil' + host, 'port': HOST + ':9090', 'parent': 'example'}[to['host']]
        scheme = 'https' if to['scheme'] == 'https' else 'http'
        if to.get('bare'):
            path = ''
        tail = ('' if to['qs'] is None else '?' + to['qs']) + ('' if to['frag'] is None else '#' + to['frag'])
        form = to['form']
        if to['host'] != 'same' and form not in ('abs', 'net'):
            form = 'abs'
        if form == 'abs' or to.get('bare'):
            return '%s://%s%s%s' % (scheme, host, path, tail)
        if form == 'net':
            return '//%s%s%s' % (host, path, tail)
        if form == 'query':
            return '?again=%d' % to['node'] if not to['qs'] else '?' + to['qs']
        if form == 'rel':
            return '../' * here.count('/') + path[1:] + tail
        if form == 'dot':
            return './' + tail
        return path + tail

    def page(self, i, req):
        """a page served by the real application"""
        n = self.visits[i]
        acts = (self.plan['nodes'][i:i + 1] or [[]])[0] or [{'do': 'final', 'style': 'eager', 'items': []}]
        act = dict(acts[n % len(acts)])
        self.visits[i] += 1
        if act.get('gate') and act['gate'] in req.cookies:
            act = {'do': 'final', 'style': act['style'], 'items': act['items'] + ['gate'], 'set': act.get('set') or []}
        if act.get('wait'):
            self.ctx.clock.advance(act['wait'])
        if act.get('jump'):
            self.ctx.fault('clock.step')
            self.ctx.clock.jump(self.ctx.clock.read() + act['jump'])
        self.entry['act'] = act
        if act['do'] == 'fail' and act['at'] == 'call':
            self.ctx.fault('page.call')
            raise self.entry['exc']
        goes = act['do'] in ('redirect', 'odd') or act.get('redirects')
        here = req.environ['SCRIPT_NAME'] + req.environ['PATH_INFO']
        if goes and act['style'] == 'lib' and act['code'] in (301, 302, 303, 305, 307):
            to = dict(act['to'])
            if to['form'] in ('rel', 'query', 'dot'):
                to['form'] = 'path'           # the library resolves other forms against the root of the application
            resp = redirect(self.location(to, here), act['code'])
        elif goes:
            loc = self.location(act['to'], here)

            class Raw(Response):
                autocorrect_location_header = False
            resp = Raw([x.encode() for x in act['items']], status='%d Go' % act['code'], headers=[('Location', loc)])
        else:
            resp = Response([x.encode() for x in act['items']], status=200)
        resp.headers['X-Page'] = '%d.%d' % (i, n)
        for s in act.get('set') or []:
            resp.set_cookie(s['k'], s['v'], max_age=s['age'])
        return resp

    def __call__(self, env, start):
        entry = {'m': env['REQUEST_METHOD'], 'scheme': env['wsgi.url_scheme'], 'host': env['HTTP_HOST'], 'script': env['SCRIPT_NAME'], 'path': env['PATH_INFO'],
                 'qs': env['QUERY_STRING'], 'cookies': env.get('HTTP_COOKIE'), 'now': self.ctx.clock.read(), 'closed': 0, 'sent': [], 'status': None, 'headers': [],
                 'body': env['wsgi.input'].read(int(env.get('CONTENT_LENGTH') or 0)), 'act': {}, 'tracked': False}
        exc = self.plan_exc()
        entry['exc'] = exc
        self.log.append(entry)
        self.entry = entry
        if len(self.log) > 400:
            raise Violation('endless', 'the client follows redirects without end: %d requests, last %s' % (len(self.log), brief(entry)))

        def st(status, headers, exc_info=None):
            entry['status'], entry['headers'] = status, list(headers)
            entry['end'] = self.ctx.clock.read()
            return start(status, headers, exc_info)
        held = []

        def late(status, headers, exc_info=None):
            held.append((status, headers))
            return None
        # which style the page wants is known only after it ran, so its start is held back
        rv = self.app(env, late)
        it = iter(rv)
        ahead = []
        try:
            while not held:
                ahead.append(next(it))
        except StopIteration:
            pass
        act = entry['act']
        entry['exc'] = EXC[act['exc']]('page failed') if act.get('exc') and act['at'] != 'call' else exc
        entry['tracked'] = True
        if act.get('style') == 'lazy':
            def lazily():
                st(*held[0])
                for x in chain(ahead, it):
                    yield x
            return Tracker(self.ctx, entry, Closer(lazily(), rv), act)
        st(*held[0])
        return Tracker(self.ctx, entry, Closer(chain(ahead, it), rv), act)

    def plan_exc(self):
        return CallErr('page failed')


class CallErr(Exception):
    pass


class Closer(object):
    def __init__(self, it, rv):
        self.it = it
        self.rv = rv

    def __iter__(self):
        return self.it

    def close(self):
        if hasattr(self.it, 'close'):
            self.it.close()
        if hasattr(self.rv, 'close'):
            self.rv.close()


def brief(e):
    return '%s %s://%s%s%s?%s' % (e['m'], e['scheme'], e['host'], e['script'], e['path'], e['qs'])


class Jar(object):
    """cookies of one client, as the answers asked for them"""
    def __init__(self):
        self.c = {}
        self.foreign = set()
        self.unknown = set()                  # names nothing is claimed about

    def store(self, e, reached=True):
        for k, v in e['headers']:
            if k.lower() != 'set-cookie':
                continue
            name, rest = v.split('=', 1)
            if e['host'].split(':')[0] != HOST:
                self.foreign.add(name)        # now there are two of that name
            if not reached:                   # the answer failed before the client had it
                self.unknown.add(name)
                continue
            self.unknown.discard(name)
            parts = rest.split('; ')
            exp = None
            for p in parts[1:]:
                if p.lower().startswith('max-age='):
                    exp = e['end'] + int(p.split('=')[1])
            self.c[name] = (parts[0], exp)
            if exp is not None and exp <= e['end']:
                del self.c[name]

    def check(self, ctx, e, what, judged=True):
        got = dict(x.split('=', 1) for x in e['cookies'].split('; ')) if e['cookies'] else {}
        for k, (v, exp) in list(self.c.items()):
            if exp is not None and abs(exp - e['now']) < 2:
                self.unknown.add(k)
            elif exp is not None and exp < e['now']:
                del self.c[k]                 # a client forgets what has expired
        exp = {k: v for k, (v, x) in self.c.items() if k not in self.unknown and k not in self.foreign}
        got = {k: v for k, v in got.items() if k not in self.unknown and k not in self.foreign}
        ctx.check(got == exp or not judged, 'cookies', '%s: the site got the cookies %r, the client holds %r', what, got, exp)


def code_of(e):
    return int(e['status'].split()[0])


def wsgi(s):
    return s.encode('utf-8').decode('latin1')


def execute(ctx):
    plan = ctx.plan
    site = Site(ctx, plan)
    clients = []
    for c in plan['clients']:
        clients.append((Client(site, response_wrapper=BaseResponse if c['wrap'] else None, use_cookies=c['cookies'], allow_subdomain_redirects=c['sub']), c, Jar()))
    for s in plan['steps']:
        if s['c'] >= len(clients) or s['node'] >= len(plan['nodes']):
            continue
        if s['wait']:
            ctx.clock.advance(s['wait'])
        visit(ctx, plan, site, s, *clients[s['c']])


def visit(ctx, plan, site, s, client, conf, jar):
    first = len(site.log)
    base = 'http://%s%s%s/' % (HOST, plan['port'], quote(plan['root']))
    path = site.path(s['node'], s['slash'])
    kw = {'path': quote(path), 'base_url': base, 'method': s['m']}
    if s['qs'] is not None:
        kw['query_string'] = s['qs']
    if s['m'] in ('POST', 'PUT'):
        kw['data'] = b'sent data'
    opts = {'follow_redirects': s['follow'], 'buffered': s['buf'], 'as_tuple': s['tuple']}
    what = '%s %s%s%s' % (s['m'], base[:-1], quote(path), '' if s['follow'] else ' (not following)')
    err = result = None
    try:
        if s['how'] == 'builder':
            b = EnvironBuilder(**kw)
            result = client.open(b, **opts)
        elif s['how'] == 'environ':
            b = EnvironBuilder(**kw)
            result = client.open(b.get_environ(), **opts)
        elif s['how'] == 'short':
            m = getattr(client, kw.pop('method').lower())
            result = m(kw.pop('path'), **dict(kw, **opts))
        else:
            result = client.open(**dict(kw, **opts))
    except (Violation, KeyboardInterrupt):
        raise
    except BaseException as e:
        if type(e).__name__ in ('SimAbort', 'GeneratorExit'):
            raise
        err = e
    log = site.log[first:]
    ctx.log(what, [brief(e) for e in log], [e['status'] for e in log], type(err).__name__)
    ctx.states.add('%d|%s|%s|%s|%s' % (min(len(log), 5), type(err).__name__, conf['sub'], bool(plan['root']), s['how']))
    if len(log) > 2 or err is not None:
        ctx.probe('nontrivial')
    ctx.check(len(log) >= 1, 'not-sent', '%s: no request was sent: %r', what, err)
    # the first request
    e = log[0]
    ctx.check((e['m'], e['scheme'], e['host'], e['script'], e['path'], e['qs']) == (s['m'], 'http', HOST + plan['port'], wsgi(plan['root']), wsgi(path), s['qs'] or ''),
              'first-request', '%s: the site got %s', what, brief(e))
    ctx.check(e['body'] == kw.get('data', b''), 'first-body', '%s: the site got the body %r', what, e['body'])
    seen = []
    inside = True
    judged = True
    for i, e in enumerate(log):
        here = '%s: request %d' % (what, i + 1)
        if conf['cookies']:
            jar.check(ctx, e, here, e['host'].split(':')[0] == HOST)
        else:
            ctx.check(e['cookies'] is None, 'cookies', '%s: cookies are off, the site got %r', here, e['cookies'])
        last = i == len(log) - 1
        if e['status'] is not None:
            jar.store(e, reached=not last or err is None)
        act = e['act']
        # does the chain go on?
        fails = act.get('do') == 'fail'
        if not e['tracked']:
            ctx.check(last and err is e['exc'], 'page-error', '%s: the page failed with %r, the client reports %r', here, e['exc'], err)
            return
        if fails and (act['at'] == 'close' or act['at'] == 'body') and (s['buf'] or (act['at'] == 'close' and s['follow'] and code_of(e) in FOLLOWED)):
            ctx.check(last and err is e['exc'], 'page-error', '%s: the page failed with %r (%s), the client reports %r', here, e['exc'], act['at'], err)
            judge_closed(ctx, e, here)
            return
        if act.get('style') == 'lazy' and fails and act['at'] == 'body' and not e['sent'] and err is e['exc']:
            judge_closed(ctx, e, here)        # failed together with its start
            return
        code = code_of(e)
        if code not in FOLLOWED or not s['follow']:
            ctx.check(last, 'wrong-turn', '%s was answered %s, but the client went on to %s', here, e['status'], brief(log[min(i + 1, len(log) - 1)]))
            ctx.check(err is None, 'spurious-error', '%s was answered %s, the client reports %r', here, e['status'], err)
            break
        judge_closed(ctx, e, here)
        loc = dict((k.lower(), v) for k, v in e['headers'])['location']
        if (loc, code) in seen:
            ctx.check(last and isinstance(err, ClientRedirectError), 'loop', '%s redirects to %s a second time, the client %s', here, loc,
                      'reports %r' % err if last else 'goes on')
            return
        seen.append((loc, code))
        cur = '%s://%s%s%s' % (e['scheme'], e['host'], quote((e['script'] + e['path']).encode('latin1')), '?' + e['qs'] if e['qs'] else '')
        to = urlsplit(urljoin(cur, loc))
        if not e['path'] and '://' not in loc:
            return                            # relative to the bare root
        here_host, to_host = e['host'].split(':')[0], to.netloc.split(':')[0]
        if here_host.endswith('.' + to_host) and conf['sub']:
            return
        ok = to_host == here_host or (conf['sub'] and to_host.endswith('.' + here_host))
        if not ok:
            ctx.check(last and isinstance(err, RuntimeError), 'external', '%s redirects to another site (%s), the client %s', here, loc,
                      'reports %r' % err if last else 'sends %s there' % brief(log[min(i + 1, len(log) - 1)]))
            return
        ctx.check(not last, 'not-followed', '%s redirects to %s (%d), the client stops with %r', here, loc, code, err)
        n = log[i + 1]
        full = wsgi(unquote(to.path))
        root = wsgi(plan['root'])
        want = (e['m'] if code == 307 else 'GET', to.scheme, to.netloc, to.query)
        ctx.check((n['m'], n['scheme'], n['host'], n['qs']) == want, 'wrong-request', '%s redirects to %s (%d), the client sends %s', here, loc, code, brief(n))
        ctx.check(n['script'] + n['path'] == full or (not full and n['path'] == '/' and not n['script']), 'wrong-request', '%s redirects to %s (%d), the client sends %s', here, loc, code, brief(n))
        inside = inside and (full == root or full.startswith(root + '/'))
        if inside and full:
            ctx.check(n['script'] == root, 'wrong-root', '%s redirects to %s within the application at %s, the client sends SCRIPT_NAME %r, PATH_INFO %r', here, loc, root, n['script'], n['path'])
        if n['m'] == 'GET':
            ctx.check(n['body'] == b'', 'body-again', '%s redirects to %s (%d), the client sends the body %r along', here, loc, code, n['body'])
    e = log[-1]
    ctx.check(err is None, 'spurious-error', '%s: the client reports %r', what, err)
    if s['tuple']:
        env, result = result
        ctx.check((env['REQUEST_METHOD'], env['PATH_INFO'], env['QUERY_STRING']) == (e['m'], e['path'], e['qs']), 'environ', '%s: the returned environ is of %s %s?%s, the last request was %s',
                  what, env['REQUEST_METHOD'], env['PATH_INFO'], env['QUERY_STRING'], brief(e))
    ctx.check(isinstance(result, BaseResponse) == conf['wrap'], 'wrapper', '%s: the client of a %s result returned %r', what, 'wrapped' if conf['wrap'] else 'plain', type(result))
    if conf['wrap']:
        status, headers, it = result.status, result.headers, result.iter_encoded()
        closer = result.close
    else:
        it, status, headers = result
        closer = getattr(it, 'close', None)
    ctx.check(status == e['status'], 'final', '%s: the result has status %r, the last answer %r', what, status, e['status'])
    got = [tuple(x) for x in headers.to_wsgi_list()]
    if conf['wrap'] and not any(k.lower() == 'content-type' for k, v in e['headers']):
        got = [x for x in got if x[0].lower() != 'content-type']     # a response object has one in any case
    ctx.check(got == e['headers'], 'final', '%s: the result has headers %r, the last answer %r', what, got, e['headers'])
    items = []
    fail = None
    try:
        for x in it:
            items.append(x)
    except BaseException as x:
        if x is not e['exc']:
            raise
        fail = x
    exp = b''.join(x.encode() for x in e['act'].get('items') or [])
    if e['act'].get('do') in ('redirect', 'odd', 'final', 'fail') and e['act']['style'] != 'lib' and code_of(e) not in (304, 204):
        ctx.check(b''.join(items) == exp, 'final', '%s: the result has the body %r, the last answer %r', what, b''.join(items), exp)
    ctx.check(b''.join(items) == b''.join(e['sent']), 'final', '%s: the result has the body %r, the last answer %r', what, b''.join(items), b''.join(e['sent']))
    ctx.check((fail is not None) == (e['act'].get('do') == 'fail' and e['act']['at'] == 'body'), 'final', '%s: the failure of the last page was lost', what)
    if not s['buf'] and closer is not None:
        try:
            closer()
        except BaseException as x:
            if x is not e['exc']:
                raise
    judge_closed(ctx, e, what)


def judge_closed(ctx, e, what):
    ctx.check(e['closed'] == 1, 'close-count', '%s: the answer was closed %d times', what, e['closed'])
