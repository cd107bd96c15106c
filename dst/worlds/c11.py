"""C11: cookie sessions of several clients over simulated time."""
import datetime
import re
import time as _time
from email.utils import parsedate_to_datetime

from ..gen import wchoice, text, TZS
from ..core import sched_knobs
from ..server import serve, make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.http import dump_cookie, parse_cookie
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.routing import Route
from verktyg.test import Client

ID = 'C11'
QUICK = 60000
THOROUGH = 1500000
BATCH = 150
SHRINK = ('steps', 'steps.*.sets', 'steps.*.segs')
RULE = ('Seeded plans: 1-3 clients (the library\'s test client or an independent RFC 6265 user agent, modern or one that only knows Expires), '
        'an application that sets, overwrites and deletes cookies with any text value and lifetime, redirects, clock advances and steps, '
        'time zones, several hosts, paths and schemes, cookie headers damaged on the way, clients in parallel threads.  '
        'Oracle: per client model of the cookies the application asked for.')
REAL = ['verktyg.http.cookies', 'verktyg.responses.set_cookie/delete_cookie', 'verktyg.requests.cookies', 'verktyg.test.Client with its jar']
STUB = ['RFC 6265 user agent (independent)', 'WSGI server loop for it', 'clock', 'header damage']
ASSUMPTIONS = ['cookie names are HTTP tokens other than expires, path, comment, max-age, secure, httponly and version, which the library ignores in requests by design', 'values are encodable text',
               'instants within two seconds of an expiry are not judged', 'at most one unterminated quote in a damaged header']

KEYCH = "abcXYZ019!#%&'*+-.^_`|~"
RESERVED = {'expires', 'path', 'comment', 'max-age', 'secure', 'httponly', 'version'}      # ignored in requests by design
VALCH = ['abc019', 'ab ;,"\\=', '\\"0123', 'é€\U0001f600ÿ', '\x00\t\n\r\x1f\x7f ', '%&+/:?@', 'ab"']
PATHS = [['/', '/', '/'], ['/a', '/a', '/a'], ['/a/b', '/a/b', '/a/b'], ['/sp ace', '/sp%20ace', '/sp ace'], ['/ü', '/%C3%BC', '/ü']]
REQPATHS = [['/', '/'], ['/a', '/a'], ['/a/b', '/a/b'], ['/a/b/c', '/a/b/c'], ['/ab', '/ab'], ['/sp ace/x', '/sp%20ace/x'], ['/ü/x', '/%C3%BC/x']]
EDGES = [1509253200, 1509256800, 1520737200, 1478412000, 951782400, 1456704000, 1483228799, 2147483600, 4102444800 - 5, 100000]


def gen_value(rng):
    k = rng.random()
    if k < 0.12:
        return ''
    if k < 0.2:
        return rng.choice(['"', '""', '"a"', '\\', '\\\\', '\\101', '"\\101"', ' ', ' a ', ';', 'a;b=c', '=', ',', '\\054', '"a', 'a"', '\n', '\xa0x\x85', 'a\\', '"\\"'])
    return text(rng, rng.choice([1, 2, 3, 5, 12]), rng.choice(VALCH) + 'a')


def gen_set(rng, nkeys):
    s = {'k': rng.randrange(nkeys)}
    if rng.random() < 0.2:
        s['del'] = True
        return s
    s['v'] = gen_value(rng)
    k = rng.random()
    if k < 0.35:
        s['age'] = rng.choice([1, 5, 30, 60, 3600, 86400, 86400 * 400, 10, 0, -5])
        s['agekind'] = rng.choice(['int', 'delta'])
    elif k < 0.7:
        s['exp'] = rng.choice([5, 30, 60, 3600, 86400, 86400 * 400, -60, -86400, 10])
        s['expkind'] = rng.choice(['datetime', 'aware', 'int', 'float', 'struct', 'str'])
    if rng.random() < 0.2:
        s['httponly'] = True
    return s


def generate(rng, tier):
    nkeys = rng.randint(1, 4)
    names = []
    while len(names) < nkeys:
        n = text(rng, rng.choice([1, 1, 2, 5]), KEYCH)
        if n.lower() not in RESERVED and n.lower() not in [x.lower() for x in names]:
            names.append(n)
    if rng.random() < 0.15 and nkeys > 1:
        names[0], names[1] = 'q', 'Q'          # names are case sensitive
    if rng.random() < 0.1:
        names[0] = rng.choice(['path2', 'xexpires', 'expire', 'secured', 'domain', 'Domain', 'samesite', 'SameSite', 'max', 'port', 'discard', 'commenturl', 'partitioned', 'priority'])
    names = list(dict.fromkeys(names))
    nkeys = len(names)
    lib_only = rng.random() < 0.5
    clients = ['lib' if lib_only else rng.choice(['lib', 'modern', 'netscape', 'modern']) for _ in range(wchoice(rng, [(2, 1), (3, 2), (1, 3)]))]
    keys = []
    for n in names:
        k = {'n': n, 'path': 0, 'domain': None, 'secure': False}
        if 'lib' not in clients:
            if rng.random() < 0.4:
                k['path'] = rng.randrange(len(PATHS))
            if rng.random() < 0.3:
                k['domain'] = rng.choice(['sim.example', '.sim.example', 'sim.example:8080'])
            if rng.random() < 0.2:
                k['secure'] = True
        keys.append(k)
    par = len(clients) > 1 and rng.random() < 0.15
    steps = []
    for _ in range(rng.randint(1, 10)):
        c = rng.randrange(len(clients))
        op = wchoice(rng, [(7, 'req'), (0 if par else 2.5, 'advance'), (0 if par else 0.5, 'jump'), (1, 'cset'), (0.5, 'cdel'), (1.5, 'raw')])
        s = {'c': c, 'op': op}
        if op == 'req':
            s['sets'] = []
            for _ in range(wchoice(rng, [(2, 0), (4, 1), (2, 2), (1, 4)])):
                x = gen_set(rng, nkeys)
                if x['k'] not in [y['k'] for y in s['sets']] or rng.random() < 0.4:
                    s['sets'].append(x)
            s['redirect'] = clients[c] == 'lib' and rng.random() < 0.25
            s['path'] = rng.randrange(len(REQPATHS)) if 'lib' not in clients else 0
            s['host'] = rng.choice(['sim.example', 'a.sim.example', 'sim.example']) if 'lib' not in clients else 'sim.example'
            s['scheme'] = rng.choice(['http', 'https']) if 'lib' not in clients else 'http'
        elif op == 'advance':
            s['dt'] = rng.choice([1, 4, 6, 31, 61, 3601, 86401, 86400 * 401, 0.3, 12])
        elif op == 'jump':
            s['dt'] = rng.choice([-3600, -86400, 3600, 7200, -5])
        elif op in ('cset', 'cdel'):
            if clients[c] != 'lib':
                s['op'] = 'req'
                s.update(sets=[], redirect=False, path=0, host='sim.example', scheme='http')
            else:
                s['set'] = gen_set(rng, nkeys)
                if op == 'cdel':
                    s['set'] = {'k': s['set']['k'], 'del': True}
        elif op == 'raw':
            s['segs'] = gen_segs(rng, names)
            s['sep'] = rng.choice(['; ', ';', ' ; ', ';  '])
            s['via'] = rng.choice(['app', 'parse', 'bytes', 'environ'])
        steps.append(s)
    t0 = float(wchoice(rng, [(2, 1500000000), (2, rng.choice(EDGES) + rng.choice([-1800, -2, 0, 5]))])) + rng.choice([0, 0.25, 0.999])
    return {'t0': t0, 'tz': rng.choice(TZS), 'clients': clients, 'keys': keys, 'steps': steps, 'par': par, 'app': rng.choice(['app', 'wsgi']),
            'wrap': rng.choice(['tuple', 'response']), 'sched': sched_knobs(rng)}


def gen_segs(rng, names):
    """well-formed cookies [name, value] between damaged segments (strings of latin-1 bytes)"""
    segs = [[n, gen_value(rng)] for n in names]
    quote = rng.random() < 0.3
    for _ in range(rng.randint(0, 4)):
        k = rng.choice(['word', 'nokey', 'empty', 'bytes', 'bin', 'attr', 'nul', 'octal', 'long', 'quoted'])
        junk = {
            'word': lambda: text(rng, rng.randint(1, 6), 'jk zé!,/'),
            'nokey': lambda: '=' + text(rng, rng.randint(0, 5), 'jkz= '),
            'empty': lambda: ' ' * rng.randint(0, 3),
            'bytes': lambda: 'j\xff=' + text(rng, rng.randint(0, 5), '\xff\xfe\x80j'),
            'bin': lambda: 'j' + text(rng, rng.randint(0, 6), '\x00\x01\x7f\x80\xc3\xe2\xff j=\\'),
            'attr': lambda: rng.choice(['Path=/', 'Secure', 'expires=Thu, 01-Jan-1970 00:00:00 GMT', 'Max-Age=0', 'HttpOnly', '$Version=1', 'Version=1', 'comment=x']),
            'nul': lambda: 'j\x00=\x00',
            'octal': lambda: 'j=\\4\\400\\9' + text(rng, rng.randint(0, 3), '\\019'),
            'quoted': lambda: 'j="' + ''.join(rng.choice(['\\777', '\\4', '\\400', '\\9', '\\\\', '\\"', '\\377', '\\3', '\\08', 'j', ',', ' ', '\\054', '\\073', '\\é'])
                                             for _ in range(rng.randint(1, 5))) + '"',
            'long': lambda: 'j' * 50 + rng.choice(['', '=', '==='] ),
        }[k]()
        segs.insert(rng.randint(0, len(segs)), junk)
    if quote:
        segs.insert(rng.randint(0, len(segs)), 'j' + text(rng, 2, 'jk') + '=' + rng.choice(['"', '"abc', 'ab"c', '"\\', '"\\"', '"a\\101', '"a=b']))
    return segs


def intended(ctx, s, now):
    """-> (value or None when deleted, expiry instant or None)"""
    if s.get('del'):
        return None, 0
    if 'age' in s:
        return s['v'], now + s['age']
    if 'exp' in s:
        return s['v'], int(now) + s['exp']
    return s['v'], None


def set_kwargs(s, now):
    kw = {'value': s['v']}
    if 'age' in s:
        kw['max_age'] = s['age'] if s['agekind'] == 'int' else datetime.timedelta(seconds=s['age'])
    if 'exp' in s:
        t = max(1, int(now) + s['exp'])
        dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
        kw['expires'] = {
            'datetime': lambda: dt, 'int': lambda: t, 'float': lambda: float(t), 'struct': lambda: _time.gmtime(t),
            'aware': lambda: dt.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(hours=-8))),
            'str': lambda: '%s, %02d-%s-%04d %02d:%02d:%02d GMT' % (
                ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][dt.weekday()], dt.day,
                ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][dt.month - 1], dt.year, dt.hour, dt.minute, dt.second),
        }[s['expkind']]()
    if s.get('httponly'):
        kw['httponly'] = True
    return kw


def apply_sets(ctx, res, sets):
    now = ctx.clock.read()
    for s in sets:
        k = ctx.plan['keys'][s['k']]
        where = {'path': PATHS[k['path']][0], 'domain': k['domain']}
        if s.get('del'):
            res.delete_cookie(k['n'], **where)
        else:
            kw = set_kwargs(s, now)
            if k['secure']:
                kw['secure'] = True
            kw.update(where)
            res.set_cookie(k['n'], **kw)


class Model(object):
    """the cookies a client ought to have"""
    def __init__(self):
        self.c = {}         # key index -> [value, expiry, maybe gone, host]

    def apply(self, ctx, sets, now, host):
        for s in sets:
            k = ctx.plan['keys'][s['k']]
            slot = (s['k'], None if k['domain'] else host)
            v, exp = intended(ctx, s, now)
            if v is None:
                self.c.pop(slot, None)
            else:
                self.c[slot] = [v, exp, False]

    def expire(self, ctx, now):
        # an expired cookie is not sent; if the clock steps back before the client noticed it may be again
        for e in self.c.values():
            if e[1] is not None and now > e[1] - 2:
                if not e[2]:
                    ctx.probe('expired')
                e[2] = True

    def expect(self, ctx, host, uripath, scheme):
        must, may = {}, {}
        now = ctx.clock.read()
        for (ki, h), (v, exp, maybe) in self.c.items():
            k = ctx.plan['keys'][ki]
            if exp is not None and now >= exp + 2:
                continue
            if h is not None and h != host:
                continue
            p = PATHS[k['path']][1]
            if not (uripath == p or uripath.startswith(p if p.endswith('/') else p + '/')):
                continue
            if k['secure'] and scheme != 'https':
                continue
            may[k['n']] = v
            if not maybe:
                must[k['n']] = v
        return must, may


class Agent(object):
    """RFC 6265 section 5, independent of the library"""
    def __init__(self, ctx, netscape):
        self.ctx = ctx
        self.netscape = netscape
        self.jar = {}
        self.n = 0

    def receive(self, header, host, uripath, now):
        parts = header.split(';')
        name, eq, value = parts[0].partition('=')
        name, value = name.strip(' \t'), value.strip(' \t')
        if not eq or not name:
            return
        attrs = {}
        for a in parts[1:]:
            k, _, v = a.partition('=')
            attrs[k.strip(' \t').lower()] = v.strip(' \t')
        exp = None
        if 'max-age' in attrs and not self.netscape:
            if re.match(r'-?\d+$', attrs['max-age']):
                d = int(attrs['max-age'])
                exp = now + d if d > 0 else float('-inf')
        if exp is None and 'expires' in attrs:
            m = re.match(r'(?:Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d\d)[- ]([A-Z][a-z]{2})[- ](\d{4}) (\d\d:\d\d:\d\d) GMT$', attrs['expires'])
            self.ctx.check(m is not None, 'expires-format', 'cookie expiry %r is not a valid date', attrs['expires'])
            exp = parsedate_to_datetime('%s %s %s %s +0000' % m.groups()).timestamp()
        domain = attrs.get('domain', '').lstrip('.').strip('"').lower()
        host_only = not domain
        if domain and not (host == domain or host.endswith('.' + domain)):
            return
        path = attrs.get('path', '')
        if not path.startswith('/'):
            path = uripath.rpartition('/')[0] or '/'
        self.n += 1
        self.jar[name, domain or host, path] = {'value': value, 'exp': exp, 'host_only': host_only, 'secure': 'secure' in attrs, 'n': self.n}
        self.purge(now)

    def purge(self, now):
        for k, c in list(self.jar.items()):
            if c['exp'] is not None and c['exp'] <= now:
                del self.jar[k]

    def header(self, host, uripath, scheme, now):
        out = []
        self.purge(now)
        for (name, domain, path), c in list(self.jar.items()):
            if host != domain and (c['host_only'] or not host.endswith('.' + domain)):
                continue
            if not (uripath == path or uripath.startswith(path if path.endswith('/') else path + '/')):
                continue
            if c['secure'] and scheme != 'https':
                continue
            out.append((-len(path), c['n'], '%s=%s' % (name, c['value'])))
        return '; '.join(x[2] for x in sorted(out))


def build(ctx):
    """the application: reads cookies into the environ's record, sets what the plan says"""
    def react(req):
        rec = req.environ['sim.rec']
        rec['seen'].append(dict(req.cookies))
        sets = rec['sets']
        rec['sets'] = []
        if rec['redirect']:
            rec['redirect'] = False
            res = Response('go', status=302)
            res.headers['Location'] = 'http://sim.example/'
        else:
            res = Response('ok')
        rec['now'] = ctx.clock.read()
        apply_sets(ctx, res, sets)
        return res
    if ctx.plan['app'] == 'app':
        b = ApplicationBuilder()
        b.add_routes(Route('/', endpoint='r'), Route('/<path:p>', endpoint='r'))
        b.add_bindings(Binding('r', lambda app, req, p=None: react(req)))
        return b()

    def app(environ, start):
        return react(Request(environ))(environ, start)
    return app


def execute(ctx):
    plan = ctx.plan
    app = build(ctx)
    holders = []
    for kind in plan['clients']:
        if kind == 'lib':
            cl = Client(app, response_wrapper=Response if plan['wrap'] == 'response' else None)
        else:
            cl = Agent(ctx, kind == 'netscape')
        holders.append((kind, cl, Model()))

    def todo(steps):
        for s in steps:
            one(ctx, app, holders, s)
    if plan['par']:
        per = [[s for s in plan['steps'] if s['c'] == i] for i in range(len(holders))]
        ctx.run_threads([lambda p=p: todo(p) for p in per])
    else:
        todo(plan['steps'])
    # every client once more
    for i in range(len(holders)):
        one(ctx, app, holders, {'c': i, 'op': 'req', 'sets': [], 'redirect': False, 'path': 0, 'host': 'sim.example', 'scheme': 'https' if plan['clients'][i] != 'lib' else 'http'})


def compare(ctx, what, seen, must, may):
    for k, v in must.items():
        ctx.check(k in seen, 'lost', '%s: cookie %r (%r) was not seen, only %r', what, k, v, seen)
    for k, v in seen.items():
        ctx.check(k in may, 'stray', '%s: cookie %r=%r was seen but is not set for this client (expected %r)', what, k, v, may)
        ctx.check(v == may[k], 'value', '%s: cookie %r was set to %r and read as %r', what, k, may[k], v)


def one(ctx, app, holders, s):
    kind, cl, model = holders[s['c']]
    op = s['op']
    if op == 'advance':
        ctx.clock.advance(s['dt'])
        ctx.log('advance', s['dt'])
        return
    if op == 'jump':
        ctx.clock.jump(max(10000, ctx.clock.read() + s['dt']))
        ctx.fault('clock.step')
        return
    now = ctx.clock.read()
    if op in ('cset', 'cdel'):
        x = s['set']
        k = ctx.plan['keys'][x['k']]
        if x.get('del'):
            cl.delete_cookie('sim.example', k['n'])
        else:
            cl.set_cookie('sim.example', k['n'], **set_kwargs(x, now))
        model.expire(ctx, now)
        model.apply(ctx, [x], now, 'sim.example')
        model.expire(ctx, now)
        ctx.log(op, s['c'], x)
        return
    if op == 'raw':
        return raw(ctx, app, s)
    host, scheme = s['host'], s['scheme']
    path, uripath = REQPATHS[s['path']]
    rec = {'seen': [], 'sets': list(s['sets']), 'redirect': s['redirect'], 'now': now}
    what = '%s client %d %s://%s%s' % (kind, s['c'], scheme, host, uripath)
    model.expire(ctx, now)
    must, may = model.expect(ctx, host, uripath, scheme)
    must0, may0 = dict(must), dict(may)
    if kind == 'lib':
        cl.open(path='/', base_url='http://sim.example/', buffered=True, follow_redirects=True, environ_overrides={'sim.rec': rec}) if not s['redirect'] \
            else redirecting(ctx, cl, rec)
    else:
        hdr = cl.header(host, uripath, scheme, now)
        env = make_environ('GET', path, headers=[('Cookie', hdr)] if hdr else [], host=host, scheme=scheme, extra={'sim.rec': rec})
        h = serve(ctx, app, env)
        if h.exc is not None:
            raise h.exc
        for v in h.header_all('set-cookie'):
            cl.receive(v, host, uripath, ctx.clock.read())
    ctx.check(len(rec['seen']) == (2 if s['redirect'] else 1), 'runs', '%s: %d requests arrived', what, len(rec['seen']))
    compare(ctx, what, rec['seen'][0], must0, may0)
    model.apply(ctx, s['sets'], rec['now'], host)
    model.expire(ctx, rec['now'])
    if s['redirect']:
        must, may = model.expect(ctx, host, uripath, scheme)
        compare(ctx, what + ' after its redirect', rec['seen'][1], must, may)
    if may0:
        ctx.probe('nontrivial')
    ctx.log('req', s['c'], host, uripath, s['sets'], sorted(rec['seen'][0].items()))
    ctx.states.add('%s|%d|%d|%s|%s' % (kind, len(must0), len(s['sets']), [x.get('agekind') or x.get('expkind') or x.get('del') for x in s['sets']], s['redirect']))


def redirecting(ctx, cl, rec):
    # the environ of a followed redirect is built by the client: hand the record over aside
    old = cl.application

    def app(environ, start):
        environ['sim.rec'] = rec
        return old(environ, start)
    cl.application = app
    try:
        cl.open(path='/', base_url='http://sim.example/', buffered=True, follow_redirects=True)
    finally:
        cl.application = old


def raw(ctx, app, s):
    parts, good = [], {}
    for seg in s['segs']:
        if isinstance(seg, str):
            parts.append(seg)
            ctx.fault('cookie.damage')
        else:
            n, v = seg
            good[n] = v
            parts.append(dump_cookie(n, v).split(';')[0])
    hdr = s['sep'].join(parts)
    what = 'cookie header %r' % hdr
    rec = {'seen': [], 'sets': [], 'redirect': False, 'now': 0}
    if s['via'] == 'app':
        env = make_environ('GET', '/', headers=[('Cookie', hdr)], extra={'sim.rec': rec})
        h = serve(ctx, app, env)
        ctx.check(h.exc is None, 'failed', '%s made the request fail: %r', what, h.exc)
        ctx.check(h.status.startswith('200'), 'failed', '%s made the request fail: %s', what, h.status)
        seen = rec['seen'][0]
    else:
        arg = {'parse': hdr, 'bytes': hdr.encode('latin1'), 'environ': {'HTTP_COOKIE': hdr}}[s['via']]
        try:
            seen = dict(parse_cookie(arg))
        except Exception as e:
            ctx.violate('failed', '%s could not be parsed: %r', what, e)
    for k, v in good.items():
        ctx.check(k in seen, 'hidden', '%s: the well-formed cookie %r=%r is not seen (%r)', what, k, v, seen)
        ctx.check(seen[k] == v, 'changed', '%s: the well-formed cookie %r=%r is read as %r', what, k, v, seen[k])
    ctx.log('raw', hdr, sorted(seen.items()))
    if len(good) < len(s['segs']):
        ctx.probe('nontrivial')
