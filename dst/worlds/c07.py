"""C07: caches revalidating a changing resource."""
import datetime
import time as _time
from email.utils import formatdate

from ..gen import wchoice, text, TZS
from ..core import sched_knobs
from ..server import serve, make_environ

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.http import is_resource_modified
from verktyg.requests import Request
from verktyg.responses import (
    Response, BaseResponse, ETagResponseMixin, CommonResponseDescriptorsMixin)
from verktyg.routing import Route

ID = 'C07'
QUICK = 60000
THOROUGH = 2000000
BATCH = 150
SHRINK = ('events', 'threads', 'threads.*', 'threads.*.*.inm')
RULE = ('Seeded plans: one resource with a history of 1-8 representations over a simulated clock (contents recur), '
        'validators of every kind, caches that send any combination of validators they hold (weakened, in lists, '
        'stars, old date formats), requests delayed and reordered against the changes, time zones, threads.  '
        'Oracle: version model plus the rule that after every exchange the cache presents the current content.')
REAL = ['verktyg.responses (add_etag, set_etag, make_conditional, sending)', 'verktyg.http conditional logic', 'verktyg.application']
STUB = ['WSGI server loop', 'caches', 'clock', 'delivery order']
ASSUMPTIONS = ['without entity tags the modification dates of versions grow by at least one second',
               'application-chosen entity tags identify the content']

TAGCHARS = 'abcXYZ019-_:/+=.!, ;é*'
EDGES = [1509253200, 1509256800, 1520737200, 1478412000, 951782400, 1456704000, 1483228799, 2147483646, 4102444800, 100000]


# headers that describe the body are dropped by a 304, the others stay
EXTRA = [['Expires', 'Sat, 01 Jan 2050 00:00:00 GMT'], ['Cache-Control', 'max-age=60'], ['Vary', 'Cookie'], ['Content-Location', '/r?v=1'], ['Set-Cookie', 's=1'], ['X-Any', 'x y'],
         ['Content-Encoding', 'identity'], ['Content-Language', 'en'], ['Allow', 'GET'], ['Content-MD5', 'Q2hlY2s='], ['Link', '</x>; rel=y']]
KEPT = ('expires', 'cache-control', 'vary', 'content-location', 'set-cookie', 'x-any', 'link')


def generate(rng, tier):
    t0 = float(wchoice(rng, [(2, 1500000000), (2, rng.choice(EDGES) + rng.choice([-1800, -2, 0, 5]))])) + rng.choice([0, 0.25, 0.999])
    mode = {
        'etag': wchoice(rng, [(4, 'auto'), (2, 'autoweak'), (3, 'custom'), (1.5, 'customweak'), (3, None), (1, 'freeze')]),
        'lm': rng.random() < 0.7,
        'lmkind': rng.choice(['datetime', 'datetime_us', 'int', 'float', 'struct', 'header', 'aware']),
        'body': rng.choice(['str', 'bytes', 'list', 'gen']),
        'via': wchoice(rng, [(5, 'app'), (3, 'response'), (2, 'direct')]),
        'cond': rng.choice(['request', 'environ']),
        'order': rng.choice(['etag-first', 'lm-first']),
        'preset': rng.random() < 0.2,
        # name as written, kept by a 304
        'extra': [[rng.choice([n, n, n.lower(), n.upper()]), v] for n, v in rng.sample(EXTRA, rng.choice([0, 0, 1, 2, 4]))],
    }
    if mode['etag'] is None:
        mode['lm'] = True
    n = wchoice(rng, [(1, 1), (3, 2), (3, 4), (1, 8)])
    contents = [text(rng, rng.choice([0, 1, 3, 12, 12]), 'abé') for _ in range(rng.randint(1, n))]
    if rng.random() < 0.5:
        contents = [c or 'v%d' % i for i, c in enumerate(contents)]
    tags = []
    while len(tags) < len(contents):
        t = text(rng, wchoice(rng, [(1, 0), (12, rng.randint(1, 8))]), TAGCHARS)
        if t not in tags:
            tags.append(t)
    if rng.random() < 0.3:      # near-identical tags
        tags = ['t%s%d' % (rng.choice(['', ' ']), i) for i in range(len(contents))]
    lm_safe = mode['etag'] is None
    versions = []
    t = t0
    for i in range(n):
        versions.append({'c': rng.randrange(len(contents)), 'dt': rng.choice([1, 1, 1, 2, 3600, 1800, 86400]) if lm_safe or rng.random() < 0.7 else rng.choice([0, 0.3, -5, -3600])})
    threads = []
    for _ in range(rng.randint(1, 3)):
        reqs = []
        for _ in range(rng.randint(1, 6)):
            r = {'method': wchoice(rng, [(6, 'GET'), (2, 'HEAD'), (0.7, 'POST'), (0.4, 'PUT'), (0.3, 'DELETE'), (0.3, 'PATCH')]), 'steps': wchoice(rng, [(3, 0), (3, 1), (1, 2)])}
            k = rng.random()
            if k < 0.6 and mode['etag']:
                r['inm'] = [rng.choice(['last', 'last', 'weak', 'Weak', 'old', 'first', 'junk', 'star', 'near']) for _ in range(wchoice(rng, [(5, 1), (2, 2), (1, 3)]))]
                r['sep'] = rng.choice([', ', ',', ' , ', ',  '])
            if 0.4 < k < 0.85 and mode['lm']:
                r['ims'] = rng.choice([['last', 0], ['last', 0], ['last', 0], ['last', 1], ['last', -1], ['now', 0], ['first', 0], ['junk', 0], ['last', 3600], ['last', -3600]])
                r['fmt'] = wchoice(rng, [(6, '1123'), (1, '850'), (1, 'asctime'), (1, 'lower')])
            r['hold'] = wchoice(rng, [(6, 0), (1, 1), (1, 2)])     # how many changes happen while the request is in flight
            reqs.append(r)
        threads.append(reqs)
    return {'t0': t0, 'tz': rng.choice(TZS), 'mode': mode, 'contents': contents, 'tags': tags, 'versions': versions,
            'threads': threads, 'par': rng.random() < 0.35, 'sched': sched_knobs(rng)}


class FreezingResponse(ETagResponseMixin, BaseResponse, CommonResponseDescriptorsMixin):
    """documented order: freeze() adds the tag"""


class Res(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.i = -1
        self.lm = None
        self.left = list(ctx.plan['versions'])
        self.cur = None
        self.auto = [auto_tag(c.encode()) for c in ctx.plan['contents']]
        self.change()

    def change(self):
        if not self.left:
            return
        v = self.left.pop(0)
        if v['dt'] >= 0:
            self.ctx.clock.advance(v['dt'])
        else:
            self.ctx.clock.jump(max(5, self.ctx.clock.read() + v['dt']))
            self.ctx.fault('clock.step-back')
        self.i += 1
        # one atomic snapshot
        self.cur = {'i': self.i, 'c': v['c'], 'data': self.ctx.plan['contents'][v['c']].encode(), 'lm': self.ctx.clock.read(),
                    'tag': self.ctx.plan['tags'][v['c']], 'auto': self.auto[v['c']]}
        self.ctx.log('change', self.i, self.cur['lm'])


def respond(plan, cur, request, environ):
    m = plan['mode']
    data = cur['data']
    body = {'str': lambda: data.decode(), 'bytes': lambda: data, 'list': lambda: [data[:2], data[2:]],
            'gen': lambda: (x for x in (data[:1], data[1:]))}[m['body']]()
    res = (FreezingResponse if m['etag'] == 'freeze' else Response)(body, mimetype='text/plain')

    for n, v in m['extra']:
        res.headers[n] = v

    def etag():
        e = m['etag']
        if e == 'auto':
            res.add_etag()
        elif e == 'autoweak':
            res.add_etag(weak=True)
        elif e == 'custom':
            res.set_etag(cur['tag'])
        elif e == 'customweak':
            res.set_etag(cur['tag'], weak=True)
        elif e == 'freeze':
            res.freeze()

    def lm():
        if not m['lm']:
            return
        t = cur['lm']
        k = m['lmkind']
        dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))
        if k == 'datetime':
            res.last_modified = dt
        elif k == 'datetime_us':
            res.last_modified = dt.replace(microsecond=int(t % 1 * 1000000))
        elif k == 'int':
            res.last_modified = int(t)
        elif k == 'float':
            res.last_modified = t
        elif k == 'struct':
            res.last_modified = _time.gmtime(t)
        elif k == 'aware':
            res.last_modified = dt.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(hours=5, minutes=30)))
        else:
            res.headers['Last-Modified'] = formatdate(int(t), usegmt=True)
    if m['order'] == 'etag-first':
        etag()
        lm()
    else:
        lm()
        etag()
    target = request if m['cond'] == 'request' and request is not None else environ
    out = res.make_conditional(target)
    return out


def build(ctx, res):
    plan = ctx.plan
    via = plan['mode']['via']

    def note(environ):
        cur = res.cur
        environ['sim.version'] = cur
        return cur
    if via == 'app':
        def handler(app, req):
            cur = note(req.environ)
            return respond(plan, cur, req, req.environ)
        b = ApplicationBuilder()
        b.add_routes(Route('/r', endpoint='r'))
        for m in ('GET', 'POST', 'PUT', 'DELETE', 'PATCH'):
            b.add_bindings(Binding('r', handler, method=m))
        return b()

    def app(environ, start):
        cur = note(environ)
        return respond(plan, cur, Request(environ), environ)(environ, start)
    return app


MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']


def fmt_date(t, fmt):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))
    hms = '%02d:%02d:%02d' % (d.hour, d.minute, d.second)
    if fmt == '850' and 1970 <= d.year <= 2068:
        return '%s, %02d-%s-%02d %s GMT' % (DAYS[d.weekday()], d.day, MON[d.month - 1], d.year % 100, hms)
    if fmt == 'asctime':
        return '%s %s %2d %s %04d' % (DAYS[d.weekday()][:3], MON[d.month - 1], d.day, hms, d.year)
    s = formatdate(int(t), usegmt=True)
    return s.lower() if fmt == 'lower' else s


def opaque(tag):
    if tag is None:
        return None
    if tag[:2] in ('W/', 'w/'):
        tag = tag[2:]
    assert tag[0] == tag[-1] == '"', tag
    return tag[1:-1]


def execute(ctx):
    plan = ctx.plan
    res = Res(ctx)
    app = build(ctx, res) if plan['mode']['via'] != 'direct' else None

    def client(reqs):
        def run():
            held = []         # (opaque tag, lm epoch, data)
            for r in reqs:
                one(ctx, res, app, r, held)
        return run
    fns = [client(t) for t in plan['threads']]
    if plan['par'] and len(fns) > 1:
        ctx.run_threads(fns)
    else:
        for f in fns:
            f()


def one(ctx, res, app, r, held):
    plan = ctx.plan
    mode = plan['mode']
    for _ in range(r['steps']):
        res.change()
    hdrs = []
    tags = None
    ims = None
    if r.get('inm'):
        out, tags = [], set()
        for k in r['inm']:
            pick = None
            if k in ('last', 'weak', 'Weak') and held:
                pick = held[-1][0]
            elif k == 'old' and len(held) > 1:
                pick = held[-2][0]
            elif k == 'first' and held:
                pick = held[0][0]
            elif k == 'near' and held:
                pick = held[-1][0] + 'x'
            if k == 'star':
                out.append('*')
                tags.add(Ellipsis)
                continue
            if pick is None:
                pick = 'junk'
            tags.add(pick)
            out.append({'weak': 'w/"%s"', 'Weak': 'W/"%s"'}.get(k, '"%s"') % pick)
        if Ellipsis in tags and len(out) > 1:
            out, tags = ['*'], {Ellipsis}
        hdrs.append(('If-None-Match', r['sep'].join(out)))
    if 'ims' in r:
        k, d = r['ims']
        if k == 'junk':
            hdrs.append(('If-Modified-Since', 'not a date'))
        else:
            base = int(ctx.clock.read())
            if k == 'last' and held:
                base = held[-1][1]
            elif k == 'first' and held:
                base = held[0][1]
            ims = max(1, base + d)
            hdrs.append(('If-Modified-Since', fmt_date(ims, r['fmt'])))
    for _ in range(r['hold']):
        res.change()          # the request is delayed: the resource moves on
        ctx.probe('delayed')
    env = make_environ(r['method'], '/r', headers=hdrs, body=b'' if r['method'] not in ('GET', 'HEAD') else None)
    what = '%s %s' % (r['method'], hdrs)
    if mode['via'] == 'direct':
        if r['method'] not in ('GET', 'HEAD'):
            return
        cur = res.cur
        kw = {}
        if mode['lm']:
            kw['last_modified'] = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=cur['lm'])
                                   if mode['lmkind'] != 'header' else formatdate(int(cur['lm']), usegmt=True))
        e = mode['etag']
        if e in ('auto', 'autoweak', 'freeze'):
            kw['data'] = cur['data']
            # the generated tag is learnt from a response over the same data
            tag = cur['auto']
        elif e:
            kw['etag'] = ('W/"%s"' if e == 'customweak' else '"%s"') % cur['tag']
            tag = cur['tag']
        else:
            tag = None
        got304 = not is_resource_modified(env, **kw)
        h = None
    else:
        h = serve(ctx, app, env)
        if h.exc is not None:
            raise h.exc
        cur = env['sim.version']
        got304 = h.status.startswith('304')
        tag = expected_tag(cur, mode)
    expect = False
    if r['method'] in ('GET', 'HEAD'):
        if tags is not None and mode['etag']:
            expect = Ellipsis in tags or tag in tags
        elif ims is not None and mode['lm']:
            expect = int(cur['lm']) <= ims
    ctx.log(r['method'], hdrs, cur['i'], got304)
    ctx.states.add('%s|%s|%s|%s|%s|%s' % (mode['etag'], mode['via'], r['method'], bool(tags), ims is not None, expect))
    if expect or tags or ims is not None:
        ctx.probe('nontrivial')
    if got304 and not expect:
        ctx.violate('stale-304', '%s was answered not modified, but the current representation %d has tag %r, date %s (mode %s)',
                    what, cur['i'], tag, fmt_date(cur['lm'], ''), mode)
    if expect and not got304:
        ctx.violate('missed-304', '%s holds the current representation %d (tag %r, date %s) but got %s (mode %s)',
                    what, cur['i'], tag, fmt_date(cur['lm'], ''), h.status if h else 'modified', mode)
    if h is None:
        held.append((tag if tag is not None else 'none', int(cur['lm']), cur['data']))
        return
    for n, v in mode['extra']:
        want = [v] if not got304 or n.lower() in KEPT else []
        ctx.check([b for a, b in h.headers if a.lower() == n.lower()] == want, 'headers', '%s answered %s: %s is %r, not %r', what, h.status, n,
                  [b for a, b in h.headers if a.lower() == n.lower()], want)
    if got304:
        ctx.check(h.body == b'', 'body-304', '%s: not modified with a body', what)
        ctx.check(h.header('content-type') is None and h.header('content-length') in (None, '0'), 'headers', '%s: not modified with a description of a body: %r', what, h.headers)
        if mode['etag']:
            got = h.header('etag')
            ctx.check(got is not None and opaque(got) == tag, 'etag', '%s: not modified with the tag %r instead of %r', what, got, tag)
        # the cache now presents what it holds
        if tags and Ellipsis not in tags:
            mine = [x[2] for x in held if x[0] == tag]
            ctx.check(not mine or cur['data'] in mine, 'stale-content', '%s: confirmed content differs from the current one', what)
        elif not tags and r.get('ims') == ['last', 0] and held and mode['etag'] is None:
            ctx.check(held[-1][2] == cur['data'], 'stale-content', '%s: confirmed by date although the content changed', what)
        return
    ctx.check(h.status.startswith('200'), 'status', '%s answered %s', what, h.status)
    if r['method'] != 'HEAD':
        ctx.check(h.body == cur['data'], 'content', '%s got %r instead of the current %r', what, h.body, cur['data'])
    else:
        ctx.check(h.body == b'', 'head-body', 'HEAD with body')
    if mode['etag']:
        got = h.header('etag')
        ctx.check(got is not None and opaque(got) == tag, 'etag', '%s: tag %r instead of %r', what, got, tag)
    if mode['lm']:
        ctx.check(h.header('last-modified') == formatdate(int(cur['lm']), usegmt=True), 'last-modified', '%s: Last-Modified %r instead of %s', what,
                  h.header('last-modified'), formatdate(int(cur['lm']), usegmt=True))
    if r['method'] in ('GET', 'HEAD'):
        held.append((tag if tag is not None else 'none', int(cur['lm']), cur['data']))


def auto_tag(data):
    r = Response(data)
    r.add_etag()
    return opaque(r.headers['etag'])


def expected_tag(cur, mode):
    e = mode['etag']
    if e in ('custom', 'customweak'):
        return cur['tag']
    if e is None:
        return None
    return cur['auto']
