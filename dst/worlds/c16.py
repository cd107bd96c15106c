"""C16: several parts of a program changing the headers of responses through structured views."""
from datetime import datetime, timedelta
from email.utils import formatdate
from urllib.parse import urljoin

from ..core import sched_knobs
from ..gen import wchoice
from ..server import make_environ, serve

from verktyg.http import ContentRange, Headers
from verktyg.responses import Response

ID = 'C16'
QUICK = 60000
THOROUGH = 1500000
BATCH = 200
SHRINK = ('ops',)
RULE = ('Seeded plans: 1-3 responses (their headers given as list, dict, headers object or copied from another response), and up to 40 '
        'operations of several actors that hold views of Vary, Allow, Content-Language, Cache-Control, WWW-Authenticate, Content-Range, '
        'Content-Type parameters, dates and tags, also outdated ones, change raw headers in between, send the response and go on; operations are '
        'refused half-way by failing iterators, failing conversions, line breaks, missing items and bad ranges; in a part of the runs two threads '
        'work on a response each.  Oracle: contents per header, and an independent parser of what the response holds and sends.')
REAL = ['verktyg.responses.Response and its descriptors', 'verktyg.http.Headers, HeaderSet, ResponseCacheControl, WWWAuthenticate, ContentRange']
STUB = ['server', 'clock', 'thread scheduling']
ASSUMPTIONS = ['a structured header is held in one line', 'a view whose last operation was refused is not used again',
               'an operation without effect on an outdated view may write that view or not', 'elements of a set differ in more than case']

SETS = ['vary', 'allow', 'content_language']
HNAME = {'vary': 'Vary', 'allow': 'Allow', 'content_language': 'Content-Language', 'cc': 'Cache-Control', 'www': 'WWW-Authenticate', 'rng': 'Content-Range', 'ct': 'Content-Type'}
TOKENS = ['Cookie', 'accept', 'X-One', 'two words', 'a,b', 'q"x', 'GET', 'de', 'k=v', 'back\\slash']
KEYS = ['max-age', 'no-cache', 'no-store', 'private', 'public', 's-maxage', 'must-revalidate', 'no-transform', 'x-ext']
BOOLS = ['no_store', 'public', 'must_revalidate', 'proxy_revalidate', 'no_transform']
VALUES = [('max_age', int, '-1'), ('no_cache', None, '*'), ('private', None, '*'), ('s_maxage', None, None)]
PVALS = [None, True, 0, 5, 3600, 'set-cookie', 'a, b', 'x"y']
PLAIN = ['X-A', 'X-B', 'Set-Cookie', 'Link']
DATES = ['date', 'expires', 'last_modified', 'age']
TEXTS = ['location', 'content_location', 'content_encoding', 'content_md5', 'accept_ranges']
MIMES = ['text/html', 'application/json', 'text/plain', 'application/xml', 'application/atom+xml', 'image/png']


BREAKS = ['a\nb', 'a\rb', 'a\r\nb', 'a\r', '\na', 'a\n', '\r']


class Refuse(Exception):
    pass


class BadStr(object):
    def __str__(self):
        raise Refuse('no text')


def case(rng, s):
    return rng.choice([s, s, s.lower(), s.upper()])


def gen_op(rng, nr, actors):
    op = {'r': rng.randrange(nr), 'a': rng.randrange(actors)}
    k = wchoice(rng, [(5, 'set'), (4, 'cc'), (3, 'www'), (2.5, 'rng'), (2, 'ct'), (1.5, 'date'), (1, 'text'), (1, 'etag'), (2, 'raw'), (1.2, 'send'), (0.7, 'num'), (0.25, 'clear'), (0.6, 'wait')])
    op['k'] = k
    op['held'] = rng.random() < 0.55
    op['bad'] = rng.choice(BREAKS)
    if k == 'set':
        op['h'] = rng.choice(SETS)
        op['o'] = wchoice(rng, [(4, 'add'), (3, 'remove'), (2, 'discard'), (3, 'update'), (0.8, 'clear'), (1, 'del'), (1, 'put'), (2, 'assign'), (0.4, 'read'), (1, 'fail')])
        op['v'] = case(rng, rng.choice(TOKENS))
        op['vs'] = [case(rng, x) for x in rng.sample(TOKENS, rng.randint(0, 4))]
        op['i'] = rng.randrange(4)
        op['how'] = rng.choice(['list', 'str', 'tuple', 'none', 'iter'])
    elif k == 'cc':
        op['o'] = wchoice(rng, [(5, 'prop'), (1.5, 'del'), (2, 'item'), (1, 'delitem'), (1, 'pop'), (0.5, 'popitem'), (1, 'setdefault'), (1.5, 'update'), (0.5, 'clear'), (0.6, 'ior'), (1, 'fail'), (0.4, 'read')])
        op['p'] = rng.choice(BOOLS + [v[0] for v in VALUES] * 2)
        op['v'] = rng.choice(PVALS)
        op['key'] = rng.choice(KEYS)
        op['vs'] = [[x, rng.choice([None, '7', 'a b'])] for x in rng.sample(KEYS, rng.randint(0, 3))]
    elif k == 'www':
        op['o'] = wchoice(rng, [(2, 'basic'), (2, 'digest'), (4, 'prop'), (1, 'type'), (1.5, 'stale'), (1.5, 'qop'), (1, 'domain'), (0.7, 'pop'), (0.5, 'clear'), (1, 'fail'), (0.4, 'read')])
        op['p'] = rng.choice(['realm', 'nonce', 'opaque', 'algorithm'])
        op['v'] = rng.choice([None, 'x', 'my realm', 'a,b', 'MD5', 'q"r'])
        op['vs'] = rng.sample(['auth', 'auth-int', 'x'], rng.randint(1, 2))
        op['stale'] = rng.choice([None, True, False])
        op['i'] = rng.randrange(3)
    elif k == 'rng':
        op['o'] = wchoice(rng, [(4, 'set'), (1.5, 'unset'), (3, 'part'), (2, 'assign'), (1, 'text'), (0.6, 'drop'), (1, 'fail'), (1, 'read'), (0.5, 'garbage')])
        s = rng.randrange(50)
        op['v'] = [s, s + rng.randint(1, 50), rng.choice([None, 100, 100, 2000])]
        if rng.random() < 0.15:
            op['v'] = [None, None, rng.choice([None, 77])]
        op['units'] = rng.choice(['bytes', 'bytes', 'items'])
        op['p'] = rng.choice(['length', 'units', 'start', 'stop'])
        op['i'] = rng.randrange(4)
    elif k == 'ct':
        op['o'] = wchoice(rng, [(2, 'mime'), (3, 'param'), (1, 'pop'), (1, 'assign'), (0.7, 'clear'), (1, 'update'), (0.6, 'fail')])
        op['m'] = rng.choice(MIMES)
        op['key'] = rng.choice(['charset', 'boundary', 'v', 'profile'])
        op['v'] = rng.choice(['utf-8', '1', 'two words', 'a;b', 'x"y'])
    elif k == 'date':
        op['h'] = rng.choice(DATES)
        op['o'] = wchoice(rng, [(3, 'dt'), (2, 'ts'), (1, 'del'), (0.5, 'fail')])
        op['v'] = 1400000000 + rng.randrange(10**8)
    elif k == 'text':
        op['h'] = rng.choice(TEXTS)
        op['o'] = wchoice(rng, [(4, 'set'), (1, 'del'), (0.6, 'fail')])
        op['v'] = rng.choice(['bytes', 'gzip', 'http://a.example/x?y=1', 'http://b.example/', 'Q2hlY2s'])
    elif k == 'etag':
        op['o'] = rng.choice(['set', 'set', 'add', 'over', 'del'])
        op['v'] = rng.choice(['t1', 'a b', '', 'x,y'])
        op['w'] = rng.random() < 0.3
    elif k == 'num':
        op['h'] = rng.choice(['content_length', 'retry_after'])
        op['o'] = rng.choice(['set', 'set', 'none', 'dt'])
        op['v'] = rng.randrange(5000)
    elif k == 'raw':
        op['o'] = wchoice(rng, [(3, 'set'), (2, 'add'), (1.5, 'del'), (1, 'pop'), (1, 'extend'), (1, 'fail'), (3, 'text'), (1, 'setdefault'), (1.5, 'drop'), (1.5, 'at')])
        op['h'] = rng.choice(PLAIN) if op['o'] not in ('text', 'drop') else rng.choice(['vary', 'allow', 'content_language', 'cc', 'www'])
        op['v'] = rng.choice(['1', 'two', 'x, y', 'ü'])
        op['vs'] = [case(rng, x) for x in rng.sample(TOKENS, rng.randint(1, 3))]
        op['name'] = rng.randrange(3)
        op['pad'] = rng.random() < 0.5
        op['how'] = rng.randrange(6)
    elif k == 'wait':
        op['v'] = rng.choice([1, 30, 4000])
    return op


def generate(rng, tier):
    nr = wchoice(rng, [(3, 1), (3, 2), (1, 3)])
    threads = nr > 1 and rng.random() < 0.15
    n = rng.randint(3, 12 if threads else 40)
    # most work on few headers, so that the actors meet
    ops = [gen_op(rng, nr, 3) for _ in range(n)]
    if rng.random() < 0.6:
        keep = set(rng.sample(['set', 'cc', 'www', 'rng', 'ct', 'date', 'text', 'etag', 'num'], rng.randint(1, 3))) | set(['raw', 'send', 'clear', 'wait'])
        ops = [o for o in ops if o['k'] in keep]
    if rng.random() < 0.5:
        h = rng.choice(SETS)
        for o in ops:
            if o['k'] == 'set':
                o['h'] = h
    made = []
    for i in range(nr):
        made.append({'from': wchoice(rng, [(3, 'none'), (2, 'list'), (1, 'dict'), (1.5, 'copy'), (1.5, 'headers')]), 'body': rng.choice(['', 'text', 'x' * 50]),
                     'h': [[rng.choice(PLAIN), rng.choice('abc')] for _ in range(rng.randint(0, 2))], 'vary': rng.sample(TOKENS, rng.randint(0, 2))})
    return {'made': made, 'ops': ops, 'threads': threads, 't0': 1450000000 + rng.randrange(10**8), 'sched': sched_knobs(rng)}


# ---- an independent reading of headers ------------------------------------------

def split(text, sep=','):
    """elements of a list header: [(text before =, text behind or None)], quotes resolved"""
    items, cur, quoted, i = [], '', False, 0
    mark = None
    any_ = False
    while i < len(text):
        c = text[i]
        if quoted:
            if c == '\\' and i + 1 < len(text):
                i += 1
                cur += text[i]
            elif c == '"':
                quoted = False
            else:
                cur += c
        elif c == '"':
            quoted = True
            any_ = True
            cur = cur.rstrip(' ')
        elif c == sep:
            items.append((cur if any_ else cur.strip(), mark))
            cur, mark, any_ = '', None, False
        elif c == '=' and mark is None and not any_:
            mark = cur.strip()
            cur = ''
        elif c == ' ' and (not cur or any_):
            pass
        else:
            cur += c
        i += 1
    if cur or any_ or mark is not None:
        items.append((cur if any_ else cur.strip(), mark))
    return items


def as_list(text):
    return [v if m is None else m + '=' + v for v, m in split(text)]


def as_dict(text, sep=','):
    return {(v if m is None else m): (None if m is None else v) for v, m in split(text, sep)}


def as_www(text):
    t, _, rest = text.strip().partition(' ')
    return dict(as_dict(rest), __auth_type__=t.lower())


def as_range(text):
    try:
        units, rest = text.split(' ', 1)
        r, length = rest.split('/')
        length = None if length == '*' else int(length)
        if r == '*':
            return [units, None, None, length]
        a, b = r.split('-')
        return [units, int(a), int(b) + 1, length]
    except ValueError:
        return ['unreadable', text]


def as_type(text):
    m, _, rest = text.partition(';')
    return [m.strip(), as_dict(rest, ';')]


READ = {'vary': as_list, 'allow': as_list, 'content_language': as_list, 'cc': as_dict, 'www': as_www, 'rng': as_range, 'ct': as_type}


def q(v):
    """a careful writer of list elements"""
    if v.replace('-', '').isalnum():
        return v
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


class Model(object):
    """the contents of the headers of one response"""
    def __init__(self, resp):
        self.resp = resp
        self.c = {}                            # structured
        self.o = []                            # others: [lower name, value]

    def others(self, name):
        return [v for k, v in self.o if k == name.lower()]

    def put(self, name, v):
        """set one plain header"""
        l = name.lower()
        for i, (k, _) in enumerate(self.o):
            if k == l:
                self.o[i] = [l, v]
                self.o = self.o[:i + 1] + [x for x in self.o[i + 1:] if x[0] != l]
                return
        self.o.append([l, v])

    def drop(self, name):
        self.o = [x for x in self.o if x[0] != name.lower()]


LOWER = {v.lower(): k for k, v in HNAME.items()}


def compare(ctx, m, pairs, what):
    """the headers are exactly the contents of the model"""
    seen = {}
    others = []
    for k, v in pairs:
        s = LOWER.get(k.lower())
        if s is None:
            others.append([k.lower(), v])
        else:
            ctx.check(s not in seen, 'twice', '%s: the header %s is there twice: %r', what, k, pairs)
            ctx.check(isinstance(v, str) and '\n' not in v and '\r' not in v, 'bad-value', '%s: %s has the value %r', what, k, v)
            seen[s] = READ[s](v)
    for s in sorted(set(seen) | set(m.c)):
        want, got = m.c.get(s), seen.get(s)
        ctx.check(got == want, 'content', '%s: %s holds %r, expected %r', what, HNAME[s], got, want)
    ctx.check(sorted(others) == sorted(m.o), 'other-headers', '%s: the other headers are %r, expected %r', what, sorted(others), sorted(m.o))
    for n in set(k for k, v in m.o):
        ctx.check([v for k, v in others if k == n] == m.others(n), 'other-headers', '%s: the values of %s changed their order', what, n)


class Failing(object):
    """an iterable that breaks off"""
    def __init__(self, items, pairs=False):
        self.items = items

    def __iter__(self):
        for i in self.items:
            yield i
        raise Refuse('iterator failed')


class Runner(object):
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.plan = plan
        self.models = []
        self.handles = {}
        self.sent = []
        for i, d in enumerate(plan['made']):
            self.make(i, d)

    def make(self, i, d):
        given = [(k, v) for k, v in d['h']]
        if d['vary']:
            given.append(('Vary', ', '.join(q(x) for x in d['vary'])))
        if d['from'] == 'dict':
            given = list(dict(given).items())
        src = None
        if d['from'] == 'none':
            given = []
            r = Response(d['body'])
        elif d['from'] == 'list':
            r = Response(d['body'], headers=given)
        elif d['from'] == 'dict':
            r = Response(d['body'], headers=dict(given))
        elif d['from'] == 'headers':
            r = Response(d['body'], headers=Headers(given))
        elif not self.models:
            r = Response(d['body'], headers=given)
        else:
            src = self.models[0]
            r = Response(d['body'], headers=src.resp.headers.copy())
        m = Model(r)
        if src is not None:
            m.c = {k: list(v) if isinstance(v, list) else dict(v) for k, v in src.c.items()}
            m.o = [list(x) for x in src.o]
        else:
            for k, v in given:
                if k == 'Vary':
                    m.c['vary'] = list(d['vary'])
                else:
                    m.o.append([k.lower(), v])
            m.c['ct'] = ['text/plain', {'charset': 'utf-8'}]
        m.put('Content-Length', str(len(d['body'])))
        m.size = len(d['body'])
        self.models.append(m)
        compare(self.ctx, m, r.headers.to_wsgi_list(), 'new response %d' % i)

    # -- views
    def view(self, m, op, kind, fetch):
        """a view fetched now, or one the actor has held since earlier"""
        key = (self.models.index(m), op['a'], kind)
        h = self.handles.get(key)
        if op['held'] and h is not None:
            return h
        v = fetch()
        c = m.c.get(kind)
        if kind in SETS:
            c = list(c or [])
        elif kind == 'ct':
            c = dict(c[1]) if c else {}
        elif kind == 'rng':
            c = list(c) if c and c[0] != 'unreadable' else None
        else:
            c = dict(c or {})
        h = self.handles[key] = [v, c]
        return h

    def refused(self, m, op, kind):
        self.ctx.fault('refused.' + op['k'])
        self.handles.pop((self.models.index(m), op['a'], kind), None)

    def write(self, m, kind, content):
        """the header now has this content"""
        if kind == 'ct':
            m.c['ct'] = [(m.c.get('ct') or [''])[0], dict(content)]
        elif not content:
            m.c.pop(kind, None)
        elif kind == 'www':
            m.c[kind] = dict({'__auth_type__': 'basic'}, **content)
        else:
            m.c[kind] = list(content) if isinstance(content, list) else dict(content)

    def noop(self, m, kind, h):
        """nothing to do for a view: an outdated one may be written or not"""
        now = m.resp.headers.get(HNAME[kind])
        got = READ[kind](now) if now is not None else None
        mine = Model(None)
        mine.c = dict(m.c)
        self.write(mine, kind, h[1])
        if got == mine.c.get(kind):
            m.c = mine.c

    def call(self, fn, *allowed):
        try:
            return fn(), None
        except allowed as e:
            return None, e

    # -- operations
    def run(self, op):
        if op['r'] >= len(self.models):
            return
        m = self.models[op['r']]
        before = m.resp.headers.to_wsgi_list()
        what = describe(op)
        getattr(self, 'do_' + op['k'])(m, op, what)
        now = m.resp.headers.to_wsgi_list()
        self.ctx.log(what, now)
        compare(self.ctx, m, now, what)
        if now != before:
            self.ctx.probe('nontrivial')
        self.ctx.states.add('%s|%s|%s|%d' % (op['k'], op.get('o'), op.get('h', op.get('p')), len(m.c)))
        if not self.plan['threads']:
            for x in self.models:
                if x is not m:
                    compare(self.ctx, x, x.resp.headers.to_wsgi_list(), 'another response after ' + what)

    def do_wait(self, m, op, what):
        self.ctx.clock.advance(op['v'])

    def do_clear(self, m, op, what):
        m.resp.headers.clear()
        m.c.clear()
        m.o = []
        m.resp.mimetype = 'text/plain'
        m.c['ct'] = ['text/plain', {'charset': 'utf-8'}]

    def do_set(self, m, op, what):
        ctx, r, kind, o = self.ctx, m.resp, op['h'], op['o']
        if o == 'assign':
            vs = [] if op['how'] == 'none' else op['vs']
            setattr(r, kind, {'list': list(vs), 'tuple': tuple(vs), 'iter': vs, 'none': None, 'str': ', '.join(q(x) for x in vs)}[op['how']])
            self.write(m, kind, vs)
            return
        h = self.view(m, op, kind, lambda: getattr(r, kind))
        v, c = h
        low = [x.lower() for x in c]
        self.look_set(ctx, v, c, what)
        if o == 'add':
            v.add(op['v'])
            if op['v'].lower() in low:
                return self.noop(m, kind, h)
            c.append(op['v'])
        elif o in ('remove', 'discard'):
            got, err = self.call(lambda: getattr(v, o)(op['v']), KeyError)
            if op['v'].lower() not in low:
                ctx.check((err is not None) == (o == 'remove'), 'missing', '%s: an element that is not there, got %r', what, err)
                if o == 'remove':
                    return self.refused(m, op, kind)
                return self.noop(m, kind, h)
            ctx.check(err is None, 'missing', '%s: %r is in the set, got %r', what, op['v'], err)
            del c[low.index(op['v'].lower())]
        elif o == 'update':
            v.update(iter(op['vs']) if op['how'] == 'iter' else op['vs'])
            new = [x for x in op['vs'] if x.lower() not in low]
            if not new:
                return self.noop(m, kind, h)
            c.extend(new)
        elif o == 'clear':
            v.clear()
            if not c:
                return self.noop(m, kind, h)
            del c[:]
        elif o in ('del', 'put'):
            if op['i'] >= len(c):
                got, err = self.call(lambda: v.__delitem__(op['i']), IndexError)
                ctx.check(err is not None, 'missing', '%s: there is no element %d', what, op['i'])
                return self.refused(m, op, kind)
            if o == 'del':
                del v[op['i']]
                del c[op['i']]
            else:
                if op['v'].lower() in low and low.index(op['v'].lower()) != op['i']:
                    return
                v[op['i']] = op['v']
                c[op['i']] = op['v']
        elif o == 'fail':
            bad = [lambda: v.update(Failing(op['vs'])), lambda: v.add('new' + op['bad']), lambda: v.update(['fresh-%d' % op['i'], None]), lambda: v.add(None)][op['i']]
            got, err = self.call(bad, Refuse, ValueError, AttributeError, TypeError)
            ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            return self.refused(m, op, kind)
        else:
            return
        self.look_set(ctx, v, c, what)
        self.write(m, kind, c)

    def look_set(self, ctx, v, c, what):
        low = [x.lower() for x in c]
        got = (list(v), len(v), bool(v), v.as_set(), v.as_set(True), as_list(v.to_header()), [v[i] for i in range(len(c))], [x.upper() in v for x in c], [v.find(x.lower()) for x in c], 'absent' in v, v.find('absent'))
        want = (c, len(c), bool(c), set(low), set(c), c, c, [True] * len(c), list(range(len(c))), False, -1)
        ctx.check(got == want, 'view', '%s: the view reads %r, expected %r', what, got, want)

    def do_cc(self, m, op, what):
        ctx, r, o, kind = self.ctx, m.resp, op['o'], 'cc'
        h = self.view(m, op, kind, lambda: r.cache_control)
        v, c = h
        self.look_cc(ctx, v, c, what)
        prop, key = op['p'], op['p'].replace('_', '-')
        if o == 'prop':
            x = op['v']
            if prop in BOOLS:
                x = bool(x)
            setattr(v, prop, x)
            if x is None or x is False and prop in BOOLS:
                if key not in c:
                    return self.noop(m, kind, h)
                del c[key]
            elif x is True:
                c[key] = None
            else:
                c[key] = str(x)
        elif o == 'del':
            delattr(v, prop)
            if key not in c:
                return self.noop(m, kind, h)
            del c[key]
        elif o == 'item':
            v[op['key']] = op['vs'][0][1] if op['vs'] else None
            c[op['key']] = op['vs'][0][1] if op['vs'] else None
        elif o in ('delitem', 'pop'):
            got, err = self.call((lambda: v.__delitem__(op['key'])) if o == 'delitem' else (lambda: v.pop(op['key'])), KeyError)
            ctx.check((err is None) == (op['key'] in c), 'missing', '%s: got %r, the view holds %r', what, err, c)
            if err is not None:
                return self.refused(m, op, kind)
            x = c.pop(op['key'])
            ctx.check(o == 'delitem' or (None if got is None else str(got)) == x, 'view', '%s: got %r, expected %r', what, got, x)
        elif o == 'popitem':
            got, err = self.call(v.popitem, KeyError)
            ctx.check((err is None) == bool(c), 'missing', '%s: got %r, the view holds %r', what, err, c)
            if err is not None:
                return self.refused(m, op, kind)
            ctx.check(got[0] in c, 'view', '%s: got %r', what, got)
            del c[got[0]]
        elif o == 'setdefault':
            v.setdefault(op['key'], 'def')
            if op['key'] in c:
                return self.noop(m, kind, h)
            c[op['key']] = 'def'
        elif o in ('update', 'ior'):
            if o == 'ior':
                v |= dict(map(tuple, op['vs']))
            else:
                v.update(dict(map(tuple, op['vs'])))
            if not op['vs']:
                return self.noop(m, kind, h)
            c.update(dict(map(tuple, op['vs'])))
        elif o == 'clear':
            v.clear()
            if not c:
                return self.noop(m, kind, h)
            c.clear()
        elif o == 'fail':
            bad = [lambda: v.update(Failing(map(tuple, op['vs']))), lambda: v.__setitem__('x-ext', op['bad']), lambda: setattr(v, 's_maxage', BadStr()),
                   lambda: v.update({'max-age': 1, 'x-ext': BadStr()})][len(op['vs'])]
            got, err = self.call(bad, Refuse, ValueError, TypeError)
            ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            return self.refused(m, op, kind)
        else:
            return
        self.look_cc(ctx, v, c, what)
        self.write(m, kind, c)

    def look_cc(self, ctx, v, c, what):
        ctx.check({k: None if x is None else str(x) for k, x in v.items()} == c, 'view', '%s: the view reads %r, expected %r', what, dict(v), c)
        for p in BOOLS:
            ctx.check(getattr(v, p) == (p.replace('_', '-') in c), 'view', '%s: %s is %r, the view holds %r', what, p, getattr(v, p), c)
        for p, t, empty in VALUES:
            x = c.get(p.replace('_', '-'), 'absent')
            got = getattr(v, p)
            want = 'None' if x == 'absent' else str(empty) if x is None else x
            ctx.check(str(got) == want, 'view', '%s: %s is %r, the view holds %r', what, p, got, c)
            if t is int and x not in ('absent', None) and x.isdigit():
                ctx.check(got == int(x) and isinstance(got, int), 'view', '%s: %s is %r', what, p, got)

    def do_www(self, m, op, what):
        ctx, r, o, kind = self.ctx, m.resp, op['o'], 'www'
        h = self.view(m, op, kind, lambda: r.www_authenticate)
        v, c = h
        self.look_www(ctx, v, c, what)
        if o == 'basic':
            v.set_basic(op['v'] or 'authentication required')
            c.clear()
            c.update({'__auth_type__': 'basic', 'realm': op['v'] or 'authentication required'})
        elif o == 'digest':
            opaque = op['v']
            v.set_digest('r d', 'n0nce', qop=op['vs'], opaque=opaque, stale=bool(op['stale']))
            c.clear()
            c.update({'__auth_type__': 'digest', 'realm': 'r d', 'nonce': 'n0nce', 'qop': ', '.join(op['vs'])})
            if opaque is not None:
                c['opaque'] = opaque
            if op['stale']:
                c['stale'] = 'TRUE'
        elif o == 'prop':
            setattr(v, op['p'], op['v'])
            if op['v'] is None:
                if op['p'] not in c:
                    return self.noop(m, kind, h)
                del c[op['p']]
            else:
                c[op['p']] = op['v']
        elif o == 'type':
            t = ['basic', 'digest', 'negotiate'][op['i']]
            v.type = t
            c['__auth_type__'] = t
        elif o == 'stale':
            v.stale = op['stale']
            if op['stale'] is None:
                if 'stale' not in c:
                    return self.noop(m, kind, h)
                del c['stale']
            else:
                c['stale'] = 'TRUE' if op['stale'] else 'FALSE'
        elif o in ('qop', 'domain'):
            have = as_list(c[o]) if o in c else []
            s = getattr(v, o)
            ctx.check(list(s) == have, 'view', '%s: %s reads %r, expected %r', what, o, list(s), have)
            if op['i'] == 0:
                s.clear()
                if not have:
                    return self.noop(m, kind, h)
                c.pop(o, None)
            else:
                s.update(op['vs'])
                new = [x for x in op['vs'] if x not in have]
                if not new:
                    return self.noop(m, kind, h)
                c[o] = ', '.join(q(x) for x in have + new)
        elif o == 'pop':
            v.pop(op['p'], None)
            if op['p'] not in c:
                return self.noop(m, kind, h)
            del c[op['p']]
        elif o == 'clear':
            v.clear()
            if not c:
                return self.noop(m, kind, h)
            c.clear()
        elif o == 'fail':
            bad = [lambda: setattr(v, 'realm', BadStr()), lambda: setattr(v, 'nonce', op['bad']), lambda: v.update(Failing([('realm', 'x'), ('nonce', 'y')]))][op['i']]
            got, err = self.call(bad, Refuse, ValueError, TypeError)
            ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            return self.refused(m, op, kind)
        else:
            return
        self.look_www(ctx, v, c, what)
        self.write(m, kind, c)

    def look_www(self, ctx, v, c, what):
        ctx.check(dict(v) == c, 'view', '%s: the view reads %r, expected %r', what, dict(v), c)
        for p in ('realm', 'nonce', 'opaque', 'algorithm'):
            ctx.check(getattr(v, p) == c.get(p), 'view', '%s: %s is %r, the view holds %r', what, p, getattr(v, p), c)
        ctx.check(v.stale == ({'TRUE': True, 'FALSE': False}[c['stale']] if 'stale' in c else None), 'view', '%s: stale is %r', what, v.stale)

    def do_rng(self, m, op, what):
        ctx, r, o, kind = self.ctx, m.resp, op['o'], 'rng'
        a, b, n = op['v']
        if o == 'assign':
            r.content_range = ContentRange(op['units'], a, b, n)
            return self.write(m, kind, [op['units'], a, b, n])
        if o == 'drop':
            r.content_range = None
            return self.write(m, kind, None)
        if o in ('text', 'garbage'):
            text = '%s %s/%s' % (op['units'], '*' if a is None else '%d-%d' % (a, b - 1), '*' if n is None else n)
            if o == 'garbage':
                text = ['bytes', 'bytes 9-2/10', 'x y/z', 'bytes  1-2/q'][op['i']]
            if op['held']:
                r.headers['content-range'] = text
            else:
                r.content_range = text
            m.c[kind] = ['unreadable', text] if o == 'garbage' else as_range(text)
            if o == 'garbage':
                m.c[kind] = as_range(text)
            return
        h = self.view(m, op, kind, lambda: r.content_range)
        v = h[0]
        if h[1] is not None and len(h[1]) == 4 and h[1][1] is not None and not h[1][1] < h[1][2]:
            h[1] = None                       # unreadable for other reasons
        c = h[1]
        self.look_rng(ctx, v, c, what)
        if o == 'set':
            v.set(a, b, n, op['units'])
            h[1] = [op['units'], a, b, n]
        elif o == 'unset':
            v.unset()
            h[1] = None
        elif o == 'part':
            if c is None or c[1] is None:
                return
            p = op['p']
            x = {'length': n, 'units': op['units'], 'start': max(0, c[2] - 1 - op['i']), 'stop': c[1] + 1 + op['i']}[p]
            if p == 'length' and n is not None and n < c[2] or p == 'stop' and c[3] is not None and x > c[3]:
                return
            setattr(v, p, x)
            c[['units', 'start', 'stop', 'length'].index(p)] = x
        elif o == 'fail':
            bad = [(5, 5, 10) if op['held'] else (5, 2, 10), (None, 3, None), (-1, 3, 10), (4, 9, 3)][op['i']]
            got, err = self.call(lambda: v.set(*bad), ValueError)
            if bad != (4, 9, 3):
                ctx.check(err is not None, 'not-refused', '%s: the range %r was not refused', what, bad)
            elif err is None:
                h[1] = ['bytes', 4, 9, 3]
                return self.write(m, kind, h[1])
            return self.refused(m, op, kind)
        else:
            return
        self.look_rng(ctx, v, h[1], what)
        self.write(m, kind, h[1])

    def look_rng(self, ctx, v, c, what):
        got = [v.units, v.start, v.stop, v.length]
        ctx.check(got == (c or [None] * 4) and bool(v) == (c is not None), 'view', '%s: the view reads %r, expected %r', what, got, c)

    def do_ct(self, m, op, what):
        ctx, r, o, kind = self.ctx, m.resp, op['o'], 'ct'
        if o in ('mime', 'assign'):
            if o == 'mime':
                r.mimetype = op['m']
                text = op['m'].startswith('text/') or op['m'].endswith('xml')
                m.c['ct'] = [op['m'], {'charset': 'utf-8'} if text else {}]
            else:
                r.content_type = '%s; %s=%s' % (op['m'], op['key'], q(op['v']))
                m.c['ct'] = [op['m'], {op['key']: op['v']}]
            ctx.check(r.mimetype == op['m'], 'view', '%s: the mimetype is %r', what, r.mimetype)
            return
        h = self.view(m, op, kind, lambda: r.mimetype_params)
        v, c = h
        ctx.check(dict(v) == c, 'view', '%s: the view reads %r, expected %r', what, dict(v), c)
        if o == 'param':
            v[op['key']] = op['v']
            c[op['key']] = op['v']
        elif o == 'update':
            v.update({op['key']: op['v'], 'more': 'x'})
            c.update({op['key']: op['v'], 'more': 'x'})
        elif o == 'pop':
            v.pop(op['key'], None)
            if op['key'] not in c:
                return self.noop(m, kind, h)
            del c[op['key']]
        elif o == 'clear':
            v.clear()
            if not c:
                return self.noop(m, kind, h)
            c.clear()
        else:
            got, err = self.call(lambda: v.update(Failing([('v', '2')])) if op['held'] else v.__setitem__('v', op['bad']), Refuse, ValueError)
            ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            return self.refused(m, op, kind)
        self.write(m, kind, c)

    def do_date(self, m, op, what):
        r, name, o = m.resp, op['h'], op['o']
        header = {'date': 'Date', 'expires': 'Expires', 'last_modified': 'Last-Modified', 'age': 'Age'}[name]
        if o == 'del':
            delattr(r, name)
            m.drop(header)
        elif o == 'fail':
            got, err = self.call(lambda: setattr(r, name, BadStr()), Refuse, ValueError, TypeError, AttributeError)
            self.ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            self.ctx.fault('refused.date')
        else:
            setattr(r, name, op['v'] if o == 'ts' else datetime(1970, 1, 1) + timedelta(seconds=op['v']))
            m.put(header, formatdate(op['v'], usegmt=True))
        got = getattr(r, name)
        have = m.others(header)
        want = None if not have else formatdate((got - datetime(1970, 1, 1)).total_seconds(), usegmt=True) if got is not None else 'a date'
        self.ctx.check(want == (have[0] if have else None), 'view', '%s: reads %r, the header is %r', what, got, have)

    def do_text(self, m, op, what):
        r, name, o = m.resp, op['h'], op['o']
        header = '-'.join('MD5' if x == 'md5' else x.title() for x in name.split('_'))
        if o == 'set':
            setattr(r, name, op['v'])
            m.put(header, op['v'])
        elif o == 'del':
            delattr(r, name)
            m.drop(header)
        else:
            got, err = self.call(lambda: setattr(r, name, op['bad']), ValueError)
            self.ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            self.ctx.fault('refused.text')
        have = m.others(header)
        self.ctx.check(getattr(r, name) == (have[0] if have else None), 'view', '%s: reads %r, the header is %r', what, getattr(r, name), have)

    def do_num(self, m, op, what):
        r, name, o = m.resp, op['h'], op['o']
        header = {'content_length': 'Content-Length', 'retry_after': 'Retry-After'}[name]
        now = self.ctx.clock.read()
        if name == 'retry_after':
            if o == 'none':
                r.retry_after = None
                m.drop(header)
            elif o == 'dt':
                r.retry_after = datetime(1970, 1, 1) + timedelta(seconds=int(now) + op['v'])
                m.put(header, formatdate(int(now) + op['v'], usegmt=True))
            else:
                r.retry_after = op['v']
                m.put(header, str(op['v']))
            got = r.retry_after
            have = m.others(header)
            if not have:
                self.ctx.check(got is None, 'view', '%s: reads %r without a header', what, got)
            else:
                t = (got - datetime(1970, 1, 1)).total_seconds()
                want = now + int(have[0]) if have[0].isdigit() else None
                self.ctx.check(abs(t - want) < 1 if want is not None else formatdate(t, usegmt=True) == have[0], 'view', '%s: reads %r, the header is %r at %r', what, got, have, now)
            return
        if o == 'none':
            delattr(r, name)
            m.drop(header)
        else:
            setattr(r, name, op['v'])
            m.put(header, str(op['v']))
        have = m.others(header)
        self.ctx.check(getattr(r, name) == (int(have[0]) if have else None), 'view', '%s: reads %r, the header is %r', what, getattr(r, name), have)

    def do_etag(self, m, op, what):
        r, o = m.resp, op['o']
        had = m.others('etag')
        if o == 'del':
            del r.headers['etag']
            m.drop('etag')
        elif o == 'set':
            r.set_etag(op['v'], op['w'])
            now = r.headers.get('etag', '')
            self.ctx.check(now in (['w/"%s"' % op['v'], 'W/"%s"' % op['v']] if op['w'] else ['"%s"' % op['v']]), 'etag', '%s: the tag is %r', what, now)
            m.put('etag', now)
        else:
            r.add_etag(overwrite=o == 'over', weak=op['w'])
            now = r.headers.get('etag')
            if had and o == 'add':
                self.ctx.check(now == had[0], 'etag', '%s: the tag %r was replaced by %r', what, had, now)
            else:
                self.ctx.check(now is not None and (now[:2] in ('w/', 'W/')) == op['w'], 'etag', '%s: the tag is %r', what, now)
                m.put('etag', now)
        have = m.others('etag')
        got = r.get_etag()
        want = (have[0].partition('"')[2][:-1], have[0][:2] in ('w/', 'W/')) if have else (None, None)
        self.ctx.check(tuple(got) == want, 'view', '%s: reads %r, the header is %r', what, got, have)

    def do_raw(self, m, op, what):
        r, o, hs = m.resp, op['o'], m.resp.headers
        name = op['h']
        if o in ('text', 'drop'):
            n = HNAME[name]
            n = [n, n.lower(), n.upper()][op['name']]
            if o == 'drop':
                del hs[n]
                m.c.pop(name, None)
                return
            sep = ' ,  ' if op['pad'] else ','
            if name == 'cc':
                hs[n] = sep.join(['no-cache'] + ['x-%d=%s' % (i, q(x)) for i, x in enumerate(op['vs'])])
                m.c[name] = dict([('no-cache', None)] + [('x-%d' % i, x) for i, x in enumerate(op['vs'])])
            elif name == 'www':
                hs[n] = 'Digest ' + sep.join('x%d=%s' % (i, q(x)) for i, x in enumerate(op['vs']))
                m.c[name] = dict([('__auth_type__', 'digest')] + [('x%d' % i, x) for i, x in enumerate(op['vs'])])
            else:
                hs[n] = sep.join(q(x) for x in op['vs'])
                m.c[name] = list(op['vs'])
            return
        n = [name, name.lower(), name.upper()][op['name']]
        if o == 'set':
            hs[n] = op['v']
            m.put(n, op['v'])
        elif o == 'add':
            hs.add(n, op['v'])
            m.o.append([n.lower(), op['v']])
        elif o == 'del':
            del hs[n]
            m.drop(n)
        elif o == 'pop':
            got = hs.pop(n, 'none')
            self.ctx.check(got == (m.others(n) + ['none'])[0], 'raw', '%s: popped %r of %r', what, got, m.others(n))
            m.drop(n)
        elif o == 'setdefault':
            hs.setdefault(n, op['v'])
            if not m.others(n):
                m.put(n, op['v'])
        elif o == 'extend':
            if op['pad'] or n.lower() == 'x-a':
                hs.extend([(n, op['v']), ('X-A', 'more')])
            else:
                hs.extend({n: [[op['v']], (op['v'],), op['v']][len(op['vs']) % 3], 'X-A': ['more']})
            m.o += [[n.lower(), op['v']], ['x-a', 'more']]
        elif o == 'at':
            # one line of a header, by its position
            lines = [i for i, (k, _) in enumerate(hs) if k.lower() == name.lower()]
            mine = [x for x in m.o if x[0] == name.lower()]
            if not lines:
                return
            j = len(op['vs']) % len(lines)
            i, x = lines[j], mine[j]
            how = op['how']
            at = m.o.index(x) if mine.index(x) == j else [y is x for y in m.o].index(True)
            if how == 0:
                hs[i] = (n, op['v'])
                m.o[at] = [name.lower(), op['v']]
            elif how == 1:
                hs[i:i + 1] = [(n, op['v']), (n, 'more')]
                m.o[at:at + 1] = [[name.lower(), op['v']], [name.lower(), 'more']]
            elif how == 2:
                del hs[i]
                del m.o[at]
            elif how == 3:
                got = hs.pop(i)
                self.ctx.check((got[0].lower(), got[1]) == tuple(x), 'raw', '%s: popped %r instead of %r', what, got, x)
                del m.o[at]
            elif how == 4 and i == len(hs) - 1:
                got = hs.popitem() if op['pad'] else hs.pop()
                self.ctx.check((got[0].lower(), got[1]) == tuple(x), 'raw', '%s: popped %r instead of %r', what, got, x)
                del m.o[at]
            else:
                got = hs[i]
                self.ctx.check((got[0].lower(), got[1]) == tuple(x), 'raw', '%s: line %d is %r instead of %r', what, i, got, x)
        else:
            bad = [lambda: hs.set(n, op['bad']), lambda: hs.add(n, op['bad']), lambda: hs.set(n, BadStr()), lambda: hs.__setitem__(n, op['bad']), lambda: hs.extend({n: [op['bad']]}),
                   lambda: hs.extend([(n, op['bad'])]), lambda: hs.__setitem__(slice(0, 1), [(n, op['bad'])]), lambda: hs.__setitem__(0, (n, op['bad'])) if len(hs) else hs.add(n, op['bad']),
                   lambda: hs.add_header(n, op['bad']), lambda: hs.__setitem__(slice(0, 0), [(n, 'fine'), (n, op['bad'])]),
                   lambda: hs.extend([(n, 'fine'), (n, op['bad'])]), lambda: hs.extend({'X-New': 'fine', n: ['fine', op['bad']]}), lambda: hs.extend(iter([(n, 'fine'), (n, BadStr())]))]
            bad = bad[(op['name'] + 3 * op['how']) % len(bad)]
            got, err = self.call(bad, Refuse, ValueError)
            self.ctx.check(err is not None, 'not-refused', '%s: was not refused', what)
            self.ctx.fault('refused.raw')

    def do_send(self, m, op, what):
        before = m.resp.headers.to_wsgi_list()
        got = []

        def start(status, headers, exc_info=None):
            got.append(headers)
            return None
        env = make_environ('GET', '/', body=b'')
        for _ in m.resp(env, start):
            pass
        ours = [(k, v) for k, v in got[0] if k.lower() not in ('location', 'content-location', 'content-length')]
        ref = Model(None)
        ref.c = m.c
        ref.o = [x for x in m.o if x[0] not in ('location', 'content-location', 'content-length')]
        want = {'location': [urljoin('http://sim.example/', x) for x in m.others('location')], 'content-location': m.others('content-location'),
                'content-length': m.others('content-length') or [str(m.size)]}
        for n in sorted(want):
            have = [v for k, v in got[0] if k.lower() == n]
            self.ctx.check(have == want[n], 'sent', '%s: sent %s as %r, expected %r', what, n, have, want[n])
        compare(self.ctx, ref, ours, what)
        self.ctx.check(m.resp.headers.to_wsgi_list() == before, 'sending', '%s: sending changed the headers of the response', what)
        self.sent.append((got[0], list(got[0]), what))


def describe(op):
    return ' '.join('%s=%r' % (k, v) for k, v in op.items())


def execute(ctx):
    plan = ctx.plan
    run = Runner(ctx, plan)
    if plan['threads']:
        def work(i):
            def fn():
                for op in plan['ops']:
                    if op['r'] == i and op['k'] != 'wait':
                        run.run(op)
            return fn
        ctx.run_threads([work(i) for i in range(len(plan['made']))])
    else:
        for op in plan['ops']:
            run.run(op)
    for m in run.models:
        compare(ctx, m, m.resp.headers.to_wsgi_list(), 'at the end')
        # looking changes nothing
        before = m.resp.headers.to_wsgi_list()
        for v in ('vary', 'allow', 'content_language', 'cache_control', 'www_authenticate', 'content_range', 'mimetype_params', 'mimetype', 'location', 'age', 'date', 'retry_after'):
            getattr(m.resp, v)
        ctx.check(m.resp.headers.to_wsgi_list() == before, 'reading', 'reading the views changed the headers from %r to %r', before, m.resp.headers.to_wsgi_list())
    for now, then, what in run.sent:
        ctx.check(now == then, 'sent-changed', 'headers already sent were changed later (%s)', what)
