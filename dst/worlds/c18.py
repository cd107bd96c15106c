"""C18: request objects as read-only views, asked in any order by several readers."""
import base64
import copy
import pickle
from calendar import timegm
from datetime import datetime
from email.utils import formatdate
from urllib.parse import parse_qsl, quote, unquote, urlsplit

from ..core import sched_knobs
from ..gen import wchoice, text
from ..server import SimInput, make_environ

from verktyg.datastructures import ImmutableDict, ImmutableOrderedMultiDict
from verktyg.exceptions import SecurityError
from verktyg.requests import Request

ID = 'C18'
QUICK = 32000
THOROUGH = 1200000
BATCH = 300
SHRINK = ('threads', 'threads.*', 'objs', 'envs.*.drop')
RULE = ('Seeded plans: 1-3 requests with any mix of present, missing and malformed fields, 1-4 request objects over them (several for one request, shallow, '
        'unregistered, with trusted hosts, with other storage classes), 1-3 threads that read their accessors in any order and try to change what they got.  '
        'Oracle: a model of the request that was sent.')
REAL = ['verktyg.requests', 'verktyg.wsgi (get_host, get_current_url, EnvironHeaders)', 'verktyg.http request header parsers', 'verktyg.datastructures (immutable types)',
        'verktyg.utils.cached_property']
STUB = ['threads: simulated scheduler', 'transport (must stay untouched)']
ASSUMPTIONS = ['the body is read by one thread only (C03)']

PATHS = ['/', '', '/a', '/a/b-1', '//a', '/é', '/ü/x', 'a', '/a/', '/\xff', '/x y', '/a%25b', '/a;b=1', '/A.b~c']
SCRIPTS = ['', '', None, '/app', '/app/', '/é', '/a/b', '/']
QVALUES = ['1', '2', 'x', '', '', 'é', 'a b', 'a+b', 'a&b', 'a=b', 'ü', '%', '/?']
HOSTS = ['sim.example', 'sim.example:8080', 'SIM.example', 'a.sim.example', 'other.example', 'xn--bcher-kva.example', '10.0.0.1:81', 'notsim.example']
TRUST = [['sim.example'], ['.sim.example'], ['other.example', 'sim.example:99'], 'sim.example', [], ['b\xfccher.example'], ['.example'], ['.sim.example:1', '10.0.0.1']]
DAY = 86400


def gen_env(rng):
    e = {}

    def maybe(k, p, good, bad=()):
        if rng.random() < p:
            e[k] = rng.choice(bad) if bad and rng.random() < 0.25 else good()
    e['method'] = rng.choice(['GET', 'GET', 'POST', 'post', 'Head', None])
    e['path'] = rng.choice(PATHS + [None])
    e['script'] = rng.choice(SCRIPTS)
    e['q'] = [[rng.choice(['a', 'b', 'k', 'é']), rng.choice(QVALUES)] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    e['bare'] = rng.random() < 0.5      # no = before an empty value
    e['qmissing'] = not e['q'] and rng.random() < 0.5
    e['host'] = rng.choice(HOSTS)
    e['scheme'] = rng.choice(['http', 'https'])
    if rng.random() < 0.25:
        e['nohost'] = rng.choice(['80', '443', '8080'])
    if rng.random() < 0.2:
        e['fwd'] = rng.choice(['front.example', 'sim.example , proxy.example', 'front.example:99,x', ' sim.example'])
    if rng.random() < 0.5:
        e['addr'] = rng.choice(['10.0.0.1', '::1', '192.168.7.7'])
    if rng.random() < 0.35:
        e['via'] = rng.sample(['10.0.0.1', '10.0.0.2', '192.168.7.7'], rng.randint(1, 3))
    maybe('user', 0.3, lambda: rng.choice(['ann', 'bob', '']))
    maybe('xhr', 0.3, lambda: rng.choice(['XMLHttpRequest', 'xmlhttprequest', 'other']))
    maybe('ref', 0.3, lambda: rng.choice(['http://a/1', 'x']))
    maybe('ct', 0.6, lambda: rng.choice(['text/plain', 'text/HTML; charset=UTF-8', 'application/x-a; v=1; w="t w"', 'Multipart/Form-Data;boundary=b']), ['', ';', ' ; x=1', ';;', '=', ','])
    maybe('len', 0.6, lambda: str(rng.randint(0, 40)), ['x', '', '-5', '1.5', '0x10'])
    maybe('enc', 0.2, lambda: rng.choice(['gzip', 'br']))
    maybe('md5', 0.2, lambda: 'Q2hlY2sgSW50ZWdyaXR5IQ==')
    for k in ('date', 'ims', 'ius'):
        maybe(k, 0.3, lambda: [rng.randint(0, 1 << 31), rng.choice([0, 0, 7200, -3600])],
              ['x', '', 'Sat, 99 Oct 2015 00:00:00 GMT', '0', 'Sat, 31 Oct 99999 00:00:00 GMT', 'GMT', 'Sat, 31 Foo 2015 25:61:00 GMT'])
    maybe('fwds', 0.3, lambda: rng.randint(0, 10), ['x', '', '1.5', 'None'])
    maybe('pragma', 0.3, lambda: rng.sample(['no-cache', 'x', 'Y', 'a b'], rng.randint(1, 3)))
    maybe('cc', 0.4, lambda: [[k, {'max-age': rng.randint(0, 999), 'max-stale': rng.choice([None, 5]), 'min-fresh': rng.randint(0, 99), 'no-cache': rng.choice([None, 'f'])}.get(k)]
                              for k in rng.sample(['max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store', 'no-transform', 'only-if-cached'], rng.randint(1, 4))],
          ['', ',', '=', '"', ',,=,"'])
    for k in ('im', 'inm'):
        maybe(k, 0.35, lambda: rng.choice(['*', [[t, rng.random() < 0.3] for t in rng.sample(['a', 'b', 'c d', 'e,f', '1-2'], rng.randint(1, 3))]]), [''])
    maybe('ir', 0.3, lambda: rng.choice([['tag', 'a', False], ['tag', 'b c', True], ['date', rng.randint(0, 1 << 31)]]), [''])
    maybe('range', 0.4, lambda: rng.choice([[[0, 9]], [[5, 5]], [[100, None]], [[-7, None]], [[0, 1], [4, 9]], [[0, 1], [4, None]], [[3, 5], [-2, None]]]),
          ['bytes=a-b', 'bytes=0-,5-9', 'bytes=-', 'bytes=--5', 'bytes=1-x', 'bytes=', 'bytes', '', 'bytes=5-2', 'bytes=1-2,x', 'bytes=-5,1-2', 'bytes=1-2,', '=', 'bytes=x-1',
           'bytes=-1-2', 'bytes=-5,-5', 'bytes=9-12,3-5', 'bytes=1-5,-x'])
    maybe('auth', 0.4, lambda: rng.choice([['basic', rng.choice(['ann', 'b b', '']), rng.choice(['pw', 'a:b', ''])],
                                           ['digest', rng.choice(['ann', 'eve']), text(rng, 5, 'abc0')],
                                           ['digest', 'ann', 'r1', rng.choice(['auth', 'auth, auth-int']), text(rng, 4, 'abc')]]),
          ['Digest username="u", realm="r", nonce="n", uri="/", response="x", qop="auth"', 'Basic', 'Basic x', 'Basic !!!!', 'Bearer abc', 'Digest', 'Digest username=u', 'Digest =', '', ' ', 'Basic YQ==', 'digest ,,,'])
    e['c'] = [[k, text(rng, 4, 'abc123')] for k in rng.sample(['sid', 'u', 'lang'], rng.choice([0, 0, 1, 3]))]
    e['x'] = [[k, rng.choice(['1', 'v w', '42', 'é', ''])] for k in rng.sample(['X-One', 'X-two', 'X-THREE-b', 'Accept'], rng.choice([0, 1, 3]))]
    e['body'] = text(rng, rng.choice([0, 3, 30]), 'abc\n')
    e['flags'] = [rng.random() < 0.5 for _ in range(3)]
    e['input'] = rng.random() < 0.9
    return e


READS = ['method', 'path', 'full_path', 'script_root', 'query_string', 'args', 'args.get', 'args.list', 'url', 'base_url', 'url_root', 'host_url', 'host', 'scheme', 'is_secure',
         'is_xhr', 'flags', 'remote_addr', 'access_route', 'remote_user', 'cookies', 'headers', 'headers.get', 'headers.in', 'headers.len', 'headers.type', 'content_type', 'content_length', 'mimetype',
         'mimetype_params', 'content_encoding', 'content_md5', 'referrer', 'date', 'max_forwards', 'pragma', 'cache_control', 'if_match', 'if_none_match', 'tag.in', 'if_modified_since',
         'if_unmodified_since', 'if_range', 'range', 'authorization', 'environ', 'input_stream', 'args.pickle', 'cookies.copy', 'repr',
         'args.views', 'args.types', 'cookies.get', 'headers.views', 'headers.types', 'tag.raw', 'range.use', 'if_range.header', 'auth.all', 'cc.items', 'pragma.in', 'method.again']

DICTY = ['set', 'del', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'ior', 'copy']
CHANGES = ([['args', c] for c in DICTY + ['add', 'setlist', 'setlistdefault', 'poplist', 'popitemlist', 'getlist', 'lists', 'listvalues', 'to_dict', 'deepcopy']]
           + [['cookies', c] for c in DICTY] + [['authorization', c] for c in DICTY] + [['cache_control', c] for c in DICTY + ['attr', 'delattr', 'flag']]
           + [['headers', c] for c in ('set', 'del', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'add', 'add_header', 'remove', 'insert', 'setmeth')]
           + [['access_route', c] for c in ('append', 'clear', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'setitem', 'delitem', 'iadd', 'imul', 'slice', 'copy')]
           + [['authorization', 'qop']] + [[v, 'as_set'] for v in ('if_match', 'if_none_match')])


SPOIL = ['params', 'params', 'pragma', 'range', 'ifrange', 'cache']


def generate(rng, tier):
    envs = [gen_env(rng) for _ in range(wchoice(rng, [(4, 1), (3, 2), (1, 3)]))]
    objs = []
    for _ in range(wchoice(rng, [(3, 1), (4, 2), (2, 3), (1, 4)])):
        o = {'env': rng.randrange(len(envs)), 'kind': wchoice(rng, [(5, 'plain'), (1, 'unpop'), (1.5, 'shallow'), (2, 'trusted'), (1, 'ordered'), (1, 'flat')])}
        if o['kind'] == 'trusted':
            o['trust'] = rng.choice(TRUST)
        objs.append(o)
    threads = []
    for _ in range(wchoice(rng, [(5, 1), (4, 2), (1, 3)])):
        focus = rng.sample(READS, 4)
        ops = []
        for _ in range(rng.randint(3, 25)):
            o = rng.randrange(len(objs))
            if rng.random() < 0.3:
                v, c = rng.choice(CHANGES)
                ops.append([o, '!' + v, c, rng.choice(['a', 'zz', 'sid', 'max-age', 'username', 'Host'])])
            elif rng.random() < 0.06:
                ops.append([o, '~', rng.choice(SPOIL), ''])
            else:
                ops.append([o, rng.choice(focus if rng.random() < 0.4 else READS), rng.choice(['a', 'b', 'k', 'é', 'zz']), rng.choice(['X-One', 'x-one', 'HOST', 'Content-Type', 'Accept', 'zz'])])
        threads.append(ops)
    return {'t0': 1445412480 + rng.randint(0, 10**7), 'tz': 'UTC', 'envs': envs, 'objs': objs, 'threads': threads, 'sched': sched_knobs(rng)}


# -- the request that is sent ---------------------------------------------------

def date_header(v):
    if isinstance(v, str):
        return v
    t, off = v
    if not off:
        return formatdate(t, usegmt=True)
    return formatdate(t + off)[:-5] + '%s%02d00' % ('+' if off > 0 else '-', abs(off) // 3600)


def header_values(e):
    h = []

    def put(k, name, f=lambda v: v):
        if k in e:
            h.append((name, e[k] if isinstance(e[k], str) and k not in ('inm', 'im') else f(e[k])))
    put('fwd', 'X-Forwarded-Host')
    if 'via' in e:
        h.append(('X-Forwarded-For', ', '.join(e['via'])))
    put('xhr', 'X-Requested-With')
    put('ref', 'Referer')
    put('enc', 'Content-Encoding')
    put('md5', 'Content-MD5')
    put('date', 'Date', date_header)
    put('ims', 'If-Modified-Since', date_header)
    put('ius', 'If-Unmodified-Since', date_header)
    put('fwds', 'Max-Forwards', str)
    put('pragma', 'Pragma', lambda v: ', '.join('"%s"' % x if ' ' in x else x for x in v))
    put('cc', 'Cache-Control', lambda v: ', '.join(k if x is None else '%s=%s' % (k, x) for k, x in v))
    for k, n in (('im', 'If-Match'), ('inm', 'If-None-Match')):
        put(k, n, lambda v: v if isinstance(v, str) else ', '.join('%s"%s"' % ('W/' if w else '', t) for t, w in v))
    put('ir', 'If-Range', lambda v: formatdate(v[1], usegmt=True) if v[0] == 'date' else '%s"%s"' % ('W/' if v[2] else '', v[1]))
    put('range', 'Range', lambda v: 'bytes=' + ','.join(str(a) if a < 0 else '%d-%s' % (a, '' if b is None else b) for a, b in v))
    put('auth', 'Authorization', lambda v: ('Basic ' + base64.b64encode(('%s:%s' % (v[1], v[2])).encode()).decode() if v[0] == 'basic' else
                                            'Digest username="%s", realm="r", nonce="n", uri="/", response="%s"' % (v[1], v[2])
                                            + (', qop="%s", nc=00000001, cnonce="%s", opaque="o p"' % (v[3], v[4]) if v[3:] else '')))
    if e['c']:
        h.append(('Cookie', '; '.join('%s=%s' % (k, v) for k, v in e['c'])))
    h += [(k, v.encode('utf-8').decode('latin1')) for k, v in e['x']]
    return h


def query(e):
    return '&'.join('%s%s%s' % (quote(k), '=' if v or not e.get('bare') else '', quote(v, safe='')) for k, v in e['q'])


def wire(ctx, e):
    inp = SimInput(ctx, e['body'].encode())
    env = make_environ(e['method'] or 'GET', '/', query=query(e), headers=header_values(e), host=e['host'], scheme=e['scheme'], input=inp)
    for k in ('path', 'script'):
        n = {'path': 'PATH_INFO', 'script': 'SCRIPT_NAME'}[k]
        if e[k] is None:
            env.pop(n, None)
        else:
            env[n] = e[k] if '\xff' in e[k] else e[k].encode('utf-8').decode('latin1')
    if e['method'] is None:
        del env['REQUEST_METHOD']
    if e['qmissing']:
        del env['QUERY_STRING']
    if 'nohost' in e:
        del env['HTTP_HOST']
        env['SERVER_NAME'] = e['host'].split(':')[0]
        env['SERVER_PORT'] = e['nohost']
    if 'addr' in e:
        env['REMOTE_ADDR'] = e['addr']
    if 'user' in e:
        env['REMOTE_USER'] = e['user']
    if 'ct' in e:
        env['CONTENT_TYPE'] = e['ct']
    if 'len' in e:
        env['CONTENT_LENGTH'] = e['len']
    env['wsgi.multithread'], env['wsgi.multiprocess'], env['wsgi.run_once'] = e['flags']
    return env, inp


# -- what every reader has to be told ----------------------------------------------

def instant(v):
    return None if v is None or isinstance(v, str) else datetime.utcfromtimestamp(v[0]).isoformat()


def host_of(e):
    if 'fwd' in e:
        return e['fwd'].split(',')[0].strip()
    if 'nohost' in e:
        h = e['host'].split(':')[0]
        return h if (e['scheme'], e['nohost']) in (('http', '80'), ('https', '443')) else h + ':' + e['nohost']
    return e['host']


def trusted(host, trust):
    def bare(h):
        return h.rsplit(':', 1)[0].encode('idna').decode().lower() if h else h
    if isinstance(trust, str):
        trust = [trust]
    host = bare(host)
    for t in trust:
        if t.startswith('.'):
            if host == bare(t[1:]) or host.endswith('.' + bare(t[1:])):
                return True
        elif host == bare(t):
            return True
    return False


def iri_host(h):
    return h.replace('xn--bcher-kva', 'b\xfccher')


def ugly(e):
    """addresses whose readable form is a matter of taste"""
    return any(x and any(c in x for c in '\xff %;~?') for x in (e['path'], e['script'])) or any(c in v for _, v in e['q'] for c in ' +&=%/?') or host_of(e) != host_of(e).lower()


ANY = object()


class Alike(list):
    """[scheme, host, path, arguments] of an address that may be written in several ways"""


def alike(url):
    u = urlsplit(url)
    return [u.scheme, u.netloc.lower(), unquote(u.path), [list(x) for x in parse_qsl(u.query, keep_blank_values=True)]]


class Expected(object):
    """the answers for one request object"""
    def __init__(self, e, o):
        self.e = e
        self.o = o
        self.kind = o['kind']

    def get(self, op, k, h):
        e = self.e
        if op in ('url', 'base_url', 'url_root', 'host_url', 'host') and self.kind == 'trusted' and host_of(e) != host_of(e).lower():
            return ANY      # whether upper case may be refused is a matter of taste
        if op in ('url', 'base_url', 'url_root', 'host_url', 'host') and self.kind == 'trusted' and (
                not host_of(e) or not trusted(host_of(e), self.o['trust'])):
            return ['refused', 'SecurityError']
        return getattr(self, 'm_' + op.replace('.', '_'))(e, k, h)

    def m_method(self, e, k, h):
        return (e['method'] or 'GET').upper()

    def _path(self, e):
        p = (e['path'] or '').replace('\xff', '\ufffd')
        return '/' + p.lstrip('/')

    def _root(self, e):
        return (e['script'] or '').rstrip('/')

    def m_path(self, e, k, h):
        return self._path(e)

    def m_full_path(self, e, k, h):
        return self._path(e) + '?' + query(e)

    def m_script_root(self, e, k, h):
        return self._root(e)

    def m_query_string(self, e, k, h):
        return query(e)

    def _pairs(self, e):
        if self.kind == 'flat':
            return sorted(map(list, dict(map(tuple, e['q'])).items()))
        if self.kind == 'ordered':
            return e['q']
        d = {}
        for a, v in e['q']:
            d.setdefault(a, []).append(v)
        return [[a, v] for a, vs in d.items() for v in vs]

    def m_args(self, e, k, h):
        return self._pairs(e)

    def m_args_pickle(self, e, k, h):
        return [self._pairs(e)] * 2

    def m_args_get(self, e, k, h):
        v = [b for a, b in self._pairs(e) if a == k]
        return [v[0] if v else 'none', bool(v), v[0] if v and v[0].isdigit() else None]

    def m_args_list(self, e, k, h):
        return [b for a, b in e['q'] if a == k]

    def _url(self, e, tail, q=''):
        if any(x and '\xff' in x for x in (e['path'], e['script'])) or not host_of(e):
            return ANY
        if ugly(e):
            return Alike([e['scheme'], iri_host(host_of(e).lower()), tail, e['q'] if q else []])
        return e['scheme'] + '://' + iri_host(host_of(e)) + tail + q

    def m_host_url(self, e, k, h):
        return self._url(e, '/')

    def m_url_root(self, e, k, h):
        return self._url(e, self._root(e) + '/')

    def m_base_url(self, e, k, h):
        return self._url(e, self._root(e) + self._path(e))

    def m_url(self, e, k, h):
        q = '&'.join('%s%s%s' % (a, '=' if v or not e.get('bare') else '', v) for a, v in e['q'])
        return self._url(e, self._root(e) + self._path(e), '?' + q if q else '')

    def m_host(self, e, k, h):
        return host_of(e)

    def m_scheme(self, e, k, h):
        return e['scheme']

    def m_is_secure(self, e, k, h):
        return e['scheme'] == 'https'

    def m_is_xhr(self, e, k, h):
        return e.get('xhr', '').lower() == 'xmlhttprequest'

    def m_flags(self, e, k, h):
        return e['flags']

    def m_remote_addr(self, e, k, h):
        return e.get('addr')

    def m_access_route(self, e, k, h):
        return e['via'] if 'via' in e else [e['addr']] if 'addr' in e else []

    def m_remote_user(self, e, k, h):
        return e.get('user')

    def m_cookies(self, e, k, h):
        return sorted(e['c'])

    def m_cookies_copy(self, e, k, h):
        return [sorted(e['c'])] * 3

    def _headers(self, e):
        r = [(n.title(), v) for n, v in header_values(e) if n.lower() not in ('content-type', 'content-length')]
        if 'nohost' not in e:
            r.append(('Host', e['host']))
        if 'ct' in e:
            r.append(('Content-Type', e['ct']))
        if 'len' in e:
            r.append(('Content-Length', e['len']))
        return r

    def m_headers(self, e, k, h):
        return sorted(map(list, self._headers(e)))

    def _header(self, e, h):
        return dict((n.lower(), v) for n, v in self._headers(e)).get(h.lower())

    def m_headers_get(self, e, k, h):
        v = self._header(e, h)
        return [v, 'KeyError' if v is None else v, [] if v is None else [v], v or 'none' if v is None else v]

    def m_headers_in(self, e, k, h):
        return self._header(e, h) is not None

    def m_headers_len(self, e, k, h):
        return len(self._headers(e))

    def m_headers_type(self, e, k, h):
        return [e['fwds'] if isinstance(e.get('fwds'), int) else -1]

    def m_content_type(self, e, k, h):
        return e.get('ct')

    def m_content_length(self, e, k, h):
        try:
            return max(0, int(e['len']))
        except (KeyError, ValueError):
            return None

    def _bad_ct(self, e):
        return 'ct' in e and not e['ct'].split(';')[0].strip().count('/')

    def m_mimetype(self, e, k, h):
        if self._bad_ct(e):
            return ANY if e['ct'] else ''
        return e.get('ct', '').split(';')[0].strip().lower()

    def m_mimetype_params(self, e, k, h):
        if self._bad_ct(e):
            return ANY if e['ct'] else {}
        return {x.split('=')[0].strip(): x.split('=')[1].strip('"') for x in e.get('ct', '').split(';')[1:]}

    def m_content_encoding(self, e, k, h):
        return e.get('enc')

    def m_content_md5(self, e, k, h):
        return e.get('md5')

    def m_referrer(self, e, k, h):
        return e.get('ref')

    def m_date(self, e, k, h):
        return instant(e.get('date'))

    def m_if_modified_since(self, e, k, h):
        return instant(e.get('ims'))

    def m_if_unmodified_since(self, e, k, h):
        return instant(e.get('ius'))

    def m_max_forwards(self, e, k, h):
        return e['fwds'] if isinstance(e.get('fwds'), int) else None

    def m_pragma(self, e, k, h):
        return sorted(e.get('pragma', []))

    def m_cache_control(self, e, k, h):
        if isinstance(e.get('cc'), str):
            return [None, None, False, None, None, False, False]
        d = dict(map(tuple, e.get('cc', [])))

        def v(n, empty):
            return (empty if d[n] is None else d[n]) if n in d else None
        return [v('max-age', -1), v('no-cache', '*'), 'no-store' in d, v('max-stale', '*'), v('min-fresh', '*'), 'no-transform' in d, 'only-if-cached' in d]

    def _tags(self, v):
        if v == '*':
            return [[], [], True]
        v = v or []
        return [sorted(t for t, w in v if not w), sorted(t for t, w in v if w), False]

    def m_if_match(self, e, k, h):
        return self._tags(e.get('im'))

    def m_if_none_match(self, e, k, h):
        return self._tags(e.get('inm'))

    def m_tag_in(self, e, k, h):
        s, w, star = self._tags(e.get('inm'))
        return [star or k in s, k in w, k in w or star or k in s]

    def m_if_range(self, e, k, h):
        v = e.get('ir')
        if not v:
            return [None, None]
        return [v[1], None] if v[0] == 'tag' else [None, datetime.utcfromtimestamp(v[1]).isoformat()]

    def m_range(self, e, k, h):
        v = e.get('range')
        if not v or isinstance(v, str):
            return None
        return ['bytes', [[a, None if b is None else b + 1] for a, b in v]]

    def m_authorization(self, e, k, h):
        v = e.get('auth')
        if not v or isinstance(v, str):
            return None
        if v[0] == 'basic':
            return ['basic', v[1], v[2], None, None]
        return ['digest', v[1], None, 'r', v[2]]

    def m_auth_all(self, e, k, h):
        v = e.get('auth')
        if not v or isinstance(v, str):
            return None
        if v[0] == 'basic':
            return [None, None, [], None, None, None, ['password', 'username']]
        if v[3:]:
            return ['n', '/', sorted(v[3].split(', ')), 'o p', '00000001', v[4],
                    ['cnonce', 'nc', 'nonce', 'opaque', 'qop', 'realm', 'response', 'uri', 'username']]
        return ['n', '/', [], None, None, None, ['nonce', 'realm', 'response', 'uri', 'username']]

    def m_args_views(self, e, k, h):
        p = self._pairs(e)
        d = {}
        for a, v in p:
            d.setdefault(a, []).append(v)
        first = [[a, v[0]] for a, v in d.items()]
        s = sorted if self.kind == 'flat' else list
        return [s(a for a, _ in first), s(v for _, v in first), s(first), s(d), len(d)] + ([] if self.kind == 'flat' else [[[a, v] for a, v in d.items()], list(d.values()), dict(map(tuple, first)), d])

    def m_args_types(self, e, k, h):
        if self.kind == 'flat':
            return ANY
        v = [b for a, b in e['q'] if a == k]
        ints = [int(x) for x in v if x.isdigit()]
        return [int(v[0]) if v and v[0].isdigit() else -1, ints, None if not v or not v[0].isdigit() else int(v[0])]

    def m_cookies_get(self, e, k, h):
        d = dict(map(tuple, e['c']))
        v = d.get('sid')
        return ['none' if v is None else v, int(v) if v and v.isdigit() else -1, len(d), v is not None, d.get('u'), sorted(d)]

    def m_headers_views(self, e, k, h):
        v = sorted(map(list, self._headers(e)))
        return [sorted(a for a, _ in v), sorted(b for _, b in v), [[a.lower(), b] for a, b in v], sorted(a.lower() for a, _ in v), v]

    def m_headers_types(self, e, k, h):
        v = self._header(e, h)
        try:
            n = None if v is None else int(v)
        except ValueError:
            n = None
        return [-1 if n is None else n, [] if n is None else [n], None if v is None else v.encode('latin1').decode('latin1'), [] if v is None else [v]]

    def m_tag_raw(self, e, k, h):
        s, w, star = self._tags(e.get('inm'))
        return [bool(s or w or star), star or k in s, star or k in s or k in w, s, sorted(s + w), star or k in s]

    def m_range_use(self, e, k, h):
        v = e.get('range')
        if not v or isinstance(v, str):
            return None
        use = []
        for n in (8, 100, 101, None):
            r = None
            if len(v) == 1 and n is not None:
                a, b = v[0]
                if a < 0:
                    r = [n + a, n] if -a <= n else None
                elif a < n:
                    r = [a, n if b is None else min(b + 1, n)]
            use.append([r, r and 'bytes %d-%d/%d' % (r[0], r[1] - 1, n)])
        return [use, 'bytes=' + ','.join(str(a) if a < 0 else '%d-%s' % (a, '' if b is None else b) for a, b in v)]

    def m_if_range_header(self, e, k, h):
        v = e.get('ir')
        if not v:
            return ''
        return '"%s"' % v[1] if v[0] == 'tag' else formatdate(v[1], usegmt=True)

    def m_cc_items(self, e, k, h):
        if isinstance(e.get('cc'), str):
            return ANY
        return sorted([a, None if v is None else str(v)] for a, v in e.get('cc', []))

    def m_pragma_in(self, e, k, h):
        p = e.get('pragma', [])
        return [bool(p), 'NO-CACHE' in [x.upper() for x in p], 'y' in [x.lower() for x in p], len(p), [x for x in p]]

    def m_method_again(self, e, k, h):
        return [(e['method'] or 'GET').upper()] * 2

    def m_environ(self, e, k, h):
        return True

    def m_input_stream(self, e, k, h):
        return True

    def m_repr(self, e, k, h):
        return ANY


def read(req, env, op, k, h):
    f = READERS.get(op)
    return f(req, env, k, h) if f else getattr(req, op)


def pairs(d):
    return [[a, b] for a, b in (d.items(multi=True) if hasattr(d, 'getlist') else d.items())]


def flat_sort(req, p):
    return sorted(p) if type(req.args) is ImmutableDict else p


def getitem(h, k):
    try:
        return h[k]
    except KeyError:
        return 'KeyError'


def args_views(a):
    s = list if hasattr(a, 'getlist') else sorted
    r = [s(a.keys()), s(a.values()), s([k, v] for k, v in a.items()), s(a), len(a)]
    if hasattr(a, 'getlist'):
        r += [[[k, list(v)] for k, v in a.lists()], [list(x) for x in a.listvalues()], a.to_dict(), {k: list(v) for k, v in a.to_dict(flat=False).items()}]
    return r


def _iso(d):
    return None if d is None else d.isoformat()


def _tags(t):
    a = t.as_set()
    return [sorted(a), sorted(t.as_set(include_weak=True) - a), t.star_tag]


READERS = {
    'args': lambda r, e, k, h: flat_sort(r, pairs(r.args)),
    'args.get': lambda r, e, k, h: [r.args.get(k, 'none'), k in r.args, r.args[k] if k in r.args and r.args[k].isdigit() else None],
    'args.list': lambda r, e, k, h: r.args.getlist(k) if hasattr(r.args, 'getlist') else ANY,
    'args.pickle': lambda r, e, k, h: [flat_sort(r, pairs(x)) for x in (pickle.loads(pickle.dumps(r.args)), copy.copy(r.args))],
    'access_route': lambda r, e, k, h: list(r.access_route),
    'cookies': lambda r, e, k, h: sorted([a, b] for a, b in r.cookies.items()),
    'cookies.copy': lambda r, e, k, h: [sorted([a, b] for a, b in c.items()) for c in (r.cookies.copy(), copy.copy(r.cookies), pickle.loads(pickle.dumps(r.cookies)))],
    'flags': lambda r, e, k, h: [r.is_multithread, r.is_multiprocess, r.is_run_once],
    'headers': lambda r, e, k, h: sorted([a, b] for a, b in r.headers),
    'headers.get': lambda r, e, k, h: [r.headers.get(h), getitem(r.headers, h), r.headers.getlist(h), r.headers.get(h, 'none')],
    'headers.in': lambda r, e, k, h: h in r.headers,
    'headers.len': lambda r, e, k, h: len(r.headers),
    'headers.type': lambda r, e, k, h: [r.headers.get('max-forwards', -1, type=int)],
    'mimetype_params': lambda r, e, k, h: dict(r.mimetype_params),
    'date': lambda r, e, k, h: _iso(r.date),
    'if_modified_since': lambda r, e, k, h: _iso(r.if_modified_since),
    'if_unmodified_since': lambda r, e, k, h: _iso(r.if_unmodified_since),
    'pragma': lambda r, e, k, h: sorted(r.pragma),
    'cache_control': lambda r, e, k, h: [getattr(r.cache_control, n) for n in ('max_age', 'no_cache', 'no_store', 'max_stale', 'min_fresh', 'no_transform', 'only_if_cached')],
    'if_match': lambda r, e, k, h: _tags(r.if_match),
    'if_none_match': lambda r, e, k, h: _tags(r.if_none_match),
    'tag.in': lambda r, e, k, h: [k in r.if_none_match, r.if_none_match.is_weak(k), r.if_none_match.contains_weak(k)],
    'if_range': lambda r, e, k, h: [r.if_range.etag, _iso(r.if_range.date)],
    'range': lambda r, e, k, h: r.range and [r.range.units, [list(x) for x in r.range.ranges]],
    'authorization': lambda r, e, k, h: r.authorization and [getattr(r.authorization, n) for n in ('type', 'username', 'password', 'realm', 'response')],
    'args.views': lambda r, e, k, h: args_views(r.args),
    'args.types': lambda r, e, k, h: [r.args.get(k, -1, type=int), r.args.getlist(k, type=int), r.args.get(k, type=int)] if hasattr(r.args, 'getlist') else None,
    'cookies.get': lambda r, e, k, h: [r.cookies.get('sid', 'none'), r.cookies.get('sid', -1, type=int), len(r.cookies), 'sid' in r.cookies, r.cookies.get('u'), sorted(r.cookies)],
    'headers.views': lambda r, e, k, h: [sorted(r.headers.keys()), sorted(r.headers.values()), [list(x) for x in sorted(r.headers.items(lower=True))], sorted(r.headers.keys(lower=True)),
                                         [list(x) for x in sorted(r.headers.items())]],
    'headers.types': lambda r, e, k, h: [r.headers.get(h, -1, type=int), r.headers.getlist(h, type=int), (lambda v: v if v is None else v.decode('latin1'))(r.headers.get(h, as_bytes=True)),
                                         r.headers.get_all(h)],
    'tag.raw': lambda r, e, k, h: [bool(r.if_none_match), r.if_none_match.contains_raw('"%s"' % k), r.if_none_match.contains_raw('w/"%s"' % k), sorted(r.if_none_match),
                                   sorted(r.if_none_match.as_set(include_weak=True)), r.if_none_match.contains(k)],
    'range.use': lambda r, e, k, h: r.range and [[[(lambda v: v and list(v))(r.range.range_for_length(n)), (lambda v: v and v.to_header())(r.range.make_content_range(n))]
                                                  for n in (8, 100, 101, None)], r.range.to_header()],
    'if_range.header': lambda r, e, k, h: r.if_range.to_header(),
    'auth.all': lambda r, e, k, h: r.authorization and [r.authorization.nonce, r.authorization.uri, sorted(r.authorization.qop), r.authorization.opaque, r.authorization.nc,
                                                        r.authorization.cnonce, sorted(r.authorization)],
    'cc.items': lambda r, e, k, h: sorted([a, None if v is None else str(v)] for a, v in r.cache_control.items()),
    'pragma.in': lambda r, e, k, h: [bool(r.pragma), 'NO-CACHE' in r.pragma, 'y' in r.pragma, len(r.pragma), list(r.pragma)],
    'method.again': lambda r, e, k, h: [r.method, r.method],
    'environ': lambda r, e, k, h: r.environ is e,
    'input_stream': lambda r, e, k, h: r.input_stream is e['wsgi.input'],
    'repr': lambda r, e, k, h: bool(repr(r)),
}


def spoil(env, what):
    """what a handler of another request, which was sent the same, does with its own objects"""
    r = Request(env)
    if what == 'params':
        r.mimetype_params['charset'] = 'spoiled'
        r.mimetype_params['a'] = 'spoiled'
    elif what == 'pragma':
        r.pragma.add('spoiled')
        r.pragma.discard('no-cache')
    elif what == 'range' and r.range is not None:
        r.range.units = 'spoiled'
        r.range.ranges.append((7, 8))
    elif what == 'ifrange':
        r.if_range.etag, r.if_range.date = 'spoiled', None
    elif what == 'cache':
        r.cache_control.provided = True
        r.cache_control.spoiled = True


# -- attempts to change what was handed out ------------------------------------------

def content(v):
    if v is None:
        return None
    if hasattr(v, 'getlist') and hasattr(v, 'lists'):
        return pairs(v)
    if isinstance(v, dict):
        return sorted(map(repr, v.items()))
    if hasattr(v, 'as_set'):
        return _tags(v)
    return list(map(repr, v))


def _ior(v, k):
    v |= {k: 'changed', 'new': 'changed'}


def _iadd(v, k):
    v += ['changed']


def _imul(v, k):
    v *= 2


def _slice(v, k):
    v[0:1] = ['changed', 'x']


def _each_append(ls):
    for x in ls:
        (x[1] if isinstance(x, tuple) else x).append('changed')


def _change_copy(v, k):
    c = v.copy()
    if isinstance(c, list):
        list.append(c, 'changed')       # a plain list, or the refusing class again
        return
    try:
        c[k] = 'changed'
        c['new'] = 'changed'
    except TypeError:
        pass


def _set(v, k):
    v[k] = 'changed'


def _del(v, k):
    del v[k]


def _delitem(v, k):
    del v[0]


def _setitem(v, k):
    v[0] = 'changed'


def _attr(n, x):
    return lambda v, k: setattr(v, n, x)


CHANGE = {
    'set': _set, 'del': _del, 'update': lambda v, k: getattr(v, 'update', getattr(v, 'extend', None))({k: 'changed'}), 'setdefault': lambda v, k: v.setdefault('new', 'changed'),
    'pop': lambda v, k: v.pop(k) if not isinstance(v, list) else v.pop(), 'popitem': lambda v, k: v.popitem(), 'clear': lambda v, k: v.clear(), 'ior': _ior, 'copy': _change_copy,
    'add': lambda v, k: v.add(k, 'changed'), 'setlist': lambda v, k: v.setlist(k, ['changed']), 'setlistdefault': lambda v, k: v.setlistdefault('new', ['changed']),
    'poplist': lambda v, k: v.poplist(k), 'popitemlist': lambda v, k: v.popitemlist(), 'getlist': lambda v, k: v.getlist(k).append('changed'),
    'lists': lambda v, k: _each_append(v.lists()), 'listvalues': lambda v, k: _each_append(v.listvalues()), 'to_dict': lambda v, k: _each_append(v.to_dict(flat=False).items()),
    'deepcopy': lambda v, k: _change_copy(copy.deepcopy(v), k), 'attr': _attr('max_age', 7), 'flag': _attr('no_store', True), 'delattr': lambda v, k: delattr(v, 'max_age'),
    'add_header': lambda v, k: v.add_header(k, 'changed'), 'remove': lambda v, k: v.remove(k), 'insert': lambda v, k: v.insert(0, 'changed') if isinstance(v, list) else v.insert(0, (k, 'changed')),
    'setmeth': lambda v, k: v.set(k, 'changed'),
    'append': lambda v, k: v.append('changed'), 'extend': lambda v, k: v.extend(['changed']), 'reverse': lambda v, k: v.reverse(), 'sort': lambda v, k: v.sort(),
    'setitem': _setitem, 'delitem': _delitem, 'iadd': _iadd, 'imul': _imul, 'slice': _slice, 'as_set': lambda v, k: v.as_set().add('changed'), 'qop': lambda v, k: v.qop.add('changed'),
}
GIVEN_AWAY = ('copy', 'getlist', 'lists', 'listvalues', 'to_dict', 'deepcopy', 'as_set')


class Trusted(Request):
    pass


class Ordered(Request):
    parameter_storage_class = ImmutableOrderedMultiDict


class Flat(Request):
    parameter_storage_class = ImmutableDict


def execute(ctx):
    plan = ctx.plan
    made = [wire(ctx, e) for e in plan['envs']]
    before = [{k: v for k, v in env.items()} for env, _ in made]
    copies = [dict(env) for env, _ in made]
    reqs = []
    registered = {}
    for o in plan['objs']:
        env = made[o['env']][0]
        kind = o['kind']
        if kind == 'trusted':
            cls = type('Trusting', (Trusted,), {'trusted_hosts': o['trust']})
            r = cls(env)
        else:
            r = {'ordered': Ordered, 'flat': Flat}.get(kind, Request)(env, **{'unpop': {'populate_request': False}, 'shallow': {'shallow': True}}.get(kind, {}))
        if kind not in ('unpop', 'shallow'):
            registered[o['env']] = r
        reqs.append((r, env, Expected(plan['envs'][o['env']], o)))
        ctx.states.add('obj|%s' % kind)
    for e in plan['envs']:
        for k, v in e.items():
            if isinstance(v, str) and k in ('ct', 'len', 'date', 'ims', 'ius', 'fwds', 'cc', 'range', 'auth', 'ir'):
                if k in ('date', 'ims', 'ius', 'fwds', 'cc', 'range', 'auth') or not v.strip('; ='):
                    ctx.fault('malformed.%s' % k)

    def show(i):
        o = plan['objs'][i]
        return 'request %d (%s)' % (o['env'], o['kind'])

    def reader(ops):
        def run():
            for i, op, a, b in ops:
                r, env, ex = reqs[i]
                ctx.point()
                if op == '~':
                    ctx.fault('spoil.%s' % a)
                    try:
                        spoil(dict(copies[plan['objs'][i]['env']]), a)
                    except (AttributeError, TypeError):
                        pass    # may refuse
                elif op[0] == '!':
                    attempt(i, r, op[1:], a, b)
                else:
                    ask(i, r, env, ex, op, a, b)
        return run

    def ask(i, r, env, ex, op, a, b):
        want = ex.get(op, a, b)
        if op == 'args.list' and ex.kind == 'flat':
            return
        try:
            got = read(r, env, op, a, b)
        except SecurityError:
            got = ['refused', 'SecurityError']
            if want != got and want is not ANY:
                ctx.violate('refused', '%s: %s was refused although the host %r is acceptable', show(i), op, host_of(ex.e))
        except Exception as err:
            ctx.violate('error', '%s: reading %s failed with %r', show(i), op, err)
        if type(want) is Alike and got != ['refused', 'SecurityError']:
            got = alike(got)
        ctx.log(i, op, a, b, got if want is not ANY else None)
        ctx.states.add('read|%s|%s|%s' % (op, ex.kind, str(want)[:12]))
        if want is not ANY:
            ctx.check(got == want, 'wrong-view', '%s: %s%s is %r, the client sent %r', show(i), op,
                      ' of %r' % (b if op.startswith('headers.') else a) if '.' in op else '', got, want)

    def attempt(i, r, view, how, k):
        try:
            v = getattr(r, view)
        except Exception as err:
            ctx.violate('error', '%s: reading %s failed with %r', show(i), view, err)
        if v is None:
            return
        if (how in ('add', 'setlist', 'setlistdefault', 'poplist', 'popitemlist', 'getlist', 'lists', 'listvalues', 'to_dict') and not hasattr(v, 'getlist')):
            return
        was = content(v)
        if how in ('del', 'pop', 'poplist', 'setlist', 'setdefault', 'remove') and not isinstance(v, list) and view != 'headers' and k not in v and v:
            k = next(iter(v))
        if isinstance(v, list) and how == 'remove' and v:
            k = v[0]
        err = None
        try:
            CHANGE[how](v, k)
        except Exception as x:
            err = x
        now = content(getattr(r, view))
        ctx.fault('change.refused' if err is not None else 'change.given-away')
        ctx.log(i, view, how, k, type(err).__name__)
        ctx.states.add('change|%s|%s|%s' % (view, how, bool(was)))
        ctx.check(now == was, 'changed', '%s: %s.%s(%r) changed %s from %r to %r', show(i), view, how, k, view, was, now)
        if err is None and how not in GIVEN_AWAY:
            # nothing to change: no need to refuse it
            ctx.check(not was or (how in ('sort', 'reverse', 'imul') and len(was) < 2) or how in ('del', 'pop', 'remove', 'popitem', 'clear', 'delattr') and
                      view in ('headers', 'cache_control'), 'accepted', '%s: %s.%s(%r) was not refused', show(i), view, how, k)

    fns = [reader(t) for t in plan['threads']]
    if len(fns) == 1:
        fns[0]()
    elif fns:
        ctx.run_threads(fns)
    if len(fns) > 1 or len(reqs) > 1:
        ctx.probe('nontrivial')
    # asking changes nothing, neither for the server nor for whoever asks next
    for n, ((env, inp), was) in enumerate(zip(made, before)):
        for k, v in was.items():
            ctx.check(k in env and env[k] is v, 'environ', 'reading request %d changed %s of its environment to %r', n, k, env.get(k))
        new = [k for k in env if k not in was and not k.startswith('verktyg.')]
        ctx.check(not new, 'environ', 'reading request %d added %r to its environment', n, new)
        ctx.check(env.get('verktyg.request') is registered.get(n), 'environ', 'request %d is registered as %r', n, env.get('verktyg.request'))
        ctx.check(inp.calls == 0, 'body', 'reading request %d read from its body', n)
    for i, (r, env, ex) in enumerate(reqs):
        for op in READS:
            ask(i, r, env, ex, op, 'a', 'X-One')
