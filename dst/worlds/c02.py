"""C02: histories of additions and look-ups on shared URL maps.

Every look-up is compared with the answer of a map (and factories) freshly
built from the same routes; those answers are computed before the history
starts, so nothing the history does can leak into them.
"""
import json

from ..gen import wchoice
from ..core import sched_knobs

from verktyg.routing import (
    URLMap, Route, Submount, Subdomain, EndpointPrefix, RouteTemplate,
    RequestRedirect, BaseConverter, ValidationError,
)
from verktyg.exceptions import HTTPException
from ..server import make_environ

ID = 'C02'
PRISTINE = True
QUICK = 16000
THOROUGH = 500000
BATCH = 50
SHRINK = ('ops', 'ops.*.threads', 'ops.*.threads.*', 'ops.*.items')
RULE = ('Seeded histories over 1-3 maps: additions (routes, nested factories shared between maps, '
        'additions that fail part-way), adapters bound before and after, and phases of look-ups by 1-3 '
        'threads preempted at library lines or bytecodes.  Oracle: fresh map per look-up.')
REAL = ['verktyg.routing (URLMap, MapAdapter, Route, factories, converters)']
STUB = ['threads: simulated scheduler']
ASSUMPTIONS = ['routes are added between look-ups, not while look-ups of other threads are running']

SEGS = ['a', 'b', 'c', 'a-b', 'list']
UUIDS = ['6ba7b810-9dad-11d1-80b4-00c04fd430c8', '00000000-0000-0000-0000-00000000000A']
VARS = ['x', 'y', 'z']
CONVS = ['', 'int:', 'string(length=2):', 'any(a,b):', 'path:', 'float:', 'int(min=3,max=40):',
         'string(minlength=2,maxlength=3):', 'int(fixed_digits=3):', 'float(min=1,max=3):', 'any("a b",list,c):', 'uuid:', 'dub:', 'rev:']
NAMES = ['user', 'page', 'a']
EPS = ['e0', 'e1', 'e2', 'e3']
VALUES = ['a', 'b', 'ab', 'a/b', 'c/a', 1, 7, 41, '7', 2.5, 'list', 'é x', 0, 'boom', UUIDS[0]]
PATHVALS = ['a', 'b', 'c', 'ab', 'abc', '7', '41', '007', '2.5', 'a-b', 'list', 'é', 'x y', 'zz', '0']
SERVERS = ['example.com', 'Example.com:8080', 'shop.example.org']


class Doubler(BaseConverter):
    regex = r'd[a-z0-9]+'
    weight = 60

    def to_python(self, value):
        if value == 'dbad':
            raise ValidationError()
        if value == 'dboom':
            raise ZeroDivisionError('dboom')
        return value[1:]

    def to_url(self, value):
        if value == 'boom':
            raise ZeroDivisionError('boom')
        return 'd' + str(value)


class Reverser(BaseConverter):
    regex = r'[a-z]+'
    weight = 70

    def to_python(self, value):
        return value[::-1]

    def to_url(self, value):
        return str(value)[::-1]


class IntAsTuple(BaseConverter):
    """overrides a built-in name in one map only"""
    regex = r'\d+'
    weight = 50

    def to_python(self, value):
        return ('custom', value)

    def to_url(self, value):
        return str(value[1] if isinstance(value, tuple) else value)


CONVSETS = {
    'none': None,
    'dub': {'dub': Doubler},
    'both': {'dub': Doubler, 'rev': Reverser},
    'int': {'int': IntAsTuple, 'rev': Reverser},
}


# ---- generation -------------------------------------------------------------

def gen_path(rng, tmpl=False):
    n = wchoice(rng, [(1, 0), (5, 1), (5, 2), (3, 3)])
    used = []
    parts = []
    for _ in range(n):
        if rng.random() < 0.5 or len(used) == 3:
            s = rng.choice(SEGS)
            if tmpl and rng.random() < 0.5:
                s = '{name}'
            parts.append(s)
        else:
            v = rng.choice([x for x in VARS if x not in used])
            used.append(v)
            k = rng.random()
            conv = '' if k < 0.25 else rng.choice(CONVS[:12]) if k < 0.95 else rng.choice(CONVS)
            pre = rng.choice(['', '', '', 'p', 'p-'])
            parts.append('%s<%s%s>' % (pre, conv, v))
    p = '/' + '/'.join(parts)
    if p != '/' and rng.random() < 0.35:
        p += '/'
    return p, used


def gen_route(rng, tmpl=False, bad=0.0):
    if rng.random() < bad:
        return {'t': 'route', 'path': rng.choice(['/a/<nope:x>', '/<x>/<x>', '/a/<x', '/b/<int(foo=1):x>', '/<dub:x>', '/<rev:x>/b']),
                'endpoint': rng.choice(EPS)}
    path, used = gen_path(rng, tmpl)
    r = {'t': 'route', 'path': path, 'endpoint': rng.choice(EPS)}
    if tmpl and rng.random() < 0.5:
        r['endpoint'] = '{name}.' + r['endpoint']
    k = rng.random()
    if k < 0.2:
        free = [v for v in VARS if v not in used]
        if free:
            r['defaults'] = {rng.choice(free): rng.choice(VALUES[:9] + (['{name}'] if tmpl else []))}
    elif k < 0.26:
        r['alias'] = True
    elif k < 0.36:
        r['redirect_to'] = rng.choice(['a/<x>', 'new/', '/top', 'call', 'call', 'build', 'q/<y>', 'fail'])
    elif k < 0.42:
        r['build_only'] = True
    if rng.random() < 0.15:
        r['strict'] = rng.random() < 0.5
    if rng.random() < 0.08:
        r['subdomain'] = rng.choice(['kb', '<z>', 'www', ''])
    if rng.random() < 0.3:
        r['host'] = rng.choice(['example.com', 'example.com:8080', '<z>', 'shop.example.org'])
    return r


def gen_factory(rng, depth, tmpl=False, bad=0.0):
    if depth == 0 or rng.random() < 0.35:
        return gen_route(rng, tmpl, bad)
    kids = [gen_factory(rng, depth - 1, tmpl, bad) for _ in range(rng.randint(1, 3))]
    k = wchoice(rng, [(4, 'submount'), (2, 'prefix'), (1, 'subdomain')] + ([] if tmpl else [(2, 'template')]))
    if k == 'submount':
        return {'t': k, 'path': rng.choice(['/a', '/b/', '/m', '/<int:w>']), 'items': kids}
    if k == 'prefix':
        return {'t': k, 'prefix': rng.choice(['p/', 'q.']), 'items': kids}
    if k == 'subdomain':
        return {'t': k, 'sub': rng.choice(['kb', 'www', '<w>']), 'items': kids}
    return {'t': 'template', 'ctx': {'name': rng.choice(NAMES)},
            'items': [gen_factory(rng, depth - 1, True, 0) for _ in range(rng.randint(1, 3))]}


def concrete(rng, path):
    """a request path likely to hit (or nearly hit) a rule"""
    import re as _re

    def sub(m):
        spec = m.group(1)
        k = rng.random()
        if k < 0.35:
            return rng.choice(PATHVALS)
        if 'int' in spec:
            return rng.choice(['7', '41', '007', '3', '0', '123'])
        if 'float' in spec:
            return rng.choice(['2.5', '0.1', '7'])
        if 'path' in spec:
            return rng.choice(['a/b', 'c', 'a/b/c'])
        if 'dub' in spec:
            return rng.choice(['dab', 'dbad', 'dboom'])
        if 'uuid' in spec:
            return rng.choice(UUIDS)
        return rng.choice(['a', 'b', 'ab', 'xyz'])
    p = _re.sub(r'<([^>]*)>', sub, path).replace('{name}', rng.choice(NAMES))
    k = rng.random()
    if k < 0.15:
        p = p.rstrip('/') if p.endswith('/') else p + '/'
    elif k < 0.2:
        p = p.lstrip('/')
    elif k < 0.23:
        p = '/' + p
    return p


def all_paths(spec, prefix=''):
    if spec['t'] == 'route':
        return [prefix + spec['path']]
    if spec['t'] == 'use':
        return []
    pre = prefix
    if spec['t'] == 'submount':
        pre = prefix + spec['path'].rstrip('/')
    return [p for i in spec['items'] for p in all_paths(i, pre)]


def endpoints(spec):
    if spec['t'] == 'route':
        return [spec['endpoint']]
    if spec['t'] == 'use':
        return []
    out = [e for i in spec['items'] for e in endpoints(i)]
    if spec['t'] == 'prefix':
        out = [spec['prefix'] + e for e in out]
    if spec['t'] == 'template':
        out = [e.format(**spec['ctx']) for e in out]
    return out


def gen_query(rng, paths, eps, nadapt):
    k = wchoice(rng, [(6, 'match'), (1, 'test'), (5, 'build'), (1, 'expect'), (1.2, 'list')])
    a = rng.randrange(nadapt)
    if k in ('match', 'test'):
        p = None
        if rng.random() < 0.95:
            p = concrete(rng, rng.choice(paths)) if paths and rng.random() < 0.9 else '/' + rng.choice(PATHVALS)
        if k == 'test':
            return [k, a, p]
        return [k, a, p, rng.random() < 0.25, rng.choice([None, None, 'q=1', {'k': 'v w'}])]
    ep = rng.choice(eps) if eps and rng.random() < 0.93 else 'nope'
    if k == 'build':
        vals = {}
        for v in VARS + ['w', 'extra']:
            r = rng.random()
            if r < 0.5 or (v == 'extra' and r < 0.2):
                vals[v] = rng.choice(VALUES + [None])
        return [k, a, ep, vals, rng.random() < 0.3, rng.random() < 0.85]
    if k == 'expect':
        return [k, a, ep, [rng.choice(VARS) for _ in range(rng.randint(1, 2))]]
    return [k, a, ep if rng.random() < 0.4 else None]


def generate(rng, tier):
    nmaps = wchoice(rng, [(4, 1), (4, 2), (1, 3)])
    maps = [{'strict': rng.random() < 0.75, 'redirect_defaults': rng.random() < 0.8,
             'subdomain': rng.choice(['', '', 'www']), 'conv': wchoice(rng, [(4, 'none'), (1, 'dub'), (2, 'both'), (1, 'int')]),
             'host': rng.random() < 0.1, 'charset': wchoice(rng, [(5, 'utf-8'), (1, 'latin1')]), 'sort': wchoice(rng, [(5, None), (1, 'rev'), (0.4, 'fail')])}
            for _ in range(nmaps)]
    bad = rng.choice([0, 0, 0.04, 0.12])
    pool = [gen_factory(rng, rng.randint(1, 2)) for _ in range(rng.randint(0, 3))]
    pool = [p for p in pool if p['t'] != 'route']
    tpls = []
    if rng.random() < 0.35:
        tpls = [[gen_factory(rng, rng.randint(0, 1), True) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]
    adapters = []
    for _ in range(rng.randint(1, 2) * nmaps):
        adapters.append({
            'map': rng.randrange(nmaps), 'server': rng.choice(SERVERS), 'script': rng.choice([None, '/', '/app', '/app/']),
            'sub': rng.choice([None, None, None, 'kb', 'www', 'Foo']), 'scheme': rng.choice(['http', 'http', 'https']),
            'path': rng.choice([None, '/a', '/b/7']), 'query': rng.choice([None, None, 'z=1']),
            'how': wchoice(rng, [(4, 'bind'), (1, 'environ')]), 'late': rng.random() < 0.3,
        })
    for i in range(nmaps):
        if not any(a['map'] == i for a in adapters):
            adapters.append({'map': i, 'server': 'example.com', 'script': None, 'sub': None, 'scheme': 'http',
                             'path': None, 'query': None, 'how': 'bind', 'late': False})
    ops = []
    paths, eps = [], []
    for n in range(rng.randint(2, 7)):
        if n == 0 or rng.random() < 0.4:
            items = []
            for _ in range(rng.randint(1, 5)):
                if tpls and rng.random() < 0.35:
                    i = rng.randrange(len(tpls))
                    c = {'name': rng.choice(NAMES)}
                    spec = {'t': 'use', 'i': i, 'ctx': c}
                    if rng.random() < 0.2:
                        spec = {'t': 'submount', 'path': '/m', 'items': [spec]}
                        paths += ['/m' + p for x in tpls[i] for p in all_paths(x)]
                    else:
                        paths += [p for x in tpls[i] for p in all_paths(x)]
                    eps += [e.format(**c) for x in tpls[i] for e in endpoints(x)]
                    items.append(spec)
                    continue
                if pool and rng.random() < 0.35:
                    i = rng.randrange(len(pool))
                    items.append({'t': 'pool', 'i': i})
                    spec = pool[i]
                else:
                    spec = gen_factory(rng, wchoice(rng, [(6, 0), (2, 1), (1, 2)]), bad=bad)
                    items.append(spec)
                paths += all_paths(spec)
                eps += endpoints(spec)
            ops.append({'op': 'add', 'map': rng.randrange(nmaps) if n else 0, 'items': items})
        if n == 0 and rng.random() < 0.3:
            continue
        nt = wchoice(rng, [(5, 1), (4, 2), (1.5, 3)])
        ops.append({'op': 'look', 'threads': [
            [gen_query(rng, paths, eps, len(adapters)) for _ in range(rng.randint(1, 3 if nt > 1 else 6))]
            for _ in range(nt)]})
    return {'maps': maps, 'pool': pool, 'templates': tpls, 'adapters': adapters, 'ops': ops,
            'init': rng.random() < 0.5, 'iso': rng.random() < 0.12, 'sched': sched_knobs(rng)}


# ---- building ---------------------------------------------------------------

def _call_redirect(adapter, **kw):
    return 'called/' + '-'.join('%s=%s' % (k, kw[k]) for k in sorted(kw))


def _build_redirect(adapter, **kw):
    return adapter.build('e0', kw)


def _failing_redirect(adapter, **kw):
    raise ZeroDivisionError('redirect')


def _reversed(item):
    return [-ord(c) for c in item[0]]


def _failing_key(item):
    raise ZeroDivisionError('sort key')


SORTS = {'rev': _reversed, 'fail': _failing_key, None: None}


def make(spec, pool):
    t = spec['t']
    if t == 'pool':
        return pool.factory(spec['i'])
    if t == 'use':
        return pool.template(spec['i'])(**spec['ctx'])
    if t == 'route':
        rt = spec.get('redirect_to')
        if rt == 'call':
            rt = _call_redirect
        elif rt == 'build':
            rt = _build_redirect
        elif rt == 'fail':
            rt = _failing_redirect
        return Route(spec['path'], endpoint=spec['endpoint'],
                     defaults=dict(spec['defaults']) if spec.get('defaults') else None,
                     alias=bool(spec.get('alias')), build_only=bool(spec.get('build_only')),
                     strict_slashes=spec.get('strict'), subdomain=spec.get('subdomain'),
                     redirect_to=rt, host=spec.get('host'))
    kids = [make(s, pool) for s in spec['items']]
    if t == 'submount':
        return Submount(spec['path'], kids)
    if t == 'prefix':
        return EndpointPrefix(spec['prefix'], kids)
    if t == 'subdomain':
        return Subdomain(spec['sub'], kids)
    return RouteTemplate(kids)(**spec['ctx'])


class Pool(object):
    """Factories and templates that are used more than once: one object each
    (shared), or a new one for every use."""
    def __init__(self, facs, tpls, shared):
        self.facs, self.tpls, self.shared = facs, tpls, shared
        self.made = {}

    def once(self, key, fn):
        if not self.shared:
            return fn()
        if key not in self.made:
            self.made[key] = fn()
        return self.made[key]

    def factory(self, i):
        return self.once(('f', i), lambda: make(self.facs[i], self))

    def template(self, i):
        return self.once(('t', i), lambda: RouteTemplate([make(s, self) for s in self.tpls[i]]))


def new_map(cfg, routes=()):
    return URLMap(list(routes), strict_slashes=cfg['strict'], redirect_defaults=cfg['redirect_defaults'],
                  default_subdomain=cfg['subdomain'], converters=CONVSETS[cfg['conv']],
                  host_matching=cfg['host'], charset=cfg.get('charset', 'utf-8'), sort_key=SORTS[cfg.get('sort')])


def bind(m, a):
    if a['how'] == 'environ':
        env = make_environ('GET', a['path'] or '/', query=a['query'] or '', host=a['server'],
                           script=a['script'] or '', scheme=a['scheme'])
        return m.bind_to_environ(env)
    sub = None if m.host_matching else a['sub']
    return m.bind(a['server'], script_name=a['script'], subdomain=sub, url_scheme=a['scheme'],
                  path_info=a['path'], query_args=a['query'])


def show_route(r, m):
    return (str(r.route), r.endpoint, r.subdomain, r.host, sorted((r.defaults or {}).items(), key=repr),
            r.build_only, r.alias, r.strict_slashes, sorted(r.arguments), repr(r), r.router is m)


def ask(m, ad, q, ctx=None):
    """perform one look-up and describe everything a caller can see of it"""
    k = q[0]
    try:
        if k == 'match':
            p = q[2]
            if p is None and ad.path_info is None:
                p = '/a'
            qa = dict(q[4]) if isinstance(q[4], dict) else q[4]
            ep, vals = ad.match(p, return_route=q[3], query_args=qa)
            if q[3]:
                ep = show_route(ep, m)
            out = ('ok', ep, sorted(((n, type(v).__name__, repr(v)) for n, v in vals.items())))
            # the caller owns the result
            for n in list(vals):
                vals[n] = 'scribbled'
            vals['scribble'] = 1
            return out
        if k == 'test':
            p = q[2]
            if p is None and ad.path_info is None:
                p = '/a'
            return ('ok', ad.test(p))
        if k == 'build':
            vals = dict(q[3])
            before = repr(sorted(vals.items(), key=repr))
            try:
                url = ad.build(q[2], vals, force_external=q[4], append_unknown=q[5])
            finally:
                if ctx is not None:
                    ctx.check(repr(sorted(vals.items(), key=repr)) == before, 'arguments-changed',
                              'build() changed the dictionary of its caller: %s', vals)
            vals['x'] = 'scribbled'
            return ('ok', url)
        if k == 'expect':
            return ('ok', m.is_endpoint_expecting(q[2], *q[3]))
        if k == 'list':
            return ('ok', [show_route(r, m) for r in m.iter_routes(q[2])])
    except RequestRedirect as e:
        return ('redirect', e.new_url, e.code)
    except HTTPException as e:
        return ('http', e.code)
    except Exception as e:
        return ('exc', type(e).__name__, repr(getattr(e, 'args', None)))
    raise AssertionError(k)


def canon(x):
    """the same for an answer from this process and one that was sent here"""
    return json.dumps(x, default=repr)


def reference(ctx, mi):
    """what maps freshly built from the accepted routes answer, for map mi:
    [[answers (explanation, adapter, query, answer)], {op index: explanations}, failing additions, additions left out]

    An explanation is a sequence of (op index, routes accepted or None for all):
    a failing addition may have accepted nothing or everything before the failure."""
    plan = ctx.plan
    cfgs = plan['maps']
    adapters = plan['adapters']
    apart = Pool(plan['pool'], plan['templates'], False)

    def fresh_map(groups):
        """groups: list of (items, limit): limit None = all accepted"""
        m = new_map(cfgs[mi])
        objs = []
        for items, limit in groups:
            # a fresh set of factories for every use
            facs = [make(s, apart) for s in items]
            n = 0
            for f in facs:
                for r in f.get_routes(m):
                    if limit is not None and n >= limit:
                        break
                    objs.append(r)
                    n += 1
                if limit is not None and n >= limit:
                    break
        return new_map(cfgs[mi], objs)

    def accepted(items):
        """routes of one add accepted before the first failure"""
        m = new_map(cfgs[mi])
        n = 0
        try:
            for s in items:
                f = make(s, apart)
                for r in f.get_routes(m):
                    new_map(cfgs[mi], [r])
                    n += 1
        except Exception:
            return n
        return None

    answers, adds, fails, skip = {}, {}, [], []
    c = [()]
    for oi, op in enumerate(plan['ops']):
        if op['op'] == 'add' and op['map'] == mi:
            items = op['items']
            lim = accepted(items)
            if lim is None:
                c = [x + ((oi, None),) for x in c]
            else:
                if len(c) >= 8:
                    skip.append(oi)
                    continue
                fails.append(oi)
                c = [x + ((oi, l),) for x in c for l in sorted({0, lim})]
        elif op['op'] == 'look':
            for ti, th in enumerate(op['threads']):
                for qi, q in enumerate(th):
                    a = adapters[q[1]]
                    if a['map'] != mi:
                        continue
                    for x in c:
                        key = canon([x, q[1], q])
                        if key not in answers:
                            m = fresh_map([(plan['ops'][o]['items'], l) for o, l in x])
                            answers[key] = canon(ask(m, bind(m, a), q))
            adds[str(oi)] = list(c)
    return [answers, adds, fails, skip]


def execute(ctx):
    plan = ctx.plan
    cfgs = plan['maps']
    adapters = plan['adapters']

    # phase 1: reference answers
    adds = {}
    answers = {}
    fails = {}
    skip = set()
    order = sorted(range(len(cfgs)), key=lambda i: (cfgs[i]['conv'] != 'none', i))
    for mi in order:
        ref = ctx.pristine(reference, mi) if plan.get('iso') else reference(ctx, mi)
        answers[mi] = ref[0]
        for oi, c in ref[1].items():
            adds[mi, int(oi)] = [tuple((o, l) for o, l in x) for x in c]
        fails.update((oi, True) for oi in ref[2])
        skip |= set(ref[3])

    # phase 2: the history
    pool = Pool(plan['pool'], plan['templates'], True)
    first = {}
    if plan['init']:
        for oi, op in enumerate(plan['ops']):
            if op['op'] == 'look':
                break
            if op['map'] not in first:
                first[op['map']] = oi
        first = {k: v for k, v in first.items() if v not in fails and v not in skip}
    maps = []
    for mi, cfg in enumerate(cfgs):
        if mi in first:
            maps.append(new_map(cfg, [make(s, pool) for s in plan['ops'][first[mi]]['items']]))
        else:
            maps.append(new_map(cfg))
    ads = [None if a['late'] else bind(maps[a['map']], a) for a in adapters]
    alive = {mi: None for mi in range(len(cfgs))}
    nlook = 0
    for oi, op in enumerate(plan['ops']):
        if op['op'] == 'add':
            if first.get(op['map']) == oi or oi in skip:
                continue
            facs = [make(s, pool) for s in op['items']]
            try:
                maps[op['map']].add_routes(*facs)
            except Exception as e:
                ctx.fault('failing-addition')
                ctx.check(oi in fails, 'add-failed', 'adding routes that a fresh map accepts failed: %r', e)
            else:
                ctx.check(oi not in fails, 'add-accepted', 'an addition that fails on a fresh map was accepted')
            continue
        results = []

        def worker(ti, th):
            def run():
                for qi, q in enumerate(th):
                    if ads[q[1]] is None:
                        ads[q[1]] = bind(maps[adapters[q[1]]['map']], adapters[q[1]])
                    a = ads[q[1]]
                    results.append((ti, qi, q, ask(maps[adapters[q[1]]['map']], a, q, ctx)))
            return run
        if len(op['threads']) == 1:
            worker(0, op['threads'][0])()
        elif op['threads']:
            ctx.run_threads([worker(i, t) for i, t in enumerate(op['threads'])])
            ctx.probe('threaded-phase')
        for ti, qi, q, got in results:
            nlook += 1
            mi = adapters[q[1]]['map']
            cs = adds[(mi, oi)]
            if alive[mi] is not None:
                # keep only the explanations still alive
                cs = [x for x in cs if any(x[:len(y)] == y for y in alive[mi])]
            ok = [x for x in cs if answers[mi][canon([x, q[1], q])] == canon(got)]
            ctx.log(q, got)
            ctx.states.add('%s|%s' % (q[0], got[0] if got[0] != 'exc' else got[1]))
            if not ok:
                exp = [answers[mi][canon([x, q[1], q])] for x in cs][:2]
                ctx.violate('look-up-differs', 'thread %d: %r answered %r, a fresh map answers %s',
                            ti, q, got, ' or '.join(exp))
            alive[mi] = ok
    if nlook > 1 and len(plan['ops']) > 1:
        ctx.probe('nontrivial')
    ctx.probe('look-ups', nlook)
