"""C17: applications built, rebuilt and served from shared builders and parts."""
import json
import re

from ..core import sched_knobs
from ..gen import wchoice, text
from ..server import serve, make_environ

from verktyg import exceptions as X
from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding, BindingFactory, Dispatcher
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.responses import Response
from verktyg.routing import (
    BaseConverter, BuildError, EndpointPrefix, RequestRedirect, Route, RouteTemplate, Subdomain, Submount,
)
from verktyg.views import ClassView, View, expose

ID = 'C17'
QUICK = 30000
THOROUGH = 900000
BATCH = 150
SHRINK = ('ops', 'ops.*.threads', 'ops.*.threads.*', 'ops.*.builder', 'final', 'parts.*.rules', 'parts.*.wraps')
RULE = ('Seeded plans: 1-3 builders sharing route factories, converters, views, nested dispatchers, handlers, middleware and mixins; registrations, '
        'builds below various application roots, builds that fail (missing converter, failing middleware, a route bound elsewhere) and are tried again, '
        'shared parts extended after builds, requests to every application in between and while another thread registers and builds.  '
        'Oracle: a model of the registrations each builder had received when the application was built.')
REAL = ['verktyg.application.ApplicationBuilder, BaseApplication', 'verktyg.routing (factories, URLMap, MapAdapter)', 'verktyg.dispatch', 'verktyg.views',
        'verktyg.exception_dispatch', 'verktyg.accept', 'verktyg.utils.redirect']
STUB = ['WSGI server loop', 'views, handlers, middleware, mixins', 'thread scheduling']
ASSUMPTIONS = ['a plain Route belongs to the first build that sees it (documented): later builds may refuse it',
               'one builder is used by one thread at a time', 'which of several registrations with the same merits answers is left open',
               'an application root is empty or a full URL']

ROOTS = ['', 'http://sim.example', 'http://sim.example/app', 'https://other.example/a/b/', 'http://sim.example:8080/', 'https://www.example', 'http://sim.example/']
MOUNTS = ['/m', '/m/', '/blog', '/a/b']
PREFIXES = ['p.', 'q/', '']
EPS = ['e0', 'e1', 'e2']
CONVS = [None, None, 'int', 'cust', 'cust', 'extra', 'default']
KINDS = ['upper', 'digits', 'any', 'word']
TYPES = ['text/html', 'application/json', 'text/plain']
SPOKEN = ['en', 'de']
CHARSETS = ['utf-8', 'koi8-r']
ERRS = ['Boom', 'SubBoom', 'KeyError', 'NotFound', 'Teapot']
ON = ['Exception', 'HTTPException', 'NotFound', 'MethodNotAllowed', 'NotAcceptable', 'RequestRedirect', 'LookupError', 'Boom', 'SubBoom', 'NotImplemented']


NEGOTIATED = [('Accept', 'accept'), ('Accept-Language', 'lang'), ('Accept-Charset', 'cs')]


class Boom(Exception):
    pass


class SubBoom(Boom, ValueError):
    pass


class BuildBoom(Exception):
    pass


NAMED = {'Boom': Boom, 'SubBoom': SubBoom, 'KeyError': KeyError, 'NotFound': X.NotFound, 'Teapot': X.ImATeapot, 'Exception': Exception,
         'HTTPException': X.HTTPException, 'MethodNotAllowed': X.MethodNotAllowed, 'NotAcceptable': X.NotAcceptable, 'RequestRedirect': RequestRedirect,
         'LookupError': LookupError, 'NotImplemented': X.NotImplemented}


class Upper(BaseConverter):
    regex = '[a-z]+'
    pattern, py, url = re.compile(r'[a-z]+\Z'), staticmethod(str.upper), staticmethod(str.lower)

    def to_python(self, value):
        return value.upper()

    def to_url(self, value):
        return value.lower()


class Digits(BaseConverter):
    regex = '[0-9]+'
    pattern, py, url = re.compile(r'[0-9]+\Z'), staticmethod(lambda v: 'D' + v), staticmethod(lambda v: v[1:])

    def to_python(self, value):
        return 'D' + value

    def to_url(self, value):
        return value[1:]


class Any(BaseConverter):
    pattern, py, url = re.compile(r'[^/]+\Z'), staticmethod(lambda v: '<' + v), staticmethod(lambda v: v[1:])

    def to_python(self, value):
        return '<' + value

    def to_url(self, value):
        return value[1:]


class Word(BaseConverter):
    regex = '[a-z0-9]{2,}'
    pattern, py, url = re.compile(r'[a-z0-9]{2,}\Z'), staticmethod(lambda v: v + v), staticmethod(lambda v: v[:len(v) // 2])

    def to_python(self, value):
        return value + value

    def to_url(self, value):
        return value[:len(value) // 2]


CONV = {'upper': Upper, 'digits': Digits, 'any': Any, 'word': Word}


class BuiltinInt(object):
    pattern, py, url = re.compile(r'[0-9]+\Z'), int, str


class BuiltinText(object):
    pattern, py, url = re.compile(r'[^/]+\Z'), str, str


# --------------------------------------------------------------- generation

KNOWN = [EPS]      # endpoints of the plan being generated


def gen_part(rng, n, serial):
    kind = wchoice(rng, [(5, 'routes'), (4, 'bind'), (3, 'handler'), (1.5, 'dispatch'), (1.3, 'edispatch')])
    if kind == 'routes':
        wraps = [rng.choice(['submount', 'prefix', 'template', 'subdomain', 'submount']) for _ in range(wchoice(rng, [(0.5, 0), (5, 1), (2, 2)]))]
        wraps = [[w, rng.choice(MOUNTS) if w == 'submount' else rng.choice(PREFIXES) if w == 'prefix' else 'sub' if w == 'subdomain' else 't%d' % rng.randrange(3)]
                 for w in wraps]
        rules = []
        for _ in range(rng.randint(1, 4)):
            serial[0] += 1
            rules.append({'n': serial[0], 'ep': rng.choice(EPS) if rng.random() < 0.8 else 'u%d' % serial[0], 'conv': rng.choice(CONVS), 'slash': rng.random() < 0.3,
                          'tpl': any(w[0] == 'template' for w in wraps) and rng.random() < 0.5})
        p = {'kind': 'routes', 'wraps': wraps, 'rules': rules, 'decorated': not wraps and rng.random() < 0.5}
        if p['decorated']:
            # what the decorator is told besides the route
            for x in rules:
                if rng.random() < 0.5:
                    b = gen_bind(rng)
                    x['dec'] = dict(b, how='expose', ep=x['ep'], type=rng.choice([None, None] + TYPES), raises=None)
        return p
    if kind == 'bind':
        return gen_bind(rng)
    if kind == 'handler':
        return gen_handler(rng)
    return {'kind': kind, 'members': [gen_bind(rng) if kind == 'dispatch' else gen_handler(rng) for _ in range(rng.randint(0, 2))]}


def rep(spec):
    """keyword arguments that describe the representation"""
    kw = {'content_type': spec['type']} if spec['type'] else {}
    if spec.get('lang'):
        kw['language'] = spec['lang']
    if spec.get('cs'):
        kw['charset'] = spec['cs']
    return kw


def spoken(rng, spec):
    """some representations have a language or a charset"""
    if spec.get('how') != 'classview' and rng.random() < 0.3:
        spec['lang'] = rng.choice(SPOKEN)
    if spec.get('how') != 'classview' and rng.random() < 0.2:
        spec['cs'] = rng.choice(CHARSETS)
    return spec


def gen_bind(rng):
    how = rng.choice(['binding', 'view', 'view', 'expose', 'classview', 'factory'])
    ep = rng.choice(EPS)
    if rng.random() < 0.4:
        ep = rng.choice(PREFIXES) + ep
    return spoken(rng, {'kind': 'bind', 'how': how, 'ep': ep, 'methods': rng.sample(['GET', 'POST', 'HEAD', 'PUT'], rng.randint(1, 3)),
            'type': rng.choice(TYPES) if rng.random() < 0.4 and how != 'classview' else None,
            'raises': rng.choice(ERRS) if rng.random() < 0.2 else None})


def gen_handler(rng):
    return spoken(rng, {'kind': 'handler', 'on': rng.choice(ON), 'type': rng.choice(TYPES) if rng.random() < 0.4 else None,
            'how': rng.choice(['object', 'call', 'decorator'])})


def gen_req(rng):
    return {'app': rng.randrange(50), 'target': rng.randrange(1000), 'value': text(rng, rng.choice([1, 2, 3]), rng.choice(['abc', '123', '123', 'ab12', 'aB-'])),
            'noslash': rng.random() < 0.3, 'method': wchoice(rng, [(6, 'GET'), (1, 'POST'), (1, 'HEAD'), (0.5, 'PUT')]),
            'accept': rng.choice([None, None, None, '*/*'] + TYPES),
            'lang': rng.choice([None, None, None, '*', 'fr'] + SPOKEN * 2), 'cs': rng.choice([None, None, None, None, '*'] + CHARSETS), 'qs': rng.choice(['', '', 'a=1', 'x=%20y']),
            'script': rng.choice(['', '', '/app']), 'bound': rng.random() < 0.9}


def gen_reg(rng, nb, parts):
    nparts = len(parts)
    b = rng.randrange(nb)
    k = wchoice(rng, [(8, 'add'), (1.5, 'conv'), (1.2, 'mw'), (0.6, 'appmix'), (0.8, 'reqmix'), (0.6, 'config'), (1.8, 'extend')])
    op = {'op': k, 'b': b}
    if k == 'add':
        op['part'] = rng.randrange(nparts)
    elif k == 'conv':
        op['name'] = rng.choice(['cust', 'cust', 'extra', 'int', 'default'])
        op['conv'] = rng.choice(KINDS)
    elif k == 'mw':
        op['tag'] = rng.randrange(100)
        op['fails'] = rng.sample(range(6), rng.randint(1, 2)) if rng.random() < 0.2 else []
    elif k in ('appmix', 'reqmix'):
        op['m'] = rng.randrange(4)
    elif k == 'config':
        op['k'], op['v'] = rng.choice(['a', 'b']), rng.randrange(10)
    else:
        nested = [i for i in range(nparts) if parts[i]['kind'] in ('dispatch', 'edispatch')]
        if not nested:
            return {'op': 'add', 'b': b, 'part': rng.randrange(nparts)}
        op['part'] = rng.choice(nested)
        op['with'] = gen_bind(rng) if parts[op['part']]['kind'] == 'dispatch' else gen_handler(rng)
        if op['with']['kind'] == 'bind' and rng.random() < 0.7:
            op['with']['ep'] = rng.choice(KNOWN[0])
    return op


def gen_build(rng, nb):
    return {'op': 'build', 'b': rng.randrange(nb), 'root': rng.choice(ROOTS)}


def generate(rng, tier):
    serial = [0]
    n = rng.randint(4, 12)
    parts = [gen_part(rng, i, serial) for i in range(n)]
    if not any(p['kind'] == 'routes' for p in parts):
        parts[0] = {'kind': 'routes', 'wraps': [['submount', '/m']], 'rules': [{'n': 900, 'ep': 'e0', 'conv': None, 'slash': False, 'tpl': False}], 'decorated': False}
    known = [x[1] for p in parts if p['kind'] == 'routes' for x in flatten(p) if not x[4]] or EPS
    KNOWN[0] = known
    for p in parts:
        for x in [p] if p['kind'] == 'bind' else p['members'] if p['kind'] == 'dispatch' else []:
            if rng.random() < 0.8:
                x['ep'] = rng.choice(known)
    nb = wchoice(rng, [(5, 1), (3, 2), (1, 3)])
    ops = []
    for p in rng.sample(range(n), rng.randint(n // 2, n)):
        for b in range(nb):
            if b == 0 or rng.random() < 0.6:
                ops.append({'op': 'add', 'b': b, 'part': p})
    for b in range(nb):
        for name in ('cust', 'extra'):
            if rng.random() < 0.8:
                ops.append({'op': 'conv', 'b': b, 'name': name, 'conv': rng.choice(KINDS)})
    ops += [gen_reg(rng, nb, parts) for _ in range(rng.randint(0, 4))]
    rng.shuffle(ops)
    ops.append(gen_build(rng, nb))
    for _ in range(wchoice(rng, [(4, 3), (4, 6), (1, 12)])):
        k = wchoice(rng, [(5, 'reg'), (3, 'build'), (3, 'serve'), (1.2, 'parallel')])
        if k == 'reg':
            ops.append(gen_reg(rng, nb, parts))
        elif k == 'build':
            ops.append(gen_build(rng, nb))
        elif k == 'serve':
            ops.append({'op': 'serve', 'threads': [[gen_req(rng) for _ in range(rng.randint(1, 4))]], 'builder': []})
        else:
            ops.append({'op': 'serve', 'threads': [[gen_req(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))],
                        'builder': [gen_build(rng, nb) if rng.random() < 0.4 else gen_reg(rng, nb, parts) for _ in range(rng.randint(0, 4))]})
    return {'parts': parts, 'nb': nb, 'redirect': [rng.random() < 0.85 for _ in range(nb)], 'mixins': [rng.random() < 0.85 for _ in range(nb)],
            'ops': ops, 'final': [gen_req(rng) for _ in range(rng.randint(2, 8))], 'sched': sched_knobs(rng)}


# -------------------------------------------------------------------- model

class Model(object):
    """What one builder has been told, or what one application consists of."""
    def __init__(self, redirect):
        self.items = []        # part numbers, in order
        self.convs = {}
        self.mws = []
        self.appmix = []
        self.reqmix = []
        self.config = {}
        self.builds = 0
        self.redirect = redirect


class App(object):
    def __init__(self, w, m, root, real):
        self.real = real
        self.root = root
        self.rules = []
        self.binds = []
        self.handlers = []
        for i in m.items:
            p = w.plan['parts'][i]
            if p['kind'] == 'routes':
                self.rules += w.flat[i]
                if p.get('decorated'):
                    self.binds += w.members[i]
            elif p['kind'] in ('bind', 'dispatch'):
                self.binds += list(w.members[i])
            else:
                self.handlers += list(w.members[i])
        self.convs = dict(m.convs)
        self.mws = [x[0] for x in m.mws]
        self.appmix = sorted(set(m.appmix))
        self.reqmix = sorted(set(m.reqmix))
        self.config = dict(m.config)
        self.redirect = m.redirect

    def converter(self, name):
        if name is None:
            name = 'default'
        c = self.convs.get(name)
        if c is not None:
            return CONV[c]
        return {'int': BuiltinInt, 'default': BuiltinText}.get(name)


def flatten(p):
    """[path before the variable, endpoint, converter, slash, subdomain] of every rule of a part"""
    out = []
    for r in p['rules']:
        path, ep, sub = '/r%d' % r['n'], r['ep'], ''
        ctxname = None
        # wraps are listed from the outside in
        for w, arg in reversed(p['wraps']):
            if w == 'template' and ctxname is None:
                ctxname = arg
                if r['tpl']:
                    path, ep = path + '-' + arg, ep + '.' + arg
            elif w == 'submount':
                path = arg.rstrip('/') + path
            elif w == 'prefix':
                ep = arg + ep
            elif w == 'subdomain':
                sub = arg
        out.append((path, ep, r['conv'], r['slash'], sub))
    return out


# ---------------------------------------------------------------- execution

class AppMixin0(object):
    am0 = True


class AppMixin1(object):
    am1 = True

    def extra(self):
        return 'am1'


class AppMixin2(AppMixin0):
    am2 = True


class AppMixin3(object):
    @property
    def am3(self):
        return True


def appmix_visible(app):
    return [i for i in range(4) if getattr(app, 'am%d' % i, False)]


class ReqMixin0(object):
    rm0 = True


class ReqMixin1(object):
    rm1 = True

    def __init__(self):
        super(ReqMixin1, self).__init__()
        self.call_on_close(lambda: self.environ['sim.closed'].append(1))


class ReqMixin2(object):
    rm2 = True

    def __init__(self):
        super(ReqMixin2, self).__init__()
        self.call_on_close(lambda: self.environ['sim.closed'].append(2))


class ReqMixin3(ReqMixin0):
    rm3 = True


# names say nothing about identity
for cls in (AppMixin1, AppMixin3, ReqMixin1, ReqMixin2):
    cls.__name__ = cls.__qualname__ = 'Mixin'

APPMIX = [AppMixin0, AppMixin1, AppMixin2, AppMixin3]
REQMIX = [ReqMixin0, ReqMixin1, ReqMixin2, ReqMixin3]


class Factory(BindingFactory):
    def __init__(self, bindings):
        self.bindings = bindings

    def get_bindings(self):
        return iter(self.bindings)


class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.plan = plan = ctx.plan
        self.flat = {}
        self.members = {}      # part -> list of (id, spec)
        self.real = {}
        self.plain = set()     # parts of plain routes some build has already seen
        self.serial = 0
        self.mw_calls = []
        for i, p in enumerate(plan['parts']):
            if p['kind'] == 'routes':
                self.flat[i] = flatten(p)
            self.make(i, p)
        self.builders = []
        self.models = []
        for j in range(plan['nb']):
            self.builders.append(ApplicationBuilder(default_redirect_handler=plan['redirect'][j], default_request_mixins=plan['mixins'][j]))
            self.models.append(Model(plan['redirect'][j]))
        self.apps = []

    def new_id(self):
        self.serial += 1
        return self.serial

    # -- real objects of the parts ----------------------------------------
    def view(self, vid, spec):
        def view(app, req, **kw):
            self.ctx.point('view')
            env = req.environ
            env['sim.views'].append((vid, app is env['sim.app'], env.get('verktyg.application') is env['sim.app'], kw,
                                     appmix_visible(app), [i for i in range(4) if getattr(req, 'rm%d' % i, False)],
                                     dict(app.config), type(req) is app.request_class, req.binding.name))
            if spec['raises']:
                e = NAMED[spec['raises']]()
                env['sim.raised'] = e
                raise e
            return Response('view %d' % vid)
        return view

    def bindings(self, spec, add=None):
        """(id, factory or None): add(factory) registers it, or expose does"""
        vid = self.new_id()
        fn = self.view(vid, spec)
        if spec['how'] == 'classview':
            attrs = {'name': spec['ep']}
            for m in spec['methods']:
                attrs[m] = staticmethod(fn)
            return vid, type('CV', (ClassView,), attrs)(), None
        if spec['how'] == 'binding' or spec['how'] == 'factory':
            f = Factory([Binding(spec['ep'], fn, method=m, **rep(spec)) for m in spec['methods']])
            return vid, f, None
        if spec['how'] == 'view':
            ms = spec['methods']
            return vid, View(spec['ep'], fn, methods=ms[0] if len(ms) == 1 else iter(ms), **rep(spec)), None
        return vid, None, fn

    def handler(self, spec):
        hid = self.new_id()

        def handle(app, req, exc_type, exc_value, exc_tb):
            self.ctx.point('handler')
            env = req.environ
            env['sim.handlers'].append((hid, app is env['sim.app'], exc_type, exc_value))
            return Response('handler %d' % hid, status=500)
        return hid, handle

    def make(self, i, p):
        k = p['kind']
        if k == 'routes':
            tpl = any(w[0] == 'template' for w in p['wraps'])
            routes = []
            for r in p['rules']:
                t = tpl and r['tpl']
                path = '/r%d' % r['n'] + ('-{name}' if t else '')
                if r['conv'] is not None or False:
                    path += '/<x>' if r['conv'] == 'default' else '/<%s:x>' % r['conv']
                routes.append(Route(path + ('/' if r['slash'] else ''), endpoint=r['ep'] + ('.{name}' if t else '')))
            for w, arg in reversed(p['wraps']):
                if w == 'submount':
                    routes = [Submount(arg, routes)]
                elif w == 'prefix':
                    routes = [EndpointPrefix(arg, routes)]
                elif w == 'subdomain':
                    routes = [Subdomain(arg, routes)]
                else:
                    routes = [RouteTemplate(routes)(name=arg)]
            self.real[i] = routes
            self.members[i] = []
            if p.get('decorated'):
                for r in p['rules']:
                    self.members[i].append((self.new_id(), r.get('dec') or {'kind': 'bind', 'how': 'expose', 'ep': r['ep'], 'methods': ['GET'], 'type': None, 'raises': None}))
        elif k == 'bind':
            vid, f, fn = self.bindings(p)
            self.real[i] = (f, fn)
            self.members[i] = [(vid, p)]
        elif k == 'handler':
            hid, fn = self.handler(p)
            self.real[i] = (fn, ExceptionHandler(NAMED[p['on']], fn, **rep(p)))
            self.members[i] = [(hid, p)]
        else:
            self.real[i] = Dispatcher() if k == 'dispatch' else ExceptionDispatcher()
            self.members[i] = []
            for m in p['members']:
                self.extend(i, m)

    def extend(self, i, spec):
        p = self.plan['parts'][i]
        if p['kind'] == 'dispatch' and spec['kind'] == 'bind':
            vid, f, fn = self.bindings(spec)
            if f is not None:
                self.real[i].add_bindings(f)
            else:
                self.ctx.check(expose(self.real[i], spec['ep'], methods=spec['methods'], **rep(spec))(fn) is fn, 'decorator',
                               'expose does not return the function')
            self.members[i].append((vid, spec))
        elif p['kind'] == 'edispatch' and spec['kind'] == 'handler':
            hid, fn = self.handler(spec)
            self.real[i].add_exception_handlers(ExceptionHandler(NAMED[spec['on']], fn, **rep(spec)))
            self.members[i].append((hid, spec))

    # -- registrations -------------------------------------------------------
    def add(self, j, i):
        b, m, p = self.builders[j], self.models[j], self.plan['parts'][i]
        k = p['kind']
        if k == 'routes':
            if p.get('decorated'):
                for r, (vid, spec) in zip(p['rules'], self.members[i]):
                    route = '/r%d' % r['n'] + ('' if r['conv'] is None else '/<x>' if r['conv'] == 'default' else '/<%s:x>' % r['conv']) + ('/' if r['slash'] else '')
                    fn = self.view(vid, spec)
                    kw = dict(rep(spec), methods=list(spec['methods'])) if r.get('dec') else {}
                    if vid % 2:
                        fn.__name__ = r['ep']
                        got = b.expose(route=route, **kw)(fn)
                    else:
                        got = b.expose(r['ep'], route=route, **kw)(fn)
                    self.ctx.check(got is fn, 'decorator', 'expose does not return the function')
            else:
                b.add_routes(*self.real[i])
        elif k == 'bind':
            f, fn = self.real[i]
            if f is not None:
                b.add_bindings(f)
            else:
                if self.members[i][0][0] % 3 == 0:
                    # one decorator for several views, each under its own name
                    deco = b.expose(methods=p['methods'], **rep(p))
                    other = self.view(-1, p)
                    other.__name__ = 'unused'
                    fn.__name__ = p['ep']
                    deco(other)
                    deco(fn)
                else:
                    b.expose(p['ep'], methods=p['methods'], **rep(p))(fn)
        elif k == 'dispatch':
            b.add_bindings(self.real[i])
        elif k == 'handler':
            fn, obj = self.real[i]
            kw = rep(p)
            if p['how'] == 'object':
                b.add_exception_handlers(obj)
            elif p['how'] == 'call':
                b.add_exception_handler(NAMED[p['on']], fn, **kw)
            else:
                b.exception_handler(NAMED[p['on']], **kw)(fn)
        else:
            b.add_exception_handlers(self.real[i])
        m.items.append(i)

    def middleware(self, op, j):
        w = self

        def mw(app, tag, *, key):
            w.ctx.point('middleware')
            w.mw_calls.append(tag)
            w.ctx.check(key == 'k%d' % tag, 'middleware-args', 'middleware %d was constructed with %r', tag, key)
            if w.models[j].builds - 1 in op['fails']:
                w.ctx.fault('middleware-constructor')
                w.boom = BuildBoom()
                raise w.boom

            def run(environ, start_response):
                environ['sim.mw'].append(tag)
                return app(environ, start_response)
            return run
        return mw

    def register(self, op):
        ctx, k, j = self.ctx, op['op'], op['b']
        b, m = self.builders[j], self.models[j]
        ctx.point('register')
        if k == 'add':
            self.add(j, op['part'])
        elif k == 'conv':
            b.add_converters(**{op['name']: CONV[op['conv']]})
            m.convs[op['name']] = op['conv']
        elif k == 'mw':
            b.add_middleware(self.middleware(op, j), op['tag'], key='k%d' % op['tag'])
            m.mws.append((op['tag'], op['fails']))
        elif k == 'appmix':
            self.builders[j].add_application_mixins(APPMIX[op['m']])
            m.appmix.append(op['m'])
        elif k == 'reqmix':
            b.add_request_mixins(REQMIX[op['m']])
            m.reqmix.append(op['m'])
        elif k == 'config':
            b.config[op['k']] = op['v']
            m.config[op['k']] = op['v']
        elif k == 'extend':
            self.extend(op['part'], op['with'])

    def build(self, op):
        ctx, j = self.ctx, op['b']
        b, m = self.builders[j], self.models[j]
        # a base class may not come before its subclass: such bases are refused by Python itself
        mixed = list(dict.fromkeys(m.appmix)), list(dict.fromkeys(m.reqmix))
        unmixable = any(0 in l and s in l and l.index(0) < l.index(s) for l, s in ((mixed[0], 2), (mixed[1], 3)))
        may, must = set(), set()
        seen = set()
        for i in m.items:
            if self.plan['parts'][i]['kind'] != 'routes':
                continue
            for path, ep, conv, slash, sub in self.flat[i]:
                if conv in ('cust', 'extra') and conv not in m.convs:
                    must.add(LookupError)
            if not self.plan['parts'][i]['wraps']:
                # decorated routes are new for every builder and addition
                key = i if not self.plan['parts'][i].get('decorated') else (i, j)
                if key in self.plain or (i in seen and not self.plan['parts'][i].get('decorated')):
                    may.add(RuntimeError)
                seen.add(i)
        if unmixable:
            must.add(TypeError)
        if any(m.builds in fails for tag, fails in m.mws):
            must.add(BuildBoom)
        for i in seen:
            self.plain.add(i if not self.plan['parts'][i].get('decorated') else (i, j))
        m.builds += 1
        self.boom = None
        self.mw_calls = []
        snap = App(self, m, op['root'], None)
        try:
            app = b(op['root'])
        except Exception as e:
            ctx.fault('build-failed')
            ctx.probe('nontrivial')
            ctx.log('build', j, op['root'], type(e).__name__)
            ctx.check(isinstance(e, tuple(may | must) or ()), 'build-failed', 'building application failed with %r; registrations allow %s', e,
                      sorted(c.__name__ for c in may | must))
            ctx.check(not isinstance(e, BuildBoom) or e is self.boom, 'build-error-replaced', 'the error of a middleware was replaced')
            return
        ctx.log('build', j, op['root'], 'ok')
        ctx.check(not must, 'build-incomplete', 'an application was built although it should have failed with %s', sorted(c.__name__ for c in must))
        ctx.check(self.mw_calls == snap.mws, 'middleware-built', 'middleware constructed for the build: %s, registered: %s', self.mw_calls, snap.mws)
        ctx.check(all(app is not a.real for a in self.apps), 'same-application', 'building twice returned the same application')
        snap.real = app
        snap.default_mixins = self.plan['mixins'][j]
        self.apps.append(snap)

    # -- requests --------------------------------------------------------------
    def target(self, a, r):
        """a rule of the application, or of any part"""
        pool = a.rules if r['bound'] and a.rules else [x for f in self.flat.values() for x in f]
        return pool[r['target'] % len(pool)]

    def request(self, r, napps):
        ctx = self.ctx
        if not napps:
            return
        ai = r['app'] % napps
        a = self.apps[ai]
        path, ep, conv, slash, sub = self.target(a, r)
        url = path + ('/' + r['value'] if conv else '') + ('/' if slash and not r['noslash'] else '')
        env = make_environ(r['method'], url, query=r['qs'], script=r['script'], headers=[(n, r[k]) for n, k in NEGOTIATED if r.get(k) is not None],
                           extra={'sim.app': a.real, 'sim.views': [], 'sim.handlers': [], 'sim.mw': [], 'sim.closed': []})
        h = serve(ctx, a.real, env)
        ctx.log('request', ai, r['method'], url, h.status, h.body, type(h.exc).__name__)
        what = '%s %s (Accept %s, language %s, charset %s) to application %d (root %r)' % (r['method'], url, r['accept'], r.get('lang'), r.get('cs'), ai, a.root)
        self.judge(a, r, env, h, what, path, conv, slash)
        self.url_for(a, ai, path, ep, conv, slash, sub, r)

    def choose(self, cands, r):
        ok = []
        for i, s in cands:
            if (r['accept'] in (None, '*/*') or s['type'] in (None, r['accept'])) and all(
                    r.get(k) in (None, '*') or s.get(k) in (None, r.get(k)) for k in ('lang', 'cs')):
                ok.append(i)
        return ok

    def judge(self, a, r, env, h, what, path, conv, slash):
        ctx = self.ctx
        ctx.probe('nontrivial')
        ctx.check(env['sim.mw'] == a.mws[::-1], 'middleware', '%s passed through middleware %s, expected %s', what, env['sim.mw'], a.mws[::-1])
        # which rules of the application have this path
        rules = [x for x in a.rules if x[0] == path and x[2] == conv and x[3] == slash and x[4] == '']
        exc, view, value = None, None, None
        if conv and rules:
            c = a.converter(conv)
            if c.pattern.match(r['value']) is None:
                rules = []
            else:
                value = c.py(r['value'])
        if not rules:
            exc = X.NotFound
        elif slash and r['noslash']:
            exc = RequestRedirect
        else:
            # routes with the same path stem from one part: the same endpoint
            eps = set(x[1] for x in rules)
            mine = [(i, s) for i, s in a.binds if s['ep'] in eps]
            if not mine:
                exc = X.NotImplemented
            else:
                method = r['method']
                by = [(i, s) for i, s in mine if method in s['methods']]
                if not by and method == 'HEAD':
                    by = [(i, s) for i, s in mine if 'GET' in s['methods']]
                if not by:
                    exc = X.MethodNotAllowed
                else:
                    allowed = self.choose(by, r)
                    if not allowed:
                        exc = X.NotAcceptable
                    else:
                        view = dict(by)
        ctx.check(env['sim.closed'] == [x for x in (env['sim.closed']) if x in a.reqmix] and sorted(env['sim.closed']) == [x for x in (1, 2) if x in a.reqmix],
                  'request-mixins', '%s: request mixins closed %s, registered %s', what, env['sim.closed'], a.reqmix)
        if view is None:
            ctx.check(not env['sim.views'], 'view-called', '%s reached a view (%s), expected %s', what, env['sim.views'], exc.__name__)
        else:
            ctx.check(len(env['sim.views']) == 1, 'view-calls', '%s called %d views, expected one of %s; answer %s, error %r', what, len(env['sim.views']), allowed, h.status, h.exc)
            vid, same_app, same_env, kw, am, rm, config, rc, bname = env['sim.views'][0]
            ctx.check(vid in allowed, 'wrong-view', '%s was answered by view %d, expected one of %s', what, vid, allowed)
            ctx.check(same_app and same_env, 'other-application', '%s: the view was handed another application', what)
            ctx.check(kw == ({'x': value} if conv else {}) and all(type(v) is type(value) for v in kw.values()), 'values', '%s: the view got %r, expected %r', what, kw, value)
            # mixins 2 and 3 bring along their base
            ctx.check(am == sorted(set(a.appmix) | ({0} if 2 in a.appmix else set())), 'application-mixins', '%s: application has mixins %s, registered %s', what, am, a.appmix)
            ctx.check(rm == sorted(set(a.reqmix) | ({0} if 3 in a.reqmix else set())), 'request-mixins', '%s: request has mixins %s, registered %s', what, rm, a.reqmix)
            ctx.check(config == a.config, 'config', '%s: configuration %s, expected %s', what, config, a.config)
            ctx.check(rc, 'request-class', '%s: request is not of the class of its application', what)
            ctx.check(bname in eps, 'binding', '%s: request.binding belongs to %r', what, bname)
            if view[vid]['raises']:
                exc = NAMED[view[vid]['raises']]
        ctx.states.add('%s|%s|%d|%d' % (exc.__name__ if exc else 'view', bool(conv), len(a.handlers), len(a.mws)))
        if exc is None:
            ctx.check(h.exc is None and h.status.startswith('200') and not env['sim.handlers'], 'answer', '%s: %s, error %r, handlers %s', what, h.status, h.exc, env['sim.handlers'])
            if r['method'] != 'HEAD':
                ctx.check(h.body == b'view %d' % vid, 'answer', '%s was answered %r by view %d', what, h.body, vid)
            return
        # first class of the resolution order with an acceptable handler
        got = env['sim.handlers']
        for cls in exc.__mro__:
            cands = self.choose([(i, s) for i, s in a.handlers if NAMED[s['on']] is cls], r)
            default = cls is RequestRedirect and a.redirect
            if cands or default:
                if not got:
                    ctx.check(default, 'handler-skipped', '%s: %s was given to no handler, expected one of %s; server saw %s %r', what, exc.__name__, cands, h.status, h.exc)
                    self.redirected(a, r, h, what, env)
                    return
                ctx.check(len(got) == 1 and got[0][0] in cands, 'wrong-handler', '%s: %s was given to handlers %s, expected one of %s', what, exc.__name__,
                          [g[0] for g in got], cands)
                ctx.check(got[0][1], 'other-application', '%s: the handler was handed another application', what)
                ctx.check(got[0][2] is exc and type(got[0][3]) is exc, 'wrong-error', '%s: the handler got %r, expected %s', what, got[0][3], exc.__name__)
                if 'sim.raised' in env:
                    ctx.check(got[0][3] is env['sim.raised'], 'other-error', '%s: the handler got another exception object', what)
                ctx.check(h.exc is None and (r['method'] == 'HEAD' or h.body == b'handler %d' % got[0][0]), 'handler-answer', '%s: answer of handler %d not sent: %s %r %r', what,
                          got[0][0], h.status, h.body, h.exc)
                return
        ctx.check(not got, 'wrong-handler', '%s: %s was given to handler %s although none applies', what, exc.__name__, got)
        ctx.check(type(h.exc) is exc, 'not-propagated', '%s: %s did not reach the server (%s, %r)', what, exc.__name__, h.status, h.exc)

    def redirected(self, a, r, h, what, env):
        self.ctx.check(h.exc is None and h.status[:3] in ('301', '302', '307', '308'), 'redirect', '%s: default redirect gave %s / %r', what, h.status, h.exc)
        path = env['PATH_INFO'] + '/'
        base = a.root.rstrip('/') if a.root else 'http://sim.example' + r['script']
        want = base + path + ('?' + r['qs'] if r['qs'] else '')
        self.ctx.check(h.header('Location') == want, 'redirect-root', '%s was redirected to %r, expected %r', what, h.header('Location'), want)

    def url_for(self, a, ai, path, ep, conv, slash, sub, r):
        ctx = self.ctx
        cands = sorted(set(x for x in a.rules if x[1] == ep), key=repr)
        if len(cands) > 1:
            return
        vals = {}
        if cands:
            path, ep, conv, slash, sub = cands[0]
        if a.root == '' and sub:
            return
        if conv and cands:
            c = a.converter(conv)
            if c.pattern.match(r['value']) is None:
                return
            vals['x'] = c.py(r['value'])
        try:
            url = a.real.url_for(ep, **vals)
        except BuildError:
            ctx.check(not cands, 'url-lost', 'application %d cannot build %r with %s', ai, ep, vals)
            return
        ctx.check(cands, 'url-unknown', 'application %d built %r for the unknown endpoint %r', ai, url, ep)
        scheme, _, rest = a.root.partition('://')
        host, _, mount = rest.partition('/')
        mount = '/' + mount.strip('/') if mount.strip('/') else ''
        want = mount + path
        if sub:
            want = '%s://%s.%s%s' % (scheme, sub, host, want)
        if conv:
            got = url[len(want):]
            good = url.startswith(want + '/')
            if good:
                from urllib.parse import unquote
                good = unquote(got) == '/' + c.url(vals['x']) + ('/' if slash else '')
        else:
            good = url == want + ('/' if slash else '')
        ctx.check(good, 'url', 'application %d (root %r) built %r for %r %s, expected %s...', ai, a.root, url, ep, vals, want)


def execute(ctx):
    plan = ctx.plan
    w = World(ctx)

    def do(op):
        if op['op'] == 'build':
            w.build(op)
        elif op['op'] != 'serve':
            w.register(op)

    for op in plan['ops']:
        if op['op'] != 'serve':
            do(op)
            continue
        n = len(w.apps)

        def client(reqs):
            return lambda: [w.request(r, n) for r in reqs]

        fns = [client(reqs) for reqs in op['threads']]
        if op['builder']:
            fns.append(lambda: [do(o) for o in op['builder']])
        if len(fns) > 1:
            ctx.fault('concurrent-build' if op['builder'] else 'concurrent')
            ctx.run_threads(fns)
        elif fns:
            fns[0]()
    for ai in range(len(w.apps)):
        for r in plan['final']:
            w.request(dict(r, app=ai), len(w.apps))
