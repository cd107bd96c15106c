"""C12: dates on the wire under a moving, jumping clock in any time zone."""
import datetime
import os
import re
import tempfile

from ..gen import wchoice, TZS
from ..core import sched_knobs
from ..server import serve, make_environ
from .. import seams

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding
from verktyg.http import http_date, cookie_date, parse_date, dump_cookie, parse_if_range_header
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.routing import Route
from verktyg.wsgi import SharedDataMiddleware

ID = 'C12'
QUICK = 100000
THOROUGH = 2000000
BATCH = 150
SHRINK = ('steps',)
RULE = ('Seeded plans: 1-10 date producing or consuming calls (functions, response properties, cookies, conditional responses, static files, '
        'request properties) with arguments of every accepted kind, between clock advances and steps across leap days, year ends, DST changes '
        'and 32-bit limits, in ten time zones; some plans produce dates from several threads while the clock advances.  '
        'Oracle: proleptic calendar arithmetic on the simulated instant, independent of the library and of the C library.')
REAL = ['verktyg.http dates and cookies', 'verktyg.responses properties, make_conditional', 'verktyg.requests date properties', 'verktyg.wsgi.SharedDataMiddleware']
STUB = ['clock', 'time zone', 'WSGI server loop', 'scheduler']
ASSUMPTIONS = ['instants between 1970 and 9999', 'years have four digits']

SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
EDGES = [1509253200, 1509256800, 1520737200, 1520766000, 1478412000, 1540688400, 1522458000, 951782400, 951868800, 1456704000, 1483228800, 4107542400,
         2147483648, 4102444800, 4294967296, 86400, 1231200000, 1325376000, 200000000000, 1582934400, 1330473600]
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAYS = ['Thu', 'Fri', 'Sat', 'Sun', 'Mon', 'Tue', 'Wed']          # day 0 was a Thursday
LONG = {'Thu': 'Thursday', 'Fri': 'Friday', 'Sat': 'Saturday', 'Sun': 'Sunday', 'Mon': 'Monday', 'Tue': 'Tuesday', 'Wed': 'Wednesday'}


def civil(t):
    """seconds since 1970 -> (y, m, d, hh, mm, ss, weekday name)"""
    t = int(t // 1)
    days, sec = divmod(t, 86400)
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (1 if m <= 2 else 0)
    return y, m, d, sec // 3600, sec % 3600 // 60, sec % 60, DAYS[days % 7]


def fmt(t, delim=' '):
    y, m, d, hh, mm, ss, wd = civil(t)
    return '%s, %02d%s%s%s%04d %02d:%02d:%02d GMT' % (wd, d, delim, MON[m - 1], delim, y, hh, mm, ss)


def naive(t):
    y, m, d, hh, mm, ss, _ = civil(t)
    return datetime.datetime(y, m, d, hh, mm, ss)


KINDS = ['int', 'float', 'datetime', 'datetime_us', 'aware', 'struct', 'aware_us']


def make(t, kind, off):
    """the instant t as an argument of the given kind"""
    y, m, d, hh, mm, ss, _ = civil(t)
    us = int(round(t % 1 * 1000000)) % 1000000
    if kind == 'int':
        return int(t // 1)
    if kind == 'float':
        return float(t)
    if kind == 'struct':
        return seams.real_gmtime(int(t // 1))
    n = datetime.datetime(y, m, d, hh, mm, ss, us if kind.endswith('_us') else 0)
    if kind.startswith('aware'):
        n = n.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(minutes=off)))
    return n


PROPS = ['date', 'expires', 'last_modified']
HDR = {'date': 'Date', 'expires': 'Expires', 'last_modified': 'Last-Modified'}


def generate(rng, tier):
    par = rng.random() < 0.2
    t0 = float(wchoice(rng, [(2, 1500000000), (4, rng.choice(EDGES) + rng.choice([-86400, -3600, -1800, -2, -1, 0, 1, 5, 1800]))])) + rng.choice([0, 0, 0.25, 0.999, 0.5])
    steps = []
    for _ in range(rng.randint(1, 10)):
        op = wchoice(rng, [(3, 'fn'), (3, 'prop'), (2, 'propnow'), (2, 'retry'), (2.5, 'cookie'), (2, 'cond'), (2, 'file'), (2, 'reqdate'), (1.5, 'parse'), (1, 'ifrange'), (1, 'app')])
        if par:
            op = wchoice(rng, [(4, 'fn'), (3, 'propnow'), (2, 'cookie'), (3, 'cond'), (1, 'prop'), (1, 'app')])
        s = {'op': op, 'kind': rng.choice(KINDS), 'off': rng.choice([0, 330, -480, 840, -210, 60]),
             'at': wchoice(rng, [(2, ['now', rng.choice([0, 0.5, 1, -1, 60, 3600, -3600, 86400 * 365])]), (2, ['edge', rng.choice(EDGES) + rng.choice([-1, 0, 1, 0.75])]),
                                 (1, ['edge', rng.randrange(0, 4102444800)])]),
             'move': wchoice(rng, [(3, 0), (2, ['adv', rng.choice([0.1, 0.4, 1, 2, 59, 60, 3600, 86400, 31 * 86400, 365 * 86400])]),
                                   (1.5, ['jump', rng.choice([-1, -0.5, -60, -3600, -86400, -31 * 86400, 3600, 7200, 86400 * 366])]),
                                   (0.7, ['to', rng.choice(EDGES) + rng.choice([-1, 0, 1])])]),
             'late': wchoice(rng, [(3, 0), (1, 1), (1, 60), (1, 86400)]),
             'a': rng.random(), 'b': rng.random()}
        if par and s['move'] and s['move'][0] != 'adv':
            s['move'] = ['adv', 1]
        s['fn'] = rng.choice(['http_date', 'cookie_date'])
        s['none'] = rng.random() < (0.8 if par else 0.35)
        s['prop'] = rng.choice(PROPS)
        s['age'] = rng.choice([0, 1, 59, 3600, 86400, 30 * 86400, 365 * 86400, -1, -3600, 7])
        s['agekind'] = rng.choice(['int', 'delta'])
        steps.append(s)
    return {'t0': max(t0, 90000.0), 'tz': rng.choice(TZS), 'steps': steps, 'par': par, 'files': wchoice(rng, [(1, 0), (1, 1)]), 'timeout': rng.choice([0, 1, 60, 3600 * 12, 86400 * 400]),
            'sched': sched_knobs(rng)}


def execute(ctx):
    plan = ctx.plan
    st = {'res': Response('x')}
    if any(s['op'] == 'file' for s in plan['steps']):
        ctx.scratch = tempfile.mkdtemp(prefix='dst-c12-', dir=SCRATCH)
        st['file'] = os.path.join(ctx.scratch, 'f.txt')
        with seams.real_open(st['file'], 'wb') as f:
            f.write(b'data')
        st['mw'] = SharedDataMiddleware(lambda e, s: 1 / 0, {'/f': st['file']}, cache_timeout=plan['timeout'])
        st['mw_nc'] = SharedDataMiddleware(lambda e, s: 1 / 0, {'/f': st['file']}, cache=False)
    if any(s['op'] == 'app' for s in plan['steps']):
        b = ApplicationBuilder()
        b.add_routes(Route('/', endpoint='r'))

        def handler(app, req):
            res = Response('x')
            res.add_etag()
            res.set_cookie('k', 'v', max_age=60)
            return res.make_conditional(req)
        b.add_bindings(Binding('r', handler))
        st['app'] = b()
    if plan['par'] and len(plan['steps']) > 1:
        halves = [plan['steps'][0::2], plan['steps'][1::2]]

        def run(steps):
            mine = dict(st, res=Response('x'))
            for s in steps:
                one(ctx, mine, s)
        ctx.run_threads([lambda h=h: run(h) for h in halves])
    else:
        for s in plan['steps']:
            one(ctx, st, s)


def move(ctx, m):
    if not m:
        return
    k, d = m
    if k == 'adv':
        ctx.clock.advance(d)
    elif k == 'jump':
        ctx.clock.jump(min(max(90000.0, ctx.clock.read() + d), 250000000000.0))
        ctx.fault('clock.step-back' if d < 0 else 'clock.step-forward')
    else:
        ctx.clock.jump(max(90000.0, d))
        ctx.fault('clock.jump')


def current(ctx, what, got, t0, delim=' ', plus=0):
    """`got` must name an instant of the clock between t0 and now (the call) plus `plus`"""
    t1 = ctx.clock.read()
    lo, hi = int((t0 + plus) // 1), int((t1 + plus) // 1)
    if hi - lo > 1000:
        ok = any(got == fmt(x, delim) for x in (lo, hi)) or lo <= unfmt(got) <= hi
    else:
        ok = any(got == fmt(x, delim) for x in range(lo, hi + 1))
    ctx.check(ok, 'now', '%s: %r does not name the current instant %s (%s)', what, got, fmt(lo, delim), lo)


def unfmt(s):
    m = re.match(r'..., (\d\d)[- ](...)[- ](\d{4}) (\d\d):(\d\d):(\d\d) GMT$', s)
    if not m:
        return float('nan')
    dt = datetime.datetime(int(m.group(3)), MON.index(m.group(2)) + 1, int(m.group(1)), int(m.group(4)), int(m.group(5)), int(m.group(6)))
    return (dt - datetime.datetime(1970, 1, 1)).total_seconds()


def same(ctx, what, dt, t):
    """a datetime read back must be the instant t (seconds)"""
    ctx.check(isinstance(dt, datetime.datetime), 'read-back', '%s gave %r instead of the instant %s', what, dt, fmt(t))
    if dt.tzinfo is not None:
        dt = dt.astimezone(datetime.timezone.utc).replace(tzinfo=None)
    ctx.check(dt == naive(t), 'read-back', '%s gave %r instead of the instant %s', what, dt, fmt(t))


def wire(ctx, res):
    h = serve(ctx, res, make_environ('GET', '/'))
    if h.exc is not None:
        raise h.exc
    return h


def one(ctx, st, s):
    move(ctx, s['move'])
    now = ctx.clock.read()
    k, d = s['at']
    t = max(0, now + d if k == 'now' else d)
    op = s['op']
    arg = make(t, s['kind'], s['off'])
    tz = ctx.plan['tz']
    what = '%s(%s %r) at clock %s in %s' % (op, s['kind'], arg, now, tz)
    res = st['res']
    out = None
    if s['move'] or tz != 'UTC':
        ctx.probe('nontrivial')
    if op == 'fn':
        f, delim = (http_date, ' ') if s['fn'] == 'http_date' else (cookie_date, '-')
        if s['none']:
            out = f() if s['a'] < 0.5 else f(None)
            current(ctx, '%s() in %s' % (s['fn'], tz), out, now, delim)
        else:
            out = f(arg)
            ctx.check(out == fmt(t, delim), 'format', '%s %s gave %r instead of %r', s['fn'], what, out, fmt(t, delim))
            if delim == ' ':
                same(ctx, 'parse_date(%r)' % out, parse_date(out), t)
    elif op == 'prop':
        setattr(res, s['prop'], arg)
        ctx.clock.advance(s['late'])
        same(ctx, '%s: %s read back' % (what, s['prop']), getattr(res, s['prop']), t)
        out = wire(ctx, res).header(HDR[s['prop']])
        ctx.check(out == fmt(t), 'format', '%s: %s sent as %r instead of %r', what, s['prop'], out, fmt(t))
        if s['a'] < 0.3:
            delattr(res, s['prop'])
            ctx.check(getattr(res, s['prop']) is None, 'deleted', '%s still reads %r after deletion', s['prop'], getattr(res, s['prop']))
    elif op == 'propnow':
        setattr(res, s['prop'], None)
        out = res.headers[HDR[s['prop']]]
        current(ctx, 'setting %s to None in %s' % (s['prop'], tz), out, now)
    elif op == 'retry':
        if s['none']:
            n = abs(s['age'])
            res.retry_after = n if s['a'] < 0.6 else str(n)
            ctx.clock.advance(s['late'])
            now = ctx.clock.read()
            got = res.retry_after
            ctx.check(isinstance(got, datetime.datetime), 'retry', 'retry_after=%r reads %r', n, got)
            if got.tzinfo is not None:
                got = got.astimezone(datetime.timezone.utc).replace(tzinfo=None)
            diff = (got - datetime.datetime(1970, 1, 1)).total_seconds() - (now + n)
            ctx.check(abs(diff) < 1.01, 'retry', 'retry_after=%d read at clock %s gives %r (%+.1f s off) in %s', n, now, got, diff, tz)
            out = res.headers['Retry-After']
            ctx.check(out == str(n), 'retry', 'retry_after=%d sent as %r', n, out)
        elif s['kind'].startswith('datetime') or s['kind'].startswith('aware'):
            res.retry_after = arg
            ctx.clock.advance(s['late'])
            same(ctx, what, res.retry_after, t)
            out = wire(ctx, res).header('Retry-After')
            ctx.check(out == fmt(t), 'format', '%s sent as %r instead of %r', what, out, fmt(t))
        if s['a'] > 0.8:
            res.retry_after = None
            ctx.check(res.retry_after is None and 'retry-after' not in res.headers, 'deleted', 'retry_after still there after deletion')
    elif op == 'cookie':
        if s['none']:
            age = s['age'] if s['agekind'] == 'int' else datetime.timedelta(seconds=s['age'])
            if s['a'] < 0.5:
                c = dump_cookie('k', 'v', max_age=age)
            else:
                r2 = Response()
                r2.set_cookie('k', 'v', max_age=age)
                c = r2.headers['Set-Cookie']
            attrs = dict(x.strip().partition('=')[::2] for x in c.split(';')[1:])
            out = attrs.get('Expires')
            ctx.check(out is not None, 'cookie', 'max_age=%r sets no expiry: %r', age, c)
            current(ctx, 'cookie with max_age=%r at clock %s in %s' % (age, now, tz), out, now, '-', s['age'])
            ctx.check(attrs.get('Max-Age') == str(s['age']), 'cookie', 'max_age=%r sent as %r', age, attrs.get('Max-Age'))
        else:
            c = dump_cookie('k', 'v', expires=arg)
            attrs = dict(x.strip().partition('=')[::2] for x in c.split(';')[1:])
            out = attrs.get('Expires')
            ctx.check(out == fmt(t, '-'), 'cookie', '%s sent as %r instead of %r', what, out, fmt(t, '-'))
    elif op == 'cond':
        r2 = Response('data')
        preset = s['a'] < 0.3
        if preset:
            r2.date = arg
        if s['b'] < 0.5:
            r2.last_modified = arg
            env = make_environ('GET', '/', headers=[('If-Modified-Since', fmt(t))])
        else:
            r2.set_etag('x')
            env = make_environ('GET', '/', headers=[('If-None-Match', '"x"')])
        ctx.clock.advance(s['late'])
        now = ctx.clock.read()
        r2.make_conditional(env)
        ctx.check(r2.status_code == 304, 'cond', '%s: validator %s not recognised: %s', what, fmt(t), r2.status)
        out = r2.headers.get('Date')
        if preset:
            ctx.check(out == fmt(t), 'cond', '%s: the date %s set by the application became %r', what, fmt(t), out)
        else:
            ctx.check(out is not None, 'cond', '%s: no date sent', what)
            current(ctx, 'Date of a conditional response in %s' % tz, out, now)
        if s['late']:
            # the same response made conditional again keeps saying when it was made
            ctx.clock.advance(s['late'])
    elif op == 'app':
        now = ctx.clock.read()
        h = serve(ctx, st['app'], make_environ('GET', '/'))
        if h.exc is not None:
            raise h.exc
        current(ctx, 'Date sent by an application in %s' % tz, h.header('Date'), now)
        out = re.search(r'Expires=([^;]*)', h.header('Set-Cookie')).group(1)
        current(ctx, 'cookie of an application in %s' % tz, out, now, '-', 60)
    elif op == 'file':
        mt = min(max(t, 1), 4102444800 * 2)
        mt = int(mt) + [0, 0.25, 0.5, 0.75][int(s['b'] * 4)]
        os.utime(st['file'], (mt, mt))
        cache = s['a'] < 0.8
        hdrs = []
        expect = 200
        if cache and s['b'] < 0.4:
            d = [-1, 0, 1, 3600, -3600][int(s['a'] * 5 / 0.8) % 5]
            hdrs = [('If-Modified-Since', fmt(max(0, int(mt) + d)))]
            expect = 304 if d >= 0 else 200
        h = serve(ctx, st['mw' if cache else 'mw_nc'], make_environ('GET', '/f', headers=hdrs))
        if h.exc is not None:
            raise h.exc
        what = 'file modified %s served at %s in %s (%s)' % (mt, now, tz, hdrs)
        ctx.check(h.status.startswith(str(expect)), 'file', '%s: %s', what, h.status)
        current(ctx, 'Date of ' + what, h.header('Date'), now)
        out = (h.header('Expires'), h.header('Last-Modified'))
        if expect == 200:
            ctx.check(out[1] == fmt(mt), 'file', '%s: Last-Modified %r instead of %s', what, out[1], fmt(mt))
            if cache:
                current(ctx, 'Expires of ' + what, out[0], now, ' ', ctx.plan['timeout'])
                ctx.check('max-age=%d' % ctx.plan['timeout'] in h.header('Cache-Control'), 'file', '%s: lifetime sent as %r', what, h.header('Cache-Control'))
    elif op == 'reqdate':
        style = int(s['a'] * 5)
        text, ti = client_date(t, style, s['off'])
        name, prop = [('Date', 'date'), ('If-Modified-Since', 'if_modified_since'), ('If-Unmodified-Since', 'if_unmodified_since')][int(s['b'] * 3)]
        req = Request(make_environ('GET', '/', headers=[(name, text)]))
        ctx.clock.advance(s['late'])
        same(ctx, 'request %s: %s in %s' % (name, text, tz), getattr(req, prop), ti)
        out = text
    elif op == 'parse':
        style = int(s['a'] * 5)
        text, ti = client_date(t, style, s['off'])
        same(ctx, 'parse_date(%r) in %s' % (text, tz), parse_date(text), ti)
        out = text
    elif op == 'ifrange':
        text, ti = client_date(t, 0, 0)
        rg = parse_if_range_header(text)
        same(ctx, 'If-Range: %s in %s' % (text, tz), rg.date, ti)
        out = rg.to_header()
        ctx.check(out == text, 'format', 'If-Range: %s sent back as %s', text, out)
    ctx.log(op, s['kind'], repr(arg), now, out)
    ctx.states.add('%s|%s|%s|%s|%s|%s' % (op, s['kind'], s['none'], s['prop'], tz, bool(s['move'])))


def client_date(t, style, off):
    """-> (text, instant)"""
    y, m, d, hh, mm, ss, wd = civil(t)
    ti = int(t // 1)
    hms = '%02d:%02d:%02d' % (hh, mm, ss)
    if style == 1 and 1970 <= y <= 2068:
        return '%s, %02d-%s-%02d %s GMT' % (LONG[wd], d, MON[m - 1], y % 100, hms), ti
    if style == 2:
        return '%s %s %2d %s %04d' % (wd, MON[m - 1], d, hms, y), ti
    if style == 3 and t >= 86400 and off:
        y, m, d, hh, mm, ss, wd = civil(t + off * 60)
        return '%s, %02d %s %04d %02d:%02d:%02d %s%02d%02d' % (wd, d, MON[m - 1], y, hh, mm, ss, '-' if off < 0 else '+', abs(off) // 60, abs(off) % 60), ti
    if style == 4:
        return ' ' + fmt(t).upper() + ' ', ti
    return fmt(t), ti
