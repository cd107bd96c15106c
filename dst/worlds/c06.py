"""C06: static file middleware while another process replaces the files."""
import io
import os
import sys
import tempfile
import types
from email.utils import formatdate

from ..gen import wchoice, text, TZS
from ..core import sched_knobs
from ..seams import real_open
from ..server import serve, make_environ

from verktyg.wsgi import SharedDataMiddleware

ID = 'C06'
QUICK = 30000
THOROUGH = 900000
BATCH = 60
SHRINK = ('mutations', 'threads', 'threads.*', 'faults', 'disallow', 'exports')
RULE = ('Seeded plans: 1-4 exported directories/files with 1-5 files, 1-3 server threads with 1-5 GET requests '
        '(validators of earlier answers, foreign and malformed ones, odd paths), one mutating process that '
        'atomically replaces, deletes and creates files with modification times from the simulated clock, '
        'I/O faults, disconnects, time zones.  Oracle: table of the versions current during each request.')
REAL = ['verktyg.wsgi.SharedDataMiddleware', 'verktyg.wsgi.FileWrapper', 'verktyg.http conditional logic', 'kernel file system in a scratch directory']
STUB = ['WSGI server loop', 'thread and process scheduling', 'clock, modification times', 'I/O errors']
ASSUMPTIONS = ['files are replaced atomically (rename)', 'two versions of one file differ in size or in the second of their modification time (known to the microsecond)']

NAMES = ['a.txt', 'b.css', 'c.bin', 'index.html', 'sub/a.txt', 'sub/deep/x.js', 'secret.key', 'noext', 'sub/secret.key', 'a.txt.bak']
SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
# instants around daylight saving changes and other calendar edges
EDGES = [1509253200, 1509256800, 1509257400, 1520737200, 1522548000, 1478412000, 1478415600, 951782400, 1456704000,
         1483228800, 86400 * 365, 2147483647]


def version(rng, t, used):
    while True:
        k = rng.random()
        if k < 0.5:
            mt = t + rng.randint(-3, 3)
        elif k < 0.8:
            mt = t + rng.choice([3600, -3600, 1800, -1800, 86400, 1, -1, 60])
        else:
            mt = t - rng.randint(0, 10**7)
        size = wchoice(rng, [(2, 10), (2, 11), (2, rng.randint(0, 40)), (1, 8192), (1, 8191), (1, rng.randint(8190, 8200)),
                             (1, rng.randint(100, 20000))])
        mt = max(mt, 1)
        if (mt, size) not in used:
            used.add((mt, size))
            return {'mt': mt, 'ns': rng.choice([0, 0, 1, 500000000, 999999000, rng.randint(0, 999999000)]), 'size': size}


def generate(rng, tier):
    t0 = float(wchoice(rng, [(1, 1500000000), (2, rng.choice(EDGES) + rng.choice([-1800, -10, 0, 5]))]))
    tz = rng.choice(TZS)
    exports = []
    dirs = ['pub']
    exports.append(['/s', wchoice(rng, [(4, 'dir'), (1, 'pkg')]), 'pub'])
    if rng.random() < 0.4:
        dirs.append('other')
        exports.append([rng.choice(['/o', '/s/sub', '/s2', '/']), wchoice(rng, [(4, 'dir'), (1, 'pkg')]), 'other'])
    files = []
    used = {}
    for d in dirs:
        for n in rng.sample(NAMES, rng.randint(1, 4)):
            f = d + '/' + n
            u = used.setdefault(f, set())
            files.append([f, version(rng, int(t0), u) if rng.random() < 0.85 else None])
    if rng.random() < 0.4:
        f = rng.choice([x for x in files])[0]
        exports.append([rng.choice(['/robots.txt', '/s/alias', '/fav']), 'file', f])
    zipped = []
    if rng.random() < 0.2:
        exports.append([rng.choice(['/z', '/s/sub', '/s']), 'zip', 'zip'])
        zipped = [['zip/' + n, wchoice(rng, [(1, 0), (3, rng.randint(1, 60)), (1, rng.randint(8000, 20000))])]
                  for n in rng.sample(NAMES, rng.randint(1, 3))]
    # one prefix, one export
    exports = list({e[0]: e for e in exports}.values())
    rng.shuffle(exports)
    muts = []
    t = t0
    for _ in range(wchoice(rng, [(1, 0), (3, 2), (3, 5), (1, 10)])):
        dt = wchoice(rng, [(2, 0), (2, 1), (2, rng.randint(1, 100)), (1, 3600), (0.5, 0.25)])
        t += dt
        f = rng.choice(files)[0]
        v = version(rng, int(t), used[f]) if rng.random() < 0.8 else None
        muts.append({'f': f, 'v': v, 'dt': dt})
    threads = []
    for _ in range(rng.randint(1, 3)):
        reqs = []
        for _ in range(rng.randint(1, 5)):
            r = {'stop': wchoice(rng, [(6, None), (1, 0), (1, 1)]), 'wrapper': rng.random() < 0.2}
            if rng.random() < 0.12:
                r['m'] = rng.choice(['HEAD', 'HEAD', 'POST', 'PUT', 'DELETE'])
            if rng.random() < 0.05:
                r['start'] = rng.choice(['OSError', 'BaseBoom'])
            k = rng.random()
            ex = rng.choice(exports)
            inner = rng.choice(zipped if ex[1] == 'zip' and zipped else files)[0].split('/', 1)[1]
            base = '' if ex[0] == '/' else ex[0]
            if ex[1] == 'file':
                p = ex[0]
            else:
                p = base + '/' + inner
            odd = None
            if k > 0.75:
                odd = rng.choice(['dots', 'dup', 'pre', 'post', 'case', 'root', 'trail', 'nul', 'pct', 'back', 'abs', 'exp', 'uni'])
                p = {'dots': rng.choice([base + '/../' + inner, base + '/../../private/' + inner, base + '/sub/../../../private/top',
                                         '/..' + base + '/../private/top', base + '/....//private/top', '/../private/top',
                                         base + '/..%2fprivate/top']),
                     'dup': p.replace('/', '//'), 'pre': base + 'x/' + inner, 'post': p + '/more', 'case': p.upper(),
                     'root': '/', 'trail': p + '/', 'nul': p + '\0', 'pct': p.replace('.', '%2e'), 'back': base + '\\..\\..\\private\\top',
                     'abs': base + '//etc/passwd', 'exp': base or '/', 'uni': base + '/zoë.txt'}[odd]
            r['path'] = p
            r['odd'] = odd
            c = rng.random()
            if c < 0.35:
                r['inm'] = [rng.choice(['last', 'last', 'lastweak', 'any', 'star', 'junk', 'old', 'unquoted']) for _ in range(rng.randint(1, 3))]
            if 0.25 < c < 0.55:
                r['ims'] = rng.choice([['last', 0], ['last', 1], ['last', -1], ['now', 0], ['junk', 0], ['last', 3600], ['last', -3600]])
            reqs.append(r)
        threads.append(reqs)
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            op = rng.choice(['open', 'open', 'read', 'read', 'fstat', 'stat'])
            err = rng.choice(['EIO', 'EMFILE', 'EACCES', 'ENOENT', 'ESTALE']) if op != 'read' else rng.choice(['EIO', 'SHORT', 'SHORT', 'ESTALE'])
            faults.append({'op': op, 'n': rng.randint(1, 8), 'err': err, 'keep': rng.randint(1, 9)})
    return {'t0': t0, 'tz': tz, 'exports': exports, 'files': files, 'zip': zipped, 'mutations': muts, 'threads': threads, 'faults': faults,
            'disallow': wchoice(rng, [(3, None), (1, '*.key'), (1, ['*.key']), (1, ['*.bak', 'secret*'])]),
            'cache': rng.random() < 0.85, 'timeout': rng.choice([60 * 60 * 12, 0, 5]), 'sched': sched_knobs(rng)}


def content(f, i, size):
    unit = ('%s#%d|' % (f, i)).encode()
    return (unit * (size // len(unit) + 1))[:size]


class BaseBoom(BaseException):
    pass


class DefaultProvider(object):
    """pkg_resources: packages in directories"""
    def __init__(self, root):
        self.module_path = root

    def _fn(self, name):
        return os.path.join(self.module_path, *name.split('/')) if name else self.module_path

    def has_resource(self, name):
        return os.path.exists(self._fn(name))

    def resource_isdir(self, name):
        return os.path.isdir(self._fn(name))

    def get_resource_filename(self, manager, name):
        return self._fn(name)

    def get_resource_stream(self, manager, name):
        return open(self._fn(name), 'rb')

    def get_resource_string(self, manager, name):
        with self.get_resource_stream(manager, name) as f:
            return f.read()


class ZipProvider(object):
    """pkg_resources: packages in archives (read when the process starts)"""
    def __init__(self, ctx, data):
        self.ctx = ctx
        self.data = data

    def has_resource(self, name):
        self.ctx.point('zip')
        return name in self.data or self.resource_isdir(name)

    def resource_isdir(self, name):
        self.ctx.point('zip')
        return any(n.startswith(name.rstrip('/') + '/') for n in self.data)

    def get_resource_filename(self, manager, name):
        raise NotImplementedError('not extracted')

    def get_resource_string(self, manager, name):
        self.ctx.point('zip')
        return self.data[name]

    def get_resource_stream(self, manager, name):
        return io.BytesIO(self.get_resource_string(manager, name))


def install_pkg_resources(ctx, w):
    m = types.ModuleType('pkg_resources')
    m.DefaultProvider = DefaultProvider
    m.ZipProvider = ZipProvider
    m.ResourceManager = type('ResourceManager', (object,), {})
    m.get_provider = lambda package: (
        ZipProvider(ctx, {'static/' + k.split('/', 1)[1]: v for k, v in w.zipped.items()})
        if package == 'zipped' else DefaultProvider(w.root))
    sys.modules['pkg_resources'] = m


class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = ctx.scratch
        self.tick = 0
        self.hist = {}           # file -> [(tick, version index or None)]
        self.vers = []           # index -> dict(file, mt, ns, size, data)
        self.zipped = {}

    def path(self, f):
        return os.path.join(self.root, *f.split('/'))

    def install(self, f, v):
        p = self.path(f)
        if v is None:
            if os.path.exists(p):
                os.unlink(p)
            idx = None
        else:
            idx = len(self.vers)
            rec = dict(v, file=f, data=content(f, idx, v['size']))
            self.vers.append(rec)
            self.put(p, rec)
        self.tick += 1
        self.hist.setdefault(f, []).append((self.tick, idx))

    def pack(self, f, size, mt):
        idx = len(self.vers)
        self.zipped[f] = content(f, idx, size)
        self.vers.append({'file': f, 'mt': mt, 'ns': 0, 'size': size, 'data': self.zipped[f]})
        self.hist[f] = [(0, idx)]

    def put(self, p, rec):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = os.path.join(self.root, '.tmp')
        with real_open(tmp, 'wb') as fh:
            fh.write(rec['data'])
        ns = rec['mt'] * 10**9 + rec['ns']
        os.utime(tmp, ns=(ns, ns))
        os.replace(tmp, p)

    def current(self, f, lo, hi):
        """indices (or None) current at some moment in [lo, hi]"""
        out = set()
        h = self.hist.get(f, [])
        before = None
        for t, i in h:
            if t <= lo:
                before = i
            elif t <= hi:
                out.add(i)
        out.add(before)
        return out


def build(ctx, w):
    plan = ctx.plan
    seen = []

    def inner(env, start):
        seen.append((env['PATH_INFO'], env['SCRIPT_NAME'], env['REQUEST_METHOD']))
        env['sim.reached'] = (env['PATH_INFO'], env['SCRIPT_NAME'], env['REQUEST_METHOD'], env.get('HTTP_IF_NONE_MATCH'))
        start('418 Inner', [('Content-Type', 'text/plain')])
        return [b'inner']
    exports = {}
    for pre, kind, target in plan['exports']:
        exports[pre] = {'pkg': ('package', target), 'zip': ('zipped', 'static')}.get(kind) or w.path(target)
    mw = SharedDataMiddleware(inner, exports, disallow=plan['disallow'], cache=plan['cache'], cache_timeout=plan['timeout'])
    # an export is a file or a directory depending on what is there at start-up
    kinds = {pre: isinstance(p, str) and os.path.isfile(p) for pre, p in exports.items()}
    return mw, kinds


def targets(plan, kinds, path):
    """files a clean path can refer to, in order of preference; (file, exact)"""
    out = []
    for pre, kind, target in plan['exports']:
        if kinds[pre]:
            if path == pre or path.startswith(pre + '/'):
                out.append(target)
        else:
            p = pre if pre.endswith('/') else pre + '/'
            if path.startswith(p) and kind != 'file':
                out.append(target + '/' + path[len(p):])
            elif path == pre and kind == 'file':
                out.append(target)
    return out


class FW(object):
    """a server's own wsgi.file_wrapper"""
    def __init__(self, f, size=4096):
        self.f = f
        self.size = size
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            d = self.f.read(self.size)
            if not d:
                return
            yield d


def execute(ctx):
    plan = ctx.plan
    ctx.scratch = tempfile.mkdtemp(prefix='dst-c06-', dir=SCRATCH)
    w = World(ctx)
    os.makedirs(os.path.join(w.root, 'private'))
    with real_open(os.path.join(w.root, 'private', 'top'), 'wb') as fh:
        fh.write(b'PRIVATE' * 3)
    for n in NAMES:
        p = os.path.join(w.root, 'private', n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with real_open(p, 'wb') as fh:
            fh.write(b'PRIVATE' * 3)
    os.makedirs(os.path.join(w.root, 'pub'), exist_ok=True)
    for f, v in plan['files']:
        w.install(f, v)
    from ..core import SimFS
    install_pkg_resources(ctx, w)
    for f, n in plan.get('zip', ()):
        w.pack(f, n, int(ctx.clock.read() // 1))
    mw, kinds = build(ctx, w)
    zsolo = {}
    if w.zipped and plan['cache']:
        alone = SharedDataMiddleware(None, {'/z': ('zipped', 'static')})
        for i, v in enumerate(w.vers):
            if v['file'] in w.zipped:
                zsolo[i] = serve(ctx, alone, make_environ('GET', '/z/' + v['file'].split('/', 1)[1]), strict=False).header('etag')
    ctx.fs = SimFS(ctx, w.root, plan['faults'])
    records = []
    known = []          # (path, etag, last-modified epoch)

    def client(reqs):
        def run():
            mine = {}
            for r in reqs:
                records.append(request(ctx, w, mw, r, mine, known))
        return run

    def mutate():
        for m in plan['mutations']:
            ctx.point('mutate')
            ctx.clock.advance(m['dt'])
            w.install(m['f'], m['v'])
            ctx.log('mut', m['f'], m['v'])
            ctx.probe('mutation')
    fns = [client(t) for t in plan['threads']] + [mutate]
    ctx.run_threads(fns, fs_tids=range(len(plan['threads'])))
    leaked = sorted(f.dst_path[len(w.root):] for f in ctx.fs.open_files.values())
    ctx.check(not leaked, 'file-not-closed', 'files still open after all responses were closed: %s', leaked)
    ctx.fs = None
    solo = {**etags_alone(ctx, w, plan), **zsolo} if plan['cache'] else {}
    tags = {}
    for rec in records:
        judge(ctx, w, plan, kinds, rec, solo, tags)


def etags_alone(ctx, w, plan):
    """entity tag of every version, asked from a fresh middleware over a tree that contains only it"""
    out = {}
    for i, rec in enumerate(w.vers):
        if rec['file'] in w.zipped:
            continue
        p = w.path(rec['file'])
        w.put(p, rec)
        mw = SharedDataMiddleware(None, {'/x': p})
        h = serve(ctx, mw, make_environ('GET', '/x'), strict=False)
        out[i] = h.header('etag')
    return out


def request(ctx, w, mw, r, mine, known):
    hdrs = []
    sent = {'inm': None, 'ims': None}
    last = mine.get(r['path'])
    if 'inm' in r:
        tags = []
        for k in r['inm']:
            t = None
            if k in ('last', 'lastweak', 'unquoted') and last and last[0]:
                t = last[0].strip('"')
                tags.append({'last': '"%s"', 'lastweak': 'W/"%s"', 'unquoted': '%s'}[k] % t)
            elif k == 'any' and known:
                tags.append(known[0][1] or '"x"')
            elif k == 'old' and known:
                tags.append(known[-1][1] or '"x"')
            elif k == 'star':
                tags.append('*')
            else:
                tags.append('"junk-%d"' % len(tags))
        hdrs.append(('If-None-Match', ', '.join(tags)))
        sent['inm'] = [t[2:] if t.startswith('W/') else t for t in tags]
        sent['inm'] = [t.strip('"') for t in sent['inm']]
    if 'ims' in r:
        k, d = r['ims']
        base = last[1] if k == 'last' and last else int(ctx.clock.read())
        if k == 'junk':
            hdrs.append(('If-Modified-Since', 'yesterday'))
        else:
            sent['ims'] = max(0, base + d)
            hdrs.append(('If-Modified-Since', formatdate(sent['ims'], usegmt=True)))
    extra = {'wsgi.file_wrapper': FW} if r['wrapper'] else None
    env = make_environ(r.get('m', 'GET'), r['path'], headers=hdrs, extra=extra)
    before = (env['PATH_INFO'], env['SCRIPT_NAME'], r.get('m', 'GET'), env.get('HTTP_IF_NONE_MATCH'))
    lo = w.tick
    nf = sum(ctx.faults.values())
    box = {}

    def app(e, s):
        try:
            return mw(e, s)
        finally:
            box['hi'] = w.tick
    fail = {'OSError': OSError('gone'), 'BaseBoom': BaseBoom('gone')}[r['start']] if r.get('start') else None
    h = serve(ctx, app, env, stop_after=r['stop'], fail_start=fail)
    rec = {'r': r, 'h': h, 'lo': lo, 'hi': box['hi'], 'sent': sent, 'faulted': sum(ctx.faults.values()) > nf,
           'reached': env.get('sim.reached'), 'before': before}
    ctx.log(r['path'], h.status, h.header('etag') if h.started else None, len(h.body), type(h.exc).__name__)
    if h.started and h.status.startswith('200') and h.exc is None and r.get('m', 'GET') == 'GET':
        from email.utils import parsedate_tz, mktime_tz
        lm = h.header('last-modified')
        mine[r['path']] = (h.header('etag'), mktime_tz(parsedate_tz(lm)))
        known.append((r['path'],) + mine[r['path']])
    return rec


def disallowed(plan, name):
    from fnmatch import fnmatchcase
    d = plan['disallow']
    if d is None:
        return False
    return any(fnmatchcase(name.rsplit('/', 1)[-1], x) for x in ([d] if isinstance(d, str) else d))


def judge(ctx, w, plan, kinds, rec, solo, tags):
    r, h = rec['r'], rec['h']
    path = r['path']
    method = r.get('m', 'GET')
    what = '%s %r' % (method, path)
    ctx.check(b'PRIVATE' not in h.body, 'escape', '%s served a file outside the exports', what)
    clean = r['odd'] in (None, 'pre', 'post', 'case', 'root', 'exp')
    segs = [x for x in path.split('/') if x and x != '..']
    norm = '/' + '/'.join(segs)
    cands = targets(plan, kinds, norm)
    vers = set()       # versions current at some time during the call
    sure = False       # some candidate existed all the time
    statfail = any(k.startswith('fs.stat') for k in ctx.faults)
    gone = False       # an exported single file was missing at some time: opening it may fail
    singles = {os.path.normpath(t) for pre, kind, t in plan['exports'] if kinds[pre]}
    for f in cands:
        f = os.path.normpath(f)
        if '\0' in f:
            continue
        cur = w.current(f, rec['lo'], rec['hi'])
        if None in cur and f in singles:
            gone = True
        if statfail:
            cur.add(None)      # a failing look-up counts as a missing file
        if disallowed(plan, f):
            # a present but disallowed file shadows later exports
            if None not in cur:
                break
            continue
        vers |= {i for i in cur if i is not None}
        if None not in cur:
            sure = True
            break
    if r.get('start') and h.start_error:
        ctx.check(isinstance(h.exc, (OSError, BaseBoom)), 'start-error-lost', '%s: the failure of the response start became %r', what, h.exc)
        return
    if h.exc is not None:
        ok = rec['faulted'] or ((gone or not sure and vers) and isinstance(h.exc, FileNotFoundError))
        if not ok and isinstance(h.exc, OSError) and plan['faults']:
            ok = True
        ctx.check(ok, 'unexpected-error', '%s failed with %r', what, h.exc)
        ctx.probe('io-error')
        return
    if h.status.startswith('418'):
        ctx.check(rec['reached'] == rec['before'], 'environ-changed', '%s reached the application as %r instead of %r', what, rec['reached'], rec['before'])
        if clean and sure:
            ctx.violate('not-served', '%s was not served although the file existed', what)
        return
    ctx.check(h.status[:3] in ('200', '304'), 'status', '%s answered %s', what, h.status)
    ctx.check(vers, 'served-nothing', '%s answered %s although no exported, allowed file of that name existed during the request (%s)', what, h.status, norm)
    ctx.probe('nontrivial')
    if h.status.startswith('304'):
        ctx.check(not h.body, 'body-304', '%s: not modified with a body', what)
        ok = False
        for i in vers:
            v = w.vers[i]
            if rec['sent']['inm'] is not None and plan['cache']:
                ok = ok or '*' in rec['sent']['inm'] or (solo[i] or '').strip('"') in rec['sent']['inm']
            elif rec['sent']['ims'] is not None:
                ok = ok or v['mt'] <= rec['sent']['ims']
        ctx.check(ok, 'stale-304', '%s: not modified, but none of the versions current during the request matches the validators %r', what, rec['sent'])
        ctx.probe('not-modified')
        return
    if method not in ('GET', 'HEAD'):
        return
    ln = h.header('content-length')
    lm = h.header('last-modified')
    et = h.header('etag')
    match = []
    for i in sorted(vers):
        v = w.vers[i]
        if method == 'HEAD':
            match.append(i)
            continue
        if h.complete and v['data'] != h.body:
            continue
        if not h.complete and not v['data'].startswith(h.body):
            continue
        match.append(i)
    ctx.check(match, 'content', '%s: the %d bytes sent (complete: %s) are not those of a version current during the request (sizes %s, declared %s)',
              what, len(h.body), h.complete, [w.vers[i]['size'] for i in sorted(vers)], ln)
    meta = [i for i in match if ln == str(w.vers[i]['size']) and lm == formatdate(w.vers[i]['mt'], usegmt=True)
            and (not plan['cache'] or et == solo[i])]
    ctx.check(meta, 'mixed-versions', '%s: content of version %s but Content-Length %s, Last-Modified %s, ETag %s', what,
              [(w.vers[i]['size'], formatdate(w.vers[i]['mt'], usegmt=True), solo.get(i)) for i in match], ln, lm, et)
    if plan['cache']:
        ctx.check(et, 'no-etag', '%s: no entity tag although caching is on', what)
        if h.complete and method == 'GET':
            f = w.vers[meta[0]]['file']
            old = tags.setdefault((f, et), h.body)
            ctx.check(old == h.body, 'same-etag', '%s: two different contents of %s were sent with the entity tag %s', what, f, et)
    ctx.states.add('%s|%s|%s|%s' % (len(vers), rec['hi'] > rec['lo'], h.complete, bool(rec['sent']['inm'])))
    if len(vers) > 1:
        ctx.probe('changed-during-request')
