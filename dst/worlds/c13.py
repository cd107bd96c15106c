"""C13: storing and encoding uploads on a failing disk."""
import errno
import io
import os
import re
import tempfile
from urllib.parse import parse_qsl

from ..gen import wchoice, text
from ..core import SimFS
from ..seams import real_open

from verktyg.datastructures import MultiDict
from verktyg.http import FileStorage
from verktyg.test import EnvironBuilder, Client, stream_encode_multipart, encode_multipart

ID = 'C13'
QUICK = 130000
THOROUGH = 1500000
BATCH = 200
SHRINK = ('steps', 'faults', 'steps.*.parts')
RULE = ('Seeded plans: uploads held in memory, in files, in spooled files and in streams that deliver in pieces or fail; saved to paths and file objects, '
        'read and iterated; forms of text, byte and file fields encoded in memory and spilled at every kind of threshold, through the functions, the environ '
        'builder and the client; open, read, write (short, EIO, ENOSPC) and close failures at arbitrary operations.  '
        'Oracle: the bytes supplied; an independent multipart parser; complete or error.')
REAL = ['verktyg.http.FileStorage', 'verktyg.test.stream_encode_multipart / encode_multipart / EnvironBuilder / Client', 'tempfile', 'kernel file system in a scratch directory']
STUB = ['failing upload streams', 'file system failures', 'multipart parser (oracle)']
ASSUMPTIONS = ['field and file names contain no line breaks', 'destinations handed in by the caller accept whole writes or raise']

SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
ERRS = ['EIO', 'ENOSPC', 'EDQUOT']


class StreamErr(Exception):
    pass


def gen_data(rng):
    k = rng.random()
    if k < 0.1:
        return ''
    if k < 0.7:
        return text(rng, rng.randint(1, 40), rng.choice(['ab\n', 'a\r\n', '\x00\xff-', 'abc', '--b\r\n']))
    if k < 0.93:
        return text(rng, rng.randint(1, 30), 'abc\n\xff') * rng.choice([10, 60, 300])
    return text(rng, rng.randint(5, 30), 'abc\n\xff') * rng.choice([600, 1500, 4000])


def gen_upload(rng, faulty=True):
    u = {'data': gen_data(rng), 'kind': wchoice(rng, [(3, 'bytes'), (3, 'pieces'), (2, 'file'), (1.5, 'spooled'), (1, 'temp'), (1, 'rawfile')]),
         'piece': rng.choice([1, 2, 3, 7, 100, 5000]), 'skip': wchoice(rng, [(4, 0), (1, 1), (1, 5), (0.5, 10**6)]), 'max': rng.choice([1, 10, 100, 10**6])}
    if faulty and u['kind'] == 'pieces' and rng.random() < 0.3:
        u['fail'] = rng.choice([0, 1, 5, 30, 300])
        u['exc'] = rng.choice(['StreamErr', 'OSError', 'ValueError'])
    if len(u['data']) > 5000 and u['piece'] < 100:
        u['piece'] = 777
    return u


def gen_part(rng, n):
    p = {'name': text(rng, rng.randint(1, 4), 'abcé _-[]') + wchoice(rng, [(4, ''), (4, 'x'), (1, rng.choice(['"', '\\', 'q"x', '\\"', '"; filename="f']))])}
    k = rng.random()
    if k < 0.4:
        p['text'] = text(rng, rng.choice([0, 1, 5, 30, 600]), 'abcé\r\n=&+% -') if rng.random() < 0.9 else str(rng.randint(0, 999))
    elif k < 0.5:
        p['bin'] = gen_data(rng)
    elif k < 0.57:
        p['num'] = rng.choice([0, 0, False, True, 0.0, 2.5, rng.randint(-5, 10**6)])
    else:
        p['up'] = gen_upload(rng)
        if p['up']['kind'] == 'pieces' and rng.random() < 0.2:
            p['up']['closefail'] = True
            p['up'].setdefault('exc', rng.choice(['StreamErr', 'OSError', 'ValueError']))
        p['filename'] = rng.choice([None, 'f.txt', 'a b.png', 'weird', 'ü.html', 'noext', 'x.tar.gz', 'c:\\d.txt', 'say "hi".txt'])
        p['ctype'] = rng.choice([None, None, 'text/plain', 'application/x-q; charset=latin1'])
        p['wrap'] = rng.random() < 0.6
        p['tuple'] = wchoice(rng, [(5, 0), (1, 1), (1, 2), (1.5, 3)])
    return p


def generate(rng, tier):
    steps = []
    for _ in range(rng.randint(1, 3)):
        op = wchoice(rng, [(4, 'save'), (2, 'read'), (4, 'encode'), (2, 'builder'), (1, 'client'), (1, 'paths')])
        s = {'op': op}
        if op in ('save', 'read'):
            s['up'] = gen_upload(rng)
            s['buf'] = rng.choice([None, None, 1, 2, 7, 64, 4096, 16384])
            if len(s['up']['data']) > 4000 and s['buf'] in (1, 2, 7):
                s['buf'] = 64
            s['dst'] = wchoice(rng, [(4, 'path'), (1, 'bytesio'), (2, 'fileobj'), (1, 'existing'), (0.5, 'missing'), (0.5, 'dir')])
            s['again'] = rng.random() < 0.25
            s['how'] = rng.choice(['iter', 'lines', 'read', 'reads', 'readlines', 'next'])
            s['name'] = rng.choice([None, 'f.txt'])
            s['clen'] = rng.choice([None, None, None, None, 0, 1, 4, 100, 10**6])
        else:
            s['parts'] = [gen_part(rng, i) for i in range(wchoice(rng, [(0.5, 0), (2, 1), (3, 3), (1, 7)]))]
            s['threshold'] = wchoice(rng, [(2, ['abs', rng.choice([0, 1, 50, 100, 512, 4096, 10**7])]), (2, ['rel', rng.choice([-1, 0, 1, -2, -30])]), (2, ['cut', rng.random()])])
            s['tempfile'] = rng.random() < 0.8
            s['boundary'] = rng.choice([None, None, 'b', 'xXx', '----long-boundary-0123456789'])
            s['as'] = rng.choice(['dict', 'multi', 'multi'])
            s['files'] = [gen_data(rng) for _ in range(rng.randint(1, 4))] if op == 'paths' else []
            s['fnames'] = [rng.choice(['f', 'g']) for _ in s['files']]
            s['urlenc'] = rng.random() < 0.35
            s['charset'] = wchoice(rng, [(5, None), (1, 'utf-8'), (1, 'latin1'), (1, 'cp1252')])
            s['given'] = [rng.randint(1, 3) for _ in s['files']]
            if op in ('builder', 'client') and rng.random() < 0.15:
                s['raw'] = [rng.choice(['str', 'bytes', 'stream']), text(rng, rng.choice([0, 1, 5, 40]), 'abcé\n\x00 &='), rng.choice([0, 0, 1, 3])]
        steps.append(s)
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            op = wchoice(rng, [(4, 'write'), (2, 'read'), (1.5, 'close'), (1, 'open')])
            if op == 'write':
                f = {'op': 'write', 'n': rng.choice([1, 1, 2, 3, 5]), 'err': rng.choice(ERRS + ['SHORT', 'SHORT', 'SHORT']), 'keep': rng.choice([1, 5, 100])}
            elif op == 'read':
                f = {'op': 'read', 'n': rng.choice([1, 2, 3, 6]), 'err': rng.choice(['EIO', 'SHORT', 'SHORT']), 'keep': rng.choice([1, 3, 50])}
            elif op == 'close':
                f = {'op': 'close', 'n': rng.choice([1, 1, 2, 3]), 'err': rng.choice(['EIO', 'ENOSPC'])}
                if all(s['op'] in ('builder', 'client', 'paths') for s in steps):
                    f['ro'] = True         # closing a file that was only read fails too
            else:
                f = {'op': 'open', 'n': rng.choice([1, 1, 2, 3]), 'err': rng.choice(['EMFILE', 'EACCES', 'ENOSPC'])}
            faults.append(f)
    return {'steps': steps, 'faults': faults}


class Pieces(object):
    """upload stream that delivers in pieces and may fail"""
    def __init__(self, ctx, u):
        self.ctx = ctx
        self.data = u['data'].encode('latin1')
        self.pos = 0
        self.piece = u['piece']
        self.fail = u.get('fail')
        self.exc = {'StreamErr': StreamErr, 'OSError': OSError, 'ValueError': ValueError}[u.get('exc', 'OSError')]('upload broke')
        self.failed = False
        self.closed = False
        self.closefail = u.get('closefail')
        self.dry = 0

    def _guard(self, n):
        if self.fail is not None and self.pos >= self.fail:
            self.failed = True
            self.ctx.fault('stream.error')
            raise self.exc
        if self.pos >= len(self.data):
            self.dry += 1
            if self.dry > 200:
                self.ctx.violate('endless', 'an exhausted upload is read over and over')
        if self.fail is not None:
            n = min(n, max(1, self.fail - self.pos))
        return n

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                c = self.read(self.piece)
                if not c:
                    return b''.join(out)
                out.append(c)
        n = self._guard(min(n, self.piece))
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, n=-1):
        end = self.data.find(b'\n', self.pos)
        end = len(self.data) if end < 0 else end + 1
        self._guard(1)
        if self.fail is not None and end > self.fail:
            self.pos = self.fail
            self._guard(1)
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            r = self.readline()
            if not r:
                return
            yield r

    def close(self):
        again, self.closed = self.closed, True
        if self.closefail and not again:
            self.ctx.fault('stream.close')
            raise self.exc


class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = ctx.scratch
        self.n = 0

    def path(self):
        self.n += 1
        return os.path.join(self.root, 'f%d' % self.n)

    def upload(self, u):
        """-> (stream, remaining bytes, stub or None)"""
        data = u['data'].encode('latin1')
        skip = min(u['skip'], len(data))
        k = u['kind']
        if k == 'pieces':
            s = Pieces(self.ctx, u)
            return s, data, s
        if k == 'bytes':
            s = io.BytesIO(data)
        elif k in ('file', 'rawfile'):
            p = self.path()
            with real_open(p, 'wb') as f:
                f.write(data)
            ctx = self.ctx
            saved, ctx.fs.faults = ctx.fs.faults, []
            counts = dict(ctx.fs.counts)
            with ctx.fs_scope():
                s = open(p, 'rb', buffering=0 if k == 'rawfile' else -1)
            ctx.fs.faults, ctx.fs.counts = saved, counts
        elif k == 'spooled':
            s = tempfile.SpooledTemporaryFile(max_size=u['max'])
            s.write(data)
        else:
            s = tempfile.TemporaryFile()
            s.write(data)
        s.seek(skip)
        return s, data[skip:], None


def execute(ctx):
    ctx.scratch = tempfile.mkdtemp(prefix='dst-c13-', dir=SCRATCH)
    tmp = os.path.join(ctx.scratch, 'tmp')
    os.mkdir(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    ctx.fs = SimFS(ctx, ctx.scratch, ctx.plan['faults'])
    w = World(ctx)
    w.hold = []
    try:
        for s in ctx.plan['steps']:
            {'save': save, 'read': read, 'encode': encode, 'builder': builder, 'client': builder, 'paths': paths}[s['op']](ctx, w, s)
    finally:
        tempfile.tempdir = old
        for f in w.hold:
            try:
                f.close()
            except Exception:
                pass


def hard(ctx, before):
    """hard failures injected since `before`"""
    out = []
    for k, n in ctx.faults.items():
        if n > before.get(k, 0) and not k.endswith('SHORT'):
            out.append(k)
    return out


def mine(e, hard_now, stub):
    """is the exception the injected failure?"""
    seen = 0
    while e is not None and seen < 10:
        if stub is not None and e is stub.exc:
            return True
        if isinstance(e, OSError) and e.errno is not None and any(k.endswith('.' + errno.errorcode.get(e.errno, '?')) for k in hard_now):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def storage(stream, s):
    kw = {}
    if s.get('clen') is not None:
        # what a client claims about the part, which nothing may rely on
        kw['content_length'] = s['clen']
        kw['content_type'] = 'text/plain'
    return FileStorage(stream, s['name'], **kw) if s['name'] else FileStorage(stream, **kw)


def save(ctx, w, s):
    stream, data, stub = w.upload(s['up'])
    w.hold.append(stream)
    fs = storage(stream, s)
    kw = {} if s['buf'] is None else {'buffer_size': s['buf']}
    for turn in range(2 if s['again'] else 1):
        if turn:
            data = b''
        dst = s['dst']
        fobj = None
        p = w.path()
        if dst in ('path', 'existing'):
            target = p
            if dst == 'existing':
                with real_open(p, 'wb') as f:
                    f.write(b'OLD' * 3000)
        elif dst == 'bytesio':
            target = fobj = io.BytesIO()
        elif dst == 'fileobj':
            target = fobj = real_open(p, 'wb')
        elif dst == 'missing':
            target = os.path.join(w.root, 'nodir', 'x')
        else:
            os.mkdir(p)
            target = p
        before = dict(ctx.faults)
        opened = set(ctx.fs.open_files)
        err = None
        what = 'saving a %s upload of %d bytes (buffer %s) to %s' % (s['up']['kind'], len(data), s['buf'], dst)
        try:
            with ctx.fs_scope():
                fs.save(target, **kw)
        except (OSError, StreamErr, ValueError) as e:
            err = e
        hf = hard(ctx, before)
        left = [f.dst_path for i, f in ctx.fs.open_files.items() if i not in opened]
        ctx.check(not left, 'leak', '%s left %d file(s) open (%r)', what, len(left), err)
        got = None
        if fobj is not None:
            ctx.check(not fobj.closed, 'closed', '%s closed the caller\'s file', what)
            if dst == 'fileobj':
                fobj.close()
                with real_open(p, 'rb') as f:
                    got = f.read()
            else:
                got = fobj.getvalue()
        elif dst in ('path', 'existing') and os.path.exists(p):
            with real_open(p, 'rb') as f:
                got = f.read()
        ctx.log('save', s['up'], s['buf'], dst, type(err).__name__, hf, None if got is None else len(got))
        ctx.states.add('save|%s|%s|%s|%s|%s' % (s['up']['kind'], dst, s['buf'], sorted(hf), type(err).__name__))
        if hf or len(data) > 4096:
            ctx.probe('nontrivial')
        if dst in ('missing', 'dir'):
            ctx.check(isinstance(err, OSError), 'silent', '%s succeeded', what)
            if stub is not None:
                ctx.check(stub.pos == 0 or turn, 'consumed', '%s failed after consuming the upload', what)
            continue
        if hf:
            ctx.check(err is not None, 'silent', '%s reported success although %s happened', what, hf)
            ctx.check(mine(err, hf, stub), 'other-error', '%s failed with %r instead of %s', what, err, hf)
            if got is not None and dst != 'existing':
                ctx.check(data.startswith(got), 'garbage', '%s failed (%s) and left bytes that are no prefix of the upload', what, hf)
            return
        if err is not None:
            raise err
        ctx.check(got == data, 'content', '%s wrote %d bytes %r instead of %r', what, len(got or b''), (got or b'')[:60], data[:60])


def read(ctx, w, s):
    stream, data, stub = w.upload(s['up'])
    w.hold.append(stream)
    fs = storage(stream, s)
    before = dict(ctx.faults)
    err = None
    out = []
    how = s['how']
    n = s['buf'] or 50
    try:
        with ctx.fs_scope():
            if how == 'iter':
                for x in fs:
                    out.append(x)
                    ctx.check(len(out) <= len(data) + 10, 'endless', 'iterating an upload of %d bytes does not end', len(data))
            elif how == 'lines':
                while True:
                    x = fs.readline()
                    if not x:
                        break
                    out.append(x)
            elif how == 'read':
                out.append(fs.read())
            elif how == 'readlines':
                out.extend(fs.readlines())
            elif how == 'next':
                it = iter(fs)
                while True:
                    try:
                        out.append(next(it))
                    except StopIteration:
                        break
                    ctx.check(len(out) <= len(data) + 10, 'endless', 'iterating an upload of %d bytes does not end', len(data))
            else:
                while True:
                    x = fs.read(n)
                    if not x:
                        break
                    out.append(x)
    except (OSError, StreamErr, ValueError) as e:
        err = e
    hf = hard(ctx, before)
    what = '%s of a %s upload' % (how, s['up']['kind'])
    got = b''.join(out)
    ctx.log('read', s['up'], how, type(err).__name__, hf, len(got))
    if hf:
        ctx.probe('nontrivial')
        ctx.check(err is not None and mine(err, hf, stub), 'silent', '%s: %s became %r', what, hf, err)
        if how not in ('read', 'readlines'):
            ctx.check(data.startswith(got), 'content', '%s: %r is no prefix of the upload', what, got[:60])
        return
    if err is not None:
        raise err
    ctx.check(got == data, 'content', '%s gave %r instead of %r', what, got[:60], data[:60])
    if how in ('iter', 'lines', 'next', 'readlines'):
        ctx.check(out == data.splitlines(True) if b'\r' not in data else out == re.findall(b'[^\n]*\n|[^\n]+', data), 'lines',
                  '%s gave %r', what, out[:5])
    fs.close()
    ctx.check(stream.closed, 'close', '%s: closing the upload left the stream open', what)


# -- forms -------------------------------------------------------------------

def form(ctx, w, s, tuples=False):
    """-> (list of (name, value), expected parts, stubs)"""
    items, expect, stubs = [], [], []
    charset = s.get('charset') or 'utf-8'
    for p in s['parts']:
        n = p['name']
        if 'text' in p:
            items.append((n, p['text']))
            expect.append((n, None, None, p['text'].encode(charset)))
        elif 'bin' in p:
            b = p['bin'].encode('latin1')
            items.append((n, b))
            expect.append((n, None, None, b))
        elif 'num' in p:
            items.append((n, p['num']))
            expect.append((n, None, None, str(p['num']).encode()))
        else:
            stream, data, stub = w.upload(p['up'])
            w.hold.append(stream)
            if stub is not None:
                stubs.append(stub)
            if tuples and p.get('tuple'):
                fname = stream.name if p['up']['kind'] in ('file', 'rawfile') else None
                k = p['tuple']
                items.append((n, (stream, p['filename'], p['ctype'])[:k]))
                expect.append((n, p['filename'] or fname if k > 1 else fname, p['ctype'] if k > 2 else None, data))
            elif p['wrap']:
                fs = FileStorage(stream, p['filename'] or 'given.bin', n, p['ctype'])
                items.append((n, fs))
                expect.append((n, p['filename'] or 'given.bin', p['ctype'], data))
            else:
                fname = stream.name if p['up']['kind'] in ('file', 'rawfile') else None
                items.append((n, stream))
                expect.append((n, fname, None, data))
    return items, expect, stubs


def as_values(items, how):
    if how == 'multi':
        return MultiDict(items)
    d = {}
    for k, v in items:
        d.setdefault(k, []).append(v)
    return d


def grouped(expect):
    """multi dicts keep the order of first appearance"""
    d = {}
    for e in expect:
        d.setdefault(e[0], []).append(e)
    return [x for v in d.values() for x in v]


def parse(ctx, what, raw, boundary, charset=None):
    """independent multipart parser -> [(name, filename, ctype, data)]"""
    b = boundary.encode()
    sep = b'\r\n--' + b
    raw = b'\r\n' + raw
    ctx.check(raw.startswith(sep), 'multipart', '%s does not start with the boundary: %r', what, raw[:80])
    out = []
    pos = 0
    while True:
        pos += len(sep)
        if raw[pos:pos + 2] == b'--':
            ctx.check(raw[pos + 2:] in (b'\r\n', b''), 'multipart', '%s: data after the end: %r', what, raw[pos:pos + 60])
            return out
        ctx.check(raw[pos:pos + 2] == b'\r\n', 'multipart', '%s: no line end after the boundary: %r', what, raw[pos:pos + 40])
        end = raw.find(b'\r\n\r\n', pos)
        ctx.check(end >= 0, 'multipart', '%s: headers do not end: %r', what, raw[pos:pos + 60])
        hdr = raw[pos + 2:end].decode(charset or 'utf-8')
        pos = end + 4
        nxt = raw.find(sep, pos)
        ctx.check(nxt >= 0, 'multipart', '%s: part not terminated: %r', what, raw[pos:pos + 60])
        data = raw[pos:nxt]
        pos = nxt
        name = filename = ctype = None
        for line in hdr.split('\r\n'):
            k, _, v = line.partition(':')
            if k.strip().lower() == 'content-disposition':
                ctx.check(v.split(';')[0].strip() == 'form-data', 'multipart', '%s: %r', what, line)
                # parameters are quoted strings with backslash escapes
                got = [(a, re.sub(r'\\(.)', r'\1', b)) for a, b in re.findall(r';\s*(\w+)="((?:[^"\\]|\\.)*)"', v)]
                rest = re.sub(r';\s*(\w+)="((?:[^"\\]|\\.)*)"', '', v).strip()
                ctx.check(rest == 'form-data' and len(set(a for a, b in got)) == len(got), 'multipart', '%s: %r', what, line)
                name, filename = dict(got).get('name'), dict(got).get('filename')
            elif k.strip().lower() == 'content-type':
                ctype = v.strip()
        out.append((name, filename, ctype, data))


def same_form(ctx, what, got, expect, order=True):
    if not order:
        def fits(g, e):
            return g[0] == e[0] and g[3] == e[3] and (e[1] is Ellipsis or g[1] == e[1]) and (e[2] is None or g[2] == e[2])
        pool, out = list(got), []
        for e in expect:
            hit = [g for g in pool if fits(g, e)] or [g for g in pool if g[0] == e[0] and g[3] == e[3]] or [g for g in pool if g[0] == e[0]]
            if hit:
                pool.remove(hit[0])
                out.append(hit[0])
        got = out + pool
    ctx.check(len(got) == len(expect), 'fields', '%s: %d parts instead of %d (%s instead of %s)', what, len(got), len(expect), [g[0] for g in got], [e[0] for e in expect])
    for g, e in zip(got, expect):
        ctx.check(g[0] == e[0], 'fields', '%s: field %r where %r was expected', what, g[0], e[0])
        ctx.check(g[3] == e[3], 'content', '%s: field %r arrived as %d bytes %r instead of %d bytes %r', what, e[0], len(g[3]), g[3][:50], len(e[3]), e[3][:50])
        if e[1] is not Ellipsis:
            ctx.check(g[1] == e[1], 'filename', '%s: field %r has file name %r instead of %r', what, e[0], g[1], e[1])
        if e[2] is not None:
            ctx.check(g[2] == e[2], 'type', '%s: field %r has type %r instead of %r', what, e[0], g[2], e[2])


def collides(s, b):
    b = '--' + b
    return any(b in x for p in s['parts'] for x in (p.get('text', ''), p.get('bin', ''), p.get('up', {}).get('data', '')))


def encode(ctx, w, s):
    b = s['boundary']
    if b is not None and collides(s, b):
        b = 'unlikely-to-collide'
    # how long it is in memory decides where thresholds fall
    items, expect, stubs = form(ctx, w, s)
    expect = grouped(expect)
    broken = any(x.fail is not None for x in stubs)
    kw = {'boundary': b}
    cs = s.get('charset')
    if cs:
        kw['charset'] = cs
    what = 'form of %d fields' % len(items)
    ref = None
    if not broken and not any(p.get('up', {}).get('kind') in ('file', 'rawfile') for p in s['parts']):
        nb, ref = encode_multipart(as_values(items, s['as']), **dict(kw, boundary=b or 'reference-boundary'))
        same_form(ctx, what + ' in memory', parse(ctx, what, ref, nb, cs), expect)
        items, _, stubs = form(ctx, w, s)
    total = len(ref) if ref is not None else sum(len(e[3]) + 100 for e in expect)
    k, v = s['threshold']
    thr = {'abs': lambda: v, 'rel': lambda: max(0, total + v), 'cut': lambda: int(total * v)}[k]()
    before = dict(ctx.faults)
    opened = set(ctx.fs.open_files)
    err = stream = None
    raw = None
    try:
        with ctx.fs_scope():
            stream, length, boundary = stream_encode_multipart(as_values(items, s['as']), use_tempfile=s['tempfile'], threshold=thr, **kw)
            at = stream.tell()
            raw = stream.read()
            stream.close()
    except (OSError, StreamErr, ValueError) as e:
        err = e
    hf = hard(ctx, before)
    what = '%s spilled at %d of %d (temporary file %s)' % (what, thr, total, s['tempfile'])
    ctx.log('encode', s['parts'], thr, s['tempfile'], s['as'], type(err).__name__, hf, None if raw is None else len(raw))
    ctx.states.add('encode|%s|%s|%s|%d|%s' % (s['tempfile'], thr < total, s['as'], len(items), sorted(hf)))
    if thr < total and s['tempfile']:
        ctx.probe('spilled')
        ctx.probe('nontrivial')
    if err is not None:
        if not hf:
            raise err
        ctx.check(any(mine(err, hf, x) for x in stubs) or mine(err, hf, None), 'other-error', '%s failed with %r instead of %s', what, err, hf)
        return
    ctx.check(not any(x.failed for x in stubs), 'silent', '%s: a failing upload was encoded without an error', what)
    ctx.check(at == 0, 'position', '%s starts at %d', what, at)
    ctx.check(length == len(raw), 'length', '%s is %d bytes long, announced %d', what, len(raw), length)
    if b is not None:
        ctx.check(boundary == b, 'boundary', '%s: boundary %r instead of %r', what, boundary, b)
        if ref is not None:
            ctx.check(raw == ref, 'spill', '%s differs from the form kept in memory', what)
    same_form(ctx, what, parse(ctx, what, raw, boundary, cs), expect)


def builder(ctx, w, s):
    parts = s['parts']
    urlenc = s['urlenc']
    if urlenc:
        s = dict(s, parts=[p for p in parts if 'text' in p or 'num' in p])
    items, expect, stubs = form(ctx, w, s, True)
    before = dict(ctx.faults)
    err = None
    box = {}
    kw = {}
    cs = s.get('charset')
    if cs:
        kw['charset'] = cs

    def app(environ, start):
        box['env'] = environ
        if 'builder' not in box:
            box['raw'] = environ['wsgi.input'].read()
        start('200 OK', [('Content-Type', 'text/plain')])
        return [b'ok']
    what = '%s of %d fields' % (s['op'], len(items))
    files = any('up' in p for p in s['parts'])

    def closed():
        for n, x in items:
            if isinstance(x, tuple):
                x = x[0]
            if hasattr(x, 'read'):
                ctx.check(x.closed, 'close', '%s: the file %r is still open afterwards', what, n)
    ct = None if (files or urlenc) else 'multipart/form-data'
    if not items:
        ct = None
    if s.get('raw'):
        return raw_body(ctx, s, app, box, kw)
    try:
        with ctx.fs_scope():
            if s['op'] == 'builder':
                bld = EnvironBuilder(method='POST', data=as_values(items, s['as']), content_type=ct, **kw)
                env = bld.get_environ()
                box['env'] = env
                box['raw'] = env['wsgi.input'].read()
                bld.close()
            else:
                Client(app).open(path='/', method='POST', data=as_values(items, s['as']), content_type=ct, buffered=True, **kw)
    except (OSError, StreamErr, ValueError) as e:
        err = e
    hf = hard(ctx, before)
    ctx.log(s['op'], s['parts'], s['as'], urlenc, type(err).__name__, hf, len(box.get('raw', b'')))
    ctx.states.add('%s|%s|%s|%d|%s' % (s['op'], urlenc, s['as'], len(items), sorted(hf)))
    if err is not None:
        if not hf:
            raise err
        ctx.check(any(mine(err, hf, x) for x in stubs) or mine(err, hf, None), 'other-error', '%s failed with %r instead of %s', what, err, hf)
        if any(x.exc is err and not x.failed for x in stubs):
            closed()       # one file that fails to close must not keep the others open
        return
    closed()
    ctx.check(not any(x.failed for x in stubs), 'silent', '%s: a failing upload was sent without an error', what)
    env, raw = box['env'], box['raw']
    ctx.check(int(env['CONTENT_LENGTH']) == len(raw), 'length', '%s: %d bytes announced as %s', what, len(raw), env['CONTENT_LENGTH'])
    if not items:
        ctx.check(raw == b'', 'fields', '%s sends %r', what, raw[:50])
    elif files or ct:
        m = re.match(r'multipart/form-data; boundary="?([^"]*)"?$', env['CONTENT_TYPE'])
        ctx.check(m is not None, 'multipart', '%s: content type %r', what, env['CONTENT_TYPE'])
        # fields come before files
        same_form(ctx, what, parse(ctx, what, raw, m.group(1), cs), expect, order=False)
        ctx.probe('nontrivial')
    else:
        ctx.check(env['CONTENT_TYPE'] == 'application/x-www-form-urlencoded', 'type', '%s: content type %r', what, env['CONTENT_TYPE'])
        got = parse_qsl(raw.decode('ascii'), keep_blank_values=True, encoding=cs or 'utf-8')
        want = [(e[0], e[3].decode(cs or 'utf-8')) for e in grouped(expect)]
        ctx.check(got == want, 'fields', '%s sent %r instead of %r', what, got, want)
    closed()


def raw_body(ctx, s, app, box, kw):
    """a body given as text, as bytes or as a stream"""
    how, data, skip = s['raw']
    want = data.encode(kw.get('charset', 'utf-8'))
    if how == 'stream':
        given = io.BytesIO(want)
        given.seek(min(skip, len(want)))
        want = want[skip:]
        kw['input_stream'] = given
    else:
        kw['data'] = data if how == 'str' else want
    if s['op'] == 'builder':
        bld = EnvironBuilder(method='POST', content_type='text/plain', **kw)
        box['env'] = env = bld.get_environ()
        box['raw'] = env['wsgi.input'].read()
        bld.close()
    else:
        Client(app).open(path='/', method='POST', content_type='text/plain', buffered=True, **kw)
    what = '%s with a body given as %s' % (s['op'], how)
    ctx.log(s['op'], s['raw'], s.get('charset'))
    ctx.states.add('%s|raw|%s|%d|%d' % (s['op'], how, len(want), skip))
    ctx.check(box['raw'] == want, 'content', '%s sends %r instead of %r', what, box['raw'], want)
    ctx.check(int(box['env']['CONTENT_LENGTH']) == len(want), 'length', '%s of %d bytes announces %s', what, len(want), box['env']['CONTENT_LENGTH'])
    ctx.check(box['env']['CONTENT_TYPE'] == 'text/plain', 'type', '%s: content type %r', what, box['env']['CONTENT_TYPE'])


def paths(ctx, w, s):
    """files given by name are opened by the library"""
    before = dict(ctx.faults)
    opened = set(ctx.fs.open_files)
    names = []
    for d in s['files']:
        p = w.path() + '.txt'
        with real_open(p, 'wb') as f:
            f.write(d.encode('latin1'))
        names.append(p)
    err = None
    raw = None
    bld = None
    try:
        with ctx.fs_scope():
            bld = EnvironBuilder(method='POST')
            for n, p, k in zip(s['fnames'], names, s['given']):
                bld.files.add_file(n, *(p, 'as-%s.bin' % n, 'application/x-given')[:k])
            env = bld.get_environ()
            raw = env['wsgi.input'].read()
            env['wsgi.input'].close()
    except OSError as e:
        err = e
    finally:
        if bld is not None:
            with ctx.fs_scope():
                bld.close()
    hf = hard(ctx, before)
    ctx.log('paths', s['files'], s['fnames'], type(err).__name__, hf)
    what = 'builder with %d files in fields %s' % (len(names), s['fnames'])
    if err is None or len(opened) == 0:
        left = [f.dst_path for i, f in ctx.fs.open_files.items() if i not in opened and f.dst_path in names]
        ctx.check(not left, 'leak', '%s: %d file(s) left open after close()', what, len(left))
    if err is not None:
        if not hf:
            raise err
        ctx.check(mine(err, hf, None), 'other-error', '%s failed with %r instead of %s', what, err, hf)
        return
    ctx.probe('nontrivial')
    m = re.match(r'multipart/form-data; boundary="?([^"]*)"?$', env['CONTENT_TYPE'])
    expect = [(n, p if k < 2 else 'as-%s.bin' % n, {1: 'text/plain', 2: None, 3: 'application/x-given'}[k], d.encode('latin1'))
              for n, p, d, k in zip(s['fnames'], names, s['files'], s['given'])]
    same_form(ctx, what, parse(ctx, what, raw, m.group(1)), grouped(expect))
