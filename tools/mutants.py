#!/opt/venv/bin/python
"""Systematic small changes to verktyg, to find out what no check notices.

    tools/coverage.py --runs 1200 --json /tmp/cov.json
    tools/mutants.py make  /tmp/mut            one patch-like entry per change, those the tests pass
    tools/mutants.py check /tmp/mut --cov /tmp/cov.json [--frac 0.08]
    tools/mutants.py left  /tmp/mut            the changes nothing noticed

Works in scratch copies below the given directory only.  Most survivors change
nothing anybody relies on (equivalent changes, error texts, functions no
property covers): the list has to be read.
"""
import argparse
import warnings
import ast
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
PY = '/opt/venv/bin/python'
FILES = ['application.py', 'dispatch.py', 'exception_dispatch.py', 'exceptions.py', 'requests.py', 'responses.py',
         'routing.py', 'test.py', 'views.py', 'wsgi.py', 'datastructures.py', 'utils.py', 'urls.py',
         'http/basic.py', 'http/cookies.py', 'http/cache_control.py', 'http/auth.py', 'http/__init__.py',
         'accept/_base.py', 'accept/__init__.py', 'accept/content_type.py', 'accept/language.py', 'accept/charset.py']


warnings.simplefilter("ignore")


class Source(object):
    def __init__(self, name):
        self.name = name
        self.text = open(os.path.join(REPO, 'verktyg', name)).read()
        self.lines = self.text.split('\n')
        self.off = [0]
        for l in self.text.encode().split(b'\n'):
            self.off.append(self.off[-1] + len(l) + 1)
        self.out = []

    def seg(self, node):
        return ast.get_source_segment(self.text, node)

    def put(self, node, new, what):
        b = self.text.encode()
        s = self.off[node.lineno - 1] + node.col_offset
        e = self.off[node.end_lineno - 1] + node.end_col_offset
        old = b[s:e].decode()
        if old == new:
            return
        res = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(res, self.name, 'exec')
        except SyntaxError:
            return
        self.out.append({'file': self.name, 'line': node.lineno, 'what': what, 'start': s, 'end': e, 'old': old, 'new': new})


SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
        ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def walk(src, node, infunc=False):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id == 'cached_property':
                src.put(d, 'property', 'decorator')
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(getattr(body[0], 'value', None), ast.Constant):
            body = body[1:]
        for d in node.args.defaults + [k for k in node.args.kw_defaults if k]:
            constants(src, d)
        for c in body:
            walk(src, c, True)
        return
    if isinstance(node, ast.Lambda):
        infunc = True
    if infunc:
        mutate(src, node)
    for c in ast.iter_child_nodes(node):
        walk(src, c, infunc)


def constants(src, n):
    if isinstance(n, ast.Constant):
        if n.value is True:
            src.put(n, 'False', 'const')
        elif n.value is False:
            src.put(n, 'True', 'const')
        elif isinstance(n.value, int):
            src.put(n, str(n.value + 1), 'const')


def mutate(src, n):
    seg = src.seg
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op = SWAP.get(type(n.ops[0]))
        if op:
            src.put(n, '(%s) %s (%s)' % (seg(n.left), op, seg(n.comparators[0])), 'compare')
    elif isinstance(n, ast.BoolOp):
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            j = ' and ' if isinstance(n.op, ast.And) else ' or '
            src.put(n, '(' + j.join('(%s)' % seg(v) for v in rest) + ')', 'drop operand %d' % i)
        j = ' or ' if isinstance(n.op, ast.And) else ' and '
        src.put(n, '(' + j.join('(%s)' % seg(v) for v in n.values) + ')', 'and/or')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        src.put(n, '(%s)' % seg(n.operand), 'not')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        src.put(n, '(%s)' % seg(n.operand), 'minus')
    elif isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Add):
            src.put(n, seg(n.left), 'left of +')
            src.put(n, seg(n.right), 'right of +')
        elif isinstance(n.op, ast.Sub):
            src.put(n, '(%s) + (%s)' % (seg(n.left), seg(n.right)), 'minus to plus')
            src.put(n, seg(n.left), 'left of -')
        elif isinstance(n.op, (ast.Mult, ast.Div, ast.FloorDiv)):
            src.put(n, seg(n.left), 'left of *')
    elif isinstance(n, ast.Constant):
        constants(src, n)
    elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
        src.put(n.test, 'True', 'test true') if not isinstance(n, ast.While) else None
        src.put(n.test, 'False', 'test false')
    elif isinstance(n, ast.Try):
        if n.finalbody:
            for b in n.finalbody:
                src.put(b, 'pass', 'drop finally')
    elif isinstance(n, ast.Call):
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                args = [seg(a) for a in n.args] + ['%s=%s' % (x.arg, seg(x.value)) if x.arg else '**' + seg(x.value)
                                                   for x in n.keywords if x is not k]
                src.put(n, '%s(%s)' % (seg(n.func), ', '.join(args)), 'drop argument ' + k.arg)
        if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                'list', 'dict', 'set', 'tuple', 'sorted', 'reversed', 'iter', 'bytes', 'str', 'int'):
            src.put(n, '(%s)' % seg(n.args[0]), 'drop ' + n.func.id)
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'copy', 'title') and not n.args:
            src.put(n, seg(n.func.value), 'drop .' + n.func.attr)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2:
            src.put(n, '%s(%s)' % (seg(n.func), seg(n.args[0])), 'drop default')
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
        src.put(n, seg(n.value), 'drop slice')
    if isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
        src.put(n, 'pass', 'drop statement')
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
        src.put(n, 'pass', 'drop assignment')
    elif isinstance(n, (ast.AugAssign, ast.Delete)):
        src.put(n, 'pass', 'drop statement')
    elif isinstance(n, (ast.Break, ast.Continue)):
        src.put(n, 'pass', 'drop jump')
    elif isinstance(n, ast.Raise):
        src.put(n, 'pass', 'drop raise')
    elif isinstance(n, ast.Return) and n.value is not None:
        src.put(n, 'return None', 'return none')


def tree(base, k):
    d = os.path.join(base, 'w%d' % k)
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, 'verktyg'), d + '/verktyg', ignore=shutil.ignore_patterns('__pycache__'))
        for f in os.listdir(REPO):
            if f.endswith(('.py', '.cfg', '.toml', '.ini')):
                shutil.copy(os.path.join(REPO, f), d)
    return d


def apply(d, m):
    p = os.path.join(d, 'verktyg', m['file'])
    b = open(os.path.join(REPO, 'verktyg', m['file']), 'rb').read()
    open(p, 'wb').write(b[:m['start']] + m['new'].encode() + b[m['end']:])


def restore(d, m):
    shutil.copy(os.path.join(REPO, 'verktyg', m['file']), os.path.join(d, 'verktyg', m['file']))


def run(cmd, limit, env, cwd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    try:
        out = p.communicate(timeout=limit)[0].decode(errors='replace')
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def test_one(args):
    base, m = args
    d = tree(base, os.getpid())
    apply(d, m)
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')
    rc, out = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'verktyg/testsuite'], 40, env, d)
    restore(d, m)
    m['tests'] = rc == 0 and '241 passed' in out
    return m


def check_one(args):
    base, m, quick, frac = args
    d = tree(base, os.getpid())
    apply(d, m)
    env = dict(os.environ, DST_REPO=d, DST_OUT=os.path.join(base, 'o%d' % os.getpid()), DST_SHRINK_S='0', VERIF_SEED='1')
    os.makedirs(env['DST_OUT'], exist_ok=True)
    m['caught'] = None
    m['ran'] = []
    for p in m['worlds']:
        rc, out = run([PY, os.path.join(VERIF, 'check.py'), p, '--workers', '1', '--runs', str(max(80, int(quick[p] * frac)))],
                      240, env, VERIF)
        m['ran'].append([p, rc])
        if rc == 'timeout' or rc == 1:
            k = re.search(r'violation kind=(\S+)', out)
            m['caught'] = [p, rc, k.group(1) if k else None]
            break
    restore(d, m)
    shutil.rmtree(env['DST_OUT'], ignore_errors=True)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['make', 'check', 'left'])
    ap.add_argument('dir')
    ap.add_argument('--cov')
    ap.add_argument('--frac', type=float, default=0.06)
    ap.add_argument('--files', nargs='*')
    ap.add_argument('--workers', type=int, default=8)
    a = ap.parse_args()
    base = os.path.abspath(a.dir)
    os.makedirs(base, exist_ok=True)
    made = os.path.join(base, 'made.jsonl')
    done = os.path.join(base, 'done.jsonl')
    if a.cmd == 'make':
        todo = []
        for f in a.files or FILES:
            s = Source(f)
            walk(s, ast.parse(s.text))
            seen = set()
            for m in s.out:
                k = (m['start'], m['end'], m['new'])
                if k not in seen:
                    seen.add(k)
                    todo.append(m)
        print('changes', len(todo), flush=True)
        n = 0
        with multiprocessing.Pool(a.workers) as pool, open(made, 'w') as out:
            for m in pool.imap_unordered(test_one, [(base, m) for m in todo], 4):
                if m['tests']:
                    n += 1
                    out.write(json.dumps(m) + '\n')
                    out.flush()
        print('pass the tests', n)
    elif a.cmd == 'check':
        sys.path.insert(0, VERIF)
        quick = {}
        for i in range(1, 19):
            t = open(os.path.join(VERIF, 'dst/worlds/c%02d.py' % i)).read()
            quick['C%02d' % i] = int(re.search(r'^QUICK = (\d+)', t, re.M).group(1))
        cov = json.load(open(a.cov))
        size = {}
        for per in cov.values():
            for ws in per.values():
                for w in ws:
                    size[w] = size.get(w, 0) + 1
        old = set()
        if os.path.exists(done):
            for l in open(done):
                m = json.loads(l)
                old.add((m['file'], m['start'], m['end'], m['new']))
        todo = []
        dead = 0
        for l in open(made):
            m = json.loads(l)
            if (m['file'], m['start'], m['end'], m['new']) in old:
                continue
            ws = set()
            for n in range(m['line'], m['line'] + m['old'].count('\n') + 1):
                ws.update(cov.get(m['file'], {}).get(str(n), ()))
            m['worlds'] = sorted(ws, key=lambda w: size[w])
            if not ws:
                dead += 1
                continue
            todo.append(m)
        print('to check', len(todo), 'not reached by any world', dead, flush=True)
        with multiprocessing.Pool(a.workers) as pool, open(done, 'a') as out:
            for m in pool.imap_unordered(check_one, [(base, m, quick, a.frac) for m in todo], 1):
                out.write(json.dumps(m) + '\n')
                out.flush()
    else:
        for l in open(done):
            m = json.loads(l)
            if not m['caught']:
                print('%s:%d %s\n   - %s\n   + %s   [%s]' % (m['file'], m['line'], m['what'], ' '.join(m['old'].split())[:110],
                                                         ' '.join(m['new'].split())[:110], ','.join(m['worlds'])))


main()
