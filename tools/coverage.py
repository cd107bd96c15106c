#!/opt/venv/bin/python
"""Which lines of verktyg are executed by which world: tools/coverage.py [C01 C02 ...] [--runs N].

Prints, per source file, the lines no world reached (holes: a change there cannot be noticed).
"""
import argparse
import dis
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
ap = argparse.ArgumentParser()
ap.add_argument('props', nargs='*')
ap.add_argument('--runs', type=int, default=1500)
ap.add_argument('--json', help='write {file: {line: [world, ...]}} there')
ap.add_argument('--per', action='store_true', help='per world: uncovered lines of every file')
a = ap.parse_args()
from dst import seams                                     # noqa
seams.install() if hasattr(seams, 'install') else None
M = sys.monitoring
HITS = {}
ROOT = os.path.join(seams.REPO, 'verktyg') + os.sep


def on_line(code, line):
    if code.co_filename.startswith(ROOT):
        HITS.setdefault(code.co_filename, set()).add(line)
    return M.DISABLE


M.use_tool_id(4, 'cov')
M.register_callback(4, M.events.LINE, on_line)
M.set_events(4, M.events.LINE)
from dst import driver                                    # noqa


def code_lines(path):
    lines = set()

    def rec(co):
        for _, _, l in co.co_lines():
            if l:
                lines.add(l)
        for c in co.co_consts:
            if hasattr(c, 'co_lines'):
                rec(c)
    rec(compile(open(path).read(), path, 'exec'))
    return lines


def ranges(s):
    out = []
    for n in sorted(s):
        if out and n - out[-1][1] <= 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return ' '.join('%d' % x if x == y else '%d-%d' % (x, y) for x, y in out)


props = a.props or ['C%02d' % i for i in range(1, 19)]
allhits = {}
for p in props:
    w = driver.load_world(p)
    if a.per or a.json:
        HITS.clear()
        M.restart_events()
    bad = 0
    for i in range(a.runs):
        seed = driver.run_seed('cov', p, i)
        o = driver.execute(w, driver.gen(w, seed, 'quick'), seed)
        bad += o.kind is not None or o.error is not None
    print(p, 'runs', a.runs, 'not held', bad)
    for f, s in HITS.items():
        allhits.setdefault(f, {}).setdefault(p, set()).update(s)
if a.json:
    import json
    table = {}
    for f, per in allhits.items():
        for p, s in per.items():
            for n in s:
                table.setdefault(f[len(ROOT):], {}).setdefault(n, []).append(p)
    with open(a.json, 'w') as out:
        json.dump(table, out)
import glob                                              # noqa
for f in sorted(glob.glob(ROOT + '**/*.py', recursive=True)):
    if 'testsuite' in f:
        continue
    lines = code_lines(f)
    hit = set()
    for s in allhits.get(f, {}).values():
        hit |= s
    miss = lines - hit
    print('%-40s %4d/%4d  %s' % (f[len(ROOT):], len(lines & hit), len(lines), ranges(miss)))
