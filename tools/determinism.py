#!/opt/venv/bin/python
"""Proof of determinism: every sampled run is executed in several fresh interpreters that differ in everything
that must not matter, and the event logs (digest of the full log, including the schedule) are compared.

  tools/determinism.py [C01 ...] [--runs N] [--seeds 1,2,3]

Variants: order of the runs in a process (forwards, backwards, alone in blocks of 7, every second one),
hash seed (0, 1, 4711), machine load (variants run side by side).
"""
import argparse
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ALL = ['C%02d' % i for i in range(1, 19)]
# (name, hash seed, order, block)
VARIANTS = [('ref', '0', 'fwd', 0), ('same', '0', 'fwd', 0), ('backwards', '0', 'rev', 0), ('blocks', '0', 'fwd', 7),
            ('hash1', '1', 'fwd', 0), ('hash2', '4711', 'rev', 13)]


def emit(prop, base, n, order, block):
    sys.path.insert(0, VERIF)
    from dst import driver, seams, zygote
    seams.import_verktyg()
    driver.prepare() if hasattr(driver, 'prepare') else None
    world = driver.load_world(prop)
    idx = list(range(n))
    if order == 'rev':
        idx.reverse()
    size = block or n
    for i in range(0, n, size):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            if getattr(world, 'PRISTINE', False):
                zygote.start()
            for k in idx[i:i + size]:
                seed = driver.run_seed(base, prop, k)
                out = driver.execute(world, driver.gen(world, seed, 'quick'), seed)
                sys.stdout.write('%d %s %s\n' % (k, out.ctx.digest(), out.kind or out.error or '-'))
            sys.stdout.flush()
            os._exit(0)
        os.waitpid(pid, 0)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--runs', type=int, default=300)
    ap.add_argument('--seeds', default='1,2')
    ap.add_argument('--emit', nargs=5)
    a = ap.parse_args()
    if a.emit:
        p, base, n, order, block = a.emit
        emit(p, base, int(n), order, int(block))
    bad = 0
    for prop in a.props or ALL:
        for base in a.seeds.split(','):
            procs = []
            for name, hs, order, block in VARIANTS:
                env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', DST_CHILD='1')
                procs.append((name, subprocess.Popen(
                    [PY, os.path.abspath(__file__), '--emit', prop, base, str(a.runs), order, str(block)],
                    env=env, stdout=subprocess.PIPE, text=True)))
            res = {}
            for name, p in procs:
                out = p.communicate()[0]
                res[name] = dict(l.split(' ', 1) for l in out.splitlines() if l[:1].isdigit())
            ref = res['ref']
            diffs = []
            for name in res:
                if len(res[name]) != a.runs:
                    diffs.append('%s: only %d of %d runs' % (name, len(res[name]), a.runs))
                d = [k for k in ref if res[name].get(k) != ref[k]]
                if d:
                    diffs.append('%s: %d differ, e.g. run %s' % (name, len(d), d[0]))
            bad += bool(diffs)
            print('%s seed %s: %d runs x %d variants: %s' % (prop, base, a.runs, len(res), '; '.join(diffs) or 'identical'), flush=True)
    return 1 if bad else 0


sys.exit(main())
