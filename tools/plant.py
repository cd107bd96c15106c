#!/usr/bin/env python3
"""Validate planted bugs: plant.py [--nocheck] [--prop C01,C02] [ID-PREFIX...]   (scratch copies only)

For each /verif/seeded/ID: copy /repo to a scratch directory, apply the patch,
run the test suite, run demo.sh on the clean and on the patched copy, then run
the property's check against the patched copy.  Never touches /repo.
"""
import json, os, shutil, subprocess, sys, tempfile, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONHASHSEED='0', TZ='UTC',
             PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def main(argv):
    props = None
    nocheck = '--nocheck' in argv
    argv = [a for a in argv if a != '--nocheck']
    if argv and argv[0] == '--prop':
        props = argv[1].split(',')
        argv = argv[2:]
    every = sorted(os.listdir(VERIF + '/seeded'))
    ids = [i for i in every if not argv or any(i.startswith(a) for a in argv)]
    for i in ids:
        d = '%s/seeded/%s' % (VERIF, i)
        meta = json.load(open(d + '/meta.json'))
        tmp = tempfile.mkdtemp(prefix='bug_')
        try:
            shutil.copytree(os.environ.get('PLANT_SRC', '/repo'), tmp + '/repo', symlinks=True)
            R = tmp + '/repo'
            env = {'PYTHONPATH': R}
            rc0, out0 = sh(['bash', d + '/demo.sh'], R, env)
            rc, out = sh(['git', 'apply', d + '/patch.diff'], R)
            if rc:
                print(i, 'PATCH FAILS', out)
                continue
            rct, outt = sh([PY, '-m', 'pytest', '-q', '-x', '-p',
                            'no:cacheprovider', 'verktyg/testsuite'], R, env)
            m = re.search(r'(\d+) passed', outt)
            rc1, out1 = sh(['bash', d + '/demo.sh'], R, env)
            ok = rc0 == 0 and rc1 != 0 and rct == 0
            print('%s %s tests=%s demo clean=%d patched=%d' % (
                i, 'VALID' if ok else 'INVALID', m and m.group(1), rc0, rc1))
            if not ok:
                print('--clean', out0[-800:], '--patched', out1[-800:],
                      '--tests', outt[-1500:] if rct else '')
                continue
            if nocheck:
                continue
            for p in props or [meta['property']]:
                ev = tmp + '/ev'
                rc, out = sh([PY, VERIF + '/check.py', p], VERIF,
                             {'DST_REPO': R, 'DST_OUT': ev,
                              'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                v = [l for l in out.splitlines()
                     if 'VIOLATION' in l or 'violat' in l.lower()]
                print('   %s %s rc=%d %s' % (
                    p, 'CAUGHT' if rc == 1 else 'MISSED', rc, v[:1]))
                if rc == 2:
                    print(out[-1500:])
        finally:
            shutil.rmtree(tmp)


sys.stdout.reconfigure(line_buffering=True)
main(sys.argv[1:])
