#!/opt/venv/bin/python
"""Entry point: check.py C01 | check.py --replay FILE.

Re-executes itself under a fixed interpreter, hash seed and without bytecode
caches, so that nothing is written to /repo and every run is repeatable."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

if os.environ.get('DST_CHILD') != '1':
    env = dict(os.environ)
    env['DST_CHILD'] = '1'
    env['PYTHONHASHSEED'] = env.get('DST_HASHSEED', '0')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['TZ'] = 'UTC'
    for k in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'PYTHONSTARTUP', 'PYTHONWARNINGS'):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.join(HERE, 'check.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from dst.driver import main  # noqa

rc = main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
