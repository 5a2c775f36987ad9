"""
Usage: check.py PROPERTY [--replay FILE] [--thorough] [--runs N]
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: error of the machinery.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {
    'PYTHONHASHSEED': os.environ.get('DST_HASHSEED', '0'),
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONPATH': '',
    'PYTHONNOUSERSITE': '1',
    'TZ': 'UTC',
}
if os.environ.get('DST_ENV') != '1':
    import shutil
    import subprocess
    import tempfile
    # A fresh, empty bytecode cache: a stale .pyc must never stand in for the
    # current source.
    env = dict(os.environ)
    env.update(WANT)
    env['DST_ENV'] = '1'
    cache = tempfile.mkdtemp(prefix='dst-pyc-')
    env['PYTHONPYCACHEPREFIX'] = cache
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    try:
        rc = subprocess.call([py, '-u', os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

sys.path.insert(0, HERE)
from dst import runner

try:
    code = runner.main(sys.argv[1:])
except Exception:
    import traceback
    traceback.print_exc()
    code = 2
sys.exit(code)
