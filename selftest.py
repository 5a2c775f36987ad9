"""Setup: nothing to build; check that the simulator and the code under test import and run."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.exit(subprocess.call([py, '-c', 'import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\n'
                          'from dst import core; core.init_process(); import epsilon.juice; print("ok")' % HERE]))
