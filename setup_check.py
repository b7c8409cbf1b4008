"""Nothing has to be built; checks that the solver and the code can be loaded."""
import os
import subprocess
import sys

PY = '/opt/veriftools/pyvenv/bin/python'
VERIF = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
sys.exit(subprocess.call([PY if os.path.exists(PY) else sys.executable, '-B', '-c', 'import z3; print(z3.get_version_string())']))
