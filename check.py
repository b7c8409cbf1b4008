#!/usr/bin/env python3
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if os.environ.get('PYTHONHASHSEED') is None or (os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv')):
    env = dict(os.environ, PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED') or '0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, VERIF)
from symex import runner     # noqa: E402
sys.exit(runner.main(sys.argv[1], *(sys.argv[2:3])))
