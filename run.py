"""Entry point of every check: run.py <property id> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]"""
import os, sys
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('VT_CHILD') != '1':
    env = dict(os.environ, VT_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH='/repo:' + HERE)
    os.execve(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path[:0] = ['/repo', HERE]
import numpy, onnx  # the versions onnx_tool runs with win over the tool venv's
for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if p not in sys.path:
        sys.path.append(p)
import hypothesis
os.chdir(HERE)
# bytecode of the code under test is never taken from a cache: it could be that of an earlier tree
sys.pycache_prefix = os.path.join(HERE, 'no-bytecode')
import onnx_tool
assert os.path.realpath(onnx_tool.__file__) == '/repo/onnx_tool/__init__.py', onnx_tool.__file__
from vt import core
rc = core.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
