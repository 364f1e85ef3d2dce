#!/opt/venv/bin/python
"""Run the check of one property: check.py C01 --tier quick|thorough [--seed N] [--replay FILE]"""
import os
import sys

PY = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache', 'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1', 'PYTHONWARNINGS': 'ignore'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.environ.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execv(py, [py, os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon.run import main    # noqa: E402

sys.exit(main())
