#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import sys
import os
sys.dont_write_bytecode = True
if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
from symx import harness
sys.exit(harness.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
