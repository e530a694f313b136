#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample on the real code with ordinary floats.
exit 1: the property is violated by it, exit 0: it is not."""
import sys
import os
import json
sys.dont_write_bytecode = True
os.environ['VERIF_CONCRETE'] = '1'
if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import harness
rec = json.load(open(sys.argv[1]))
chk = harness.load_check(rec['property'])
bad, detail = harness.replay_concrete(chk, rec)
print('inputs: %s' % json.dumps(rec['values']))
print(('VIOLATED: ' if bad else 'holds: ') + detail)
sys.exit(1 if bad else 0)
