#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: run one property's monitors against /repo."""
import os
import sys

VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and not os.environ.get('VERIF_REEXEC'):
  os.environ['VERIF_REEXEC'] = '1'
  os.environ['PYTHONHASHSEED'] = '0'   # same run for the same VERIF_SEED
  os.execv(VENV, [VENV, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from monitor import core  # noqa: E402

sys.exit(core.main(sys.argv))
