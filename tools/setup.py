#!/usr/bin/env python3
"""setup_cmd: nothing has to be compiled; checks that the interpreter and the harness load."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_TIER="quick")
code = "import numpy, scipy, hypothesis, pbt.core, pbt.gen, pbt.ref; print('ok', hypothesis.__version__)"
sys.exit(subprocess.call([PY, "-W", "ignore", "-c", code], env=env, cwd=HERE))
