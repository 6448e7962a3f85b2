#!/usr/bin/env python3
"""python3 check.py ID: decide one property on /repo's working tree."""
import os
import sys
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
sys.exit(runner.check(sys.argv[1].upper()))
