#!/usr/bin/env python3
"""nothing to build: checks that the interpreters and solver the checks use are there"""
import subprocess
import sys
a = subprocess.call(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, numpy, scipy, sympy; print('z3', z3.get_version_string())"])
b = subprocess.call(["/opt/venv/bin/python", "-c", "import numpy, scipy; print('numpy', numpy.__version__)"])
sys.exit(a or b)
