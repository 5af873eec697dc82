"""Nothing to compile: check that the interpreter and the packages the checks need are there."""
import os
import subprocess
import sys

python = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/repo")
sys.exit(subprocess.call([python, "-c", "import numpy, galois, stim, sympy, networkx, scipy, ldpc, pymatching"], env=env))
