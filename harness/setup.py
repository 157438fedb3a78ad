"""Nothing to build: checks that the interpreter and libraries are present."""
import subprocess
import sys

code = ('import sys; sys.path.append('
        '"/opt/veriftools/pyvenv/lib/python3.12/site-packages"); '
        'import numpy, scipy, numba, matplotlib, hypothesis; '
        'print("numpy", numpy.__version__, "hypothesis", hypothesis.__version__)')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-c', code]))
