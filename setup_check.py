"""Nothing to build: check that the tools the verifier needs are present."""
import subprocess
import sys
import z3
import numpy
import cvc5     # noqa
sys.path.insert(0, '.')
from pydv import engine, prove      # noqa
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, h5py'],
               check=True)
