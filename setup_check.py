"""Set-up: nothing is built ahead, so only see that what the checks need is there."""

import ctypes
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for need in ('/opt/venv/bin/python', '/repo/src/skspatial/objects/__init__.py'):
    if not os.path.exists(need):
        sys.exit(f'missing: {need}')
if shutil.which('gcc') is None:
    sys.exit('missing: gcc')
assert ctypes.CDLL(None)
subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import numpy, scipy, matplotlib, sys; assert sys.version_info >= (3, 12)'], check=True)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('ready')
