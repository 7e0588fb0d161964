#!/usr/bin/env python3
"""Nothing has to be built: the checks import /repo's sources as they are.
Fail early when the interpreters are missing."""
import os
import subprocess
import sys
for p in (sys.executable, '/opt/venv/bin/python'):
    if subprocess.call([p, '-c', 'import numpy'], env=dict(
            os.environ, PYTHONDONTWRITEBYTECODE='1')):
        sys.exit('%s does not work' % p)
