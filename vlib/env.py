"""Import the repository's code into this interpreter.

Two interpreters run the same real sources:
  * python3-vt (CPython 3.12 + numpy): fast, used for exploration of
    pysnobal.point / pysnobal.core, which need only numpy;
  * /opt/venv/bin/python (PyPy 3.9 + numpy/pandas/inicheck/xarray): the
    interpreter the project is built and tested with here, used for everything
    that goes through the driver, and to confirm every violation.
"""
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
IS_PYPY = sys.implementation.name == 'pypy'


def setup():
    sys.dont_write_bytecode = True
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not IS_PYPY and 'pkg_resources' not in sys.modules:
        pk = types.ModuleType('pkg_resources')

        class DistributionNotFound(Exception):
            pass

        def get_distribution(name):
            raise DistributionNotFound(name)
        pk.DistributionNotFound = DistributionNotFound
        pk.get_distribution = get_distribution
        sys.modules['pkg_resources'] = pk
    import warnings
    warnings.simplefilter('ignore')


def from_repo(tb):
    """was the exception raised by the code under test (or a library called
    from it) rather than by the harness?"""
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/'):
            last = True
        elif '/vlib/' in f or '/checks/' in f:
            last = False
        tb = tb.tb_next
    return bool(last)


setup()
