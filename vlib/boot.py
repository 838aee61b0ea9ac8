"""Makes hypothesis and the code under test importable.

The library is imported from /repo's working tree (or $GRIDDED_REPO, used only
when trying the checks on scratch copies), never from an installed copy, and
never from cached bytecode.
"""
import os
import sys
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('GRIDDED_REPO', '/repo'))


class RepoImportError(Exception):
    pass


def hypothesis_path():
    sys.path.insert(1, os.path.join(HERE, 'vendor'))
    fallback = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    try:
        import hypothesis  # noqa
    except Exception:
        for k in [k for k in sys.modules if k.startswith('hypothesis')]:
            del sys.modules[k]
        sys.path.append(fallback)
        import hypothesis  # noqa


def load(cache):
    warnings.simplefilter('ignore')
    hypothesis_path()
    import numpy, scipy, scipy.spatial, netCDF4, cell_tree2d, dateutil, matplotlib  # noqa
    try:
        import pandas, shapely  # noqa
    except Exception:
        pass
    numpy.seterr(all='ignore')
    # nothing cached is read for the code under test, and nothing is written
    sys.pycache_prefix = cache
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'gridded', '_version.py')):
        v = types.ModuleType('gridded._version')
        v.__version__ = v.version = '0'
        v.__version_tuple__ = v.version_tuple = (0,)
        sys.modules['gridded._version'] = v
    import gridded
    if not os.path.abspath(gridded.__file__).startswith(REPO + os.sep):
        raise RepoImportError('gridded is imported from ' + gridded.__file__)
    sys.pycache_prefix = None
    return gridded
